//! Generated by tools/gen_derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use std::collections::BTreeMap;

use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub struct S0 {
    #[musli(Binary, name = "0")]
    #[musli(name = "q\"uote")]
    pub the_long_one: Vec<String>,
    #[musli(mode = Odd, skip)]
    #[musli(default = dti::special)]
    pub age: u32,
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(default)]
    #[musli(Binary, pattern = ("ID" | "a longer name than any other one here"))]
    pub id: String,
    #[musli(Binary, pattern = ("FLAG" | "alpha17" | "type215"))]
    pub flag: bool,
}

impl Model for S0 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { the_long_one: dti::get(&f[0]), age: dti::get(&f[1]), id: dti::get(&f[2]), flag: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { the_long_one: v0, age: v1, id: v2, flag: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S0: Def = Def {
    name: "S0",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub struct S0 {
    #[musli(Binary, name = "0")]
    #[musli(name = "q\"uote")]
    pub the_long_one: Vec<String>,
    #[musli(mode = Odd, skip)]
    #[musli(default = dti::special)]
    pub age: u32,
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(default)]
    #[musli(Binary, pattern = ("ID" | "a longer name than any other one here"))]
    pub id: String,
    #[musli(Binary, pattern = ("FLAG" | "alpha17" | "type215"))]
    pub flag: bool,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Str), Ty::Int(Int::U32), Ty::Str, Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID"), Name::S("a longer name than any other one here")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("FLAG"), accept: &[Name::S("FLAG"), Name::S("alpha17"), Name::S("type215")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID"), Name::S("a longer name than any other one here")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("FLAG"), accept: &[Name::S("FLAG"), Name::S("alpha17"), Name::S("type215")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("FLAG"), accept: &[Name::S("FLAG")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("FLAG"), accept: &[Name::S("FLAG")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("FLAG"), accept: &[Name::S("FLAG")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("FLAG"), accept: &[Name::S("FLAG")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S0),
    dec: dti::decs!(S0),
};

#[derive(Encode, Decode)]
#[musli(Binary, name_all = "snake_case")]
#[musli(mode = Odd, tag(value = dti::Tag(31), type = dti::Tag))]
#[musli(name_all = "PascalCase")]
pub enum E1 {
    #[musli(mode = Odd, name(type = dti::Tag), name = "")]
    ReplyTo {
        #[musli(mode = Odd, name = dti::Tag(32))]
        y: String,
        #[musli(default)]
        #[musli(mode = Odd, name = dti::Tag(25))]
        the_long_one: u8,
    },
    #[musli(mode = Odd, name(type = dti::Tag))]
    Alpha {
        #[musli(mode = Odd, name = dti::Tag(72))]
        #[musli(Text, packed)]
        first_name: [u8; 2],
        #[musli(mode = Odd, name = dti::Tag(35))]
        value: Vec<u32>,
    },
    #[musli(mode = Odd, name(type = dti::Tag))]
    X {
        #[musli(mode = Odd, name = dti::Tag(27))]
        note_to_self: S0,
        #[musli(default)]
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = dti::Tag(55))]
        name: bool,
        #[musli(mode = Odd, name = dti::Tag(14))]
        #[musli(skip)]
        first_name: Option<u128>,
        #[musli(mode = Odd, name = dti::Tag(32))]
        #[musli(Text, skip_encoding_if = dti::blank)]
        last_seen_at: bool,
    },
}

impl Model for E1 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { y: dti::get(&f[0]), the_long_one: dti::get(&f[1]) },
            1 => Self::Alpha { first_name: dti::get(&f[0]), value: dti::get(&f[1]) },
            _ => Self::X { note_to_self: dti::get(&f[0]), name: dti::get(&f[1]), first_name: dti::get(&f[2]), last_seen_at: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { y: v0, the_long_one: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::Alpha { first_name: v0, value: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::X { note_to_self: v0, name: v1, first_name: v2, last_seen_at: v3 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E1: Def = Def {
    name: "E1",
    source: r###"#[musli(Binary, name_all = "snake_case")]
#[musli(mode = Odd, tag(value = dti::Tag(31), type = dti::Tag))]
#[musli(name_all = "PascalCase")]
pub enum E1 {
    #[musli(mode = Odd, name(type = dti::Tag), name = "")]
    ReplyTo {
        #[musli(mode = Odd, name = dti::Tag(32))]
        y: String,
        #[musli(default)]
        #[musli(mode = Odd, name = dti::Tag(25))]
        the_long_one: u8,
    },
    #[musli(mode = Odd, name(type = dti::Tag))]
    Alpha {
        #[musli(mode = Odd, name = dti::Tag(72))]
        #[musli(Text, packed)]
        first_name: [u8; 2],
        #[musli(mode = Odd, name = dti::Tag(35))]
        value: Vec<u32>,
    },
    #[musli(mode = Odd, name(type = dti::Tag))]
    X {
        #[musli(mode = Odd, name = dti::Tag(27))]
        note_to_self: S0,
        #[musli(default)]
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = dti::Tag(55))]
        name: bool,
        #[musli(mode = Odd, name = dti::Tag(14))]
        #[musli(skip)]
        first_name: Option<u128>,
        #[musli(mode = Odd, name = dti::Tag(32))]
        #[musli(Text, skip_encoding_if = dti::blank)]
        last_seen_at: bool,
    },
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::U8)], &[Ty::Arr(&Ty::Int(Int::U8), 2), Ty::Seq(&Ty::Int(Int::U32))], &[Ty::Rec(&DEF_S0), Ty::Bool, Ty::Opt(&Ty::Int(Int::U128)), Ty::Bool]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S(""), accept: &[Name::S("")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 25), accept: &[Name::I(Int::U16, 25)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 72), accept: &[Name::I(Int::U16, 72)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 35), accept: &[Name::I(Int::U16, 35)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 27), accept: &[Name::I(Int::U16, 27)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 55), accept: &[Name::I(Int::U16, 55)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 14), accept: &[Name::I(Int::U16, 14)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S(""), accept: &[Name::S("")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 25), accept: &[Name::I(Int::U16, 25)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 72), accept: &[Name::I(Int::U16, 72)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 35), accept: &[Name::I(Int::U16, 35)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 27), accept: &[Name::I(Int::U16, 27)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 55), accept: &[Name::I(Int::U16, 55)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 14), accept: &[Name::I(Int::U16, 14)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E1),
    dec: dti::decs!(E1),
};

#[derive(Encode, Decode)]
#[musli(Text, tag = "t")]
#[musli(Binary, name_all = "index")]
#[musli(mode = Odd)]
pub enum E2 {
    #[musli(Text, name = "0")]
    #[musli(transparent)]
    #[musli(Binary, decode_only, pattern = 0)]
    ReplyTo {
        value: S0,
    },
    #[musli(Text, name(type = str))]
    Empty {
        #[musli(Text, pattern = ("type" | "a longer name than any other one here1"))]
        #[musli(Binary, default = dti::special)]
        #[musli(default = dti::special)]
        r#type: bool,
        last_seen_at: Vec<bool>,
        #[musli(Text, decode_only, skip)]
        #[musli(default = dti::special)]
        x: String,
        #[musli(default = dti::special, skip_encoding_if = Option::is_none)]
        #[musli(Text, default = dti::special, skip_encoding_if = Option::is_none)]
        note_to_self: Option<u8>,
    },
}

impl Model for E2 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { value: dti::get(&f[0]) },
            _ => Self::Empty { r#type: dti::get(&f[0]), last_seen_at: dti::get(&f[1]), x: dti::get(&f[2]), note_to_self: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Empty { r#type: v0, last_seen_at: v1, x: v2, note_to_self: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E2: Def = Def {
    name: "E2",
    source: r###"#[musli(Text, tag = "t")]
#[musli(Binary, name_all = "index")]
#[musli(mode = Odd)]
pub enum E2 {
    #[musli(Text, name = "0")]
    #[musli(transparent)]
    #[musli(Binary, decode_only, pattern = 0)]
    ReplyTo {
        value: S0,
    },
    #[musli(Text, name(type = str))]
    Empty {
        #[musli(Text, pattern = ("type" | "a longer name than any other one here1"))]
        #[musli(Binary, default = dti::special)]
        #[musli(default = dti::special)]
        r#type: bool,
        last_seen_at: Vec<bool>,
        #[musli(Text, decode_only, skip)]
        #[musli(default = dti::special)]
        x: String,
        #[musli(default = dti::special, skip_encoding_if = Option::is_none)]
        #[musli(Text, default = dti::special, skip_encoding_if = Option::is_none)]
        note_to_self: Option<u8>,
    },
}
"###,
    shapes: &[&[Ty::Rec(&DEF_S0)], &[Ty::Bool, Ty::Seq(&Ty::Bool), Ty::Str, Ty::Opt(&Ty::Int(Int::U8))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type"), accept: &[Name::S("type"), Name::S("a longer name than any other one here1")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type"), accept: &[Name::S("type"), Name::S("a longer name than any other one here1")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E2),
    dec: dti::decs!(E2),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S3(
    #[musli(default = dti::special)]
    pub usize,
    #[musli(mode = Odd, name = 584286349769)]
    #[musli(name = 342238404573)]
    pub char,
    #[musli(default = dti::special)]
    #[musli(mode = Odd, pattern = (2 | 385454575603 | 398))]
    #[musli(Text, default)]
    pub Option<String>,
    #[musli(skip, default = dti::special)]
    #[musli(Text, skip)]
    pub u32,
    pub u8,
    pub bool,
);

impl Model for S3 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4]), dti::get(&f[5])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4, v5) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S3: Def = Def {
    name: "S3",
    source: r###"#[musli(mode = Odd)]
pub struct S3(
    #[musli(default = dti::special)]
    pub usize,
    #[musli(mode = Odd, name = 584286349769)]
    #[musli(name = 342238404573)]
    pub char,
    #[musli(default = dti::special)]
    #[musli(mode = Odd, pattern = (2 | 385454575603 | 398))]
    #[musli(Text, default)]
    pub Option<String>,
    #[musli(skip, default = dti::special)]
    #[musli(Text, skip)]
    pub u32,
    pub u8,
    pub bool,
);
"###,
    shapes: &[&[Ty::Int(Int::Usize), Ty::Char, Ty::Opt(&Ty::Str), Ty::Int(Int::U32), Ty::Int(Int::U8), Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 342238404573), accept: &[Name::I(Int::Usize, 342238404573)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 342238404573), accept: &[Name::I(Int::Usize, 342238404573)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 342238404573), accept: &[Name::I(Int::Usize, 342238404573)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 342238404573), accept: &[Name::I(Int::Usize, 342238404573)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 584286349769), accept: &[Name::I(Int::Usize, 584286349769)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 385454575603), Name::I(Int::Usize, 398)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 584286349769), accept: &[Name::I(Int::Usize, 584286349769)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 385454575603), Name::I(Int::Usize, 398)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S3),
    dec: dti::decs!(S3),
};

#[derive(Encode, Decode)]
#[musli(content(value = 65, type = u8), tag(value = 31, type = u8))]
#[musli(mode = Odd)]
pub enum E4 {
    #[musli(mode = Odd, decode_only, pattern = (0 | 57))]
    #[musli(Binary, name = 381)]
    VeryLongName {
        x: i64,
    },
    Request {
        the_long_one: u32,
        #[musli(mode = Odd, skip_encoding_if = dti::blank)]
        r#type: u32,
        #[musli(Text, name = "x.y8")]
        first_name: u32,
    },
}

impl Model for E4 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { x: dti::get(&f[0]) },
            _ => Self::Request { the_long_one: dti::get(&f[0]), r#type: dti::get(&f[1]), first_name: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { x: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request { the_long_one: v0, r#type: v1, first_name: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E4: Def = Def {
    name: "E4",
    source: r###"#[musli(content(value = 65, type = u8), tag(value = 31, type = u8))]
#[musli(mode = Odd)]
pub enum E4 {
    #[musli(mode = Odd, decode_only, pattern = (0 | 57))]
    #[musli(Binary, name = 381)]
    VeryLongName {
        x: i64,
    },
    Request {
        the_long_one: u32,
        #[musli(mode = Odd, skip_encoding_if = dti::blank)]
        r#type: u32,
        #[musli(Text, name = "x.y8")]
        first_name: u32,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::I64)], &[Ty::Int(Int::U32), Ty::Int(Int::U32), Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 31), Name::I(Int::U8, 65), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 381), accept: &[Name::I(Int::Usize, 381)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 31), Name::I(Int::U8, 65), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 381), accept: &[Name::I(Int::Usize, 381)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 31), Name::I(Int::U8, 65), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x.y8"), accept: &[Name::S("x.y8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 31), Name::I(Int::U8, 65), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x.y8"), accept: &[Name::S("x.y8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 31), Name::I(Int::U8, 65), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 31), Name::I(Int::U8, 65), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 57)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E4),
    dec: dti::decs!(E4),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(untagged)]
pub enum E5 {
    #[musli(name_all = "camelCase")]
    Empty {
        #[musli(Binary, decode_only, pattern = ("kind" | "émile10"))]
        kind: E1,
    },
    #[musli(Text, name = "a longer name than any other one here17")]
    #[musli(transparent)]
    X(
        i32,
    ),
    #[musli(transparent)]
    VeryLongName {
        value: Vec<u16>,
    },
}

impl Model for E5 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty { kind: dti::get(&f[0]) },
            1 => Self::X(dti::get(&f[0])),
            _ => Self::VeryLongName { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty { kind: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::X(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::VeryLongName { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E5: Def = Def {
    name: "E5",
    source: r###"#[musli(mode = Odd)]
#[musli(untagged)]
pub enum E5 {
    #[musli(name_all = "camelCase")]
    Empty {
        #[musli(Binary, decode_only, pattern = ("kind" | "émile10"))]
        kind: E1,
    },
    #[musli(Text, name = "a longer name than any other one here17")]
    #[musli(transparent)]
    X(
        i32,
    ),
    #[musli(transparent)]
    VeryLongName {
        value: Vec<u16>,
    },
}
"###,
    shapes: &[&[Ty::Rec(&DEF_E1)], &[Ty::Int(Int::I32)], &[Ty::Seq(&Ty::Int(Int::U16))]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind"), Name::S("émile10")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("a longer name than any other one here17"), accept: &[Name::S("a longer name than any other one here17")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("a longer name than any other one here17"), accept: &[Name::S("a longer name than any other one here17")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E5),
    dec: dti::decs!(E5),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = dti::Tag))]
pub struct S6(
    #[musli(name = dti::Tag(34))]
    pub usize,
    #[musli(Binary, name = dti::Tag(32))]
    #[musli(Text, name = dti::Tag(2))]
    #[musli(mode = Odd, name = dti::Tag(26))]
    #[musli(Text, decode_only, default)]
    pub String,
    #[musli(skip, name = dti::Tag(45))]
    pub Vec<i8>,
    #[musli(name = dti::Tag(22))]
    pub i8,
    #[musli(Text, pattern = (dti::Tag(46) | dti::Tag(59) | dti::Tag(27)))]
    #[musli(name = dti::Tag(46), skip)]
    #[musli(default = dti::special)]
    #[musli(Binary, encode_only, name = dti::Tag(19))]
    pub Vec<u32>,
);

impl Model for S6 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S6: Def = Def {
    name: "S6",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = dti::Tag))]
pub struct S6(
    #[musli(name = dti::Tag(34))]
    pub usize,
    #[musli(Binary, name = dti::Tag(32))]
    #[musli(Text, name = dti::Tag(2))]
    #[musli(mode = Odd, name = dti::Tag(26))]
    #[musli(Text, decode_only, default)]
    pub String,
    #[musli(skip, name = dti::Tag(45))]
    pub Vec<i8>,
    #[musli(name = dti::Tag(22))]
    pub i8,
    #[musli(Text, pattern = (dti::Tag(46) | dti::Tag(59) | dti::Tag(27)))]
    #[musli(name = dti::Tag(46), skip)]
    #[musli(default = dti::special)]
    #[musli(Binary, encode_only, name = dti::Tag(19))]
    pub Vec<u32>,
);
"###,
    shapes: &[&[Ty::Int(Int::Usize), Ty::Str, Ty::Seq(&Ty::Int(Int::I8)), Ty::Int(Int::I8), Ty::Seq(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 34), accept: &[Name::I(Int::U16, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 45), accept: &[Name::I(Int::U16, 45)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 22), accept: &[Name::I(Int::U16, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 19), accept: &[Name::I(Int::U16, 19)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 34), accept: &[Name::I(Int::U16, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 45), accept: &[Name::I(Int::U16, 45)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 22), accept: &[Name::I(Int::U16, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 46), accept: &[Name::I(Int::U16, 46)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 34), accept: &[Name::I(Int::U16, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 2), accept: &[Name::I(Int::U16, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 45), accept: &[Name::I(Int::U16, 45)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 22), accept: &[Name::I(Int::U16, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 46), accept: &[Name::I(Int::U16, 46), Name::I(Int::U16, 59), Name::I(Int::U16, 27)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 34), accept: &[Name::I(Int::U16, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 2), accept: &[Name::I(Int::U16, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 45), accept: &[Name::I(Int::U16, 45)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 22), accept: &[Name::I(Int::U16, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 46), accept: &[Name::I(Int::U16, 46), Name::I(Int::U16, 59), Name::I(Int::U16, 27)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 34), accept: &[Name::I(Int::U16, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 26), accept: &[Name::I(Int::U16, 26)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 45), accept: &[Name::I(Int::U16, 45)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 22), accept: &[Name::I(Int::U16, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 46), accept: &[Name::I(Int::U16, 46)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 34), accept: &[Name::I(Int::U16, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 26), accept: &[Name::I(Int::U16, 26)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 45), accept: &[Name::I(Int::U16, 45)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 22), accept: &[Name::I(Int::U16, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 46), accept: &[Name::I(Int::U16, 46)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S6),
    dec: dti::decs!(S6),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
pub struct S7 {
    #[musli(skip)]
    #[musli(Text, decode_only, with = dti::as_str)]
    pub b2b: u32,
    pub name: String,
}

impl Model for S7 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { b2b: dti::get(&f[0]), name: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { b2b: v0, name: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S7: Def = Def {
    name: "S7",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
pub struct S7 {
    #[musli(skip)]
    #[musli(Text, decode_only, with = dti::as_str)]
    pub b2b: u32,
    pub name: String,
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S7),
    dec: dti::decs!(S7),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = str))]
pub enum E8 {
    #[musli(name = "x.y14")]
    #[musli(Text, name = "014")]
    Request,
    #[musli(default)]
    FirstVariant(
    ),
}

impl Model for E8 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request,
            _ => Self::FirstVariant(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request => dti::rec(0, vec![]),
            Self::FirstVariant() => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E8: Def = Def {
    name: "E8",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = str))]
pub enum E8 {
    #[musli(name = "x.y14")]
    #[musli(Text, name = "014")]
    Request,
    #[musli(default)]
    FirstVariant(
    ),
}
"###,
    shapes: &[&[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("x.y14"), accept: &[Name::S("x.y14")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("x.y14"), accept: &[Name::S("x.y14")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("014"), accept: &[Name::S("014")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("014"), accept: &[Name::S("014")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("x.y14"), accept: &[Name::S("x.y14")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("x.y14"), accept: &[Name::S("x.y14")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E8),
    dec: dti::decs!(E8),
};

#[derive(Encode, Decode)]
#[musli(Text, content(value = "data"), tag(value = "kind of", type = str))]
#[musli(mode = Odd)]
#[musli(name(type = usize))]
pub enum E9 {
    #[musli(transparent)]
    Request(
        i64,
    ),
    #[musli(Binary, decode_only, default)]
    Alpha(
    ),
    Other,
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    FirstVariant {
        #[musli(name = b"k14", skip)]
        b2b: String,
        #[musli(Binary, name = b"key35")]
        #[musli(mode = Odd, name = b"k35")]
        #[musli(Text, name = b"key41")]
        kind: BTreeMap<String, S7>,
    },
}

impl Model for E9 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request(dti::get(&f[0])),
            1 => Self::Alpha(),
            2 => Self::Other,
            _ => Self::FirstVariant { b2b: dti::get(&f[0]), kind: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::Alpha() => dti::rec(1, vec![]),
            Self::Other => dti::rec(2, vec![]),
            Self::FirstVariant { b2b: v0, kind: v1 } => dti::rec(3, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E9: Def = Def {
    name: "E9",
    source: r###"#[musli(Text, content(value = "data"), tag(value = "kind of", type = str))]
#[musli(mode = Odd)]
#[musli(name(type = usize))]
pub enum E9 {
    #[musli(transparent)]
    Request(
        i64,
    ),
    #[musli(Binary, decode_only, default)]
    Alpha(
    ),
    Other,
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    FirstVariant {
        #[musli(name = b"k14", skip)]
        b2b: String,
        #[musli(Binary, name = b"key35")]
        #[musli(mode = Odd, name = b"k35")]
        #[musli(Text, name = b"key41")]
        kind: BTreeMap<String, S7>,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::I64)], &[], &[], &[Ty::Str, Ty::Map(&Ty::Rec(&DEF_S7))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k14"), accept: &[Name::B(b"k14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"key35"), accept: &[Name::B(b"key35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k14"), accept: &[Name::B(b"k14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"key35"), accept: &[Name::B(b"key35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k14"), accept: &[Name::B(b"k14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k14"), accept: &[Name::B(b"k14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k14"), accept: &[Name::B(b"k14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k14"), accept: &[Name::B(b"k14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E9),
    dec: dti::decs!(E9),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Binary, encode_only, transparent)]
pub struct S10 {
    #[musli(Text, decode_only, pattern = ("kind" | "two words0"))]
    pub kind: Vec<i32>,
}

impl Model for S10 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { kind: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { kind: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S10: Def = Def {
    name: "S10",
    source: r###"#[musli(mode = Odd)]
#[musli(Binary, encode_only, transparent)]
pub struct S10 {
    #[musli(Text, decode_only, pattern = ("kind" | "two words0"))]
    pub kind: Vec<i32>,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::I32))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("kind"), accept: &[Name::S("kind"), Name::S("two words0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S10),
    dec: dti::decs!(S10),
};

#[derive(Encode, Decode)]
#[musli(Binary, name_all = "camelCase")]
#[musli(mode = Odd)]
pub struct S11 {
    #[musli(Binary, skip)]
    #[musli(Binary, decode_only, pattern = ("noteToSelf" | "06"))]
    #[musli(skip)]
    pub note_to_self: u32,
    #[musli(skip_encoding_if = dti::blank)]
    pub r#type: i8,
    #[musli(default)]
    pub first_name: bool,
}

impl Model for S11 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { note_to_self: dti::get(&f[0]), r#type: dti::get(&f[1]), first_name: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { note_to_self: v0, r#type: v1, first_name: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S11: Def = Def {
    name: "S11",
    source: r###"#[musli(Binary, name_all = "camelCase")]
#[musli(mode = Odd)]
pub struct S11 {
    #[musli(Binary, skip)]
    #[musli(Binary, decode_only, pattern = ("noteToSelf" | "06"))]
    #[musli(skip)]
    pub note_to_self: u32,
    #[musli(skip_encoding_if = dti::blank)]
    pub r#type: i8,
    #[musli(default)]
    pub first_name: bool,
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::I8), Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("firstName"), accept: &[Name::S("firstName")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf"), Name::S("06")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("firstName"), accept: &[Name::S("firstName")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S11),
    dec: dti::decs!(S11),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Binary, name(type = str))]
pub struct S12 {
    #[musli(default, bytes)]
    pub id: [u8; 3],
    #[musli(Text, encode_only, skip)]
    #[musli(skip)]
    pub flag: Option<char>,
    #[musli(mode = Odd, default)]
    #[musli(Binary, encode_only, skip_encoding_if = dti::blank)]
    #[musli(Binary, name = "16")]
    pub b2b: bool,
}

impl Model for S12 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { id: dti::get(&f[0]), flag: dti::get(&f[1]), b2b: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { id: v0, flag: v1, b2b: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S12: Def = Def {
    name: "S12",
    source: r###"#[musli(mode = Odd)]
#[musli(Binary, name(type = str))]
pub struct S12 {
    #[musli(default, bytes)]
    pub id: [u8; 3],
    #[musli(Text, encode_only, skip)]
    #[musli(skip)]
    pub flag: Option<char>,
    #[musli(mode = Odd, default)]
    #[musli(Binary, encode_only, skip_encoding_if = dti::blank)]
    #[musli(Binary, name = "16")]
    pub b2b: bool,
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Int(Int::U8), 3), Ty::Opt(&Ty::Char), Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("16"), accept: &[Name::S("16")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("16"), accept: &[Name::S("16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S12),
    dec: dti::decs!(S12),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag = "tag")]
pub enum E13 {
    #[musli(mode = Odd, name = 105801417332)]
    Other,
    FirstVariant,
    #[musli(Binary, decode_only, pattern = 2..=6)]
    #[musli(name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(default)]
    Alpha {
    },
}

impl Model for E13 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other,
            1 => Self::FirstVariant,
            _ => Self::Alpha {  },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other => dti::rec(0, vec![]),
            Self::FirstVariant => dti::rec(1, vec![]),
            Self::Alpha {  } => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E13: Def = Def {
    name: "E13",
    source: r###"#[musli(mode = Odd)]
#[musli(tag = "tag")]
pub enum E13 {
    #[musli(mode = Odd, name = 105801417332)]
    Other,
    FirstVariant,
    #[musli(Binary, decode_only, pattern = 2..=6)]
    #[musli(name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(default)]
    Alpha {
    },
}
"###,
    shapes: &[&[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 105801417332), accept: &[Name::I(Int::Usize, 105801417332)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 105801417332), accept: &[Name::I(Int::Usize, 105801417332)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E13),
    dec: dti::decs!(E13),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E14 {
    #[musli(mode = Odd, name = 233)]
    #[musli(packed)]
    Other(
        i16,
        bool,
        i64,
    ),
    #[musli(mode = Odd, name = 314)]
    #[musli(encode_only, name_all = "snake_case")]
    X {
        #[musli(decode_only, default)]
        kind: String,
        #[musli(default = dti::special, skip)]
        the_long_one: String,
        #[musli(packed)]
        b2b: (String, bool, ),
        #[musli(mode = Odd, decode_only, pattern = (3 | 937236184633))]
        value: bool,
    },
    #[musli(default)]
    Alpha,
    #[musli(Binary, name = 637013281957)]
    Empty {
    },
}

impl Model for E14 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
            1 => Self::X { kind: dti::get(&f[0]), the_long_one: dti::get(&f[1]), b2b: dti::get(&f[2]), value: dti::get(&f[3]) },
            2 => Self::Alpha,
            _ => Self::Empty {  },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other(v0, v1, v2) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::X { kind: v0, the_long_one: v1, b2b: v2, value: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Alpha => dti::rec(2, vec![]),
            Self::Empty {  } => dti::rec(3, vec![]),
        }
    }
}

pub static DEF_E14: Def = Def {
    name: "E14",
    source: r###"#[musli(mode = Odd)]
pub enum E14 {
    #[musli(mode = Odd, name = 233)]
    #[musli(packed)]
    Other(
        i16,
        bool,
        i64,
    ),
    #[musli(mode = Odd, name = 314)]
    #[musli(encode_only, name_all = "snake_case")]
    X {
        #[musli(decode_only, default)]
        kind: String,
        #[musli(default = dti::special, skip)]
        the_long_one: String,
        #[musli(packed)]
        b2b: (String, bool, ),
        #[musli(mode = Odd, decode_only, pattern = (3 | 937236184633))]
        value: bool,
    },
    #[musli(default)]
    Alpha,
    #[musli(Binary, name = 637013281957)]
    Empty {
    },
}
"###,
    shapes: &[&[Ty::Int(Int::I16), Ty::Bool, Ty::Int(Int::I64)], &[Ty::Str, Ty::Str, Ty::Tup(&[Ty::Str, Ty::Bool]), Ty::Bool], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 637013281957), accept: &[Name::I(Int::Usize, 637013281957)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 637013281957), accept: &[Name::I(Int::Usize, 637013281957)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 233), accept: &[Name::I(Int::Usize, 233)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 314), accept: &[Name::I(Int::Usize, 314)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 233), accept: &[Name::I(Int::Usize, 233)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 314), accept: &[Name::I(Int::Usize, 314)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 937236184633)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E14),
    dec: dti::decs!(E14),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S15(
    pub u32,
    #[musli(with = dti::as_str)]
    #[musli(skip)]
    pub u32,
    pub String,
    pub bool,
);

impl Model for S15 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S15: Def = Def {
    name: "S15",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S15(
    pub u32,
    #[musli(with = dti::as_str)]
    #[musli(skip)]
    pub u32,
    pub String,
    pub bool,
);
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::U32), Ty::Str, Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S15),
    dec: dti::decs!(S15),
};

#[derive(Encode, Decode)]
#[musli(name(type = str, method = "unsized"))]
#[musli(Binary, name(type = str, method = "unsized"), name_all = "camelCase")]
#[musli(name_all = "camelCase")]
#[musli(mode = Odd)]
pub enum E16 {
    #[musli(packed, name = "a longer name than any other one here")]
    #[musli(mode = Odd, name = "")]
    X {
        x: String,
    },
    #[musli(transparent)]
    FirstVariant {
        value: Option<u32>,
    },
}

impl Model for E16 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X { x: dti::get(&f[0]) },
            _ => Self::FirstVariant { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X { x: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::FirstVariant { value: v0 } => dti::rec(1, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E16: Def = Def {
    name: "E16",
    source: r###"#[musli(name(type = str, method = "unsized"))]
#[musli(Binary, name(type = str, method = "unsized"), name_all = "camelCase")]
#[musli(name_all = "camelCase")]
#[musli(mode = Odd)]
pub enum E16 {
    #[musli(packed, name = "a longer name than any other one here")]
    #[musli(mode = Odd, name = "")]
    X {
        x: String,
    },
    #[musli(transparent)]
    FirstVariant {
        value: Option<u32>,
    },
}
"###,
    shapes: &[&[Ty::Str], &[Ty::Opt(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], body: Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], body: Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S(""), accept: &[Name::S("")], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S(""), accept: &[Name::S("")], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E16),
    dec: dti::decs!(E16),
};

#[derive(Encode, Decode)]
#[musli(content(value = b"content of", format_with = dti::Show::new), tag(value = b"type", format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub enum E17 {
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    #[musli(Binary, pattern = (0 | 458321744113 | 677112770982))]
    FirstVariant {
        items: String,
        #[musli(skip_encoding_if = dti::blank)]
        first_name: String,
        data: Option<u32>,
        #[musli(skip)]
        #[musli(name = "émile3")]
        #[musli(Text, name = "two words3")]
        age: bool,
    },
    B2 {
        b2b: S7,
        note_to_self: String,
        name: Option<String>,
    },
    Alpha {
        #[musli(skip, default = dti::special)]
        #[musli(mode = Odd, skip)]
        x: String,
    },
    #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(name_all = "snake_case")]
    VeryLongName(
        #[musli(name = "a longer name than any other one here")]
        i64,
        #[musli(name = "two words13")]
        i8,
        #[musli(Text, name = "q\"uote")]
        #[musli(Binary, name = "émile")]
        #[musli(mode = Odd, name = "alpha14")]
        #[musli(mode = Odd, decode_only, pattern = ("alpha14" | "a longer name than any other one here16"))]
        Vec<String>,
    ),
}

impl Model for E17 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { items: dti::get(&f[0]), first_name: dti::get(&f[1]), data: dti::get(&f[2]), age: dti::get(&f[3]) },
            1 => Self::B2 { b2b: dti::get(&f[0]), note_to_self: dti::get(&f[1]), name: dti::get(&f[2]) },
            2 => Self::Alpha { x: dti::get(&f[0]) },
            _ => Self::VeryLongName(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { items: v0, first_name: v1, data: v2, age: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::B2 { b2b: v0, note_to_self: v1, name: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Alpha { x: v0 } => dti::rec(2, vec![v0.to_val()]),
            Self::VeryLongName(v0, v1, v2) => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E17: Def = Def {
    name: "E17",
    source: r###"#[musli(content(value = b"content of", format_with = dti::Show::new), tag(value = b"type", format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub enum E17 {
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    #[musli(Binary, pattern = (0 | 458321744113 | 677112770982))]
    FirstVariant {
        items: String,
        #[musli(skip_encoding_if = dti::blank)]
        first_name: String,
        data: Option<u32>,
        #[musli(skip)]
        #[musli(name = "émile3")]
        #[musli(Text, name = "two words3")]
        age: bool,
    },
    B2 {
        b2b: S7,
        note_to_self: String,
        name: Option<String>,
    },
    Alpha {
        #[musli(skip, default = dti::special)]
        #[musli(mode = Odd, skip)]
        x: String,
    },
    #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(name_all = "snake_case")]
    VeryLongName(
        #[musli(name = "a longer name than any other one here")]
        i64,
        #[musli(name = "two words13")]
        i8,
        #[musli(Text, name = "q\"uote")]
        #[musli(Binary, name = "émile")]
        #[musli(mode = Odd, name = "alpha14")]
        #[musli(mode = Odd, decode_only, pattern = ("alpha14" | "a longer name than any other one here16"))]
        Vec<String>,
    ),
}
"###,
    shapes: &[&[Ty::Str, Ty::Str, Ty::Opt(&Ty::Int(Int::U32)), Ty::Bool], &[Ty::Rec(&DEF_S7), Ty::Str, Ty::Opt(&Ty::Str)], &[Ty::Str], &[Ty::Int(Int::I64), Ty::Int(Int::I8), Ty::Seq(&Ty::Str)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"type"), Name::B(b"content of"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 458321744113), Name::I(Int::Usize, 677112770982)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("ITEMS"), accept: &[Name::S("ITEMS")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("FIRST_NAME"), accept: &[Name::S("FIRST_NAME")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words13"), accept: &[Name::S("two words13")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"type"), Name::B(b"content of"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 458321744113), Name::I(Int::Usize, 677112770982)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("ITEMS"), accept: &[Name::S("ITEMS")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("FIRST_NAME"), accept: &[Name::S("FIRST_NAME")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words13"), accept: &[Name::S("two words13")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"type"), Name::B(b"content of"), K::Bytes), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("ITEMS"), accept: &[Name::S("ITEMS")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("FIRST_NAME"), accept: &[Name::S("FIRST_NAME")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words3"), accept: &[Name::S("two words3")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words13"), accept: &[Name::S("two words13")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"type"), Name::B(b"content of"), K::Bytes), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("ITEMS"), accept: &[Name::S("ITEMS")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("FIRST_NAME"), accept: &[Name::S("FIRST_NAME")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words3"), accept: &[Name::S("two words3")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words13"), accept: &[Name::S("two words13")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"type"), Name::B(b"content of"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("ITEMS"), accept: &[Name::S("ITEMS")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("FIRST_NAME"), accept: &[Name::S("FIRST_NAME")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words13"), accept: &[Name::S("two words13")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("alpha14"), accept: &[Name::S("alpha14")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"type"), Name::B(b"content of"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("ITEMS"), accept: &[Name::S("ITEMS")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("FIRST_NAME"), accept: &[Name::S("FIRST_NAME")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words13"), accept: &[Name::S("two words13")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("alpha14"), accept: &[Name::S("alpha14"), Name::S("a longer name than any other one here16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E17),
    dec: dti::decs!(E17),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "name")]
pub struct S18(
    #[musli(mode = Odd, decode_only, pattern = ("q\"uote" | "alpha16"))]
    #[musli(Binary, skip_encoding_if = dti::blank)]
    #[musli(default = dti::special)]
    #[musli(Binary, name = "x.y")]
    #[musli(Text, name = "0")]
    #[musli(mode = Odd, name = "q\"uote")]
    pub usize,
    #[musli(name = "émile")]
    #[musli(default = dti::special)]
    #[musli(Binary, default = dti::special)]
    pub String,
    #[musli(name = "")]
    pub (),
    #[musli(mode = Odd, name = "0")]
    #[musli(Text, name = "x.y")]
    #[musli(Binary, name = "a longer name than any other one here")]
    pub E14,
    #[musli(Text, encode_only, name = "19")]
    #[musli(name = "q\"uote6")]
    pub Option<String>,
);

impl Model for S18 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S18: Def = Def {
    name: "S18",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "name")]
pub struct S18(
    #[musli(mode = Odd, decode_only, pattern = ("q\"uote" | "alpha16"))]
    #[musli(Binary, skip_encoding_if = dti::blank)]
    #[musli(default = dti::special)]
    #[musli(Binary, name = "x.y")]
    #[musli(Text, name = "0")]
    #[musli(mode = Odd, name = "q\"uote")]
    pub usize,
    #[musli(name = "émile")]
    #[musli(default = dti::special)]
    #[musli(Binary, default = dti::special)]
    pub String,
    #[musli(name = "")]
    pub (),
    #[musli(mode = Odd, name = "0")]
    #[musli(Text, name = "x.y")]
    #[musli(Binary, name = "a longer name than any other one here")]
    pub E14,
    #[musli(Text, encode_only, name = "19")]
    #[musli(name = "q\"uote6")]
    pub Option<String>,
);
"###,
    shapes: &[&[Ty::Int(Int::Usize), Ty::Str, Ty::Unit, Ty::Rec(&DEF_E14), Ty::Opt(&Ty::Str)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("19"), accept: &[Name::S("19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote"), Name::S("alpha16")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S18),
    dec: dti::decs!(S18),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E19 {
    #[musli(mode = Odd, name(type = i32))]
    #[musli(Text, pattern = ("Empty" | "alpha14"))]
    Empty {
        #[musli(mode = Odd, name = -4)]
        b2b: String,
        #[musli(mode = Odd, name = -66049)]
        r#type: S15,
        #[musli(default = dti::special)]
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = -98891)]
        value: u32,
    },
    #[musli(Text, decode_only, pattern = "X")]
    X {
        age: String,
        #[musli(mode = Odd, trace)]
        #[musli(trace)]
        #[musli(Text, decode_only, pattern = ("kind" | "a longer name than any other one here" | "back\\slash"))]
        kind: BTreeMap<String, bool>,
        #[musli(Binary, skip)]
        #[musli(skip)]
        id: String,
        data: i64,
    },
    #[musli(name(type = u8))]
    #[musli(Binary, name = 374)]
    ReplyTo {
        #[musli(name = 156)]
        x: u16,
        #[musli(name = 6)]
        flag: Option<E1>,
        #[musli(Text, name = 8)]
        #[musli(Binary, name = 7)]
        #[musli(mode = Odd, name = 200)]
        b2b: i64,
    },
}

impl Model for E19 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty { b2b: dti::get(&f[0]), r#type: dti::get(&f[1]), value: dti::get(&f[2]) },
            1 => Self::X { age: dti::get(&f[0]), kind: dti::get(&f[1]), id: dti::get(&f[2]), data: dti::get(&f[3]) },
            _ => Self::ReplyTo { x: dti::get(&f[0]), flag: dti::get(&f[1]), b2b: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty { b2b: v0, r#type: v1, value: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::X { age: v0, kind: v1, id: v2, data: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::ReplyTo { x: v0, flag: v1, b2b: v2 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E19: Def = Def {
    name: "E19",
    source: r###"#[musli(mode = Odd)]
pub enum E19 {
    #[musli(mode = Odd, name(type = i32))]
    #[musli(Text, pattern = ("Empty" | "alpha14"))]
    Empty {
        #[musli(mode = Odd, name = -4)]
        b2b: String,
        #[musli(mode = Odd, name = -66049)]
        r#type: S15,
        #[musli(default = dti::special)]
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = -98891)]
        value: u32,
    },
    #[musli(Text, decode_only, pattern = "X")]
    X {
        age: String,
        #[musli(mode = Odd, trace)]
        #[musli(trace)]
        #[musli(Text, decode_only, pattern = ("kind" | "a longer name than any other one here" | "back\\slash"))]
        kind: BTreeMap<String, bool>,
        #[musli(Binary, skip)]
        #[musli(skip)]
        id: String,
        data: i64,
    },
    #[musli(name(type = u8))]
    #[musli(Binary, name = 374)]
    ReplyTo {
        #[musli(name = 156)]
        x: u16,
        #[musli(name = 6)]
        flag: Option<E1>,
        #[musli(Text, name = 8)]
        #[musli(Binary, name = 7)]
        #[musli(mode = Odd, name = 200)]
        b2b: i64,
    },
}
"###,
    shapes: &[&[Ty::Str, Ty::Rec(&DEF_S15), Ty::Int(Int::U32)], &[Ty::Str, Ty::Map(&Ty::Bool), Ty::Str, Ty::Int(Int::I64)], &[Ty::Int(Int::U16), Ty::Opt(&Ty::Rec(&DEF_E1)), Ty::Int(Int::I64)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 374), accept: &[Name::I(Int::Usize, 374)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 156), accept: &[Name::I(Int::U8, 156)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 7), accept: &[Name::I(Int::U8, 7)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 374), accept: &[Name::I(Int::Usize, 374)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 156), accept: &[Name::I(Int::U8, 156)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 7), accept: &[Name::I(Int::U8, 7)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty"), Name::S("alpha14")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 156), accept: &[Name::I(Int::U8, 156)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 8), accept: &[Name::I(Int::U8, 8)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty"), Name::S("alpha14")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind"), Name::S("a longer name than any other one here"), Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 156), accept: &[Name::I(Int::U8, 156)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 8), accept: &[Name::I(Int::U8, 8)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -4), accept: &[Name::I(Int::I32, -4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -66049), accept: &[Name::I(Int::I32, -66049)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -98891), accept: &[Name::I(Int::I32, -98891)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 156), accept: &[Name::I(Int::U8, 156)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 200), accept: &[Name::I(Int::U8, 200)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -4), accept: &[Name::I(Int::I32, -4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -66049), accept: &[Name::I(Int::I32, -66049)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -98891), accept: &[Name::I(Int::I32, -98891)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 156), accept: &[Name::I(Int::U8, 156)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 200), accept: &[Name::I(Int::U8, 200)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E19),
    dec: dti::decs!(E19),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S20 {
    pub first_name: String,
}

impl Model for S20 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { first_name: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { first_name: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S20: Def = Def {
    name: "S20",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S20 {
    pub first_name: String,
}
"###,
    shapes: &[&[Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S20),
    dec: dti::decs!(S20),
};

#[derive(Encode, Decode)]
#[musli(tag = "tag")]
#[musli(mode = Odd)]
#[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
pub enum E21 {
    #[musli(mode = Odd, name = 702764077512)]
    ReplyTo,
    #[musli(name(type = str))]
    Empty {
        #[musli(skip_encoding_if = dti::blank)]
        age: i8,
        #[musli(Text, skip_encoding_if = dti::blank)]
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        r#type: usize,
        name: bool,
    },
    #[musli(Binary, decode_only, pattern = (2 | 1005701620577))]
    #[musli(transparent)]
    Other {
        value: S18,
    },
}

impl Model for E21 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo,
            1 => Self::Empty { age: dti::get(&f[0]), r#type: dti::get(&f[1]), name: dti::get(&f[2]) },
            _ => Self::Other { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
            Self::Empty { age: v0, r#type: v1, name: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Other { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E21: Def = Def {
    name: "E21",
    source: r###"#[musli(tag = "tag")]
#[musli(mode = Odd)]
#[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
pub enum E21 {
    #[musli(mode = Odd, name = 702764077512)]
    ReplyTo,
    #[musli(name(type = str))]
    Empty {
        #[musli(skip_encoding_if = dti::blank)]
        age: i8,
        #[musli(Text, skip_encoding_if = dti::blank)]
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        r#type: usize,
        name: bool,
    },
    #[musli(Binary, decode_only, pattern = (2 | 1005701620577))]
    #[musli(transparent)]
    Other {
        value: S18,
    },
}
"###,
    shapes: &[&[], &[Ty::Int(Int::I8), Ty::Int(Int::Usize), Ty::Bool], &[Ty::Rec(&DEF_S18)]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 1005701620577)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY_TO"), accept: &[Name::S("REPLY_TO")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("OTHER"), accept: &[Name::S("OTHER")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY_TO"), accept: &[Name::S("REPLY_TO")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("OTHER"), accept: &[Name::S("OTHER")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 702764077512), accept: &[Name::I(Int::Usize, 702764077512)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 702764077512), accept: &[Name::I(Int::Usize, 702764077512)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E21),
    dec: dti::decs!(E21),
};

#[derive(Encode, Decode)]
#[musli(content = "data", tag = "t")]
#[musli(mode = Odd)]
pub enum E22 {
    #[musli(transparent)]
    Request(
        bool,
    ),
    #[musli(name_all = "camelCase")]
    #[musli(Text, name = "a longer name than any other one here15")]
    Empty(
        #[musli(name = "q\"uote6")]
        E16,
        #[musli(name = "")]
        #[musli(Binary, decode_only, name = "type217")]
        Option<i64>,
    ),
    X {
        #[musli(bytes)]
        data: [u8; 2],
        #[musli(mode = Odd, default)]
        y: (),
        #[musli(default)]
        #[musli(skip_encoding_if = dti::blank)]
        items: i64,
    },
}

impl Model for E22 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request(dti::get(&f[0])),
            1 => Self::Empty(dti::get(&f[0]), dti::get(&f[1])),
            _ => Self::X { data: dti::get(&f[0]), y: dti::get(&f[1]), items: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::Empty(v0, v1) => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::X { data: v0, y: v1, items: v2 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E22: Def = Def {
    name: "E22",
    source: r###"#[musli(content = "data", tag = "t")]
#[musli(mode = Odd)]
pub enum E22 {
    #[musli(transparent)]
    Request(
        bool,
    ),
    #[musli(name_all = "camelCase")]
    #[musli(Text, name = "a longer name than any other one here15")]
    Empty(
        #[musli(name = "q\"uote6")]
        E16,
        #[musli(name = "")]
        #[musli(Binary, decode_only, name = "type217")]
        Option<i64>,
    ),
    X {
        #[musli(bytes)]
        data: [u8; 2],
        #[musli(mode = Odd, default)]
        y: (),
        #[musli(default)]
        #[musli(skip_encoding_if = dti::blank)]
        items: i64,
    },
}
"###,
    shapes: &[&[Ty::Bool], &[Ty::Rec(&DEF_E16), Ty::Opt(&Ty::Int(Int::I64))], &[Ty::Arr(&Ty::Int(Int::U8), 2), Ty::Unit, Ty::Int(Int::I64)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type217"), accept: &[Name::S("type217")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote6"), accept: &[Name::S("q\"uote6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E22),
    dec: dti::decs!(E22),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name_all = "index")]
#[musli(Text, tag(value = 37, type = usize), content = 61)]
pub enum E23 {
    #[musli(default)]
    FirstVariant,
    Other {
        #[musli(packed)]
        #[musli(decode_only, default)]
        note_to_self: (String, i32, ),
        id: BTreeMap<String, S3>,
        #[musli(Binary, decode_only, pattern = 2)]
        age: bool,
        #[musli(default)]
        #[musli(Binary, default = dti::special)]
        value: Option<i32>,
    },
    #[musli(mode = Odd, name = 165)]
    B2(
        bool,
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, pattern = 1..=5)]
        u32,
    ),
}

impl Model for E23 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant,
            1 => Self::Other { note_to_self: dti::get(&f[0]), id: dti::get(&f[1]), age: dti::get(&f[2]), value: dti::get(&f[3]) },
            _ => Self::B2(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant => dti::rec(0, vec![]),
            Self::Other { note_to_self: v0, id: v1, age: v2, value: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::B2(v0, v1) => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E23: Def = Def {
    name: "E23",
    source: r###"#[musli(mode = Odd, name_all = "index")]
#[musli(Text, tag(value = 37, type = usize), content = 61)]
pub enum E23 {
    #[musli(default)]
    FirstVariant,
    Other {
        #[musli(packed)]
        #[musli(decode_only, default)]
        note_to_self: (String, i32, ),
        id: BTreeMap<String, S3>,
        #[musli(Binary, decode_only, pattern = 2)]
        age: bool,
        #[musli(default)]
        #[musli(Binary, default = dti::special)]
        value: Option<i32>,
    },
    #[musli(mode = Odd, name = 165)]
    B2(
        bool,
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, pattern = 1..=5)]
        u32,
    ),
}
"###,
    shapes: &[&[], &[Ty::Tup(&[Ty::Str, Ty::Int(Int::I32)]), Ty::Map(&Ty::Rec(&DEF_S3)), Ty::Bool, Ty::Opt(&Ty::Int(Int::I32))], &[Ty::Bool, Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<i32>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<i32>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 37), Name::I(Int::Usize, 61), K::Int(Int::Usize)), kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 37), Name::I(Int::Usize, 61), K::Int(Int::Usize)), kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 165), accept: &[Name::I(Int::Usize, 165)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 165), accept: &[Name::I(Int::Usize, 165)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E23),
    dec: dti::decs!(E23),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S24 {
    pub x: String,
    #[musli(skip)]
    #[musli(default = dti::special)]
    pub kind: i32,
}

impl Model for S24 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { x: dti::get(&f[0]), kind: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { x: v0, kind: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S24: Def = Def {
    name: "S24",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S24 {
    pub x: String,
    #[musli(skip)]
    #[musli(default = dti::special)]
    pub kind: i32,
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::I32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S24),
    dec: dti::decs!(S24),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(decode_only, name(type = [u8], format_with = dti::Show::new))]
pub struct S25<T> {
    #[musli(Binary, decode_only, name = b"key42")]
    #[musli(mode = Odd, decode_only, name = b"key10")]
    #[musli(Text, decode_only, name = b"k x40")]
    pub data: T,
    #[musli(mode = Odd, decode_only, name = b"key11")]
    #[musli(Binary, decode_only, name = b"k34")]
    #[musli(Text, decode_only, name = b"k42")]
    pub flag: (char, ),
    #[musli(Text, decode_only, name = b"k x45")]
    #[musli(mode = Odd, decode_only, name = b"k x15")]
    #[musli(Binary, decode_only, name = b"k x1")]
    pub the_long_one: E1,
    #[musli(Binary, decode_only, name = b"k x26")]
    #[musli(Text, decode_only, name = b"key25")]
    #[musli(mode = Odd, decode_only, name = b"k8")]
    pub kind: Vec<T>,
    #[musli(Text, decode_only, name = b"k45")]
    #[musli(mode = Odd, decode_only, name = b"k x37")]
    #[musli(Binary, decode_only, name = b"k x36")]
    pub note_to_self: T,
}

impl Model for S25<u32> {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { data: dti::get(&f[0]), flag: dti::get(&f[1]), the_long_one: dti::get(&f[2]), kind: dti::get(&f[3]), note_to_self: dti::get(&f[4]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { data: v0, flag: v1, the_long_one: v2, kind: v3, note_to_self: v4 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S25: Def = Def {
    name: "S25",
    source: r###"#[musli(mode = Odd)]
#[musli(decode_only, name(type = [u8], format_with = dti::Show::new))]
pub struct S25<T> {
    #[musli(Binary, decode_only, name = b"key42")]
    #[musli(mode = Odd, decode_only, name = b"key10")]
    #[musli(Text, decode_only, name = b"k x40")]
    pub data: T,
    #[musli(mode = Odd, decode_only, name = b"key11")]
    #[musli(Binary, decode_only, name = b"k34")]
    #[musli(Text, decode_only, name = b"k42")]
    pub flag: (char, ),
    #[musli(Text, decode_only, name = b"k x45")]
    #[musli(mode = Odd, decode_only, name = b"k x15")]
    #[musli(Binary, decode_only, name = b"k x1")]
    pub the_long_one: E1,
    #[musli(Binary, decode_only, name = b"k x26")]
    #[musli(Text, decode_only, name = b"key25")]
    #[musli(mode = Odd, decode_only, name = b"k8")]
    pub kind: Vec<T>,
    #[musli(Text, decode_only, name = b"k45")]
    #[musli(mode = Odd, decode_only, name = b"k x37")]
    #[musli(Binary, decode_only, name = b"k x36")]
    pub note_to_self: T,
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Tup(&[Ty::Char]), Ty::Rec(&DEF_E1), Ty::Seq(&Ty::Int(Int::U32)), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key42"), accept: &[Name::B(b"key42")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k34"), accept: &[Name::B(b"k34")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x1"), accept: &[Name::B(b"k x1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x26"), accept: &[Name::B(b"k x26")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x40"), accept: &[Name::B(b"k x40")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k42"), accept: &[Name::B(b"k42")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x45"), accept: &[Name::B(b"k x45")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key25"), accept: &[Name::B(b"key25")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k45"), accept: &[Name::B(b"k45")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key10"), accept: &[Name::B(b"key10")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key11"), accept: &[Name::B(b"key11")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x15"), accept: &[Name::B(b"k x15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x37"), accept: &[Name::B(b"k x37")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S25<u32>),
    dec: dti::decs!(S25<u32>),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Text, decode_only, name(type = [u8], format_with = dti::Show::new))]
pub struct S26 {
    #[musli(Text, decode_only, name = b"key24")]
    pub kind: Option<u32>,
    #[musli(default = dti::special)]
    #[musli(Text, decode_only, name = b"key39")]
    #[musli(mode = Odd, skip_encoding_if = dti::blank)]
    pub name: String,
}

impl Model for S26 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { kind: dti::get(&f[0]), name: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { kind: v0, name: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S26: Def = Def {
    name: "S26",
    source: r###"#[musli(mode = Odd)]
#[musli(Text, decode_only, name(type = [u8], format_with = dti::Show::new))]
pub struct S26 {
    #[musli(Text, decode_only, name = b"key24")]
    pub kind: Option<u32>,
    #[musli(default = dti::special)]
    #[musli(Text, decode_only, name = b"key39")]
    #[musli(mode = Odd, skip_encoding_if = dti::blank)]
    pub name: String,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Int(Int::U32)), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key24"), accept: &[Name::B(b"key24")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key39"), accept: &[Name::B(b"key39")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S26),
    dec: dti::decs!(S26),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(content = "c")]
#[musli(tag = "type")]
pub enum E27 {
    VeryLongName {
        data: Option<u32>,
        b2b: i32,
        #[musli(Text, name = "two words2")]
        age: u32,
        #[musli(mode = Odd, with = dti::as_str)]
        #[musli(skip)]
        #[musli(with = dti::as_str)]
        #[musli(Binary, pattern = (3 | 8 | 208))]
        flag: u32,
    },
    #[musli(name_all = "index")]
    #[musli(mode = Odd, name = 33)]
    Request {
        #[musli(skip_encoding_if = Vec::is_empty)]
        #[musli(Binary, decode_only, skip_encoding_if = Vec::is_empty)]
        r#type: Vec<String>,
        #[musli(decode_only, with = dti::as_str)]
        data: u32,
    },
    #[musli(default)]
    #[musli(Text, name = "type2")]
    Other,
}

impl Model for E27 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { data: dti::get(&f[0]), b2b: dti::get(&f[1]), age: dti::get(&f[2]), flag: dti::get(&f[3]) },
            1 => Self::Request { r#type: dti::get(&f[0]), data: dti::get(&f[1]) },
            _ => Self::Other,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { data: v0, b2b: v1, age: v2, flag: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Request { r#type: v0, data: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::Other => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E27: Def = Def {
    name: "E27",
    source: r###"#[musli(mode = Odd)]
#[musli(content = "c")]
#[musli(tag = "type")]
pub enum E27 {
    VeryLongName {
        data: Option<u32>,
        b2b: i32,
        #[musli(Text, name = "two words2")]
        age: u32,
        #[musli(mode = Odd, with = dti::as_str)]
        #[musli(skip)]
        #[musli(with = dti::as_str)]
        #[musli(Binary, pattern = (3 | 8 | 208))]
        flag: u32,
    },
    #[musli(name_all = "index")]
    #[musli(mode = Odd, name = 33)]
    Request {
        #[musli(skip_encoding_if = Vec::is_empty)]
        #[musli(Binary, decode_only, skip_encoding_if = Vec::is_empty)]
        r#type: Vec<String>,
        #[musli(decode_only, with = dti::as_str)]
        data: u32,
    },
    #[musli(default)]
    #[musli(Text, name = "type2")]
    Other,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Int(Int::U32)), Ty::Int(Int::I32), Ty::Int(Int::U32), Ty::Int(Int::U32)], &[Ty::Seq(&Ty::Str), Ty::Int(Int::U32)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 8), Name::I(Int::Usize, 208)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 8), Name::I(Int::Usize, 208)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words2"), accept: &[Name::S("two words2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words2"), accept: &[Name::S("two words2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 33), accept: &[Name::I(Int::Usize, 33)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 33), accept: &[Name::I(Int::Usize, 33)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E27),
    dec: dti::decs!(E27),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name_all = "name")]
#[musli(name_all = "PascalCase")]
pub enum E28 {
    #[musli(Text, pattern = ("ReplyTo" | "émile"))]
    ReplyTo(
    ),
    #[musli(mode = Odd, pattern = ("Other" | "émile6" | "x.y"))]
    Other,
    #[musli(decode_only, name_all = "index")]
    FirstVariant(
    ),
    #[musli(Text, encode_only, default)]
    B2,
}

impl Model for E28 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo(),
            1 => Self::Other,
            2 => Self::FirstVariant(),
            _ => Self::B2,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo() => dti::rec(0, vec![]),
            Self::Other => dti::rec(1, vec![]),
            Self::FirstVariant() => dti::rec(2, vec![]),
            Self::B2 => dti::rec(3, vec![]),
        }
    }
}

pub static DEF_E28: Def = Def {
    name: "E28",
    source: r###"#[musli(mode = Odd, name_all = "name")]
#[musli(name_all = "PascalCase")]
pub enum E28 {
    #[musli(Text, pattern = ("ReplyTo" | "émile"))]
    ReplyTo(
    ),
    #[musli(mode = Odd, pattern = ("Other" | "émile6" | "x.y"))]
    Other,
    #[musli(decode_only, name_all = "index")]
    FirstVariant(
    ),
    #[musli(Text, encode_only, default)]
    B2,
}
"###,
    shapes: &[&[], &[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(3), variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo"), Name::S("émile")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo"), Name::S("émile")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other"), Name::S("émile6"), Name::S("x.y")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other"), Name::S("émile6"), Name::S("x.y")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E28),
    dec: dti::decs!(E28),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag(value = 31, type = i32), content(value = 64, type = i32))]
pub enum E29 {
    #[musli(decode_only, name_all = "kebab-case", name(type = str))]
    Other(
        #[musli(Text, decode_only, name = "q\"uote")]
        #[musli(mode = Odd, decode_only, name = "two words11")]
        #[musli(Binary, decode_only, name = "1")]
        u128,
    ),
    #[musli(Text, name_all = "PascalCase")]
    X(
    ),
    #[musli(Text, name = "two words16")]
    #[musli(transparent)]
    #[musli(Binary, pattern = (2..=6 | 153))]
    Request {
        value: S26,
    },
}

impl Model for E29 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other(dti::get(&f[0])),
            1 => Self::X(),
            _ => Self::Request { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::X() => dti::rec(1, vec![]),
            Self::Request { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E29: Def = Def {
    name: "E29",
    source: r###"#[musli(mode = Odd)]
#[musli(tag(value = 31, type = i32), content(value = 64, type = i32))]
pub enum E29 {
    #[musli(decode_only, name_all = "kebab-case", name(type = str))]
    Other(
        #[musli(Text, decode_only, name = "q\"uote")]
        #[musli(mode = Odd, decode_only, name = "two words11")]
        #[musli(Binary, decode_only, name = "1")]
        u128,
    ),
    #[musli(Text, name_all = "PascalCase")]
    X(
    ),
    #[musli(Text, name = "two words16")]
    #[musli(transparent)]
    #[musli(Binary, pattern = (2..=6 | 153))]
    Request {
        value: S26,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::U128)], &[], &[Ty::Rec(&DEF_S26)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 64), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 153)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 64), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("1"), accept: &[Name::S("1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 153)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 64), K::Int(Int::I32)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("two words16"), accept: &[Name::S("two words16")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 64), K::Int(Int::I32)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("two words16"), accept: &[Name::S("two words16")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 64), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 64), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words11"), accept: &[Name::S("two words11")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E29),
    dec: dti::decs!(E29),
};

pub static DEFS: &[&Def] = &[
    &DEF_S0,
    &DEF_E1,
    &DEF_E2,
    &DEF_S3,
    &DEF_E4,
    &DEF_E5,
    &DEF_S6,
    &DEF_S7,
    &DEF_E8,
    &DEF_E9,
    &DEF_S10,
    &DEF_S11,
    &DEF_S12,
    &DEF_E13,
    &DEF_E14,
    &DEF_S15,
    &DEF_E16,
    &DEF_E17,
    &DEF_S18,
    &DEF_E19,
    &DEF_S20,
    &DEF_E21,
    &DEF_E22,
    &DEF_E23,
    &DEF_S24,
    &DEF_S25,
    &DEF_S26,
    &DEF_E27,
    &DEF_E28,
    &DEF_E29,
];

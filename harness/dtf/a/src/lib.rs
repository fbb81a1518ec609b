//! Generated by tools/gen_derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use std::collections::BTreeMap;

use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
#[musli(mode = Odd)]
pub struct S0(
    #[musli(default = dti::special)]
    #[musli(Text, pattern = ("alpha" | ""), skip_encoding_if = dti::blank)]
    #[musli(skip_encoding_if = dti::blank, name = "alpha")]
    pub u32,
    #[musli(mode = Odd, with = dti::as_str)]
    #[musli(name = "x.y15")]
    pub u32,
    #[musli(mode = Odd, skip)]
    #[musli(skip, name = "type23")]
    pub String,
    #[musli(name = "type27")]
    pub u8,
    #[musli(name = "back\\slash")]
    pub u16,
);

impl Model for S0 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S0: Def = Def {
    name: "S0",
    source: r###"#[musli(name_all = "SCREAMING_SNAKE_CASE")]
#[musli(mode = Odd)]
pub struct S0(
    #[musli(default = dti::special)]
    #[musli(Text, pattern = ("alpha" | ""), skip_encoding_if = dti::blank)]
    #[musli(skip_encoding_if = dti::blank, name = "alpha")]
    pub u32,
    #[musli(mode = Odd, with = dti::as_str)]
    #[musli(name = "x.y15")]
    pub u32,
    #[musli(mode = Odd, skip)]
    #[musli(skip, name = "type23")]
    pub String,
    #[musli(name = "type27")]
    pub u8,
    #[musli(name = "back\\slash")]
    pub u16,
);
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::U32), Ty::Str, Ty::Int(Int::U8), Ty::Int(Int::U16)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("x.y15"), accept: &[Name::S("x.y15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type23"), accept: &[Name::S("type23")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type27"), accept: &[Name::S("type27")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("x.y15"), accept: &[Name::S("x.y15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type23"), accept: &[Name::S("type23")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type27"), accept: &[Name::S("type27")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha"), Name::S("")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("x.y15"), accept: &[Name::S("x.y15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type23"), accept: &[Name::S("type23")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type27"), accept: &[Name::S("type27")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha"), Name::S("")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("x.y15"), accept: &[Name::S("x.y15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type23"), accept: &[Name::S("type23")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type27"), accept: &[Name::S("type27")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("x.y15"), accept: &[Name::S("x.y15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::S("type23"), accept: &[Name::S("type23")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type27"), accept: &[Name::S("type27")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("x.y15"), accept: &[Name::S("x.y15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::S("type23"), accept: &[Name::S("type23")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type27"), accept: &[Name::S("type27")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S0),
    dec: dti::decs!(S0),
};

#[derive(Encode, Decode)]
#[musli(name(type = str), name_all = "snake_case")]
#[musli(mode = Odd, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
#[musli(mode = Odd, encode_only, name(type = str))]
pub enum E1 {
    #[musli(Text, name = "two words7")]
    VeryLongName {
        r#type: bool,
        items: (),
        #[musli(packed)]
        #[musli(mode = Odd, pattern = 2..=6)]
        note_to_self: [u8; 4],
    },
    X,
}

impl Model for E1 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { r#type: dti::get(&f[0]), items: dti::get(&f[1]), note_to_self: dti::get(&f[2]) },
            _ => Self::X,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { r#type: v0, items: v1, note_to_self: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::X => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E1: Def = Def {
    name: "E1",
    source: r###"#[musli(name(type = str), name_all = "snake_case")]
#[musli(mode = Odd, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
#[musli(mode = Odd, encode_only, name(type = str))]
pub enum E1 {
    #[musli(Text, name = "two words7")]
    VeryLongName {
        r#type: bool,
        items: (),
        #[musli(packed)]
        #[musli(mode = Odd, pattern = 2..=6)]
        note_to_self: [u8; 4],
    },
    X,
}
"###,
    shapes: &[&[Ty::Bool, Ty::Unit, Ty::Arr(&Ty::Int(Int::U8), 4)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("very_long_name"), accept: &[Name::S("very_long_name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("very_long_name"), accept: &[Name::S("very_long_name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("two words7"), accept: &[Name::S("two words7")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("two words7"), accept: &[Name::S("two words7")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VERY-LONG-NAME"), accept: &[Name::S("VERY-LONG-NAME")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("very_long_name"), accept: &[Name::S("very_long_name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E1),
    dec: dti::decs!(E1),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S2(
    #[musli(default, name = 58)]
    #[musli(Text, name = 51)]
    pub Vec<S0>,
    #[musli(Text, bytes)]
    #[musli(Binary, encode_only, skip_encoding_if = dti::blank)]
    #[musli(bytes)]
    pub Vec<u8>,
    #[musli(Binary, name = 46)]
    #[musli(default = dti::special, skip)]
    #[musli(mode = Odd, skip)]
    pub i64,
    pub Vec<u32>,
    #[musli(Text, encode_only, skip_encoding_if = String::is_empty)]
    #[musli(skip_encoding_if = String::is_empty)]
    #[musli(default)]
    pub String,
);

impl Model for S2 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S2: Def = Def {
    name: "S2",
    source: r###"#[musli(mode = Odd)]
pub struct S2(
    #[musli(default, name = 58)]
    #[musli(Text, name = 51)]
    pub Vec<S0>,
    #[musli(Text, bytes)]
    #[musli(Binary, encode_only, skip_encoding_if = dti::blank)]
    #[musli(bytes)]
    pub Vec<u8>,
    #[musli(Binary, name = 46)]
    #[musli(default = dti::special, skip)]
    #[musli(mode = Odd, skip)]
    pub i64,
    pub Vec<u32>,
    #[musli(Text, encode_only, skip_encoding_if = String::is_empty)]
    #[musli(skip_encoding_if = String::is_empty)]
    #[musli(default)]
    pub String,
);
"###,
    shapes: &[&[Ty::Seq(&Ty::Rec(&DEF_S0)), Ty::Seq(&Ty::Int(Int::U8)), Ty::Int(Int::I64), Ty::Seq(&Ty::Int(Int::U32)), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 58), accept: &[Name::I(Int::Usize, 58)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 46), accept: &[Name::I(Int::Usize, 46)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 58), accept: &[Name::I(Int::Usize, 58)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 46), accept: &[Name::I(Int::Usize, 46)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 51), accept: &[Name::I(Int::Usize, 51)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 51), accept: &[Name::I(Int::Usize, 51)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 58), accept: &[Name::I(Int::Usize, 58)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 58), accept: &[Name::I(Int::Usize, 58)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S2),
    dec: dti::decs!(S2),
};

#[derive(Encode, Decode)]
#[musli(tag(value = 36, type = u8))]
#[musli(content(value = 62, type = u8))]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(transparent)]
    ReplyTo {
        value: S2,
    },
    Request {
        #[musli(bytes)]
        first_name: [u8; 3],
        #[musli(mode = Odd, name = 40427976875)]
        b2b: String,
        r#type: Option<u32>,
    },
    #[musli(transparent)]
    VeryLongName(
        u8,
    ),
}

impl Model for E3 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { value: dti::get(&f[0]) },
            1 => Self::Request { first_name: dti::get(&f[0]), b2b: dti::get(&f[1]), r#type: dti::get(&f[2]) },
            _ => Self::VeryLongName(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request { first_name: v0, b2b: v1, r#type: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::VeryLongName(v0) => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E3: Def = Def {
    name: "E3",
    source: r###"#[musli(tag(value = 36, type = u8))]
#[musli(content(value = 62, type = u8))]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(transparent)]
    ReplyTo {
        value: S2,
    },
    Request {
        #[musli(bytes)]
        first_name: [u8; 3],
        #[musli(mode = Odd, name = 40427976875)]
        b2b: String,
        r#type: Option<u32>,
    },
    #[musli(transparent)]
    VeryLongName(
        u8,
    ),
}
"###,
    shapes: &[&[Ty::Rec(&DEF_S2)], &[Ty::Arr(&Ty::Int(Int::U8), 3), Ty::Str, Ty::Opt(&Ty::Int(Int::U32))], &[Ty::Int(Int::U8)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 36), Name::I(Int::U8, 62), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 36), Name::I(Int::U8, 62), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 36), Name::I(Int::U8, 62), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 36), Name::I(Int::U8, 62), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 36), Name::I(Int::U8, 62), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 40427976875), accept: &[Name::I(Int::Usize, 40427976875)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 36), Name::I(Int::U8, 62), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 40427976875), accept: &[Name::I(Int::Usize, 40427976875)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E3),
    dec: dti::decs!(E3),
};

#[derive(Encode, Decode)]
#[musli(tag = 31)]
#[musli(mode = Odd)]
pub enum E4 {
    #[musli(Binary, decode_only, pattern = (0 | 332))]
    #[musli(Text, name = "two words19")]
    #[musli(name(type = usize))]
    X {
        last_seen_at: i32,
    },
    #[musli(name(type = usize))]
    FirstVariant {
        #[musli(Text, pattern = 0..=4)]
        #[musli(encode_only, skip_encoding_if = dti::blank)]
        data: Vec<u32>,
    },
    #[musli(transparent)]
    Alpha {
        value: S2,
    },
}

impl Model for E4 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X { last_seen_at: dti::get(&f[0]) },
            1 => Self::FirstVariant { data: dti::get(&f[0]) },
            _ => Self::Alpha { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X { last_seen_at: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::FirstVariant { data: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::Alpha { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E4: Def = Def {
    name: "E4",
    source: r###"#[musli(tag = 31)]
#[musli(mode = Odd)]
pub enum E4 {
    #[musli(Binary, decode_only, pattern = (0 | 332))]
    #[musli(Text, name = "two words19")]
    #[musli(name(type = usize))]
    X {
        last_seen_at: i32,
    },
    #[musli(name(type = usize))]
    FirstVariant {
        #[musli(Text, pattern = 0..=4)]
        #[musli(encode_only, skip_encoding_if = dti::blank)]
        data: Vec<u32>,
    },
    #[musli(transparent)]
    Alpha {
        value: S2,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::I32)], &[Ty::Seq(&Ty::Int(Int::U32))], &[Ty::Rec(&DEF_S2)]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 31), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 31), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 332)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 31), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("two words19"), accept: &[Name::S("two words19")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 31), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("two words19"), accept: &[Name::S("two words19")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 31), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 31), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E4),
    dec: dti::decs!(E4),
};

#[derive(Encode, Decode)]
#[musli(Binary, name_all = "name")]
#[musli(mode = Odd)]
pub enum E5 {
    #[musli(Binary, name = "alpha15", pattern = ("alpha15" | "3"))]
    FirstVariant,
    #[musli(default)]
    Empty,
}

impl Model for E5 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant,
            _ => Self::Empty,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant => dti::rec(0, vec![]),
            Self::Empty => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E5: Def = Def {
    name: "E5",
    source: r###"#[musli(Binary, name_all = "name")]
#[musli(mode = Odd)]
pub enum E5 {
    #[musli(Binary, name = "alpha15", pattern = ("alpha15" | "3"))]
    FirstVariant,
    #[musli(default)]
    Empty,
}
"###,
    shapes: &[&[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("alpha15"), accept: &[Name::S("alpha15"), Name::S("3")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("alpha15"), accept: &[Name::S("alpha15"), Name::S("3")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E5),
    dec: dti::decs!(E5),
};

#[derive(Encode, Decode)]
#[musli(name_all = "camelCase", content(value = dti::Tag(64), type = dti::Tag))]
#[musli(tag(value = dti::Tag(37), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E6 {
    #[musli(name = "0")]
    #[musli(mode = Odd, name = "x.y")]
    Request {
        #[musli(Binary, decode_only, pattern = 0)]
        #[musli(default = dti::special, skip)]
        kind: Vec<i64>,
    },
    #[musli(name = "type2")]
    #[musli(name(type = u64))]
    #[musli(Binary, name = "back\\slash11", name(type = u64))]
    Empty {
        #[musli(Text, name = 430309088463004727)]
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = 452660539402472365)]
        #[musli(Binary, name = 11)]
        value: i16,
        #[musli(Binary, skip)]
        #[musli(mode = Odd, decode_only, pattern = 653282032565249371)]
        #[musli(name = 653282032565249371)]
        #[musli(default = dti::special)]
        flag: String,
    },
}

impl Model for E6 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request { kind: dti::get(&f[0]) },
            _ => Self::Empty { value: dti::get(&f[0]), flag: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request { kind: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Empty { value: v0, flag: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E6: Def = Def {
    name: "E6",
    source: r###"#[musli(name_all = "camelCase", content(value = dti::Tag(64), type = dti::Tag))]
#[musli(tag(value = dti::Tag(37), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E6 {
    #[musli(name = "0")]
    #[musli(mode = Odd, name = "x.y")]
    Request {
        #[musli(Binary, decode_only, pattern = 0)]
        #[musli(default = dti::special, skip)]
        kind: Vec<i64>,
    },
    #[musli(name = "type2")]
    #[musli(name(type = u64))]
    #[musli(Binary, name = "back\\slash11", name(type = u64))]
    Empty {
        #[musli(Text, name = 430309088463004727)]
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = 452660539402472365)]
        #[musli(Binary, name = 11)]
        value: i16,
        #[musli(Binary, skip)]
        #[musli(mode = Odd, decode_only, pattern = 653282032565249371)]
        #[musli(name = 653282032565249371)]
        #[musli(default = dti::special)]
        flag: String,
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::I64))], &[Ty::Int(Int::I16), Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 37), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<Vec<i64>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("back\\slash11"), accept: &[Name::S("back\\slash11")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 11), accept: &[Name::I(Int::U64, 11)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 653282032565249371), accept: &[Name::I(Int::U64, 653282032565249371)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 37), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<Vec<i64>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("back\\slash11"), accept: &[Name::S("back\\slash11")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 11), accept: &[Name::I(Int::U64, 11)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 653282032565249371), accept: &[Name::I(Int::U64, 653282032565249371)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 37), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: true, default: Dflt::Path(dti::special_val::<Vec<i64>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 430309088463004727), accept: &[Name::I(Int::U64, 430309088463004727)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 653282032565249371), accept: &[Name::I(Int::U64, 653282032565249371)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 37), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: true, default: Dflt::Path(dti::special_val::<Vec<i64>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 430309088463004727), accept: &[Name::I(Int::U64, 430309088463004727)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 653282032565249371), accept: &[Name::I(Int::U64, 653282032565249371)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 37), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("x.y"), accept: &[Name::S("x.y")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<Vec<i64>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 452660539402472365), accept: &[Name::I(Int::U64, 452660539402472365)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 653282032565249371), accept: &[Name::I(Int::U64, 653282032565249371)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 37), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("x.y"), accept: &[Name::S("x.y")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<Vec<i64>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 452660539402472365), accept: &[Name::I(Int::U64, 452660539402472365)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 653282032565249371), accept: &[Name::I(Int::U64, 653282032565249371)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E6),
    dec: dti::decs!(E6),
};

#[derive(Encode, Decode)]
#[musli(encode_only, packed)]
#[musli(mode = Odd)]
#[repr(C)]
pub struct S7 {
    #[musli(Binary, with = dti::as_str)]
    pub the_long_one: u32,
    #[musli(encode_only, skip)]
    #[musli(default = dti::special)]
    pub y: String,
}

impl Model for S7 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { the_long_one: dti::get(&f[0]), y: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { the_long_one: v0, y: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S7: Def = Def {
    name: "S7",
    source: r###"#[musli(encode_only, packed)]
#[musli(mode = Odd)]
#[repr(C)]
pub struct S7 {
    #[musli(Binary, with = dti::as_str)]
    pub the_long_one: u32,
    #[musli(encode_only, skip)]
    #[musli(default = dti::special)]
    pub y: String,
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S7),
    dec: dti::decs!(S7),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E8 {
    Other(
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        #[musli(Binary, skip_encoding_if = dti::blank)]
        usize,
        #[musli(mode = Odd, pattern = (1 | 10 | 63))]
        String,
        #[musli(mode = Odd, name = 14)]
        E5,
    ),
    Request(
        #[musli(default = dti::special)]
        Vec<String>,
        S7,
    ),
    #[musli(transparent)]
    Empty {
        value: S0,
    },
}

impl Model for E8 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
            1 => Self::Request(dti::get(&f[0]), dti::get(&f[1])),
            _ => Self::Empty { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other(v0, v1, v2) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Request(v0, v1) => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::Empty { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E8: Def = Def {
    name: "E8",
    source: r###"#[musli(mode = Odd)]
pub enum E8 {
    Other(
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        #[musli(Binary, skip_encoding_if = dti::blank)]
        usize,
        #[musli(mode = Odd, pattern = (1 | 10 | 63))]
        String,
        #[musli(mode = Odd, name = 14)]
        E5,
    ),
    Request(
        #[musli(default = dti::special)]
        Vec<String>,
        S7,
    ),
    #[musli(transparent)]
    Empty {
        value: S0,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::Usize), Ty::Str, Ty::Rec(&DEF_E5)], &[Ty::Seq(&Ty::Str), Ty::Rec(&DEF_S7)], &[Ty::Rec(&DEF_S0)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 10), Name::I(Int::Usize, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 14), accept: &[Name::I(Int::Usize, 14)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 10), Name::I(Int::Usize, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 14), accept: &[Name::I(Int::Usize, 14)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E8),
    dec: dti::decs!(E8),
};

#[derive(Encode, Decode)]
#[musli(name_all = "snake_case")]
#[musli(mode = Odd)]
#[musli(Binary, name_all = "kebab-case")]
pub struct S9<T> {
    #[musli(Text, name = "émile1")]
    pub first_name: Option<T>,
    #[musli(mode = Odd, pattern = "name")]
    pub name: Option<u32>,
    #[musli(Text, bytes)]
    #[musli(bytes)]
    pub data: Vec<u8>,
    #[musli(Binary, decode_only, pattern = ("items" | "type2"))]
    #[musli(Text, trace)]
    #[musli(default)]
    pub items: BTreeMap<String, u32>,
    pub age: E8,
    pub y: Vec<i8>,
}

impl Model for S9<u32> {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { first_name: dti::get(&f[0]), name: dti::get(&f[1]), data: dti::get(&f[2]), items: dti::get(&f[3]), age: dti::get(&f[4]), y: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { first_name: v0, name: v1, data: v2, items: v3, age: v4, y: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S9: Def = Def {
    name: "S9",
    source: r###"#[musli(name_all = "snake_case")]
#[musli(mode = Odd)]
#[musli(Binary, name_all = "kebab-case")]
pub struct S9<T> {
    #[musli(Text, name = "émile1")]
    pub first_name: Option<T>,
    #[musli(mode = Odd, pattern = "name")]
    pub name: Option<u32>,
    #[musli(Text, bytes)]
    #[musli(bytes)]
    pub data: Vec<u8>,
    #[musli(Binary, decode_only, pattern = ("items" | "type2"))]
    #[musli(Text, trace)]
    #[musli(default)]
    pub items: BTreeMap<String, u32>,
    pub age: E8,
    pub y: Vec<i8>,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Int(Int::U32)), Ty::Opt(&Ty::Int(Int::U32)), Ty::Seq(&Ty::Int(Int::U8)), Ty::Map(&Ty::Int(Int::U32)), Ty::Rec(&DEF_E8), Ty::Seq(&Ty::Int(Int::I8))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("first-name"), accept: &[Name::S("first-name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("first-name"), accept: &[Name::S("first-name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("items"), accept: &[Name::S("items"), Name::S("type2")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("émile1"), accept: &[Name::S("émile1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("émile1"), accept: &[Name::S("émile1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S9<u32>),
    dec: dti::decs!(S9<u32>),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(untagged)]
#[musli(Binary, untagged)]
pub enum E10 {
    #[musli(transparent)]
    #[musli(Binary, pattern = 0)]
    Request {
        value: bool,
    },
    #[musli(transparent)]
    ReplyTo {
        value: u32,
    },
    #[musli(transparent)]
    Alpha {
        value: String,
    },
    VeryLongName {
        b2b: i32,
        #[musli(bytes)]
        last_seen_at: Vec<u8>,
        #[musli(mode = Odd, name = 413213636844)]
        #[musli(Binary, decode_only, pattern = 2..=6)]
        items: u32,
    },
}

impl Model for E10 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request { value: dti::get(&f[0]) },
            1 => Self::ReplyTo { value: dti::get(&f[0]) },
            2 => Self::Alpha { value: dti::get(&f[0]) },
            _ => Self::VeryLongName { b2b: dti::get(&f[0]), last_seen_at: dti::get(&f[1]), items: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::ReplyTo { value: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::Alpha { value: v0 } => dti::rec(2, vec![v0.to_val()]),
            Self::VeryLongName { b2b: v0, last_seen_at: v1, items: v2 } => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E10: Def = Def {
    name: "E10",
    source: r###"#[musli(mode = Odd)]
#[musli(untagged)]
#[musli(Binary, untagged)]
pub enum E10 {
    #[musli(transparent)]
    #[musli(Binary, pattern = 0)]
    Request {
        value: bool,
    },
    #[musli(transparent)]
    ReplyTo {
        value: u32,
    },
    #[musli(transparent)]
    Alpha {
        value: String,
    },
    VeryLongName {
        b2b: i32,
        #[musli(bytes)]
        last_seen_at: Vec<u8>,
        #[musli(mode = Odd, name = 413213636844)]
        #[musli(Binary, decode_only, pattern = 2..=6)]
        items: u32,
    },
}
"###,
    shapes: &[&[Ty::Bool], &[Ty::Int(Int::U32)], &[Ty::Str], &[Ty::Int(Int::I32), Ty::Seq(&Ty::Int(Int::U8)), Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 413213636844), accept: &[Name::I(Int::Usize, 413213636844)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::I(Int::Usize, 413213636844), accept: &[Name::I(Int::Usize, 413213636844)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E10),
    dec: dti::decs!(E10),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Text, tag = 34)]
#[musli(name_all = "index")]
#[musli(Text, content(value = 63))]
pub enum E11 {
    #[musli(name(type = i32))]
    Alpha(
        #[musli(mode = Odd, encode_only, name = -31398)]
        #[musli(name = -54308)]
        BTreeMap<String, String>,
        #[musli(packed)]
        #[musli(mode = Odd, packed)]
        #[musli(name = -78980)]
        (i64, bool, ),
    ),
    X {
        #[musli(mode = Odd, encode_only, skip)]
        x: i8,
        #[musli(mode = Odd, name = 7)]
        value: bool,
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Text, encode_only, default = dti::special)]
        #[musli(Text, pattern = "flag")]
        flag: u32,
        #[musli(bytes)]
        name: [u8; 2],
    },
    Request(
    ),
    VeryLongName {
        flag: u128,
    },
}

impl Model for E11 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha(dti::get(&f[0]), dti::get(&f[1])),
            1 => Self::X { x: dti::get(&f[0]), value: dti::get(&f[1]), flag: dti::get(&f[2]), name: dti::get(&f[3]) },
            2 => Self::Request(),
            _ => Self::VeryLongName { flag: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::X { x: v0, value: v1, flag: v2, name: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Request() => dti::rec(2, vec![]),
            Self::VeryLongName { flag: v0 } => dti::rec(3, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E11: Def = Def {
    name: "E11",
    source: r###"#[musli(mode = Odd)]
#[musli(Text, tag = 34)]
#[musli(name_all = "index")]
#[musli(Text, content(value = 63))]
pub enum E11 {
    #[musli(name(type = i32))]
    Alpha(
        #[musli(mode = Odd, encode_only, name = -31398)]
        #[musli(name = -54308)]
        BTreeMap<String, String>,
        #[musli(packed)]
        #[musli(mode = Odd, packed)]
        #[musli(name = -78980)]
        (i64, bool, ),
    ),
    X {
        #[musli(mode = Odd, encode_only, skip)]
        x: i8,
        #[musli(mode = Odd, name = 7)]
        value: bool,
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Text, encode_only, default = dti::special)]
        #[musli(Text, pattern = "flag")]
        flag: u32,
        #[musli(bytes)]
        name: [u8; 2],
    },
    Request(
    ),
    VeryLongName {
        flag: u128,
    },
}
"###,
    shapes: &[&[Ty::Map(&Ty::Str), Ty::Tup(&[Ty::Int(Int::I64), Ty::Bool])], &[Ty::Int(Int::I8), Ty::Bool, Ty::Int(Int::U32), Ty::Arr(&Ty::Int(Int::U8), 2)], &[], &[Ty::Int(Int::U128)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -54308), accept: &[Name::I(Int::I32, -54308)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -78980), accept: &[Name::I(Int::I32, -78980)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -54308), accept: &[Name::I(Int::I32, -54308)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -78980), accept: &[Name::I(Int::I32, -78980)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 34), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -54308), accept: &[Name::I(Int::I32, -54308)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -78980), accept: &[Name::I(Int::I32, -78980)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 34), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -54308), accept: &[Name::I(Int::I32, -54308)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -78980), accept: &[Name::I(Int::I32, -78980)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -31398), accept: &[Name::I(Int::I32, -31398)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -78980), accept: &[Name::I(Int::I32, -78980)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 7), accept: &[Name::I(Int::Usize, 7)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -54308), accept: &[Name::I(Int::I32, -54308)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -78980), accept: &[Name::I(Int::I32, -78980)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 7), accept: &[Name::I(Int::Usize, 7)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E11),
    dec: dti::decs!(E11),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S12 {
    #[musli(bytes)]
    #[musli(Text, bytes)]
    pub name: [u8; 8],
}

impl Model for S12 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { name: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { name: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S12: Def = Def {
    name: "S12",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S12 {
    #[musli(bytes)]
    #[musli(Text, bytes)]
    pub name: [u8; 8],
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Int(Int::U8), 8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
    ],
    enc: dti::encs!(S12),
    dec: dti::decs!(S12),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S13(
    #[musli(default)]
    #[musli(mode = Odd, name = 824925452812)]
    pub String,
    #[musli(Binary, pattern = (782275555694 | 275), name = 782275555694)]
    #[musli(name = 135)]
    #[musli(Text, default)]
    pub String,
    #[musli(skip, default = dti::special)]
    pub bool,
    #[musli(name = 869181930141, skip_encoding_if = dti::blank)]
    #[musli(mode = Odd, name = 141)]
    #[musli(Binary, default)]
    pub bool,
    pub i64,
);

impl Model for S13 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S13: Def = Def {
    name: "S13",
    source: r###"#[musli(mode = Odd)]
pub struct S13(
    #[musli(default)]
    #[musli(mode = Odd, name = 824925452812)]
    pub String,
    #[musli(Binary, pattern = (782275555694 | 275), name = 782275555694)]
    #[musli(name = 135)]
    #[musli(Text, default)]
    pub String,
    #[musli(skip, default = dti::special)]
    pub bool,
    #[musli(name = 869181930141, skip_encoding_if = dti::blank)]
    #[musli(mode = Odd, name = 141)]
    #[musli(Binary, default)]
    pub bool,
    pub i64,
);
"###,
    shapes: &[&[Ty::Str, Ty::Str, Ty::Bool, Ty::Bool, Ty::Int(Int::I64)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 782275555694), accept: &[Name::I(Int::Usize, 782275555694), Name::I(Int::Usize, 275)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 869181930141), accept: &[Name::I(Int::Usize, 869181930141)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 782275555694), accept: &[Name::I(Int::Usize, 782275555694), Name::I(Int::Usize, 275)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 869181930141), accept: &[Name::I(Int::Usize, 869181930141)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 135), accept: &[Name::I(Int::Usize, 135)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 869181930141), accept: &[Name::I(Int::Usize, 869181930141)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 135), accept: &[Name::I(Int::Usize, 135)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 869181930141), accept: &[Name::I(Int::Usize, 869181930141)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 824925452812), accept: &[Name::I(Int::Usize, 824925452812)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 135), accept: &[Name::I(Int::Usize, 135)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 141), accept: &[Name::I(Int::Usize, 141)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 824925452812), accept: &[Name::I(Int::Usize, 824925452812)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 135), accept: &[Name::I(Int::Usize, 135)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 141), accept: &[Name::I(Int::Usize, 141)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S13),
    dec: dti::decs!(S13),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S14 {
    #[musli(mode = Odd, name = 319)]
    #[musli(skip)]
    pub name: [u64; 3],
    #[musli(skip, default = dti::special)]
    #[musli(mode = Odd, decode_only, pattern = 1)]
    pub age: Option<String>,
    #[musli(mode = Odd, packed)]
    pub first_name: [u8; 2],
    pub id: char,
    #[musli(Text, decode_only, pattern = ("items" | "" | "back\\slash4"))]
    pub items: u64,
    #[musli(mode = Odd, name = 15)]
    #[musli(default = dti::special)]
    pub b2b: bool,
}

impl Model for S14 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { name: dti::get(&f[0]), age: dti::get(&f[1]), first_name: dti::get(&f[2]), id: dti::get(&f[3]), items: dti::get(&f[4]), b2b: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { name: v0, age: v1, first_name: v2, id: v3, items: v4, b2b: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S14: Def = Def {
    name: "S14",
    source: r###"#[musli(mode = Odd)]
pub struct S14 {
    #[musli(mode = Odd, name = 319)]
    #[musli(skip)]
    pub name: [u64; 3],
    #[musli(skip, default = dti::special)]
    #[musli(mode = Odd, decode_only, pattern = 1)]
    pub age: Option<String>,
    #[musli(mode = Odd, packed)]
    pub first_name: [u8; 2],
    pub id: char,
    #[musli(Text, decode_only, pattern = ("items" | "" | "back\\slash4"))]
    pub items: u64,
    #[musli(mode = Odd, name = 15)]
    #[musli(default = dti::special)]
    pub b2b: bool,
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Int(Int::U64), 3), Ty::Opt(&Ty::Str), Ty::Arr(&Ty::Int(Int::U8), 2), Ty::Char, Ty::Int(Int::U64), Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items"), Name::S(""), Name::S("back\\slash4")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 319), accept: &[Name::I(Int::Usize, 319)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 15), accept: &[Name::I(Int::Usize, 15)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 319), accept: &[Name::I(Int::Usize, 319)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 15), accept: &[Name::I(Int::Usize, 15)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S14),
    dec: dti::decs!(S14),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "name")]
pub enum E15 {
    Empty,
    #[musli(Text, pattern = ("Request" | "0"))]
    #[musli(Binary, name = "x.y")]
    Request,
    #[musli(Text, decode_only, pattern = ("ReplyTo" | "émile"))]
    ReplyTo,
    #[musli(name(type = u8))]
    #[musli(mode = Odd, name(type = u8))]
    B2(
    ),
}

impl Model for E15 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty,
            1 => Self::Request,
            2 => Self::ReplyTo,
            _ => Self::B2(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty => dti::rec(0, vec![]),
            Self::Request => dti::rec(1, vec![]),
            Self::ReplyTo => dti::rec(2, vec![]),
            Self::B2() => dti::rec(3, vec![]),
        }
    }
}

pub static DEF_E15: Def = Def {
    name: "E15",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "name")]
pub enum E15 {
    Empty,
    #[musli(Text, pattern = ("Request" | "0"))]
    #[musli(Binary, name = "x.y")]
    Request,
    #[musli(Text, decode_only, pattern = ("ReplyTo" | "émile"))]
    ReplyTo,
    #[musli(name(type = u8))]
    #[musli(mode = Odd, name(type = u8))]
    B2(
    ),
}
"###,
    shapes: &[&[], &[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("x.y"), accept: &[Name::S("x.y")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("x.y"), accept: &[Name::S("x.y")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request"), Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request"), Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo"), Name::S("émile")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E15),
    dec: dti::decs!(E15),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
pub struct S16(
    pub String,
    pub i32,
);

impl Model for S16 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S16: Def = Def {
    name: "S16",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
pub struct S16(
    pub String,
    pub i32,
);
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::I32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S16),
    dec: dti::decs!(S16),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, decode_only, name_all = "SCREAMING_SNAKE_CASE")]
pub enum E17 {
    ReplyTo {
        #[musli(Binary, name = 329130273614)]
        id: BTreeMap<String, String>,
        flag: usize,
        #[musli(default, skip_encoding_if = dti::blank)]
        #[musli(Text, encode_only, skip_encoding_if = dti::blank)]
        note_to_self: i8,
    },
    B2 {
        #[musli(mode = Odd, name = 279)]
        #[musli(Text, skip_encoding_if = dti::blank)]
        #[musli(Binary, encode_only, with = dti::as_str)]
        #[musli(with = dti::as_str)]
        #[musli(decode_only, default = dti::special)]
        the_long_one: u32,
        note_to_self: BTreeMap<String, S0>,
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Text, trace)]
        last_seen_at: BTreeMap<String, E11>,
    },
}

impl Model for E17 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { id: dti::get(&f[0]), flag: dti::get(&f[1]), note_to_self: dti::get(&f[2]) },
            _ => Self::B2 { the_long_one: dti::get(&f[0]), note_to_self: dti::get(&f[1]), last_seen_at: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { id: v0, flag: v1, note_to_self: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::B2 { the_long_one: v0, note_to_self: v1, last_seen_at: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E17: Def = Def {
    name: "E17",
    source: r###"#[musli(mode = Odd, decode_only, name_all = "SCREAMING_SNAKE_CASE")]
pub enum E17 {
    ReplyTo {
        #[musli(Binary, name = 329130273614)]
        id: BTreeMap<String, String>,
        flag: usize,
        #[musli(default, skip_encoding_if = dti::blank)]
        #[musli(Text, encode_only, skip_encoding_if = dti::blank)]
        note_to_self: i8,
    },
    B2 {
        #[musli(mode = Odd, name = 279)]
        #[musli(Text, skip_encoding_if = dti::blank)]
        #[musli(Binary, encode_only, with = dti::as_str)]
        #[musli(with = dti::as_str)]
        #[musli(decode_only, default = dti::special)]
        the_long_one: u32,
        note_to_self: BTreeMap<String, S0>,
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Text, trace)]
        last_seen_at: BTreeMap<String, E11>,
    },
}
"###,
    shapes: &[&[Ty::Map(&Ty::Str), Ty::Int(Int::Usize), Ty::Int(Int::I8)], &[Ty::Int(Int::U32), Ty::Map(&Ty::Rec(&DEF_S0)), Ty::Map(&Ty::Rec(&DEF_E11))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 329130273614), accept: &[Name::I(Int::Usize, 329130273614)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 329130273614), accept: &[Name::I(Int::Usize, 329130273614)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::With },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 279), accept: &[Name::I(Int::Usize, 279)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY_TO"), accept: &[Name::S("REPLY_TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 279), accept: &[Name::I(Int::Usize, 279)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E17),
    dec: dti::decs!(E17),
};

#[derive(Encode, Decode)]
#[musli(Text, tag = 32)]
#[musli(mode = Odd)]
pub enum E18 {
    #[musli(Text, name(type = usize))]
    Other {
        #[musli(Text, pattern = 0)]
        flag: bool,
        last_seen_at: S13,
        #[musli(Binary, name = 373)]
        #[musli(skip)]
        y: u32,
        #[musli(Binary, pattern = (3..=7 | 331))]
        value: i64,
    },
    #[musli(default)]
    #[musli(Text, name(type = usize), name = "alpha")]
    Alpha {
    },
    #[musli(Text, name(type = usize))]
    #[musli(Text, pattern = ("VeryLongName" | "10" | ""))]
    VeryLongName {
        flag: u32,
    },
}

impl Model for E18 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other { flag: dti::get(&f[0]), last_seen_at: dti::get(&f[1]), y: dti::get(&f[2]), value: dti::get(&f[3]) },
            1 => Self::Alpha {  },
            _ => Self::VeryLongName { flag: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other { flag: v0, last_seen_at: v1, y: v2, value: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Alpha {  } => dti::rec(1, vec![]),
            Self::VeryLongName { flag: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E18: Def = Def {
    name: "E18",
    source: r###"#[musli(Text, tag = 32)]
#[musli(mode = Odd)]
pub enum E18 {
    #[musli(Text, name(type = usize))]
    Other {
        #[musli(Text, pattern = 0)]
        flag: bool,
        last_seen_at: S13,
        #[musli(Binary, name = 373)]
        #[musli(skip)]
        y: u32,
        #[musli(Binary, pattern = (3..=7 | 331))]
        value: i64,
    },
    #[musli(default)]
    #[musli(Text, name(type = usize), name = "alpha")]
    Alpha {
    },
    #[musli(Text, name(type = usize))]
    #[musli(Text, pattern = ("VeryLongName" | "10" | ""))]
    VeryLongName {
        flag: u32,
    },
}
"###,
    shapes: &[&[Ty::Bool, Ty::Rec(&DEF_S13), Ty::Int(Int::U32), Ty::Int(Int::I64)], &[], &[Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 373), accept: &[Name::I(Int::Usize, 373)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 7), Name::I(Int::Usize, 331)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 373), accept: &[Name::I(Int::Usize, 373)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 7), Name::I(Int::Usize, 331)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName"), Name::S("10"), Name::S("")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName"), Name::S("10"), Name::S("")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E18),
    dec: dti::decs!(E18),
};

#[derive(Encode, Decode)]
#[musli(Binary, encode_only, content(value = "c", type = str), tag(value = "tag"))]
#[musli(mode = Odd)]
pub enum E19 {
    Other,
    #[musli(Text, decode_only, pattern = "VeryLongName")]
    VeryLongName {
        x: E1,
        value: String,
        #[musli(Text, name = "")]
        last_seen_at: usize,
    },
}

impl Model for E19 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other,
            _ => Self::VeryLongName { x: dti::get(&f[0]), value: dti::get(&f[1]), last_seen_at: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other => dti::rec(0, vec![]),
            Self::VeryLongName { x: v0, value: v1, last_seen_at: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E19: Def = Def {
    name: "E19",
    source: r###"#[musli(Binary, encode_only, content(value = "c", type = str), tag(value = "tag"))]
#[musli(mode = Odd)]
pub enum E19 {
    Other,
    #[musli(Text, decode_only, pattern = "VeryLongName")]
    VeryLongName {
        x: E1,
        value: String,
        #[musli(Text, name = "")]
        last_seen_at: usize,
    },
}
"###,
    shapes: &[&[], &[Ty::Rec(&DEF_E1), Ty::Str, Ty::Int(Int::Usize)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E19),
    dec: dti::decs!(E19),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E20 {
    #[musli(transparent)]
    Request {
        value: (bool, ),
    },
    #[musli(mode = Odd, name = 357)]
    #[musli(name_all = "PascalCase", name(type = str, method = "unsized"))]
    B2 {
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        #[musli(Binary, name = "a longer name than any other one here0")]
        #[musli(Text, pattern = ("Kind" | "back\\slash"))]
        #[musli(mode = Odd, default = dti::special)]
        kind: String,
        x: u16,
    },
    #[musli(mode = Odd, name = 46)]
    VeryLongName {
    },
}

impl Model for E20 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request { value: dti::get(&f[0]) },
            1 => Self::B2 { kind: dti::get(&f[0]), x: dti::get(&f[1]) },
            _ => Self::VeryLongName {  },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::B2 { kind: v0, x: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::VeryLongName {  } => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E20: Def = Def {
    name: "E20",
    source: r###"#[musli(mode = Odd)]
pub enum E20 {
    #[musli(transparent)]
    Request {
        value: (bool, ),
    },
    #[musli(mode = Odd, name = 357)]
    #[musli(name_all = "PascalCase", name(type = str, method = "unsized"))]
    B2 {
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        #[musli(Binary, name = "a longer name than any other one here0")]
        #[musli(Text, pattern = ("Kind" | "back\\slash"))]
        #[musli(mode = Odd, default = dti::special)]
        kind: String,
        x: u16,
    },
    #[musli(mode = Odd, name = 46)]
    VeryLongName {
    },
}
"###,
    shapes: &[&[Ty::Tup(&[Ty::Bool])], &[Ty::Str, Ty::Int(Int::U16)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here0"), accept: &[Name::S("a longer name than any other one here0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("X"), accept: &[Name::S("X")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here0"), accept: &[Name::S("a longer name than any other one here0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("X"), accept: &[Name::S("X")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind"), Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("X"), accept: &[Name::S("X")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind"), Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("X"), accept: &[Name::S("X")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 357), accept: &[Name::I(Int::Usize, 357)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("X"), accept: &[Name::S("X")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 46), accept: &[Name::I(Int::Usize, 46)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 357), accept: &[Name::I(Int::Usize, 357)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("X"), accept: &[Name::S("X")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 46), accept: &[Name::I(Int::Usize, 46)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E20),
    dec: dti::decs!(E20),
};

#[derive(Encode, Decode)]
#[musli(name(type = u64))]
#[musli(mode = Odd)]
pub struct S21 {
    #[musli(Binary, name = 52)]
    #[musli(Text, name = 73)]
    #[musli(mode = Odd, name = 547139817218368814)]
    pub b2b: E11,
    #[musli(name = 854685387768254688, bytes)]
    #[musli(Binary, pattern = (854685387768254688 | 12))]
    pub age: [u8; 2],
}

impl Model for S21 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { b2b: dti::get(&f[0]), age: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { b2b: v0, age: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S21: Def = Def {
    name: "S21",
    source: r###"#[musli(name(type = u64))]
#[musli(mode = Odd)]
pub struct S21 {
    #[musli(Binary, name = 52)]
    #[musli(Text, name = 73)]
    #[musli(mode = Odd, name = 547139817218368814)]
    pub b2b: E11,
    #[musli(name = 854685387768254688, bytes)]
    #[musli(Binary, pattern = (854685387768254688 | 12))]
    pub age: [u8; 2],
}
"###,
    shapes: &[&[Ty::Rec(&DEF_E11), Ty::Arr(&Ty::Int(Int::U8), 2)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 52), accept: &[Name::I(Int::U64, 52)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 854685387768254688), accept: &[Name::I(Int::U64, 854685387768254688), Name::I(Int::U64, 12)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 52), accept: &[Name::I(Int::U64, 52)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 854685387768254688), accept: &[Name::I(Int::U64, 854685387768254688), Name::I(Int::U64, 12)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 73), accept: &[Name::I(Int::U64, 73)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 854685387768254688), accept: &[Name::I(Int::U64, 854685387768254688)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 73), accept: &[Name::I(Int::U64, 73)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 854685387768254688), accept: &[Name::I(Int::U64, 854685387768254688)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 547139817218368814), accept: &[Name::I(Int::U64, 547139817218368814)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 854685387768254688), accept: &[Name::I(Int::U64, 854685387768254688)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 547139817218368814), accept: &[Name::I(Int::U64, 547139817218368814)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 854685387768254688), accept: &[Name::I(Int::U64, 854685387768254688)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
    ],
    enc: dti::encs!(S21),
    dec: dti::decs!(S21),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S22 {
    #[musli(default = dti::special)]
    #[musli(Text, default)]
    pub y: i8,
}

impl Model for S22 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { y: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { y: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S22: Def = Def {
    name: "S22",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S22 {
    #[musli(default = dti::special)]
    #[musli(Text, default)]
    pub y: i8,
}
"###,
    shapes: &[&[Ty::Int(Int::I8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S22),
    dec: dti::decs!(S22),
};

#[derive(Encode, Decode)]
#[musli(name(type = u8))]
#[musli(mode = Odd, name(type = u8), tag = "type")]
#[musli(mode = Odd, content = "content of")]
pub enum E23 {
    #[musli(name = 153)]
    X {
        #[musli(Binary, pattern = (0 | 261953017945))]
        kind: E18,
        #[musli(Text, skip_encoding_if = dti::blank)]
        #[musli(Binary, name = 64)]
        flag: String,
        #[musli(default)]
        #[musli(Binary, decode_only, pattern = (2 | 383 | 360707915591))]
        age: bool,
        the_long_one: E20,
    },
    #[musli(name = 214)]
    FirstVariant(
        (),
    ),
    #[musli(Text, encode_only, name(type = usize))]
    #[musli(mode = Odd, name = 0)]
    #[musli(Binary, name = 14)]
    #[musli(Text, name = 74)]
    B2(
        #[musli(mode = Odd, decode_only, pattern = (0 | 724461472384 | 974356458229))]
        char,
        #[musli(Binary, pattern = 1)]
        u32,
    ),
}

impl Model for E23 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X { kind: dti::get(&f[0]), flag: dti::get(&f[1]), age: dti::get(&f[2]), the_long_one: dti::get(&f[3]) },
            1 => Self::FirstVariant(dti::get(&f[0])),
            _ => Self::B2(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X { kind: v0, flag: v1, age: v2, the_long_one: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::FirstVariant(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::B2(v0, v1) => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E23: Def = Def {
    name: "E23",
    source: r###"#[musli(name(type = u8))]
#[musli(mode = Odd, name(type = u8), tag = "type")]
#[musli(mode = Odd, content = "content of")]
pub enum E23 {
    #[musli(name = 153)]
    X {
        #[musli(Binary, pattern = (0 | 261953017945))]
        kind: E18,
        #[musli(Text, skip_encoding_if = dti::blank)]
        #[musli(Binary, name = 64)]
        flag: String,
        #[musli(default)]
        #[musli(Binary, decode_only, pattern = (2 | 383 | 360707915591))]
        age: bool,
        the_long_one: E20,
    },
    #[musli(name = 214)]
    FirstVariant(
        (),
    ),
    #[musli(Text, encode_only, name(type = usize))]
    #[musli(mode = Odd, name = 0)]
    #[musli(Binary, name = 14)]
    #[musli(Text, name = 74)]
    B2(
        #[musli(mode = Odd, decode_only, pattern = (0 | 724461472384 | 974356458229))]
        char,
        #[musli(Binary, pattern = 1)]
        u32,
    ),
}
"###,
    shapes: &[&[Ty::Rec(&DEF_E18), Ty::Str, Ty::Bool, Ty::Rec(&DEF_E20)], &[Ty::Unit], &[Ty::Char, Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 153), accept: &[Name::I(Int::U8, 153)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 261953017945)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 64), accept: &[Name::I(Int::Usize, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 214), accept: &[Name::I(Int::U8, 214)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 14), accept: &[Name::I(Int::U8, 14)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 153), accept: &[Name::I(Int::U8, 153)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 261953017945)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 64), accept: &[Name::I(Int::Usize, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 383), Name::I(Int::Usize, 360707915591)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 214), accept: &[Name::I(Int::U8, 214)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 14), accept: &[Name::I(Int::U8, 14)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 153), accept: &[Name::I(Int::U8, 153)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 214), accept: &[Name::I(Int::U8, 214)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 74), accept: &[Name::I(Int::U8, 74)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 153), accept: &[Name::I(Int::U8, 153)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 214), accept: &[Name::I(Int::U8, 214)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 74), accept: &[Name::I(Int::U8, 74)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("content of"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 153), accept: &[Name::I(Int::U8, 153)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 214), accept: &[Name::I(Int::U8, 214)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 0), accept: &[Name::I(Int::U8, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("content of"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 153), accept: &[Name::I(Int::U8, 153)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 214), accept: &[Name::I(Int::U8, 214)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 0), accept: &[Name::I(Int::U8, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 724461472384), Name::I(Int::Usize, 974356458229)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E23),
    dec: dti::decs!(E23),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag(value = "type"), content = "c")]
pub enum E24 {
    #[musli(transparent)]
    FirstVariant {
        value: S2,
    },
    #[musli(Binary, decode_only, pattern = 28..=32)]
    #[musli(Binary, name = 28)]
    #[musli(Text, encode_only, name_all = "name")]
    VeryLongName {
        #[musli(Text, pattern = "b2b")]
        b2b: u32,
        the_long_one: Option<u32>,
        #[musli(skip_encoding_if = Vec::is_empty)]
        #[musli(Text, default, skip_encoding_if = Vec::is_empty)]
        items: Vec<u16>,
        #[musli(default = dti::special)]
        #[musli(Binary, name = 543308017071)]
        x: Option<u16>,
    },
    #[musli(Text, decode_only, pattern = ("Empty" | "a longer name than any other one here13" | "0"))]
    #[musli(default)]
    #[musli(Binary, name = 459778151854)]
    #[musli(Text, encode_only, default)]
    Empty,
}

impl Model for E24 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { value: dti::get(&f[0]) },
            1 => Self::VeryLongName { b2b: dti::get(&f[0]), the_long_one: dti::get(&f[1]), items: dti::get(&f[2]), x: dti::get(&f[3]) },
            _ => Self::Empty,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::VeryLongName { b2b: v0, the_long_one: v1, items: v2, x: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Empty => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E24: Def = Def {
    name: "E24",
    source: r###"#[musli(mode = Odd)]
#[musli(tag(value = "type"), content = "c")]
pub enum E24 {
    #[musli(transparent)]
    FirstVariant {
        value: S2,
    },
    #[musli(Binary, decode_only, pattern = 28..=32)]
    #[musli(Binary, name = 28)]
    #[musli(Text, encode_only, name_all = "name")]
    VeryLongName {
        #[musli(Text, pattern = "b2b")]
        b2b: u32,
        the_long_one: Option<u32>,
        #[musli(skip_encoding_if = Vec::is_empty)]
        #[musli(Text, default, skip_encoding_if = Vec::is_empty)]
        items: Vec<u16>,
        #[musli(default = dti::special)]
        #[musli(Binary, name = 543308017071)]
        x: Option<u16>,
    },
    #[musli(Text, decode_only, pattern = ("Empty" | "a longer name than any other one here13" | "0"))]
    #[musli(default)]
    #[musli(Binary, name = 459778151854)]
    #[musli(Text, encode_only, default)]
    Empty,
}
"###,
    shapes: &[&[Ty::Rec(&DEF_S2)], &[Ty::Int(Int::U32), Ty::Opt(&Ty::Int(Int::U32)), Ty::Seq(&Ty::Int(Int::U16)), Ty::Opt(&Ty::Int(Int::U16))], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 28), accept: &[Name::I(Int::Usize, 28)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 543308017071), accept: &[Name::I(Int::Usize, 543308017071)], skip: false, default: Dflt::Path(dti::special_val::<Option<u16>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 459778151854), accept: &[Name::I(Int::Usize, 459778151854)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 28), accept: &[Name::I(Int::Usize, 28), Name::I(Int::Usize, 29), Name::I(Int::Usize, 30), Name::I(Int::Usize, 31), Name::I(Int::Usize, 32)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 543308017071), accept: &[Name::I(Int::Usize, 543308017071)], skip: false, default: Dflt::Path(dti::special_val::<Option<u16>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 459778151854), accept: &[Name::I(Int::Usize, 459778151854)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Path(dti::special_val::<Option<u16>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Path(dti::special_val::<Option<u16>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty"), Name::S("a longer name than any other one here13"), Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<u16>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<u16>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E24),
    dec: dti::decs!(E24),
};

#[derive(Encode, Decode)]
#[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub struct S25(
    #[musli(Binary, decode_only, skip)]
    #[musli(skip, default = dti::special, name = b"k x36")]
    pub usize,
    #[musli(name = b"key48")]
    pub u32,
);

impl Model for S25 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S25: Def = Def {
    name: "S25",
    source: r###"#[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub struct S25(
    #[musli(Binary, decode_only, skip)]
    #[musli(skip, default = dti::special, name = b"k x36")]
    pub usize,
    #[musli(name = b"key48")]
    pub u32,
);
"###,
    shapes: &[&[Ty::Int(Int::Usize), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x36"), accept: &[Name::B(b"k x36")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S25),
    dec: dti::decs!(S25),
};

#[derive(Encode, Decode)]
#[musli(untagged)]
#[musli(Text, untagged)]
#[musli(mode = Odd)]
pub enum E26 {
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    ReplyTo {
        #[musli(name = b"k x21")]
        name: bool,
    },
    #[musli(transparent)]
    Request(
        u32,
    ),
}

impl Model for E26 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { name: dti::get(&f[0]) },
            _ => Self::Request(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { name: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request(v0) => dti::rec(1, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E26: Def = Def {
    name: "E26",
    source: r###"#[musli(untagged)]
#[musli(Text, untagged)]
#[musli(mode = Odd)]
pub enum E26 {
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    ReplyTo {
        #[musli(name = b"k x21")]
        name: bool,
    },
    #[musli(transparent)]
    Request(
        u32,
    ),
}
"###,
    shapes: &[&[Ty::Bool], &[Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x21"), accept: &[Name::B(b"k x21")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x21"), accept: &[Name::B(b"k x21")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x21"), accept: &[Name::B(b"k x21")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x21"), accept: &[Name::B(b"k x21")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x21"), accept: &[Name::B(b"k x21")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x21"), accept: &[Name::B(b"k x21")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E26),
    dec: dti::decs!(E26),
};

#[derive(Encode, Decode)]
#[musli(transparent)]
#[musli(mode = Odd)]
pub struct S27 {
    #[musli(Text, default)]
    #[musli(packed)]
    #[musli(default)]
    pub note_to_self: [i16; 4],
}

impl Model for S27 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { note_to_self: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { note_to_self: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S27: Def = Def {
    name: "S27",
    source: r###"#[musli(transparent)]
#[musli(mode = Odd)]
pub struct S27 {
    #[musli(Text, default)]
    #[musli(packed)]
    #[musli(default)]
    pub note_to_self: [i16; 4],
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Int(Int::I16), 4)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
    ],
    enc: dti::encs!(S27),
    dec: dti::decs!(S27),
};

#[derive(Encode, Decode)]
#[musli(encode_only, name(type = u8))]
#[musli(mode = Odd)]
pub enum E28 {
    #[musli(Text, encode_only, name = 4)]
    #[musli(Binary, encode_only, name = 234)]
    #[musli(mode = Odd, encode_only, name = 5)]
    FirstVariant,
    #[musli(Text, encode_only, name = 1)]
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    #[musli(Binary, encode_only, name = 6)]
    #[musli(mode = Odd, encode_only, name = 53)]
    #[musli(mode = Odd, name_all = "name")]
    VeryLongName(
        #[musli(name = "q\"uote")]
        String,
        #[musli(mode = Odd, default)]
        #[musli(encode_only, with = dti::as_str)]
        #[musli(default = dti::special, name = "019", skip_encoding_if = dti::blank)]
        u32,
        #[musli(mode = Odd, skip)]
        #[musli(name = "émile16")]
        [u8; 0],
    ),
    #[musli(mode = Odd, encode_only, name = 7)]
    #[musli(name_all = "name")]
    #[musli(Text, encode_only, name = 164)]
    #[musli(Binary, encode_only, name = 240)]
    Empty(
    ),
}

impl Model for E28 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant,
            1 => Self::VeryLongName(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
            _ => Self::Empty(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant => dti::rec(0, vec![]),
            Self::VeryLongName(v0, v1, v2) => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Empty() => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E28: Def = Def {
    name: "E28",
    source: r###"#[musli(encode_only, name(type = u8))]
#[musli(mode = Odd)]
pub enum E28 {
    #[musli(Text, encode_only, name = 4)]
    #[musli(Binary, encode_only, name = 234)]
    #[musli(mode = Odd, encode_only, name = 5)]
    FirstVariant,
    #[musli(Text, encode_only, name = 1)]
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    #[musli(Binary, encode_only, name = 6)]
    #[musli(mode = Odd, encode_only, name = 53)]
    #[musli(mode = Odd, name_all = "name")]
    VeryLongName(
        #[musli(name = "q\"uote")]
        String,
        #[musli(mode = Odd, default)]
        #[musli(encode_only, with = dti::as_str)]
        #[musli(default = dti::special, name = "019", skip_encoding_if = dti::blank)]
        u32,
        #[musli(mode = Odd, skip)]
        #[musli(name = "émile16")]
        [u8; 0],
    ),
    #[musli(mode = Odd, encode_only, name = 7)]
    #[musli(name_all = "name")]
    #[musli(Text, encode_only, name = 164)]
    #[musli(Binary, encode_only, name = 240)]
    Empty(
    ),
}
"###,
    shapes: &[&[], &[Ty::Str, Ty::Int(Int::U32), Ty::Arr(&Ty::Int(Int::U8), 0)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 234), accept: &[Name::I(Int::U8, 234)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("019"), accept: &[Name::S("019")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::With },
                    Field { name: Name::S("émile16"), accept: &[Name::S("émile16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 240), accept: &[Name::I(Int::U8, 240)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("019"), accept: &[Name::S("019")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("émile16"), accept: &[Name::S("émile16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 4), accept: &[Name::I(Int::U8, 4)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("019"), accept: &[Name::S("019")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::With },
                    Field { name: Name::S("émile16"), accept: &[Name::S("émile16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 164), accept: &[Name::I(Int::U8, 164)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("019"), accept: &[Name::S("019")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("émile16"), accept: &[Name::S("émile16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 5), accept: &[Name::I(Int::U8, 5)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 53), accept: &[Name::I(Int::U8, 53)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("019"), accept: &[Name::S("019")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::With },
                    Field { name: Name::S("émile16"), accept: &[Name::S("émile16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 7), accept: &[Name::I(Int::U8, 7)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("019"), accept: &[Name::S("019")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("émile16"), accept: &[Name::S("émile16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E28),
    dec: dti::decs!(E28),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(decode_only, name_all = "PascalCase")]
pub struct S29(
    #[musli(mode = Odd, decode_only, name = "x.y19")]
    #[musli(Text, decode_only, name = "17")]
    #[musli(Binary, decode_only, name = "émile")]
    pub bool,
    #[musli(Text, decode_only, name = "a longer name than any other one here3")]
    #[musli(Text, skip)]
    #[musli(default = dti::special, skip)]
    #[musli(mode = Odd, decode_only, name = "a longer name than any other one here")]
    #[musli(Binary, decode_only, name = "")]
    pub String,
    #[musli(default = dti::special)]
    #[musli(mode = Odd, decode_only, name = "alpha")]
    #[musli(mode = Odd, default = dti::special)]
    #[musli(Binary, decode_only, name = "back\\slash17")]
    #[musli(Text, decode_only, name = "x.y")]
    pub Vec<u32>,
);

impl Model for S29 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S29: Def = Def {
    name: "S29",
    source: r###"#[musli(mode = Odd)]
#[musli(decode_only, name_all = "PascalCase")]
pub struct S29(
    #[musli(mode = Odd, decode_only, name = "x.y19")]
    #[musli(Text, decode_only, name = "17")]
    #[musli(Binary, decode_only, name = "émile")]
    pub bool,
    #[musli(Text, decode_only, name = "a longer name than any other one here3")]
    #[musli(Text, skip)]
    #[musli(default = dti::special, skip)]
    #[musli(mode = Odd, decode_only, name = "a longer name than any other one here")]
    #[musli(Binary, decode_only, name = "")]
    pub String,
    #[musli(default = dti::special)]
    #[musli(mode = Odd, decode_only, name = "alpha")]
    #[musli(mode = Odd, default = dti::special)]
    #[musli(Binary, decode_only, name = "back\\slash17")]
    #[musli(Text, decode_only, name = "x.y")]
    pub Vec<u32>,
);
"###,
    shapes: &[&[Ty::Bool, Ty::Str, Ty::Seq(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash17"), accept: &[Name::S("back\\slash17")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here3"), accept: &[Name::S("a longer name than any other one here3")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x.y19"), accept: &[Name::S("x.y19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S29),
    dec: dti::decs!(S29),
};

pub static DEFS: &[&Def] = &[
    &DEF_S0,
    &DEF_E1,
    &DEF_S2,
    &DEF_E3,
    &DEF_E4,
    &DEF_E5,
    &DEF_E6,
    &DEF_S7,
    &DEF_E8,
    &DEF_S9,
    &DEF_E10,
    &DEF_E11,
    &DEF_S12,
    &DEF_S13,
    &DEF_S14,
    &DEF_E15,
    &DEF_S16,
    &DEF_E17,
    &DEF_E18,
    &DEF_E19,
    &DEF_E20,
    &DEF_S21,
    &DEF_S22,
    &DEF_E23,
    &DEF_E24,
    &DEF_S25,
    &DEF_E26,
    &DEF_S27,
    &DEF_E28,
    &DEF_S29,
];

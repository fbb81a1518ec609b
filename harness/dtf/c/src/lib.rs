//! Generated by tools/gen_derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use std::collections::BTreeMap;

use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag = "tag")]
pub enum E0 {
    #[musli(name_all = "kebab-case")]
    #[musli(Text, decode_only, pattern = "Other")]
    Other {
        #[musli(name = "017")]
        #[musli(Text, name = "0")]
        #[musli(skip)]
        #[musli(mode = Odd, pattern = ("017" | "two words19"))]
        first_name: (),
        #[musli(skip_encoding_if = dti::blank, default = dti::special)]
        #[musli(Text, skip_encoding_if = dti::blank)]
        b2b: bool,
        #[musli(packed)]
        note_to_self: [i64; 0],
    },
    #[musli(Text, pattern = "X")]
    #[musli(Binary, default)]
    #[musli(default, name(type = str))]
    X(
    ),
}

impl Model for E0 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other { first_name: dti::get(&f[0]), b2b: dti::get(&f[1]), note_to_self: dti::get(&f[2]) },
            _ => Self::X(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other { first_name: v0, b2b: v1, note_to_self: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::X() => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E0: Def = Def {
    name: "E0",
    source: r###"#[musli(mode = Odd)]
#[musli(tag = "tag")]
pub enum E0 {
    #[musli(name_all = "kebab-case")]
    #[musli(Text, decode_only, pattern = "Other")]
    Other {
        #[musli(name = "017")]
        #[musli(Text, name = "0")]
        #[musli(skip)]
        #[musli(mode = Odd, pattern = ("017" | "two words19"))]
        first_name: (),
        #[musli(skip_encoding_if = dti::blank, default = dti::special)]
        #[musli(Text, skip_encoding_if = dti::blank)]
        b2b: bool,
        #[musli(packed)]
        note_to_self: [i64; 0],
    },
    #[musli(Text, pattern = "X")]
    #[musli(Binary, default)]
    #[musli(default, name(type = str))]
    X(
    ),
}
"###,
    shapes: &[&[Ty::Unit, Ty::Bool, Ty::Arr(&Ty::Int(Int::I64), 0)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("017"), accept: &[Name::S("017")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note-to-self"), accept: &[Name::S("note-to-self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("017"), accept: &[Name::S("017")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note-to-self"), accept: &[Name::S("note-to-self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("0"), accept: &[Name::S("0")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note-to-self"), accept: &[Name::S("note-to-self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("0"), accept: &[Name::S("0")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note-to-self"), accept: &[Name::S("note-to-self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("017"), accept: &[Name::S("017"), Name::S("two words19")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note-to-self"), accept: &[Name::S("note-to-self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("017"), accept: &[Name::S("017"), Name::S("two words19")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note-to-self"), accept: &[Name::S("note-to-self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E0),
    dec: dti::decs!(E0),
};

#[derive(Encode, Decode)]
#[musli(Binary, encode_only, name_all = "snake_case")]
#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct S1(
    #[musli(Text, skip_encoding_if = dti::blank)]
    #[musli(skip_encoding_if = dti::blank, name = "017")]
    pub bool,
    #[musli(Binary, name = "17")]
    #[musli(mode = Odd, name = "alpha")]
    #[musli(Text, name = "émile3")]
    pub u32,
    #[musli(name = "two words")]
    #[musli(Binary, bytes)]
    pub Vec<u8>,
    #[musli(name = "a longer name than any other one here18")]
    pub Option<u32>,
    #[musli(Binary, decode_only, pattern = "émile")]
    #[musli(name = "émile", default)]
    #[musli(Text, skip_encoding_if = Option::is_none)]
    pub Option<E0>,
);

impl Model for S1 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S1: Def = Def {
    name: "S1",
    source: r###"#[musli(Binary, encode_only, name_all = "snake_case")]
#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct S1(
    #[musli(Text, skip_encoding_if = dti::blank)]
    #[musli(skip_encoding_if = dti::blank, name = "017")]
    pub bool,
    #[musli(Binary, name = "17")]
    #[musli(mode = Odd, name = "alpha")]
    #[musli(Text, name = "émile3")]
    pub u32,
    #[musli(name = "two words")]
    #[musli(Binary, bytes)]
    pub Vec<u8>,
    #[musli(name = "a longer name than any other one here18")]
    pub Option<u32>,
    #[musli(Binary, decode_only, pattern = "émile")]
    #[musli(name = "émile", default)]
    #[musli(Text, skip_encoding_if = Option::is_none)]
    pub Option<E0>,
);
"###,
    shapes: &[&[Ty::Bool, Ty::Int(Int::U32), Ty::Seq(&Ty::Int(Int::U8)), Ty::Opt(&Ty::Int(Int::U32)), Ty::Opt(&Ty::Rec(&DEF_E0))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("017"), accept: &[Name::S("017")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("017"), accept: &[Name::S("017")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("017"), accept: &[Name::S("017")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("017"), accept: &[Name::S("017")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("017"), accept: &[Name::S("017")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("017"), accept: &[Name::S("017")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S1),
    dec: dti::decs!(S1),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, tag(value = dti::Tag(35), type = dti::Tag))]
pub enum E2 {
    #[musli(mode = Odd, name(type = dti::Tag))]
    VeryLongName {
        #[musli(mode = Odd, name = dti::Tag(4))]
        first_name: String,
        #[musli(encode_only, default = dti::special)]
        #[musli(mode = Odd, name = dti::Tag(23))]
        #[musli(Text, decode_only, pattern = ("the_long_one" | "q\"uote5"))]
        the_long_one: u8,
        #[musli(with = dti::as_str, skip)]
        #[musli(mode = Odd, name = dti::Tag(24))]
        flag: u32,
    },
    #[musli(Text, name = "two words10")]
    Alpha,
}

impl Model for E2 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { first_name: dti::get(&f[0]), the_long_one: dti::get(&f[1]), flag: dti::get(&f[2]) },
            _ => Self::Alpha,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { first_name: v0, the_long_one: v1, flag: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Alpha => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E2: Def = Def {
    name: "E2",
    source: r###"#[musli(mode = Odd, tag(value = dti::Tag(35), type = dti::Tag))]
pub enum E2 {
    #[musli(mode = Odd, name(type = dti::Tag))]
    VeryLongName {
        #[musli(mode = Odd, name = dti::Tag(4))]
        first_name: String,
        #[musli(encode_only, default = dti::special)]
        #[musli(mode = Odd, name = dti::Tag(23))]
        #[musli(Text, decode_only, pattern = ("the_long_one" | "q\"uote5"))]
        the_long_one: u8,
        #[musli(with = dti::as_str, skip)]
        #[musli(mode = Odd, name = dti::Tag(24))]
        flag: u32,
    },
    #[musli(Text, name = "two words10")]
    Alpha,
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::U8), Ty::Int(Int::U32)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::S("two words10"), accept: &[Name::S("two words10")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one"), Name::S("q\"uote5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::S("two words10"), accept: &[Name::S("two words10")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 35), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 4), accept: &[Name::I(Int::U16, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 23), accept: &[Name::I(Int::U16, 23)], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 24), accept: &[Name::I(Int::U16, 24)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 35), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 4), accept: &[Name::I(Int::U16, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 23), accept: &[Name::I(Int::U16, 23)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 24), accept: &[Name::I(Int::U16, 24)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E2),
    dec: dti::decs!(E2),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name(type = u8))]
#[musli(name(type = u8))]
pub enum E3 {
    #[musli(Binary, name = 171)]
    #[musli(mode = Odd, name = 66)]
    #[musli(Text, name = 63)]
    #[musli(Binary, decode_only, pattern = (171 | 41 | 223))]
    ReplyTo {
        flag: u16,
        #[musli(Binary, name = 33)]
        #[musli(Binary, decode_only, pattern = (33 | 275 | 17))]
        b2b: (),
        #[musli(Text, decode_only, default = dti::special)]
        y: Vec<String>,
        id: [u8; 4],
    },
    #[musli(name = 144)]
    #[musli(default)]
    X,
    #[musli(name = 1, transparent)]
    B2(
        Option<S1>,
    ),
}

impl Model for E3 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { flag: dti::get(&f[0]), b2b: dti::get(&f[1]), y: dti::get(&f[2]), id: dti::get(&f[3]) },
            1 => Self::X,
            _ => Self::B2(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { flag: v0, b2b: v1, y: v2, id: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::X => dti::rec(1, vec![]),
            Self::B2(v0) => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E3: Def = Def {
    name: "E3",
    source: r###"#[musli(mode = Odd, name(type = u8))]
#[musli(name(type = u8))]
pub enum E3 {
    #[musli(Binary, name = 171)]
    #[musli(mode = Odd, name = 66)]
    #[musli(Text, name = 63)]
    #[musli(Binary, decode_only, pattern = (171 | 41 | 223))]
    ReplyTo {
        flag: u16,
        #[musli(Binary, name = 33)]
        #[musli(Binary, decode_only, pattern = (33 | 275 | 17))]
        b2b: (),
        #[musli(Text, decode_only, default = dti::special)]
        y: Vec<String>,
        id: [u8; 4],
    },
    #[musli(name = 144)]
    #[musli(default)]
    X,
    #[musli(name = 1, transparent)]
    B2(
        Option<S1>,
    ),
}
"###,
    shapes: &[&[Ty::Int(Int::U16), Ty::Unit, Ty::Seq(&Ty::Str), Ty::Arr(&Ty::Int(Int::U8), 4)], &[], &[Ty::Opt(&Ty::Rec(&DEF_S1))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::U8, 171), accept: &[Name::I(Int::U8, 171)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 33), accept: &[Name::I(Int::Usize, 33)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 144), accept: &[Name::I(Int::U8, 144)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::U8, 171), accept: &[Name::I(Int::U8, 171), Name::I(Int::U8, 41), Name::I(Int::U8, 223)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 33), accept: &[Name::I(Int::Usize, 33), Name::I(Int::Usize, 275), Name::I(Int::Usize, 17)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 144), accept: &[Name::I(Int::U8, 144)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::U8, 63), accept: &[Name::I(Int::U8, 63)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 144), accept: &[Name::I(Int::U8, 144)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::U8, 63), accept: &[Name::I(Int::U8, 63)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 144), accept: &[Name::I(Int::U8, 144)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::U8, 66), accept: &[Name::I(Int::U8, 66)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 144), accept: &[Name::I(Int::U8, 144)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U8), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::U8, 66), accept: &[Name::I(Int::U8, 66)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 144), accept: &[Name::I(Int::U8, 144)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U8, 1), accept: &[Name::I(Int::U8, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E3),
    dec: dti::decs!(E3),
};

#[derive(Encode, Decode)]
#[musli(tag = 35, content = 63)]
#[musli(mode = Odd)]
pub enum E4 {
    #[musli(transparent)]
    Other {
        #[musli(default = dti::special)]
        #[musli(Binary, default)]
        value: Vec<String>,
    },
    #[musli(Binary, decode_only, name_all = "PascalCase")]
    VeryLongName(
        #[musli(Binary, decode_only, name = "back\\slash16")]
        String,
        #[musli(Binary, decode_only, name = "q\"uote")]
        Vec<u128>,
        #[musli(Binary, decode_only, name = "a longer name than any other one here7")]
        #[musli(trace)]
        BTreeMap<String, u128>,
    ),
}

impl Model for E4 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other { value: dti::get(&f[0]) },
            _ => Self::VeryLongName(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::VeryLongName(v0, v1, v2) => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E4: Def = Def {
    name: "E4",
    source: r###"#[musli(tag = 35, content = 63)]
#[musli(mode = Odd)]
pub enum E4 {
    #[musli(transparent)]
    Other {
        #[musli(default = dti::special)]
        #[musli(Binary, default)]
        value: Vec<String>,
    },
    #[musli(Binary, decode_only, name_all = "PascalCase")]
    VeryLongName(
        #[musli(Binary, decode_only, name = "back\\slash16")]
        String,
        #[musli(Binary, decode_only, name = "q\"uote")]
        Vec<u128>,
        #[musli(Binary, decode_only, name = "a longer name than any other one here7")]
        #[musli(trace)]
        BTreeMap<String, u128>,
    ),
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Str)], &[Ty::Str, Ty::Seq(&Ty::Int(Int::U128)), Ty::Map(&Ty::Int(Int::U128))]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash16"), accept: &[Name::S("back\\slash16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("a longer name than any other one here7"), accept: &[Name::S("a longer name than any other one here7")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 63), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E4),
    dec: dti::decs!(E4),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = i32))]
pub enum E5 {
    #[musli(mode = Odd, encode_only, name = 19)]
    #[musli(name = -2)]
    Alpha,
    #[musli(name_all = "name")]
    #[musli(default, name = -4148)]
    #[musli(Binary, encode_only, default)]
    X(
    ),
    #[musli(mode = Odd, name = -17545)]
    #[musli(Binary, name = -56340)]
    #[musli(Text, name = -16989)]
    Empty,
}

impl Model for E5 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha,
            1 => Self::X(),
            _ => Self::Empty,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha => dti::rec(0, vec![]),
            Self::X() => dti::rec(1, vec![]),
            Self::Empty => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E5: Def = Def {
    name: "E5",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = i32))]
pub enum E5 {
    #[musli(mode = Odd, encode_only, name = 19)]
    #[musli(name = -2)]
    Alpha,
    #[musli(name_all = "name")]
    #[musli(default, name = -4148)]
    #[musli(Binary, encode_only, default)]
    X(
    ),
    #[musli(mode = Odd, name = -17545)]
    #[musli(Binary, name = -56340)]
    #[musli(Text, name = -16989)]
    Empty,
}
"###,
    shapes: &[&[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::I32), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::I32, -4148), accept: &[Name::I(Int::I32, -4148)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::I32, -56340), accept: &[Name::I(Int::I32, -56340)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::I32), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::I32, -4148), accept: &[Name::I(Int::I32, -4148)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::I32, -56340), accept: &[Name::I(Int::I32, -56340)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::I32), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::I32, -4148), accept: &[Name::I(Int::I32, -4148)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::I32, -16989), accept: &[Name::I(Int::I32, -16989)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::I32), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::I32, -4148), accept: &[Name::I(Int::I32, -4148)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::I32, -16989), accept: &[Name::I(Int::I32, -16989)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::I32), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::I32, 19), accept: &[Name::I(Int::I32, 19)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::I32, -4148), accept: &[Name::I(Int::I32, -4148)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::I32, -17545), accept: &[Name::I(Int::I32, -17545)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::I32), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::I32, -4148), accept: &[Name::I(Int::I32, -4148)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::I32, -17545), accept: &[Name::I(Int::I32, -17545)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E5),
    dec: dti::decs!(E5),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S6 {
    #[musli(mode = Odd, encode_only, trace)]
    #[musli(skip)]
    pub y: BTreeMap<String, E5>,
    #[musli(default = dti::special, skip)]
    pub data: u32,
    #[musli(encode_only, packed)]
    pub first_name: [u64; 3],
}

impl Model for S6 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { y: dti::get(&f[0]), data: dti::get(&f[1]), first_name: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { y: v0, data: v1, first_name: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S6: Def = Def {
    name: "S6",
    source: r###"#[musli(mode = Odd)]
pub struct S6 {
    #[musli(mode = Odd, encode_only, trace)]
    #[musli(skip)]
    pub y: BTreeMap<String, E5>,
    #[musli(default = dti::special, skip)]
    pub data: u32,
    #[musli(encode_only, packed)]
    pub first_name: [u64; 3],
}
"###,
    shapes: &[&[Ty::Map(&Ty::Rec(&DEF_E5)), Ty::Int(Int::U32), Ty::Arr(&Ty::Int(Int::U64), 3)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S6),
    dec: dti::decs!(S6),
};

#[derive(Encode, Decode)]
#[musli(untagged)]
#[musli(mode = Odd)]
pub enum E7 {
    Alpha {
        the_long_one: u32,
        y: u128,
    },
    #[musli(transparent)]
    VeryLongName {
        value: bool,
    },
    #[musli(transparent)]
    Request(
        i32,
    ),
    #[musli(transparent)]
    ReplyTo(
        Vec<u16>,
    ),
}

impl Model for E7 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha { the_long_one: dti::get(&f[0]), y: dti::get(&f[1]) },
            1 => Self::VeryLongName { value: dti::get(&f[0]) },
            2 => Self::Request(dti::get(&f[0])),
            _ => Self::ReplyTo(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha { the_long_one: v0, y: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::VeryLongName { value: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::Request(v0) => dti::rec(2, vec![v0.to_val()]),
            Self::ReplyTo(v0) => dti::rec(3, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E7: Def = Def {
    name: "E7",
    source: r###"#[musli(untagged)]
#[musli(mode = Odd)]
pub enum E7 {
    Alpha {
        the_long_one: u32,
        y: u128,
    },
    #[musli(transparent)]
    VeryLongName {
        value: bool,
    },
    #[musli(transparent)]
    Request(
        i32,
    ),
    #[musli(transparent)]
    ReplyTo(
        Vec<u16>,
    ),
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::U128)], &[Ty::Bool], &[Ty::Int(Int::I32)], &[Ty::Seq(&Ty::Int(Int::U16))]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E7),
    dec: dti::decs!(E7),
};

#[derive(Encode, Decode)]
#[musli(packed)]
#[musli(mode = Odd)]
pub struct S8 {
    pub id: char,
    pub the_long_one: String,
}

impl Model for S8 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { id: dti::get(&f[0]), the_long_one: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { id: v0, the_long_one: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S8: Def = Def {
    name: "S8",
    source: r###"#[musli(packed)]
#[musli(mode = Odd)]
pub struct S8 {
    pub id: char,
    pub the_long_one: String,
}
"###,
    shapes: &[&[Ty::Char, Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S8),
    dec: dti::decs!(S8),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S9 {
    pub age: String,
    #[musli(Binary, name = 170)]
    #[musli(mode = Odd, decode_only, pattern = (1 | 27 | 345))]
    pub items: [u8; 3],
    #[musli(Text, pattern = ("type" | "alpha"))]
    pub r#type: Vec<S1>,
    #[musli(Binary, name = 239303590918)]
    #[musli(Text, default)]
    pub b2b: u32,
    #[musli(default, skip_encoding_if = dti::blank)]
    #[musli(Binary, pattern = (4..=8 | 280 | 131))]
    #[musli(Text, default = dti::special)]
    pub the_long_one: u8,
}

impl Model for S9 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { age: dti::get(&f[0]), items: dti::get(&f[1]), r#type: dti::get(&f[2]), b2b: dti::get(&f[3]), the_long_one: dti::get(&f[4]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { age: v0, items: v1, r#type: v2, b2b: v3, the_long_one: v4 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S9: Def = Def {
    name: "S9",
    source: r###"#[musli(mode = Odd)]
pub struct S9 {
    pub age: String,
    #[musli(Binary, name = 170)]
    #[musli(mode = Odd, decode_only, pattern = (1 | 27 | 345))]
    pub items: [u8; 3],
    #[musli(Text, pattern = ("type" | "alpha"))]
    pub r#type: Vec<S1>,
    #[musli(Binary, name = 239303590918)]
    #[musli(Text, default)]
    pub b2b: u32,
    #[musli(default, skip_encoding_if = dti::blank)]
    #[musli(Binary, pattern = (4..=8 | 280 | 131))]
    #[musli(Text, default = dti::special)]
    pub the_long_one: u8,
}
"###,
    shapes: &[&[Ty::Str, Ty::Arr(&Ty::Int(Int::U8), 3), Ty::Seq(&Ty::Rec(&DEF_S1)), Ty::Int(Int::U32), Ty::Int(Int::U8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 170), accept: &[Name::I(Int::Usize, 170)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 239303590918), accept: &[Name::I(Int::Usize, 239303590918)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 7), Name::I(Int::Usize, 8), Name::I(Int::Usize, 280), Name::I(Int::Usize, 131)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 170), accept: &[Name::I(Int::Usize, 170)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 239303590918), accept: &[Name::I(Int::Usize, 239303590918)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 7), Name::I(Int::Usize, 8), Name::I(Int::Usize, 280), Name::I(Int::Usize, 131)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type"), Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type"), Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 27), Name::I(Int::Usize, 345)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S9),
    dec: dti::decs!(S9),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Text, content(value = "data"), tag(value = "t", type = str))]
#[musli(name_all = "index")]
pub enum E10 {
    #[musli(transparent)]
    Request {
        #[musli(mode = Odd, bytes)]
        value: [u8; 8],
    },
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    ReplyTo(
        #[musli(Binary, name = b"key5")]
        #[musli(mode = Odd, name = b"key47")]
        #[musli(Text, name = b"k1")]
        Vec<u32>,
        #[musli(name = b"k35")]
        S1,
    ),
    B2 {
        #[musli(mode = Odd, default = dti::special)]
        #[musli(skip_encoding_if = Vec::is_empty)]
        #[musli(mode = Odd, encode_only, skip_encoding_if = Vec::is_empty)]
        age: Vec<u32>,
        #[musli(skip)]
        first_name: bool,
        #[musli(mode = Odd, decode_only, pattern = 2..=6)]
        items: u32,
    },
}

impl Model for E10 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request { value: dti::get(&f[0]) },
            1 => Self::ReplyTo(dti::get(&f[0]), dti::get(&f[1])),
            _ => Self::B2 { age: dti::get(&f[0]), first_name: dti::get(&f[1]), items: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::ReplyTo(v0, v1) => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::B2 { age: v0, first_name: v1, items: v2 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E10: Def = Def {
    name: "E10",
    source: r###"#[musli(mode = Odd)]
#[musli(Text, content(value = "data"), tag(value = "t", type = str))]
#[musli(name_all = "index")]
pub enum E10 {
    #[musli(transparent)]
    Request {
        #[musli(mode = Odd, bytes)]
        value: [u8; 8],
    },
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    ReplyTo(
        #[musli(Binary, name = b"key5")]
        #[musli(mode = Odd, name = b"key47")]
        #[musli(Text, name = b"k1")]
        Vec<u32>,
        #[musli(name = b"k35")]
        S1,
    ),
    B2 {
        #[musli(mode = Odd, default = dti::special)]
        #[musli(skip_encoding_if = Vec::is_empty)]
        #[musli(mode = Odd, encode_only, skip_encoding_if = Vec::is_empty)]
        age: Vec<u32>,
        #[musli(skip)]
        first_name: bool,
        #[musli(mode = Odd, decode_only, pattern = 2..=6)]
        items: u32,
    },
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Int(Int::U8), 8)], &[Ty::Seq(&Ty::Int(Int::U32)), Ty::Rec(&DEF_S1)], &[Ty::Seq(&Ty::Int(Int::U32)), Ty::Bool, Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key5"), accept: &[Name::B(b"key5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key5"), accept: &[Name::B(b"key5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k1"), accept: &[Name::B(b"k1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k1"), accept: &[Name::B(b"k1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key47"), accept: &[Name::B(b"key47")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key47"), accept: &[Name::B(b"key47")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E10),
    dec: dti::decs!(E10),
};

#[derive(Encode, Decode)]
#[musli(transparent)]
#[musli(mode = Odd)]
pub struct S11 {
    pub data: u8,
}

impl Model for S11 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { data: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { data: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S11: Def = Def {
    name: "S11",
    source: r###"#[musli(transparent)]
#[musli(mode = Odd)]
pub struct S11 {
    pub data: u8,
}
"###,
    shapes: &[&[Ty::Int(Int::U8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S11),
    dec: dti::decs!(S11),
};

#[derive(Encode, Decode)]
#[musli(name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub struct S12(
    #[musli(Binary, name = b"k x16")]
    #[musli(default = dti::special, skip)]
    #[musli(Text, name = b"k5")]
    #[musli(Text, decode_only, pattern = (b"k5" | b"k x23"))]
    #[musli(mode = Odd, name = b"key12")]
    pub i32,
    #[musli(name = b"k16")]
    pub S9,
    #[musli(name = b"k x2")]
    pub String,
    #[musli(name = b"k x19")]
    #[musli(Text, decode_only, name = b"k40")]
    pub u16,
);

impl Model for S12 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S12: Def = Def {
    name: "S12",
    source: r###"#[musli(name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub struct S12(
    #[musli(Binary, name = b"k x16")]
    #[musli(default = dti::special, skip)]
    #[musli(Text, name = b"k5")]
    #[musli(Text, decode_only, pattern = (b"k5" | b"k x23"))]
    #[musli(mode = Odd, name = b"key12")]
    pub i32,
    #[musli(name = b"k16")]
    pub S9,
    #[musli(name = b"k x2")]
    pub String,
    #[musli(name = b"k x19")]
    #[musli(Text, decode_only, name = b"k40")]
    pub u16,
);
"###,
    shapes: &[&[Ty::Int(Int::I32), Ty::Rec(&DEF_S9), Ty::Str, Ty::Int(Int::U16)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k16"), accept: &[Name::B(b"k16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x2"), accept: &[Name::B(b"k x2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x19"), accept: &[Name::B(b"k x19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k16"), accept: &[Name::B(b"k16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x2"), accept: &[Name::B(b"k x2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x19"), accept: &[Name::B(b"k x19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k5"), accept: &[Name::B(b"k5")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k16"), accept: &[Name::B(b"k16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x2"), accept: &[Name::B(b"k x2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x19"), accept: &[Name::B(b"k x19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k5"), accept: &[Name::B(b"k5"), Name::B(b"k x23")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k16"), accept: &[Name::B(b"k16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x2"), accept: &[Name::B(b"k x2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k40"), accept: &[Name::B(b"k40")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key12"), accept: &[Name::B(b"key12")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k16"), accept: &[Name::B(b"k16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x2"), accept: &[Name::B(b"k x2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x19"), accept: &[Name::B(b"k x19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key12"), accept: &[Name::B(b"key12")], skip: true, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k16"), accept: &[Name::B(b"k16")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x2"), accept: &[Name::B(b"k x2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x19"), accept: &[Name::B(b"k x19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S12),
    dec: dti::decs!(S12),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = u8), content = "c")]
#[musli(tag = "type")]
pub enum E13 {
    #[musli(name = 192, name(type = dti::Tag))]
    #[musli(mode = Odd, decode_only, pattern = (192..=196 | 62))]
    #[musli(Binary, encode_only, name = 79)]
    X(
        #[musli(name = dti::Tag(77))]
        bool,
    ),
    #[musli(mode = Odd, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(name = 2)]
    FirstVariant {
        #[musli(Text, pattern = ("note_to_self" | "émile0" | "émile"))]
        #[musli(Binary, name = 904245561753)]
        #[musli(decode_only, with = dti::as_str)]
        note_to_self: u32,
        #[musli(bytes)]
        #[musli(Text, name = "back\\slash")]
        #[musli(Binary, decode_only, skip)]
        data: Vec<u8>,
    },
}

impl Model for E13 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X(dti::get(&f[0])),
            _ => Self::FirstVariant { note_to_self: dti::get(&f[0]), data: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::FirstVariant { note_to_self: v0, data: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E13: Def = Def {
    name: "E13",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = u8), content = "c")]
#[musli(tag = "type")]
pub enum E13 {
    #[musli(name = 192, name(type = dti::Tag))]
    #[musli(mode = Odd, decode_only, pattern = (192..=196 | 62))]
    #[musli(Binary, encode_only, name = 79)]
    X(
        #[musli(name = dti::Tag(77))]
        bool,
    ),
    #[musli(mode = Odd, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(name = 2)]
    FirstVariant {
        #[musli(Text, pattern = ("note_to_self" | "émile0" | "émile"))]
        #[musli(Binary, name = 904245561753)]
        #[musli(decode_only, with = dti::as_str)]
        note_to_self: u32,
        #[musli(bytes)]
        #[musli(Text, name = "back\\slash")]
        #[musli(Binary, decode_only, skip)]
        data: Vec<u8>,
    },
}
"###,
    shapes: &[&[Ty::Bool], &[Ty::Int(Int::U32), Ty::Seq(&Ty::Int(Int::U8))]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 79), accept: &[Name::I(Int::U8, 79)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 2), accept: &[Name::I(Int::U8, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 904245561753), accept: &[Name::I(Int::Usize, 904245561753)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 2), accept: &[Name::I(Int::U8, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 904245561753), accept: &[Name::I(Int::Usize, 904245561753)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 2), accept: &[Name::I(Int::U8, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self"), Name::S("émile0"), Name::S("émile")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 2), accept: &[Name::I(Int::U8, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self"), Name::S("émile0"), Name::S("émile")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 2), accept: &[Name::I(Int::U8, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("NOTE-TO-SELF"), accept: &[Name::S("NOTE-TO-SELF")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("type"), Name::S("c"), K::Str), kty: K::Int(Int::U8), fallback: None, variants: &[
                Var { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192), Name::I(Int::U8, 193), Name::I(Int::U8, 194), Name::I(Int::U8, 195), Name::I(Int::U8, 196), Name::I(Int::U8, 62)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U8, 2), accept: &[Name::I(Int::U8, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E13),
    dec: dti::decs!(E13),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S14 {
    #[musli(skip)]
    #[musli(Text, skip)]
    pub last_seen_at: String,
    pub b2b: u16,
    #[musli(Text, decode_only, with = dti::as_str)]
    pub age: u32,
    pub y: i16,
}

impl Model for S14 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { last_seen_at: dti::get(&f[0]), b2b: dti::get(&f[1]), age: dti::get(&f[2]), y: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { last_seen_at: v0, b2b: v1, age: v2, y: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S14: Def = Def {
    name: "S14",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S14 {
    #[musli(skip)]
    #[musli(Text, skip)]
    pub last_seen_at: String,
    pub b2b: u16,
    #[musli(Text, decode_only, with = dti::as_str)]
    pub age: u32,
    pub y: i16,
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::U16), Ty::Int(Int::U32), Ty::Int(Int::I16)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S14),
    dec: dti::decs!(S14),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Binary, encode_only, name_all = "kebab-case")]
#[musli(tag = 36)]
pub enum E15 {
    Request,
    #[musli(name(type = usize))]
    Empty {
        flag: S9,
        data: Option<bool>,
        kind: Vec<E13>,
    },
    #[musli(Binary, encode_only, name = "q\"uote9")]
    #[musli(name(type = usize))]
    X {
        #[musli(Binary, name = 219)]
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(default = dti::special)]
        id: u128,
        #[musli(default = dti::special)]
        b2b: i32,
    },
}

impl Model for E15 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request,
            1 => Self::Empty { flag: dti::get(&f[0]), data: dti::get(&f[1]), kind: dti::get(&f[2]) },
            _ => Self::X { id: dti::get(&f[0]), b2b: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request => dti::rec(0, vec![]),
            Self::Empty { flag: v0, data: v1, kind: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::X { id: v0, b2b: v1 } => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E15: Def = Def {
    name: "E15",
    source: r###"#[musli(mode = Odd)]
#[musli(Binary, encode_only, name_all = "kebab-case")]
#[musli(tag = 36)]
pub enum E15 {
    Request,
    #[musli(name(type = usize))]
    Empty {
        flag: S9,
        data: Option<bool>,
        kind: Vec<E13>,
    },
    #[musli(Binary, encode_only, name = "q\"uote9")]
    #[musli(name(type = usize))]
    X {
        #[musli(Binary, name = 219)]
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(default = dti::special)]
        id: u128,
        #[musli(default = dti::special)]
        b2b: i32,
    },
}
"###,
    shapes: &[&[], &[Ty::Rec(&DEF_S9), Ty::Opt(&Ty::Bool), Ty::Seq(&Ty::Rec(&DEF_E13))], &[Ty::Int(Int::U128), Ty::Int(Int::I32)]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 36), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("request"), accept: &[Name::S("request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("empty"), accept: &[Name::S("empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("q\"uote9"), accept: &[Name::S("q\"uote9")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 219), accept: &[Name::I(Int::Usize, 219)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 36), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 219), accept: &[Name::I(Int::Usize, 219)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 36), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 36), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 36), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 36), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E15),
    dec: dti::decs!(E15),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S16(
    pub u16,
    #[musli(Text, skip_encoding_if = dti::blank)]
    pub String,
    #[musli(Binary, pattern = 2)]
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub String,
    #[musli(Binary, skip)]
    #[musli(default = dti::special)]
    pub Option<String>,
    #[musli(default)]
    pub [u8; 8],
);

impl Model for S16 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S16: Def = Def {
    name: "S16",
    source: r###"#[musli(mode = Odd)]
pub struct S16(
    pub u16,
    #[musli(Text, skip_encoding_if = dti::blank)]
    pub String,
    #[musli(Binary, pattern = 2)]
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub String,
    #[musli(Binary, skip)]
    #[musli(default = dti::special)]
    pub Option<String>,
    #[musli(default)]
    pub [u8; 8],
);
"###,
    shapes: &[&[Ty::Int(Int::U16), Ty::Str, Ty::Str, Ty::Opt(&Ty::Str), Ty::Arr(&Ty::Int(Int::U8), 8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<Option<String>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S16),
    dec: dti::decs!(S16),
};

#[derive(Encode, Decode)]
#[musli(Text, name(type = dti::Tag))]
#[musli(mode = Odd)]
pub struct S17 {
    #[musli(mode = Odd, skip)]
    #[musli(Text, name = dti::Tag(0))]
    #[musli(skip)]
    pub flag: Option<bool>,
    #[musli(Text, pattern = (dti::Tag(11) | dti::Tag(37)), name = dti::Tag(11))]
    pub items: BTreeMap<String, String>,
    #[musli(Text, name = dti::Tag(79))]
    pub data: bool,
    #[musli(Text, encode_only, name = dti::Tag(30))]
    #[musli(Text, name = dti::Tag(46))]
    pub age: Option<u32>,
}

impl Model for S17 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { flag: dti::get(&f[0]), items: dti::get(&f[1]), data: dti::get(&f[2]), age: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { flag: v0, items: v1, data: v2, age: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S17: Def = Def {
    name: "S17",
    source: r###"#[musli(Text, name(type = dti::Tag))]
#[musli(mode = Odd)]
pub struct S17 {
    #[musli(mode = Odd, skip)]
    #[musli(Text, name = dti::Tag(0))]
    #[musli(skip)]
    pub flag: Option<bool>,
    #[musli(Text, pattern = (dti::Tag(11) | dti::Tag(37)), name = dti::Tag(11))]
    pub items: BTreeMap<String, String>,
    #[musli(Text, name = dti::Tag(79))]
    pub data: bool,
    #[musli(Text, encode_only, name = dti::Tag(30))]
    #[musli(Text, name = dti::Tag(46))]
    pub age: Option<u32>,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Bool), Ty::Map(&Ty::Str), Ty::Bool, Ty::Opt(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 0), accept: &[Name::I(Int::U16, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11), Name::I(Int::U16, 37)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 79), accept: &[Name::I(Int::U16, 79)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 0), accept: &[Name::I(Int::U16, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11), Name::I(Int::U16, 37)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 79), accept: &[Name::I(Int::U16, 79)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 46), accept: &[Name::I(Int::U16, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S17),
    dec: dti::decs!(S17),
};

#[derive(Encode, Decode)]
#[musli(name_all = "index")]
#[musli(mode = Odd)]
pub enum E18 {
    #[musli(Text, pattern = (0 | 25))]
    Request,
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    Alpha(
    ),
}

impl Model for E18 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request,
            _ => Self::Alpha(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request => dti::rec(0, vec![]),
            Self::Alpha() => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E18: Def = Def {
    name: "E18",
    source: r###"#[musli(name_all = "index")]
#[musli(mode = Odd)]
pub enum E18 {
    #[musli(Text, pattern = (0 | 25))]
    Request,
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    Alpha(
    ),
}
"###,
    shapes: &[&[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 25)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 25)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E18),
    dec: dti::decs!(E18),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, encode_only, name(type = usize))]
#[musli(name(type = usize))]
pub enum E19 {
    #[musli(packed)]
    X(
        String,
        u8,
        u8,
    ),
    VeryLongName(
    ),
    Other(
        #[musli(default)]
        i32,
        #[musli(mode = Odd, decode_only, pattern = (1 | 34032057838 | 292))]
        String,
    ),
}

impl Model for E19 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
            1 => Self::VeryLongName(),
            _ => Self::Other(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X(v0, v1, v2) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::VeryLongName() => dti::rec(1, vec![]),
            Self::Other(v0, v1) => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E19: Def = Def {
    name: "E19",
    source: r###"#[musli(mode = Odd, encode_only, name(type = usize))]
#[musli(name(type = usize))]
pub enum E19 {
    #[musli(packed)]
    X(
        String,
        u8,
        u8,
    ),
    VeryLongName(
    ),
    Other(
        #[musli(default)]
        i32,
        #[musli(mode = Odd, decode_only, pattern = (1 | 34032057838 | 292))]
        String,
    ),
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::U8), Ty::Int(Int::U8)], &[], &[Ty::Int(Int::I32), Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 34032057838), Name::I(Int::Usize, 292)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E19),
    dec: dti::decs!(E19),
};

#[derive(Encode, Decode)]
#[musli(Text, name_all = "snake_case")]
#[musli(mode = Odd)]
#[musli(Text, name(type = str))]
pub struct S20 {
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(Binary, name = 166)]
    pub age: i32,
    #[musli(mode = Odd, default)]
    #[musli(mode = Odd, decode_only, bytes)]
    pub r#type: [u8; 2],
    #[musli(Binary, pattern = 2)]
    pub the_long_one: String,
    pub y: i16,
    pub data: S11,
    #[musli(mode = Odd, decode_only, pattern = (5 | 62 | 326))]
    #[musli(with = dti::as_str)]
    pub value: u32,
}

impl Model for S20 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { age: dti::get(&f[0]), r#type: dti::get(&f[1]), the_long_one: dti::get(&f[2]), y: dti::get(&f[3]), data: dti::get(&f[4]), value: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { age: v0, r#type: v1, the_long_one: v2, y: v3, data: v4, value: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S20: Def = Def {
    name: "S20",
    source: r###"#[musli(Text, name_all = "snake_case")]
#[musli(mode = Odd)]
#[musli(Text, name(type = str))]
pub struct S20 {
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(Binary, name = 166)]
    pub age: i32,
    #[musli(mode = Odd, default)]
    #[musli(mode = Odd, decode_only, bytes)]
    pub r#type: [u8; 2],
    #[musli(Binary, pattern = 2)]
    pub the_long_one: String,
    pub y: i16,
    pub data: S11,
    #[musli(mode = Odd, decode_only, pattern = (5 | 62 | 326))]
    #[musli(with = dti::as_str)]
    pub value: u32,
}
"###,
    shapes: &[&[Ty::Int(Int::I32), Ty::Arr(&Ty::Int(Int::U8), 2), Ty::Str, Ty::Int(Int::I16), Ty::Rec(&DEF_S11), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 166), accept: &[Name::I(Int::Usize, 166)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 166), accept: &[Name::I(Int::Usize, 166)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5), Name::I(Int::Usize, 62), Name::I(Int::Usize, 326)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
    ],
    enc: dti::encs!(S20),
    dec: dti::decs!(S20),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, content(value = 67, type = u8))]
#[musli(mode = Odd, tag(value = 38, type = u8))]
pub enum E21 {
    #[musli(transparent)]
    #[musli(mode = Odd, decode_only, pattern = 0)]
    Empty {
        #[musli(mode = Odd, default)]
        value: BTreeMap<String, u32>,
    },
    #[musli(name(type = u64))]
    #[musli(Text, name(type = u64))]
    FirstVariant {
        #[musli(name = 63)]
        x: [char; 0],
        #[musli(default, name = 879013524119426032)]
        the_long_one: Option<i64>,
    },
}

impl Model for E21 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty { value: dti::get(&f[0]) },
            _ => Self::FirstVariant { x: dti::get(&f[0]), the_long_one: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::FirstVariant { x: v0, the_long_one: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E21: Def = Def {
    name: "E21",
    source: r###"#[musli(mode = Odd, content(value = 67, type = u8))]
#[musli(mode = Odd, tag(value = 38, type = u8))]
pub enum E21 {
    #[musli(transparent)]
    #[musli(mode = Odd, decode_only, pattern = 0)]
    Empty {
        #[musli(mode = Odd, default)]
        value: BTreeMap<String, u32>,
    },
    #[musli(name(type = u64))]
    #[musli(Text, name(type = u64))]
    FirstVariant {
        #[musli(name = 63)]
        x: [char; 0],
        #[musli(default, name = 879013524119426032)]
        the_long_one: Option<i64>,
    },
}
"###,
    shapes: &[&[Ty::Map(&Ty::Int(Int::U32))], &[Ty::Arr(&Ty::Char, 0), Ty::Opt(&Ty::Int(Int::I64))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 63), accept: &[Name::I(Int::U64, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 879013524119426032), accept: &[Name::I(Int::U64, 879013524119426032)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 63), accept: &[Name::I(Int::U64, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 879013524119426032), accept: &[Name::I(Int::U64, 879013524119426032)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 63), accept: &[Name::I(Int::U64, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 879013524119426032), accept: &[Name::I(Int::U64, 879013524119426032)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 63), accept: &[Name::I(Int::U64, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 879013524119426032), accept: &[Name::I(Int::U64, 879013524119426032)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 38), Name::I(Int::U8, 67), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 63), accept: &[Name::I(Int::U64, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 879013524119426032), accept: &[Name::I(Int::U64, 879013524119426032)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 38), Name::I(Int::U8, 67), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 63), accept: &[Name::I(Int::U64, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 879013524119426032), accept: &[Name::I(Int::U64, 879013524119426032)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E21),
    dec: dti::decs!(E21),
};

#[derive(Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Odd)]
pub enum E22 {
    #[musli(Text, decode_only, pattern = "Other")]
    Other(
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(with = dti::as_str)]
        #[musli(Binary, skip_encoding_if = dti::blank)]
        u32,
        #[musli(skip)]
        #[musli(Binary, packed)]
        (u128, i64, u16, ),
    ),
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    B2 {
        #[musli(Text, encode_only, name = b"key19")]
        #[musli(name = b"key48")]
        y: u32,
    },
    #[musli(name(type = usize))]
    ReplyTo {
        #[musli(mode = Odd, pattern = (0 | 44 | 299))]
        kind: u32,
        b2b: u8,
    },
    #[musli(Binary, pattern = ("Empty" | "back\\slash6" | "type216"))]
    Empty {
        age: Vec<i8>,
        #[musli(Text, default)]
        #[musli(Binary, name = 377)]
        #[musli(skip_encoding_if = dti::blank)]
        y: String,
        items: String,
    },
}

impl Model for E22 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other(dti::get(&f[0]), dti::get(&f[1])),
            1 => Self::B2 { y: dti::get(&f[0]) },
            2 => Self::ReplyTo { kind: dti::get(&f[0]), b2b: dti::get(&f[1]) },
            _ => Self::Empty { age: dti::get(&f[0]), y: dti::get(&f[1]), items: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::B2 { y: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::ReplyTo { kind: v0, b2b: v1 } => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
            Self::Empty { age: v0, y: v1, items: v2 } => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E22: Def = Def {
    name: "E22",
    source: r###"#[musli(name(type = str))]
#[musli(mode = Odd)]
pub enum E22 {
    #[musli(Text, decode_only, pattern = "Other")]
    Other(
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(with = dti::as_str)]
        #[musli(Binary, skip_encoding_if = dti::blank)]
        u32,
        #[musli(skip)]
        #[musli(Binary, packed)]
        (u128, i64, u16, ),
    ),
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    B2 {
        #[musli(Text, encode_only, name = b"key19")]
        #[musli(name = b"key48")]
        y: u32,
    },
    #[musli(name(type = usize))]
    ReplyTo {
        #[musli(mode = Odd, pattern = (0 | 44 | 299))]
        kind: u32,
        b2b: u8,
    },
    #[musli(Binary, pattern = ("Empty" | "back\\slash6" | "type216"))]
    Empty {
        age: Vec<i8>,
        #[musli(Text, default)]
        #[musli(Binary, name = 377)]
        #[musli(skip_encoding_if = dti::blank)]
        y: String,
        items: String,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Tup(&[Ty::Int(Int::U128), Ty::Int(Int::I64), Ty::Int(Int::U16)])], &[Ty::Int(Int::U32)], &[Ty::Int(Int::U32), Ty::Int(Int::U8)], &[Ty::Seq(&Ty::Int(Int::I8)), Ty::Str, Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty"), Name::S("back\\slash6"), Name::S("type216")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 377), accept: &[Name::I(Int::Usize, 377)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty"), Name::S("back\\slash6"), Name::S("type216")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 377), accept: &[Name::I(Int::Usize, 377)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key19"), accept: &[Name::B(b"key19")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 44), Name::I(Int::Usize, 299)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"key48"), accept: &[Name::B(b"key48")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 44), Name::I(Int::Usize, 299)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E22),
    dec: dti::decs!(E22),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, untagged)]
pub enum E23 {
    #[musli(name_all = "camelCase", name(type = str, method = "unsized"))]
    X {
        #[musli(Binary, decode_only, pattern = ("noteToSelf" | "alpha"))]
        note_to_self: Vec<String>,
        x: String,
        #[musli(default = dti::special)]
        #[musli(Text, skip_encoding_if = dti::blank)]
        name: u128,
    },
    #[musli(mode = Odd, name_all = "name")]
    VeryLongName {
        id: [u32; 3],
        #[musli(decode_only, default)]
        last_seen_at: [u64; 3],
    },
}

impl Model for E23 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X { note_to_self: dti::get(&f[0]), x: dti::get(&f[1]), name: dti::get(&f[2]) },
            _ => Self::VeryLongName { id: dti::get(&f[0]), last_seen_at: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X { note_to_self: v0, x: v1, name: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::VeryLongName { id: v0, last_seen_at: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E23: Def = Def {
    name: "E23",
    source: r###"#[musli(mode = Odd, untagged)]
pub enum E23 {
    #[musli(name_all = "camelCase", name(type = str, method = "unsized"))]
    X {
        #[musli(Binary, decode_only, pattern = ("noteToSelf" | "alpha"))]
        note_to_self: Vec<String>,
        x: String,
        #[musli(default = dti::special)]
        #[musli(Text, skip_encoding_if = dti::blank)]
        name: u128,
    },
    #[musli(mode = Odd, name_all = "name")]
    VeryLongName {
        id: [u32; 3],
        #[musli(decode_only, default)]
        last_seen_at: [u64; 3],
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Str), Ty::Str, Ty::Int(Int::U128)], &[Ty::Arr(&Ty::Int(Int::U32), 3), Ty::Arr(&Ty::Int(Int::U64), 3)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf"), Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E23),
    dec: dti::decs!(E23),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, tag(value = 33, type = u8))]
pub enum E24 {
    #[musli(mode = Odd, name(type = u8))]
    Alpha {
        #[musli(mode = Odd, name = 0)]
        #[musli(default = dti::special)]
        age: Vec<String>,
    },
    #[musli(mode = Odd, name(type = u8))]
    #[musli(Binary, decode_only, pattern = 1)]
    VeryLongName {
        #[musli(mode = Odd, name = 25)]
        #[musli(default)]
        id: u32,
    },
    #[musli(mode = Odd, name(type = u8), pattern = (2 | 316 | 44))]
    FirstVariant {
        #[musli(mode = Odd, name = 32)]
        x: String,
        #[musli(mode = Odd, decode_only, pattern = 76..=80)]
        #[musli(mode = Odd, name = 76, default = dti::special)]
        #[musli(Text, bytes)]
        the_long_one: Vec<u8>,
        #[musli(mode = Odd, name = 61)]
        flag: Option<bool>,
    },
    #[musli(mode = Odd, name(type = u8))]
    ReplyTo {
        #[musli(mode = Odd, name = 145)]
        items: Option<u32>,
        #[musli(mode = Odd, name = 40)]
        b2b: u32,
        #[musli(mode = Odd, name = 192)]
        #[musli(Text, encode_only, with = dti::as_str)]
        first_name: u32,
        #[musli(trace)]
        #[musli(mode = Odd, name = 5)]
        data: BTreeMap<String, usize>,
    },
}

impl Model for E24 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha { age: dti::get(&f[0]) },
            1 => Self::VeryLongName { id: dti::get(&f[0]) },
            2 => Self::FirstVariant { x: dti::get(&f[0]), the_long_one: dti::get(&f[1]), flag: dti::get(&f[2]) },
            _ => Self::ReplyTo { items: dti::get(&f[0]), b2b: dti::get(&f[1]), first_name: dti::get(&f[2]), data: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha { age: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::VeryLongName { id: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::FirstVariant { x: v0, the_long_one: v1, flag: v2 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::ReplyTo { items: v0, b2b: v1, first_name: v2, data: v3 } => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E24: Def = Def {
    name: "E24",
    source: r###"#[musli(mode = Odd, tag(value = 33, type = u8))]
pub enum E24 {
    #[musli(mode = Odd, name(type = u8))]
    Alpha {
        #[musli(mode = Odd, name = 0)]
        #[musli(default = dti::special)]
        age: Vec<String>,
    },
    #[musli(mode = Odd, name(type = u8))]
    #[musli(Binary, decode_only, pattern = 1)]
    VeryLongName {
        #[musli(mode = Odd, name = 25)]
        #[musli(default)]
        id: u32,
    },
    #[musli(mode = Odd, name(type = u8), pattern = (2 | 316 | 44))]
    FirstVariant {
        #[musli(mode = Odd, name = 32)]
        x: String,
        #[musli(mode = Odd, decode_only, pattern = 76..=80)]
        #[musli(mode = Odd, name = 76, default = dti::special)]
        #[musli(Text, bytes)]
        the_long_one: Vec<u8>,
        #[musli(mode = Odd, name = 61)]
        flag: Option<bool>,
    },
    #[musli(mode = Odd, name(type = u8))]
    ReplyTo {
        #[musli(mode = Odd, name = 145)]
        items: Option<u32>,
        #[musli(mode = Odd, name = 40)]
        b2b: u32,
        #[musli(mode = Odd, name = 192)]
        #[musli(Text, encode_only, with = dti::as_str)]
        first_name: u32,
        #[musli(trace)]
        #[musli(mode = Odd, name = 5)]
        data: BTreeMap<String, usize>,
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Str)], &[Ty::Int(Int::U32)], &[Ty::Str, Ty::Seq(&Ty::Int(Int::U8)), Ty::Opt(&Ty::Bool)], &[Ty::Opt(&Ty::Int(Int::U32)), Ty::Int(Int::U32), Ty::Int(Int::U32), Ty::Map(&Ty::Int(Int::Usize))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U8, 33), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 0), accept: &[Name::I(Int::U8, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 25), accept: &[Name::I(Int::U8, 25)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 316), Name::I(Int::Usize, 44)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 32), accept: &[Name::I(Int::U8, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 76), accept: &[Name::I(Int::U8, 76)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 61), accept: &[Name::I(Int::U8, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 145), accept: &[Name::I(Int::U8, 145)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 40), accept: &[Name::I(Int::U8, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 5), accept: &[Name::I(Int::U8, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U8, 33), K::Int(Int::U8)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 0), accept: &[Name::I(Int::U8, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 25), accept: &[Name::I(Int::U8, 25)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 316), Name::I(Int::Usize, 44)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 32), accept: &[Name::I(Int::U8, 32)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 76), accept: &[Name::I(Int::U8, 76), Name::I(Int::U8, 77), Name::I(Int::U8, 78), Name::I(Int::U8, 79), Name::I(Int::U8, 80)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 61), accept: &[Name::I(Int::U8, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 145), accept: &[Name::I(Int::U8, 145)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 40), accept: &[Name::I(Int::U8, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 192), accept: &[Name::I(Int::U8, 192)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 5), accept: &[Name::I(Int::U8, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E24),
    dec: dti::decs!(E24),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(content(value = 63, type = i32), tag(value = 32, type = i32))]
pub enum E25 {
    #[musli(name_all = "PascalCase")]
    #[musli(Text, name_all = "kebab-case")]
    #[musli(mode = Odd, pattern = (0 | 238 | 840223659764))]
    #[musli(Binary, name = 61)]
    VeryLongName {
        #[musli(Text, default)]
        kind: Vec<E15>,
        data: u32,
        #[musli(default = dti::special)]
        #[musli(skip)]
        the_long_one: u32,
        r#type: String,
    },
    #[musli(Binary, name = 238)]
    X {
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Binary, skip_encoding_if = dti::blank)]
        flag: bool,
    },
}

impl Model for E25 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { kind: dti::get(&f[0]), data: dti::get(&f[1]), the_long_one: dti::get(&f[2]), r#type: dti::get(&f[3]) },
            _ => Self::X { flag: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { kind: v0, data: v1, the_long_one: v2, r#type: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::X { flag: v0 } => dti::rec(1, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E25: Def = Def {
    name: "E25",
    source: r###"#[musli(mode = Odd)]
#[musli(content(value = 63, type = i32), tag(value = 32, type = i32))]
pub enum E25 {
    #[musli(name_all = "PascalCase")]
    #[musli(Text, name_all = "kebab-case")]
    #[musli(mode = Odd, pattern = (0 | 238 | 840223659764))]
    #[musli(Binary, name = 61)]
    VeryLongName {
        #[musli(Text, default)]
        kind: Vec<E15>,
        data: u32,
        #[musli(default = dti::special)]
        #[musli(skip)]
        the_long_one: u32,
        r#type: String,
    },
    #[musli(Binary, name = 238)]
    X {
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Binary, skip_encoding_if = dti::blank)]
        flag: bool,
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Rec(&DEF_E15)), Ty::Int(Int::U32), Ty::Int(Int::U32), Ty::Str], &[Ty::Bool]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 63), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 61), accept: &[Name::I(Int::Usize, 61)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("TheLongOne"), accept: &[Name::S("TheLongOne")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Type"), accept: &[Name::S("Type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 238), accept: &[Name::I(Int::Usize, 238)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 63), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 61), accept: &[Name::I(Int::Usize, 61)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("TheLongOne"), accept: &[Name::S("TheLongOne")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Type"), accept: &[Name::S("Type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 238), accept: &[Name::I(Int::Usize, 238)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 63), K::Int(Int::I32)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 63), K::Int(Int::I32)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 63), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 238), Name::I(Int::Usize, 840223659764)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("TheLongOne"), accept: &[Name::S("TheLongOne")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Type"), accept: &[Name::S("Type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 63), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 238), Name::I(Int::Usize, 840223659764)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("TheLongOne"), accept: &[Name::S("TheLongOne")], skip: true, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Type"), accept: &[Name::S("Type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E25),
    dec: dti::decs!(E25),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
pub enum E26 {
    #[musli(Binary, name = b"k8")]
    ReplyTo,
    #[musli(Text, decode_only, name(type = u64))]
    #[musli(Binary, encode_only, name = b"k34")]
    #[musli(Binary, name = b"key3")]
    B2(
        #[musli(Text, decode_only, name = 3)]
        String,
        #[musli(Text, decode_only, name = 65)]
        BTreeMap<String, S12>,
    ),
}

impl Model for E26 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo,
            _ => Self::B2(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
            Self::B2(v0, v1) => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E26: Def = Def {
    name: "E26",
    source: r###"#[musli(mode = Odd)]
#[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
pub enum E26 {
    #[musli(Binary, name = b"k8")]
    ReplyTo,
    #[musli(Text, decode_only, name(type = u64))]
    #[musli(Binary, encode_only, name = b"k34")]
    #[musli(Binary, name = b"key3")]
    B2(
        #[musli(Text, decode_only, name = 3)]
        String,
        #[musli(Text, decode_only, name = 65)]
        BTreeMap<String, S12>,
    ),
}
"###,
    shapes: &[&[], &[Ty::Str, Ty::Map(&Ty::Rec(&DEF_S12))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::B(b"k34"), accept: &[Name::B(b"k34")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::B(b"key3"), accept: &[Name::B(b"key3")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                    Field { name: Name::I(Int::U64, 3), accept: &[Name::I(Int::U64, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U64, 65), accept: &[Name::I(Int::U64, 65)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E26),
    dec: dti::decs!(E26),
};

#[derive(Encode, Decode)]
#[musli(tag = "kind of", content = "data")]
#[musli(name_all = "camelCase")]
#[musli(mode = Odd)]
pub enum E27 {
    FirstVariant(
    ),
    Alpha {
        #[musli(Text, name = "q\"uote")]
        last_seen_at: BTreeMap<String, E19>,
        #[musli(Binary, pattern = (1 | 421396726059 | 575640356820))]
        name: String,
    },
    X {
        the_long_one: bool,
    },
}

impl Model for E27 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant(),
            1 => Self::Alpha { last_seen_at: dti::get(&f[0]), name: dti::get(&f[1]) },
            _ => Self::X { the_long_one: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant() => dti::rec(0, vec![]),
            Self::Alpha { last_seen_at: v0, name: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::X { the_long_one: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E27: Def = Def {
    name: "E27",
    source: r###"#[musli(tag = "kind of", content = "data")]
#[musli(name_all = "camelCase")]
#[musli(mode = Odd)]
pub enum E27 {
    FirstVariant(
    ),
    Alpha {
        #[musli(Text, name = "q\"uote")]
        last_seen_at: BTreeMap<String, E19>,
        #[musli(Binary, pattern = (1 | 421396726059 | 575640356820))]
        name: String,
    },
    X {
        the_long_one: bool,
    },
}
"###,
    shapes: &[&[], &[Ty::Map(&Ty::Rec(&DEF_E19)), Ty::Str], &[Ty::Bool]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 421396726059), Name::I(Int::Usize, 575640356820)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 421396726059), Name::I(Int::Usize, 575640356820)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E27),
    dec: dti::decs!(E27),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S28(
    #[musli(mode = Odd, with = dti::as_str)]
    #[musli(default)]
    pub u32,
);

impl Model for S28 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0) => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S28: Def = Def {
    name: "S28",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S28(
    #[musli(mode = Odd, with = dti::as_str)]
    #[musli(default)]
    pub u32,
);
"###,
    shapes: &[&[Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::With },
            ] }),
        ],
    ],
    enc: dti::encs!(S28),
    dec: dti::decs!(S28),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Binary, decode_only, name_all = "index")]
pub struct S29(
    pub u32,
    #[musli(packed)]
    #[musli(Binary, default)]
    pub (u8, i32, u32, ),
    #[musli(skip)]
    pub i8,
);

impl Model for S29 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S29: Def = Def {
    name: "S29",
    source: r###"#[musli(mode = Odd)]
#[musli(Binary, decode_only, name_all = "index")]
pub struct S29(
    pub u32,
    #[musli(packed)]
    #[musli(Binary, default)]
    pub (u8, i32, u32, ),
    #[musli(skip)]
    pub i8,
);
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Tup(&[Ty::Int(Int::U8), Ty::Int(Int::I32), Ty::Int(Int::U32)]), Ty::Int(Int::I8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S29),
    dec: dti::decs!(S29),
};

pub static DEFS: &[&Def] = &[
    &DEF_E0,
    &DEF_S1,
    &DEF_E2,
    &DEF_E3,
    &DEF_E4,
    &DEF_E5,
    &DEF_S6,
    &DEF_E7,
    &DEF_S8,
    &DEF_S9,
    &DEF_E10,
    &DEF_S11,
    &DEF_S12,
    &DEF_E13,
    &DEF_S14,
    &DEF_E15,
    &DEF_S16,
    &DEF_S17,
    &DEF_E18,
    &DEF_E19,
    &DEF_S20,
    &DEF_E21,
    &DEF_E22,
    &DEF_E23,
    &DEF_E24,
    &DEF_E25,
    &DEF_E26,
    &DEF_E27,
    &DEF_S28,
    &DEF_S29,
];

//! Generated by tools/gen_derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use std::collections::BTreeMap;

use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name(type = usize))]
pub struct S0 {
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub b2b: bool,
    #[musli(mode = Odd, encode_only, default)]
    pub r#type: String,
    pub name: char,
    #[musli(Binary, name = 76)]
    #[musli(Text, default, skip_encoding_if = dti::blank)]
    #[musli(default = dti::special, with = dti::as_str)]
    pub flag: u32,
    pub kind: String,
    #[musli(Binary, with = dti::as_str)]
    #[musli(with = dti::as_str)]
    pub y: u32,
}

impl Model for S0 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { b2b: dti::get(&f[0]), r#type: dti::get(&f[1]), name: dti::get(&f[2]), flag: dti::get(&f[3]), kind: dti::get(&f[4]), y: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { b2b: v0, r#type: v1, name: v2, flag: v3, kind: v4, y: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S0: Def = Def {
    name: "S0",
    source: r###"#[musli(mode = Odd, name(type = usize))]
pub struct S0 {
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub b2b: bool,
    #[musli(mode = Odd, encode_only, default)]
    pub r#type: String,
    pub name: char,
    #[musli(Binary, name = 76)]
    #[musli(Text, default, skip_encoding_if = dti::blank)]
    #[musli(default = dti::special, with = dti::as_str)]
    pub flag: u32,
    pub kind: String,
    #[musli(Binary, with = dti::as_str)]
    #[musli(with = dti::as_str)]
    pub y: u32,
}
"###,
    shapes: &[&[Ty::Bool, Ty::Str, Ty::Char, Ty::Int(Int::U32), Ty::Str, Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 76), accept: &[Name::I(Int::Usize, 76)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 76), accept: &[Name::I(Int::Usize, 76)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::With },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::With },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
    ],
    enc: dti::encs!(S0),
    dec: dti::decs!(S0),
};

#[derive(Encode, Decode)]
#[musli(Text, tag(value = "kind of"))]
#[musli(mode = Odd)]
pub enum E1 {
    #[musli(Text, name = "q\"uote2", name_all = "camelCase")]
    Empty {
        #[musli(Binary, decode_only, pattern = 0)]
        #[musli(skip_encoding_if = Option::is_none)]
        data: Option<String>,
    },
    #[musli(Text, name(type = str))]
    Alpha {
        #[musli(Text, default)]
        #[musli(default = dti::special, with = dti::as_str)]
        first_name: u32,
        age: i64,
    },
    #[musli(transparent)]
    X(
        S0,
    ),
}

impl Model for E1 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty { data: dti::get(&f[0]) },
            1 => Self::Alpha { first_name: dti::get(&f[0]), age: dti::get(&f[1]) },
            _ => Self::X(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty { data: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Alpha { first_name: v0, age: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::X(v0) => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E1: Def = Def {
    name: "E1",
    source: r###"#[musli(Text, tag(value = "kind of"))]
#[musli(mode = Odd)]
pub enum E1 {
    #[musli(Text, name = "q\"uote2", name_all = "camelCase")]
    Empty {
        #[musli(Binary, decode_only, pattern = 0)]
        #[musli(skip_encoding_if = Option::is_none)]
        data: Option<String>,
    },
    #[musli(Text, name(type = str))]
    Alpha {
        #[musli(Text, default)]
        #[musli(default = dti::special, with = dti::as_str)]
        first_name: u32,
        age: i64,
    },
    #[musli(transparent)]
    X(
        S0,
    ),
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Str)], &[Ty::Int(Int::U32), Ty::Int(Int::I64)], &[Ty::Rec(&DEF_S0)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("q\"uote2"), accept: &[Name::S("q\"uote2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::With },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("q\"uote2"), accept: &[Name::S("q\"uote2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::With },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E1),
    dec: dti::decs!(E1),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, tag = "kind of")]
#[musli(mode = Odd, decode_only, name(type = str))]
pub enum E2 {
    #[musli(mode = Odd, name(type = str))]
    Other {
        y: String,
        #[musli(mode = Odd, name = "")]
        #[musli(bytes)]
        value: [u8; 4],
    },
    #[musli(mode = Odd, name_all = "kebab-case")]
    #[musli(Text, name = "back\\slash")]
    ReplyTo {
        #[musli(Text, name = "x.y12")]
        items: Option<String>,
        first_name: bool,
        #[musli(skip)]
        flag: Option<String>,
    },
    #[musli(mode = Odd, encode_only, default)]
    B2,
    #[musli(Text, name = "0")]
    #[musli(mode = Odd, name_all = "name")]
    VeryLongName(
    ),
}

impl Model for E2 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other { y: dti::get(&f[0]), value: dti::get(&f[1]) },
            1 => Self::ReplyTo { items: dti::get(&f[0]), first_name: dti::get(&f[1]), flag: dti::get(&f[2]) },
            2 => Self::B2,
            _ => Self::VeryLongName(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other { y: v0, value: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::ReplyTo { items: v0, first_name: v1, flag: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::B2 => dti::rec(2, vec![]),
            Self::VeryLongName() => dti::rec(3, vec![]),
        }
    }
}

pub static DEF_E2: Def = Def {
    name: "E2",
    source: r###"#[musli(mode = Odd, tag = "kind of")]
#[musli(mode = Odd, decode_only, name(type = str))]
pub enum E2 {
    #[musli(mode = Odd, name(type = str))]
    Other {
        y: String,
        #[musli(mode = Odd, name = "")]
        #[musli(bytes)]
        value: [u8; 4],
    },
    #[musli(mode = Odd, name_all = "kebab-case")]
    #[musli(Text, name = "back\\slash")]
    ReplyTo {
        #[musli(Text, name = "x.y12")]
        items: Option<String>,
        first_name: bool,
        #[musli(skip)]
        flag: Option<String>,
    },
    #[musli(mode = Odd, encode_only, default)]
    B2,
    #[musli(Text, name = "0")]
    #[musli(mode = Odd, name_all = "name")]
    VeryLongName(
    ),
}
"###,
    shapes: &[&[Ty::Str, Ty::Arr(&Ty::Int(Int::U8), 4)], &[Ty::Opt(&Ty::Str), Ty::Bool, Ty::Opt(&Ty::Str)], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x.y12"), accept: &[Name::S("x.y12")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x.y12"), accept: &[Name::S("x.y12")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first-name"), accept: &[Name::S("first-name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first-name"), accept: &[Name::S("first-name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E2),
    dec: dti::decs!(E2),
};

#[derive(Encode, Decode)]
#[musli(content = "data", tag = "t")]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(Text, decode_only, pattern = "X")]
    #[musli(Binary, name = 77)]
    X {
        the_long_one: u16,
        #[musli(Text, name = "x.y1")]
        age: Option<usize>,
    },
    #[musli(mode = Odd, decode_only, pattern = 1)]
    Alpha {
        flag: Option<E1>,
        #[musli(mode = Odd, name = 25)]
        #[musli(Binary, pattern = (1..=5 | 71 | 549528640261))]
        y: String,
    },
    #[musli(transparent)]
    #[musli(Text, name = "")]
    VeryLongName {
        value: S0,
    },
}

impl Model for E3 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X { the_long_one: dti::get(&f[0]), age: dti::get(&f[1]) },
            1 => Self::Alpha { flag: dti::get(&f[0]), y: dti::get(&f[1]) },
            _ => Self::VeryLongName { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X { the_long_one: v0, age: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::Alpha { flag: v0, y: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::VeryLongName { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E3: Def = Def {
    name: "E3",
    source: r###"#[musli(content = "data", tag = "t")]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(Text, decode_only, pattern = "X")]
    #[musli(Binary, name = 77)]
    X {
        the_long_one: u16,
        #[musli(Text, name = "x.y1")]
        age: Option<usize>,
    },
    #[musli(mode = Odd, decode_only, pattern = 1)]
    Alpha {
        flag: Option<E1>,
        #[musli(mode = Odd, name = 25)]
        #[musli(Binary, pattern = (1..=5 | 71 | 549528640261))]
        y: String,
    },
    #[musli(transparent)]
    #[musli(Text, name = "")]
    VeryLongName {
        value: S0,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::U16), Ty::Opt(&Ty::Int(Int::Usize))], &[Ty::Opt(&Ty::Rec(&DEF_E1)), Ty::Str], &[Ty::Rec(&DEF_S0)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 77), accept: &[Name::I(Int::Usize, 77)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 71), Name::I(Int::Usize, 549528640261)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 77), accept: &[Name::I(Int::Usize, 77)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 71), Name::I(Int::Usize, 549528640261)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x.y1"), accept: &[Name::S("x.y1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S(""), accept: &[Name::S("")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x.y1"), accept: &[Name::S("x.y1")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S(""), accept: &[Name::S("")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 25), accept: &[Name::I(Int::Usize, 25)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 25), accept: &[Name::I(Int::Usize, 25)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E3),
    dec: dti::decs!(E3),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, decode_only, name_all = "camelCase")]
#[musli(untagged)]
pub enum E4 {
    #[musli(name(type = i32))]
    Request {
        #[musli(name = -3)]
        the_long_one: Option<String>,
        #[musli(name = 46)]
        name: Vec<u8>,
    },
    #[musli(transparent)]
    ReplyTo(
        bool,
    ),
    #[musli(Binary, pattern = (2..=6 | 16))]
    #[musli(transparent)]
    FirstVariant {
        value: Vec<u16>,
    },
}

impl Model for E4 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request { the_long_one: dti::get(&f[0]), name: dti::get(&f[1]) },
            1 => Self::ReplyTo(dti::get(&f[0])),
            _ => Self::FirstVariant { value: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request { the_long_one: v0, name: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::ReplyTo(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::FirstVariant { value: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E4: Def = Def {
    name: "E4",
    source: r###"#[musli(mode = Odd, decode_only, name_all = "camelCase")]
#[musli(untagged)]
pub enum E4 {
    #[musli(name(type = i32))]
    Request {
        #[musli(name = -3)]
        the_long_one: Option<String>,
        #[musli(name = 46)]
        name: Vec<u8>,
    },
    #[musli(transparent)]
    ReplyTo(
        bool,
    ),
    #[musli(Binary, pattern = (2..=6 | 16))]
    #[musli(transparent)]
    FirstVariant {
        value: Vec<u16>,
    },
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Str), Ty::Seq(&Ty::Int(Int::U8))], &[Ty::Bool], &[Ty::Seq(&Ty::Int(Int::U16))]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -3), accept: &[Name::I(Int::I32, -3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 16)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -3), accept: &[Name::I(Int::I32, -3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 6), Name::I(Int::Usize, 16)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -3), accept: &[Name::I(Int::I32, -3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -3), accept: &[Name::I(Int::I32, -3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -3), accept: &[Name::I(Int::I32, -3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("request"), accept: &[Name::S("request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -3), accept: &[Name::I(Int::I32, -3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("replyTo"), accept: &[Name::S("replyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("firstVariant"), accept: &[Name::S("firstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E4),
    dec: dti::decs!(E4),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name(type = [u8], format_with = dti::Show::new))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
pub struct S5 {
    #[musli(Binary, pattern = b"k8")]
    #[musli(name = b"k8")]
    pub id: Option<i32>,
    #[musli(default)]
    #[musli(Binary, name = b"k15")]
    #[musli(Text, name = b"k x29")]
    #[musli(mode = Odd, encode_only, default = dti::special)]
    #[musli(mode = Odd, name = b"k x28")]
    pub items: i64,
    #[musli(name = b"key41")]
    #[musli(with = dti::as_str)]
    pub flag: u32,
    #[musli(skip, name = b"k x16")]
    pub note_to_self: u32,
}

impl Model for S5 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { id: dti::get(&f[0]), items: dti::get(&f[1]), flag: dti::get(&f[2]), note_to_self: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { id: v0, items: v1, flag: v2, note_to_self: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S5: Def = Def {
    name: "S5",
    source: r###"#[musli(mode = Odd, name(type = [u8], format_with = dti::Show::new))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
pub struct S5 {
    #[musli(Binary, pattern = b"k8")]
    #[musli(name = b"k8")]
    pub id: Option<i32>,
    #[musli(default)]
    #[musli(Binary, name = b"k15")]
    #[musli(Text, name = b"k x29")]
    #[musli(mode = Odd, encode_only, default = dti::special)]
    #[musli(mode = Odd, name = b"k x28")]
    pub items: i64,
    #[musli(name = b"key41")]
    #[musli(with = dti::as_str)]
    pub flag: u32,
    #[musli(skip, name = b"k x16")]
    pub note_to_self: u32,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Int(Int::I32)), Ty::Int(Int::I64), Ty::Int(Int::U32), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k15"), accept: &[Name::B(b"k15")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k15"), accept: &[Name::B(b"k15")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x29"), accept: &[Name::B(b"k x29")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x29"), accept: &[Name::B(b"k x29")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x28"), accept: &[Name::B(b"k x28")], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k8"), accept: &[Name::B(b"k8")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k x28"), accept: &[Name::B(b"k x28")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key41"), accept: &[Name::B(b"key41")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::B(b"k x16"), accept: &[Name::B(b"k x16")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S5),
    dec: dti::decs!(S5),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "name")]
pub struct S6 {
    #[musli(Text, decode_only, pattern = "y")]
    pub y: Vec<String>,
    #[musli(mode = Odd, pattern = ("id" | "alpha" | "type2"), packed)]
    pub id: [bool; 2],
    #[musli(Binary, decode_only, pattern = "the_long_one")]
    pub the_long_one: E4,
}

impl Model for S6 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { y: dti::get(&f[0]), id: dti::get(&f[1]), the_long_one: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { y: v0, id: v1, the_long_one: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S6: Def = Def {
    name: "S6",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "name")]
pub struct S6 {
    #[musli(Text, decode_only, pattern = "y")]
    pub y: Vec<String>,
    #[musli(mode = Odd, pattern = ("id" | "alpha" | "type2"), packed)]
    pub id: [bool; 2],
    #[musli(Binary, decode_only, pattern = "the_long_one")]
    pub the_long_one: E4,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Str), Ty::Arr(&Ty::Bool, 2), Ty::Rec(&DEF_E4)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id"), Name::S("alpha"), Name::S("type2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id"), Name::S("alpha"), Name::S("type2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S6),
    dec: dti::decs!(S6),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E7 {
    VeryLongName,
    #[musli(default)]
    X(
    ),
}

impl Model for E7 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName,
            _ => Self::X(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName => dti::rec(0, vec![]),
            Self::X() => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E7: Def = Def {
    name: "E7",
    source: r###"#[musli(mode = Odd)]
pub enum E7 {
    VeryLongName,
    #[musli(default)]
    X(
    ),
}
"###,
    shapes: &[&[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E7),
    dec: dti::decs!(E7),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S8 {
    #[musli(default = dti::special)]
    #[musli(mode = Odd, decode_only, skip)]
    pub note_to_self: String,
    #[musli(skip_encoding_if = dti::blank)]
    pub x: BTreeMap<String, u64>,
    pub name: S6,
}

impl Model for S8 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { note_to_self: dti::get(&f[0]), x: dti::get(&f[1]), name: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { note_to_self: v0, x: v1, name: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S8: Def = Def {
    name: "S8",
    source: r###"#[musli(mode = Odd)]
pub struct S8 {
    #[musli(default = dti::special)]
    #[musli(mode = Odd, decode_only, skip)]
    pub note_to_self: String,
    #[musli(skip_encoding_if = dti::blank)]
    pub x: BTreeMap<String, u64>,
    pub name: S6,
}
"###,
    shapes: &[&[Ty::Str, Ty::Map(&Ty::Int(Int::U64)), Ty::Rec(&DEF_S6)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S8),
    dec: dti::decs!(S8),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(content(value = b"data", format_with = dti::Show::new), tag(value = b"kind of", type = [u8], format_with = dti::Show::new))]
pub enum E9 {
    VeryLongName(
        #[musli(skip)]
        BTreeMap<String, u64>,
        #[musli(name = 388600973818, default = dti::special)]
        #[musli(mode = Odd, name = 721500283096)]
        u16,
    ),
    #[musli(name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(mode = Odd, name_all = "PascalCase")]
    Request(
        #[musli(Text, skip_encoding_if = dti::blank, name = "two words7")]
        #[musli(Text, decode_only, name = "q\"uote")]
        #[musli(mode = Odd, name = "type211")]
        #[musli(skip_encoding_if = dti::blank, default = dti::special)]
        #[musli(Binary, name = "a longer name than any other one here1")]
        u8,
    ),
}

impl Model for E9 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName(dti::get(&f[0]), dti::get(&f[1])),
            _ => Self::Request(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::Request(v0) => dti::rec(1, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E9: Def = Def {
    name: "E9",
    source: r###"#[musli(mode = Odd)]
#[musli(content(value = b"data", format_with = dti::Show::new), tag(value = b"kind of", type = [u8], format_with = dti::Show::new))]
pub enum E9 {
    VeryLongName(
        #[musli(skip)]
        BTreeMap<String, u64>,
        #[musli(name = 388600973818, default = dti::special)]
        #[musli(mode = Odd, name = 721500283096)]
        u16,
    ),
    #[musli(name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(mode = Odd, name_all = "PascalCase")]
    Request(
        #[musli(Text, skip_encoding_if = dti::blank, name = "two words7")]
        #[musli(Text, decode_only, name = "q\"uote")]
        #[musli(mode = Odd, name = "type211")]
        #[musli(skip_encoding_if = dti::blank, default = dti::special)]
        #[musli(Binary, name = "a longer name than any other one here1")]
        u8,
    ),
}
"###,
    shapes: &[&[Ty::Map(&Ty::Int(Int::U64)), Ty::Int(Int::U16)], &[Ty::Int(Int::U8)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"data"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 388600973818), accept: &[Name::I(Int::Usize, 388600973818)], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here1"), accept: &[Name::S("a longer name than any other one here1")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"data"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 388600973818), accept: &[Name::I(Int::Usize, 388600973818)], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here1"), accept: &[Name::S("a longer name than any other one here1")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"data"), K::Bytes), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 388600973818), accept: &[Name::I(Int::Usize, 388600973818)], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words7"), accept: &[Name::S("two words7")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"data"), K::Bytes), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 388600973818), accept: &[Name::I(Int::Usize, 388600973818)], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"data"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 721500283096), accept: &[Name::I(Int::Usize, 721500283096)], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type211"), accept: &[Name::S("type211")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"data"), K::Bytes), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 721500283096), accept: &[Name::I(Int::Usize, 721500283096)], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type211"), accept: &[Name::S("type211")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E9),
    dec: dti::decs!(E9),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
pub struct S10(
    #[musli(with = dti::as_str)]
    pub u32,
);

impl Model for S10 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0) => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S10: Def = Def {
    name: "S10",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
pub struct S10(
    #[musli(with = dti::as_str)]
    pub u32,
);
"###,
    shapes: &[&[Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
    ],
    enc: dti::encs!(S10),
    dec: dti::decs!(S10),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, encode_only, name(type = str))]
#[musli(mode = Odd, encode_only, name_all = "camelCase")]
#[musli(name_all = "SCREAMING-KEBAB-CASE", name(type = str))]
pub enum E11 {
    #[musli(Binary, name = "back\\slash3")]
    #[musli(name = "alpha9")]
    Request,
    ReplyTo(
    ),
    X,
}

impl Model for E11 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request,
            1 => Self::ReplyTo(),
            _ => Self::X,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request => dti::rec(0, vec![]),
            Self::ReplyTo() => dti::rec(1, vec![]),
            Self::X => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E11: Def = Def {
    name: "E11",
    source: r###"#[musli(mode = Odd, encode_only, name(type = str))]
#[musli(mode = Odd, encode_only, name_all = "camelCase")]
#[musli(name_all = "SCREAMING-KEBAB-CASE", name(type = str))]
pub enum E11 {
    #[musli(Binary, name = "back\\slash3")]
    #[musli(name = "alpha9")]
    Request,
    ReplyTo(
    ),
    X,
}
"###,
    shapes: &[&[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("back\\slash3"), accept: &[Name::S("back\\slash3")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("back\\slash3"), accept: &[Name::S("back\\slash3")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha9"), accept: &[Name::S("alpha9")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha9"), accept: &[Name::S("alpha9")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha9"), accept: &[Name::S("alpha9")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("replyTo"), accept: &[Name::S("replyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("x"), accept: &[Name::S("x")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha9"), accept: &[Name::S("alpha9")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E11),
    dec: dti::decs!(E11),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct S12(
    #[musli(name = "a longer name than any other one here15")]
    #[musli(Binary, decode_only, pattern = ("a longer name than any other one here15" | "back\\slash0" | "type214"))]
    pub String,
    #[musli(name = "5")]
    pub Option<bool>,
    #[musli(name = "x.y9")]
    pub u32,
    #[musli(name = "12", bytes)]
    #[musli(default)]
    #[musli(Text, bytes)]
    pub [u8; 2],
);

impl Model for S12 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S12: Def = Def {
    name: "S12",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct S12(
    #[musli(name = "a longer name than any other one here15")]
    #[musli(Binary, decode_only, pattern = ("a longer name than any other one here15" | "back\\slash0" | "type214"))]
    pub String,
    #[musli(name = "5")]
    pub Option<bool>,
    #[musli(name = "x.y9")]
    pub u32,
    #[musli(name = "12", bytes)]
    #[musli(default)]
    #[musli(Text, bytes)]
    pub [u8; 2],
);
"###,
    shapes: &[&[Ty::Str, Ty::Opt(&Ty::Bool), Ty::Int(Int::U32), Ty::Arr(&Ty::Int(Int::U8), 2)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("5"), accept: &[Name::S("5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y9"), accept: &[Name::S("x.y9")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("12"), accept: &[Name::S("12")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15"), Name::S("back\\slash0"), Name::S("type214")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("5"), accept: &[Name::S("5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y9"), accept: &[Name::S("x.y9")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("12"), accept: &[Name::S("12")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("5"), accept: &[Name::S("5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y9"), accept: &[Name::S("x.y9")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("12"), accept: &[Name::S("12")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("5"), accept: &[Name::S("5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y9"), accept: &[Name::S("x.y9")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("12"), accept: &[Name::S("12")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("5"), accept: &[Name::S("5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y9"), accept: &[Name::S("x.y9")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("12"), accept: &[Name::S("12")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here15"), accept: &[Name::S("a longer name than any other one here15")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("5"), accept: &[Name::S("5")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x.y9"), accept: &[Name::S("x.y9")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("12"), accept: &[Name::S("12")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
            ] }),
        ],
    ],
    enc: dti::encs!(S12),
    dec: dti::decs!(S12),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S13(
    #[musli(Text, name = 68)]
    #[musli(mode = Odd, decode_only, skip_encoding_if = dti::blank)]
    pub u32,
    pub i32,
    #[musli(skip, default = dti::special)]
    #[musli(Binary, decode_only, skip)]
    pub Vec<u32>,
    pub String,
);

impl Model for S13 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S13: Def = Def {
    name: "S13",
    source: r###"#[musli(mode = Odd)]
pub struct S13(
    #[musli(Text, name = 68)]
    #[musli(mode = Odd, decode_only, skip_encoding_if = dti::blank)]
    pub u32,
    pub i32,
    #[musli(skip, default = dti::special)]
    #[musli(Binary, decode_only, skip)]
    pub Vec<u32>,
    pub String,
);
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::I32), Ty::Seq(&Ty::Int(Int::U32)), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 68), accept: &[Name::I(Int::Usize, 68)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 68), accept: &[Name::I(Int::Usize, 68)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S13),
    dec: dti::decs!(S13),
};

#[derive(Encode, Decode)]
#[musli(name(type = dti::Tag))]
#[musli(mode = Odd)]
pub struct S14 {
    #[musli(name = dti::Tag(36))]
    pub data: String,
    #[musli(packed, skip, name = dti::Tag(18))]
    pub items: (u16, u32, ),
    #[musli(Text, decode_only, pattern = (dti::Tag(61) | dti::Tag(45)))]
    #[musli(name = dti::Tag(61))]
    #[musli(mode = Odd, default, skip_encoding_if = Vec::is_empty)]
    pub r#type: Vec<E3>,
    #[musli(Binary, name = dti::Tag(77))]
    #[musli(Text, name = dti::Tag(24), pattern = (dti::Tag(24) | dti::Tag(67) | dti::Tag(70)))]
    #[musli(mode = Odd, name = dti::Tag(64))]
    #[musli(Text, encode_only, skip)]
    pub the_long_one: u32,
}

impl Model for S14 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { data: dti::get(&f[0]), items: dti::get(&f[1]), r#type: dti::get(&f[2]), the_long_one: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { data: v0, items: v1, r#type: v2, the_long_one: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S14: Def = Def {
    name: "S14",
    source: r###"#[musli(name(type = dti::Tag))]
#[musli(mode = Odd)]
pub struct S14 {
    #[musli(name = dti::Tag(36))]
    pub data: String,
    #[musli(packed, skip, name = dti::Tag(18))]
    pub items: (u16, u32, ),
    #[musli(Text, decode_only, pattern = (dti::Tag(61) | dti::Tag(45)))]
    #[musli(name = dti::Tag(61))]
    #[musli(mode = Odd, default, skip_encoding_if = Vec::is_empty)]
    pub r#type: Vec<E3>,
    #[musli(Binary, name = dti::Tag(77))]
    #[musli(Text, name = dti::Tag(24), pattern = (dti::Tag(24) | dti::Tag(67) | dti::Tag(70)))]
    #[musli(mode = Odd, name = dti::Tag(64))]
    #[musli(Text, encode_only, skip)]
    pub the_long_one: u32,
}
"###,
    shapes: &[&[Ty::Str, Ty::Tup(&[Ty::Int(Int::U16), Ty::Int(Int::U32)]), Ty::Seq(&Ty::Rec(&DEF_E3)), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 18), accept: &[Name::I(Int::U16, 18)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::U16, 61), accept: &[Name::I(Int::U16, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 18), accept: &[Name::I(Int::U16, 18)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::U16, 61), accept: &[Name::I(Int::U16, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 18), accept: &[Name::I(Int::U16, 18)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::U16, 61), accept: &[Name::I(Int::U16, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 24), accept: &[Name::I(Int::U16, 24), Name::I(Int::U16, 67), Name::I(Int::U16, 70)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 18), accept: &[Name::I(Int::U16, 18)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::U16, 61), accept: &[Name::I(Int::U16, 61), Name::I(Int::U16, 45)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 24), accept: &[Name::I(Int::U16, 24), Name::I(Int::U16, 67), Name::I(Int::U16, 70)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 18), accept: &[Name::I(Int::U16, 18)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::U16, 61), accept: &[Name::I(Int::U16, 61)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 18), accept: &[Name::I(Int::U16, 18)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::U16, 61), accept: &[Name::I(Int::U16, 61)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S14),
    dec: dti::decs!(S14),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(content(value = dti::Tag(63), type = dti::Tag), tag(value = dti::Tag(30), type = dti::Tag))]
pub enum E15 {
    FirstVariant {
        value: Vec<String>,
        #[musli(mode = Odd, skip_encoding_if = String::is_empty)]
        data: String,
        name: bool,
    },
    #[musli(Text, pattern = "Other")]
    Other {
    },
    B2 {
        b2b: BTreeMap<String, String>,
    },
}

impl Model for E15 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { value: dti::get(&f[0]), data: dti::get(&f[1]), name: dti::get(&f[2]) },
            1 => Self::Other {  },
            _ => Self::B2 { b2b: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { value: v0, data: v1, name: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Other {  } => dti::rec(1, vec![]),
            Self::B2 { b2b: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E15: Def = Def {
    name: "E15",
    source: r###"#[musli(mode = Odd)]
#[musli(content(value = dti::Tag(63), type = dti::Tag), tag(value = dti::Tag(30), type = dti::Tag))]
pub enum E15 {
    FirstVariant {
        value: Vec<String>,
        #[musli(mode = Odd, skip_encoding_if = String::is_empty)]
        data: String,
        name: bool,
    },
    #[musli(Text, pattern = "Other")]
    Other {
    },
    B2 {
        b2b: BTreeMap<String, String>,
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Str), Ty::Str, Ty::Bool], &[], &[Ty::Map(&Ty::Str)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E15),
    dec: dti::decs!(E15),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S16<T> {
    pub note_to_self: T,
}

impl Model for S16<u32> {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { note_to_self: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { note_to_self: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S16: Def = Def {
    name: "S16",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S16<T> {
    pub note_to_self: T,
}
"###,
    shapes: &[&[Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S16<u32>),
    dec: dti::decs!(S16<u32>),
};

#[derive(Encode, Decode)]
#[musli(name(type = usize))]
#[musli(mode = Odd)]
pub enum E17 {
    #[musli(mode = Odd, name = 271)]
    #[musli(transparent, name = 163)]
    VeryLongName {
        value: u16,
    },
    #[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
    ReplyTo {
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        #[musli(skip_encoding_if = dti::blank, default = dti::special)]
        note_to_self: bool,
        kind: u128,
    },
}

impl Model for E17 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { value: dti::get(&f[0]) },
            _ => Self::ReplyTo { note_to_self: dti::get(&f[0]), kind: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::ReplyTo { note_to_self: v0, kind: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E17: Def = Def {
    name: "E17",
    source: r###"#[musli(name(type = usize))]
#[musli(mode = Odd)]
pub enum E17 {
    #[musli(mode = Odd, name = 271)]
    #[musli(transparent, name = 163)]
    VeryLongName {
        value: u16,
    },
    #[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
    ReplyTo {
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        #[musli(skip_encoding_if = dti::blank, default = dti::special)]
        note_to_self: bool,
        kind: u128,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::U16)], &[Ty::Bool, Ty::Int(Int::U128)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 163), accept: &[Name::I(Int::Usize, 163)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 163), accept: &[Name::I(Int::Usize, 163)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 163), accept: &[Name::I(Int::Usize, 163)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("NOTE_TO_SELF"), accept: &[Name::S("NOTE_TO_SELF")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("KIND"), accept: &[Name::S("KIND")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 163), accept: &[Name::I(Int::Usize, 163)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("NOTE_TO_SELF"), accept: &[Name::S("NOTE_TO_SELF")], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("KIND"), accept: &[Name::S("KIND")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 271), accept: &[Name::I(Int::Usize, 271)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 271), accept: &[Name::I(Int::Usize, 271)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<bool>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E17),
    dec: dti::decs!(E17),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E18 {
    #[musli(transparent)]
    B2(
        #[musli(encode_only, packed)]
        #[musli(Binary, decode_only, default)]
        [String; 4],
    ),
    Other {
        #[musli(packed)]
        #[musli(Text, decode_only, packed)]
        y: (bool, i64, char, ),
        #[musli(Text, decode_only, pattern = ("data" | "8" | "back\\slash14"))]
        data: i32,
    },
    #[musli(name(type = i32))]
    Alpha {
        #[musli(name = -1)]
        the_long_one: u64,
        #[musli(name = 18)]
        flag: S5,
        #[musli(name = -84453)]
        #[musli(Binary, decode_only, name = 46)]
        name: Option<bool>,
    },
    Empty {
        #[musli(default = dti::special, skip_encoding_if = Vec::is_empty)]
        y: Vec<u32>,
        #[musli(default = dti::special, skip)]
        value: String,
    },
}

impl Model for E18 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::B2(dti::get(&f[0])),
            1 => Self::Other { y: dti::get(&f[0]), data: dti::get(&f[1]) },
            2 => Self::Alpha { the_long_one: dti::get(&f[0]), flag: dti::get(&f[1]), name: dti::get(&f[2]) },
            _ => Self::Empty { y: dti::get(&f[0]), value: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::B2(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::Other { y: v0, data: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::Alpha { the_long_one: v0, flag: v1, name: v2 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Empty { y: v0, value: v1 } => dti::rec(3, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E18: Def = Def {
    name: "E18",
    source: r###"#[musli(mode = Odd)]
pub enum E18 {
    #[musli(transparent)]
    B2(
        #[musli(encode_only, packed)]
        #[musli(Binary, decode_only, default)]
        [String; 4],
    ),
    Other {
        #[musli(packed)]
        #[musli(Text, decode_only, packed)]
        y: (bool, i64, char, ),
        #[musli(Text, decode_only, pattern = ("data" | "8" | "back\\slash14"))]
        data: i32,
    },
    #[musli(name(type = i32))]
    Alpha {
        #[musli(name = -1)]
        the_long_one: u64,
        #[musli(name = 18)]
        flag: S5,
        #[musli(name = -84453)]
        #[musli(Binary, decode_only, name = 46)]
        name: Option<bool>,
    },
    Empty {
        #[musli(default = dti::special, skip_encoding_if = Vec::is_empty)]
        y: Vec<u32>,
        #[musli(default = dti::special, skip)]
        value: String,
    },
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Str, 4)], &[Ty::Tup(&[Ty::Bool, Ty::Int(Int::I64), Ty::Char]), Ty::Int(Int::I32)], &[Ty::Int(Int::U64), Ty::Rec(&DEF_S5), Ty::Opt(&Ty::Bool)], &[Ty::Seq(&Ty::Int(Int::U32)), Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -1), accept: &[Name::I(Int::I32, -1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 18), accept: &[Name::I(Int::I32, 18)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -84453), accept: &[Name::I(Int::I32, -84453)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -1), accept: &[Name::I(Int::I32, -1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 18), accept: &[Name::I(Int::I32, 18)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 46), accept: &[Name::I(Int::I32, 46)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -1), accept: &[Name::I(Int::I32, -1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 18), accept: &[Name::I(Int::I32, 18)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -84453), accept: &[Name::I(Int::I32, -84453)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("data"), accept: &[Name::S("data"), Name::S("8"), Name::S("back\\slash14")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -1), accept: &[Name::I(Int::I32, -1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 18), accept: &[Name::I(Int::I32, 18)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -84453), accept: &[Name::I(Int::I32, -84453)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -1), accept: &[Name::I(Int::I32, -1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 18), accept: &[Name::I(Int::I32, 18)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -84453), accept: &[Name::I(Int::I32, -84453)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[
                    Field { name: Name::I(Int::I32, -1), accept: &[Name::I(Int::I32, -1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, 18), accept: &[Name::I(Int::I32, 18)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::I32, -84453), accept: &[Name::I(Int::I32, -84453)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E18),
    dec: dti::decs!(E18),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Text, name_all = "name")]
#[musli(tag = "tag", content = "content of")]
pub enum E19 {
    VeryLongName {
        #[musli(default = dti::special)]
        #[musli(mode = Odd, pattern = 0)]
        #[musli(Binary, skip)]
        id: i64,
        #[musli(skip_encoding_if = dti::blank, default)]
        b2b: u32,
    },
}

impl Model for E19 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self::VeryLongName { id: dti::get(&f[0]), b2b: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { id: v0, b2b: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E19: Def = Def {
    name: "E19",
    source: r###"#[musli(mode = Odd)]
#[musli(Text, name_all = "name")]
#[musli(tag = "tag", content = "content of")]
pub enum E19 {
    VeryLongName {
        #[musli(default = dti::special)]
        #[musli(mode = Odd, pattern = 0)]
        #[musli(Binary, skip)]
        id: i64,
        #[musli(skip_encoding_if = dti::blank, default)]
        b2b: u32,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::I64), Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E19),
    dec: dti::decs!(E19),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E20 {
    #[musli(default)]
    Alpha,
    Empty {
        #[musli(Text, name = "0")]
        age: E9,
        name: char,
        r#type: i64,
    },
    Request(
        #[musli(Binary, packed)]
        (u64, bool, u16, ),
        u32,
        #[musli(skip_encoding_if = dti::blank)]
        u32,
    ),
}

impl Model for E20 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha,
            1 => Self::Empty { age: dti::get(&f[0]), name: dti::get(&f[1]), r#type: dti::get(&f[2]) },
            _ => Self::Request(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha => dti::rec(0, vec![]),
            Self::Empty { age: v0, name: v1, r#type: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Request(v0, v1, v2) => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E20: Def = Def {
    name: "E20",
    source: r###"#[musli(mode = Odd)]
pub enum E20 {
    #[musli(default)]
    Alpha,
    Empty {
        #[musli(Text, name = "0")]
        age: E9,
        name: char,
        r#type: i64,
    },
    Request(
        #[musli(Binary, packed)]
        (u64, bool, u16, ),
        u32,
        #[musli(skip_encoding_if = dti::blank)]
        u32,
    ),
}
"###,
    shapes: &[&[], &[Ty::Rec(&DEF_E9), Ty::Char, Ty::Int(Int::I64)], &[Ty::Tup(&[Ty::Int(Int::U64), Ty::Bool, Ty::Int(Int::U16)]), Ty::Int(Int::U32), Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E20),
    dec: dti::decs!(E20),
};

#[derive(Encode, Decode)]
#[musli(tag(value = dti::Tag(31), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E21 {
    ReplyTo,
    #[musli(name(type = dti::Tag))]
    X {
        #[musli(name = dti::Tag(76))]
        first_name: (),
        #[musli(name = dti::Tag(17))]
        #[musli(mode = Odd, encode_only, skip_encoding_if = String::is_empty)]
        value: String,
        #[musli(name = dti::Tag(65))]
        #[musli(Text, encode_only, name = dti::Tag(24))]
        last_seen_at: u32,
        #[musli(name = dti::Tag(64))]
        kind: String,
    },
    #[musli(name(type = dti::Tag))]
    Empty {
        #[musli(name = dti::Tag(40))]
        #[musli(Text, decode_only, name = dti::Tag(57))]
        the_long_one: Vec<bool>,
        #[musli(mode = Odd, name = dti::Tag(70))]
        #[musli(Binary, name = dti::Tag(66))]
        #[musli(Text, name = dti::Tag(23))]
        r#type: u32,
        #[musli(skip_encoding_if = Option::is_none)]
        #[musli(name = dti::Tag(15))]
        items: Option<u32>,
    },
}

impl Model for E21 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo,
            1 => Self::X { first_name: dti::get(&f[0]), value: dti::get(&f[1]), last_seen_at: dti::get(&f[2]), kind: dti::get(&f[3]) },
            _ => Self::Empty { the_long_one: dti::get(&f[0]), r#type: dti::get(&f[1]), items: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
            Self::X { first_name: v0, value: v1, last_seen_at: v2, kind: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Empty { the_long_one: v0, r#type: v1, items: v2 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E21: Def = Def {
    name: "E21",
    source: r###"#[musli(tag(value = dti::Tag(31), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E21 {
    ReplyTo,
    #[musli(name(type = dti::Tag))]
    X {
        #[musli(name = dti::Tag(76))]
        first_name: (),
        #[musli(name = dti::Tag(17))]
        #[musli(mode = Odd, encode_only, skip_encoding_if = String::is_empty)]
        value: String,
        #[musli(name = dti::Tag(65))]
        #[musli(Text, encode_only, name = dti::Tag(24))]
        last_seen_at: u32,
        #[musli(name = dti::Tag(64))]
        kind: String,
    },
    #[musli(name(type = dti::Tag))]
    Empty {
        #[musli(name = dti::Tag(40))]
        #[musli(Text, decode_only, name = dti::Tag(57))]
        the_long_one: Vec<bool>,
        #[musli(mode = Odd, name = dti::Tag(70))]
        #[musli(Binary, name = dti::Tag(66))]
        #[musli(Text, name = dti::Tag(23))]
        r#type: u32,
        #[musli(skip_encoding_if = Option::is_none)]
        #[musli(name = dti::Tag(15))]
        items: Option<u32>,
    },
}
"###,
    shapes: &[&[], &[Ty::Unit, Ty::Str, Ty::Int(Int::U32), Ty::Str], &[Ty::Seq(&Ty::Bool), Ty::Int(Int::U32), Ty::Opt(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 76), accept: &[Name::I(Int::U16, 76)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 65), accept: &[Name::I(Int::U16, 65)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 40), accept: &[Name::I(Int::U16, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 66), accept: &[Name::I(Int::U16, 66)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 15), accept: &[Name::I(Int::U16, 15)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 76), accept: &[Name::I(Int::U16, 76)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 65), accept: &[Name::I(Int::U16, 65)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 40), accept: &[Name::I(Int::U16, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 66), accept: &[Name::I(Int::U16, 66)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 15), accept: &[Name::I(Int::U16, 15)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 76), accept: &[Name::I(Int::U16, 76)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 24), accept: &[Name::I(Int::U16, 24)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 40), accept: &[Name::I(Int::U16, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 23), accept: &[Name::I(Int::U16, 23)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 15), accept: &[Name::I(Int::U16, 15)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 76), accept: &[Name::I(Int::U16, 76)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 65), accept: &[Name::I(Int::U16, 65)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 57), accept: &[Name::I(Int::U16, 57)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 23), accept: &[Name::I(Int::U16, 23)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 15), accept: &[Name::I(Int::U16, 15)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 76), accept: &[Name::I(Int::U16, 76)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 65), accept: &[Name::I(Int::U16, 65)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 40), accept: &[Name::I(Int::U16, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 70), accept: &[Name::I(Int::U16, 70)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 15), accept: &[Name::I(Int::U16, 15)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U16, 31), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 76), accept: &[Name::I(Int::U16, 76)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 65), accept: &[Name::I(Int::U16, 65)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 64), accept: &[Name::I(Int::U16, 64)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                    Field { name: Name::I(Int::U16, 40), accept: &[Name::I(Int::U16, 40)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 70), accept: &[Name::I(Int::U16, 70)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U16, 15), accept: &[Name::I(Int::U16, 15)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E21),
    dec: dti::decs!(E21),
};

#[derive(Encode, Decode)]
#[musli(content = "data")]
#[musli(mode = Odd)]
#[musli(tag = "t")]
pub enum E22 {
    #[musli(default)]
    #[musli(Text, encode_only, default)]
    X,
    VeryLongName(
        #[musli(mode = Odd, decode_only, pattern = (0 | 400079588058 | 167))]
        #[musli(with = dti::as_str)]
        #[musli(Text, encode_only, with = dti::as_str)]
        u32,
        #[musli(mode = Odd, name = 949318848169)]
        #[musli(name = 298305874123)]
        i16,
        u32,
    ),
}

impl Model for E22 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X,
            _ => Self::VeryLongName(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X => dti::rec(0, vec![]),
            Self::VeryLongName(v0, v1, v2) => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E22: Def = Def {
    name: "E22",
    source: r###"#[musli(content = "data")]
#[musli(mode = Odd)]
#[musli(tag = "t")]
pub enum E22 {
    #[musli(default)]
    #[musli(Text, encode_only, default)]
    X,
    VeryLongName(
        #[musli(mode = Odd, decode_only, pattern = (0 | 400079588058 | 167))]
        #[musli(with = dti::as_str)]
        #[musli(Text, encode_only, with = dti::as_str)]
        u32,
        #[musli(mode = Odd, name = 949318848169)]
        #[musli(name = 298305874123)]
        i16,
        u32,
    ),
}
"###,
    shapes: &[&[], &[Ty::Int(Int::U32), Ty::Int(Int::I16), Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 298305874123), accept: &[Name::I(Int::Usize, 298305874123)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 298305874123), accept: &[Name::I(Int::Usize, 298305874123)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 298305874123), accept: &[Name::I(Int::Usize, 298305874123)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 298305874123), accept: &[Name::I(Int::Usize, 298305874123)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 949318848169), accept: &[Name::I(Int::Usize, 949318848169)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("data"), K::Str), kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 400079588058), Name::I(Int::Usize, 167)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 949318848169), accept: &[Name::I(Int::Usize, 949318848169)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E22),
    dec: dti::decs!(E22),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name(type = dti::Tag))]
#[musli(Text, tag(value = 32, type = i32), content(value = 62, type = i32))]
#[musli(name(type = dti::Tag))]
pub enum E23 {
    #[musli(name = dti::Tag(36))]
    B2(
        #[musli(default)]
        #[musli(Binary, pattern = (0..=4 | 1018700106253 | 34))]
        #[musli(mode = Odd, default)]
        String,
    ),
    #[musli(name = dti::Tag(11), name_all = "name")]
    Empty(
        #[musli(name = "")]
        #[musli(Text, decode_only, name = "a longer name than any other one here")]
        i16,
        #[musli(mode = Odd, name = "back\\slash")]
        #[musli(Binary, name = "two words14")]
        #[musli(Text, name = "émile3")]
        bool,
        #[musli(mode = Odd, decode_only, pattern = ("type22" | "type25"))]
        #[musli(name = "type22")]
        i16,
    ),
    #[musli(name = dti::Tag(17), transparent)]
    #[musli(Binary, decode_only, name = dti::Tag(54))]
    Request {
        value: i64,
    },
    #[musli(name = dti::Tag(21))]
    X(
        #[musli(with = dti::as_str)]
        #[musli(Text, pattern = 0..=4)]
        u32,
    ),
}

impl Model for E23 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::B2(dti::get(&f[0])),
            1 => Self::Empty(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
            2 => Self::Request { value: dti::get(&f[0]) },
            _ => Self::X(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::B2(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::Empty(v0, v1, v2) => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Request { value: v0 } => dti::rec(2, vec![v0.to_val()]),
            Self::X(v0) => dti::rec(3, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E23: Def = Def {
    name: "E23",
    source: r###"#[musli(mode = Odd, name(type = dti::Tag))]
#[musli(Text, tag(value = 32, type = i32), content(value = 62, type = i32))]
#[musli(name(type = dti::Tag))]
pub enum E23 {
    #[musli(name = dti::Tag(36))]
    B2(
        #[musli(default)]
        #[musli(Binary, pattern = (0..=4 | 1018700106253 | 34))]
        #[musli(mode = Odd, default)]
        String,
    ),
    #[musli(name = dti::Tag(11), name_all = "name")]
    Empty(
        #[musli(name = "")]
        #[musli(Text, decode_only, name = "a longer name than any other one here")]
        i16,
        #[musli(mode = Odd, name = "back\\slash")]
        #[musli(Binary, name = "two words14")]
        #[musli(Text, name = "émile3")]
        bool,
        #[musli(mode = Odd, decode_only, pattern = ("type22" | "type25"))]
        #[musli(name = "type22")]
        i16,
    ),
    #[musli(name = dti::Tag(17), transparent)]
    #[musli(Binary, decode_only, name = dti::Tag(54))]
    Request {
        value: i64,
    },
    #[musli(name = dti::Tag(21))]
    X(
        #[musli(with = dti::as_str)]
        #[musli(Text, pattern = 0..=4)]
        u32,
    ),
}
"###,
    shapes: &[&[Ty::Str], &[Ty::Int(Int::I16), Ty::Bool, Ty::Int(Int::I16)], &[Ty::Int(Int::I64)], &[Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 1018700106253), Name::I(Int::Usize, 34)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words14"), accept: &[Name::S("two words14")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type22"), accept: &[Name::S("type22")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 21), accept: &[Name::I(Int::U16, 21)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 1018700106253), Name::I(Int::Usize, 34)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("two words14"), accept: &[Name::S("two words14")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type22"), accept: &[Name::S("type22")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 54), accept: &[Name::I(Int::U16, 54)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 21), accept: &[Name::I(Int::U16, 21)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 62), K::Int(Int::I32)), kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type22"), accept: &[Name::S("type22")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 21), accept: &[Name::I(Int::U16, 21)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 32), Name::I(Int::I32, 62), K::Int(Int::I32)), kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("émile3"), accept: &[Name::S("émile3")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type22"), accept: &[Name::S("type22")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 21), accept: &[Name::I(Int::U16, 21)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type22"), accept: &[Name::S("type22")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 21), accept: &[Name::I(Int::U16, 21)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 36), accept: &[Name::I(Int::U16, 36)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 11), accept: &[Name::I(Int::U16, 11)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type22"), accept: &[Name::S("type22"), Name::S("type25")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 21), accept: &[Name::I(Int::U16, 21)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E23),
    dec: dti::decs!(E23),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "index")]
pub enum E24 {
    #[musli(transparent)]
    FirstVariant(
        #[musli(with = dti::as_str)]
        u32,
    ),
    #[musli(name(type = usize))]
    #[musli(Binary, decode_only, pattern = (1 | 1066027211979))]
    VeryLongName {
        #[musli(mode = Odd, skip)]
        #[musli(skip)]
        data: String,
        #[musli(mode = Odd, pattern = (1 | 37))]
        x: BTreeMap<String, S12>,
        #[musli(Binary, name = 260)]
        #[musli(name = 266)]
        #[musli(mode = Odd, decode_only, pattern = (266 | 134))]
        the_long_one: char,
    },
}

impl Model for E24 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant(dti::get(&f[0])),
            _ => Self::VeryLongName { data: dti::get(&f[0]), x: dti::get(&f[1]), the_long_one: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::VeryLongName { data: v0, x: v1, the_long_one: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E24: Def = Def {
    name: "E24",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "index")]
pub enum E24 {
    #[musli(transparent)]
    FirstVariant(
        #[musli(with = dti::as_str)]
        u32,
    ),
    #[musli(name(type = usize))]
    #[musli(Binary, decode_only, pattern = (1 | 1066027211979))]
    VeryLongName {
        #[musli(mode = Odd, skip)]
        #[musli(skip)]
        data: String,
        #[musli(mode = Odd, pattern = (1 | 37))]
        x: BTreeMap<String, S12>,
        #[musli(Binary, name = 260)]
        #[musli(name = 266)]
        #[musli(mode = Odd, decode_only, pattern = (266 | 134))]
        the_long_one: char,
    },
}
"###,
    shapes: &[&[Ty::Int(Int::U32)], &[Ty::Str, Ty::Map(&Ty::Rec(&DEF_S12)), Ty::Char]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 260), accept: &[Name::I(Int::Usize, 260)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 1066027211979)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 260), accept: &[Name::I(Int::Usize, 260)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 266), accept: &[Name::I(Int::Usize, 266)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 266), accept: &[Name::I(Int::Usize, 266)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 37)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 266), accept: &[Name::I(Int::Usize, 266)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 37)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 266), accept: &[Name::I(Int::Usize, 266), Name::I(Int::Usize, 134)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E24),
    dec: dti::decs!(E24),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S25(
    #[musli(Binary, skip_encoding_if = dti::blank)]
    #[musli(default, bytes)]
    pub Vec<u8>,
    #[musli(Text, pattern = (1 | 194))]
    pub char,
    #[musli(Binary, encode_only, skip)]
    #[musli(mode = Odd, packed, name = 612098332727)]
    pub [u16; 0],
    #[musli(default = dti::special, skip_encoding_if = String::is_empty)]
    #[musli(Text, skip_encoding_if = String::is_empty)]
    pub String,
    pub u32,
);

impl Model for S25 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S25: Def = Def {
    name: "S25",
    source: r###"#[musli(mode = Odd)]
pub struct S25(
    #[musli(Binary, skip_encoding_if = dti::blank)]
    #[musli(default, bytes)]
    pub Vec<u8>,
    #[musli(Text, pattern = (1 | 194))]
    pub char,
    #[musli(Binary, encode_only, skip)]
    #[musli(mode = Odd, packed, name = 612098332727)]
    pub [u16; 0],
    #[musli(default = dti::special, skip_encoding_if = String::is_empty)]
    #[musli(Text, skip_encoding_if = String::is_empty)]
    pub String,
    pub u32,
);
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U8)), Ty::Char, Ty::Arr(&Ty::Int(Int::U16), 0), Ty::Str, Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 194)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 194)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 612098332727), accept: &[Name::I(Int::Usize, 612098332727)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 612098332727), accept: &[Name::I(Int::Usize, 612098332727)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S25),
    dec: dti::decs!(S25),
};

#[derive(Encode, Decode)]
#[musli(tag = "kind of")]
#[musli(mode = Odd)]
pub enum E26 {
    #[musli(name_all = "snake_case")]
    Empty(
    ),
    #[musli(name(type = str), default)]
    B2(
    ),
}

impl Model for E26 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty(),
            _ => Self::B2(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty() => dti::rec(0, vec![]),
            Self::B2() => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E26: Def = Def {
    name: "E26",
    source: r###"#[musli(tag = "kind of")]
#[musli(mode = Odd)]
pub enum E26 {
    #[musli(name_all = "snake_case")]
    Empty(
    ),
    #[musli(name(type = str), default)]
    B2(
    ),
}
"###,
    shapes: &[&[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Str, fallback: Some(1), variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("kind of"), K::Str), kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E26),
    dec: dti::decs!(E26),
};

#[derive(Encode, Decode)]
#[musli(Text, packed)]
#[musli(mode = Odd)]
pub struct S27 {
    #[musli(mode = Odd, name = 350850538077)]
    pub b2b: u32,
    pub id: usize,
    #[musli(default = dti::special, skip)]
    pub flag: String,
    pub items: bool,
}

impl Model for S27 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { b2b: dti::get(&f[0]), id: dti::get(&f[1]), flag: dti::get(&f[2]), items: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { b2b: v0, id: v1, flag: v2, items: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S27: Def = Def {
    name: "S27",
    source: r###"#[musli(Text, packed)]
#[musli(mode = Odd)]
pub struct S27 {
    #[musli(mode = Odd, name = 350850538077)]
    pub b2b: u32,
    pub id: usize,
    #[musli(default = dti::special, skip)]
    pub flag: String,
    pub items: bool,
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::Usize), Ty::Str, Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 350850538077), accept: &[Name::I(Int::Usize, 350850538077)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 350850538077), accept: &[Name::I(Int::Usize, 350850538077)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S27),
    dec: dti::decs!(S27),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S28(
    #[musli(default)]
    pub char,
);

impl Model for S28 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0) => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S28: Def = Def {
    name: "S28",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S28(
    #[musli(default)]
    pub char,
);
"###,
    shapes: &[&[Ty::Char]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S28),
    dec: dti::decs!(S28),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "index")]
pub struct S29 {
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(Binary, trace)]
    pub name: BTreeMap<String, u16>,
    pub id: Option<u32>,
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(Text, pattern = (2 | 235599657955))]
    pub x: String,
    #[musli(mode = Odd, decode_only, pattern = (3 | 354))]
    pub the_long_one: Option<bool>,
}

impl Model for S29 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { name: dti::get(&f[0]), id: dti::get(&f[1]), x: dti::get(&f[2]), the_long_one: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { name: v0, id: v1, x: v2, the_long_one: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S29: Def = Def {
    name: "S29",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "index")]
pub struct S29 {
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(Binary, trace)]
    pub name: BTreeMap<String, u16>,
    pub id: Option<u32>,
    #[musli(skip_encoding_if = dti::blank)]
    #[musli(Text, pattern = (2 | 235599657955))]
    pub x: String,
    #[musli(mode = Odd, decode_only, pattern = (3 | 354))]
    pub the_long_one: Option<bool>,
}
"###,
    shapes: &[&[Ty::Map(&Ty::Int(Int::U16)), Ty::Opt(&Ty::Int(Int::U32)), Ty::Str, Ty::Opt(&Ty::Bool)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 235599657955)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 235599657955)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 354)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S29),
    dec: dti::decs!(S29),
};

pub static DEFS: &[&Def] = &[
    &DEF_S0,
    &DEF_E1,
    &DEF_E2,
    &DEF_E3,
    &DEF_E4,
    &DEF_S5,
    &DEF_S6,
    &DEF_E7,
    &DEF_S8,
    &DEF_E9,
    &DEF_S10,
    &DEF_E11,
    &DEF_S12,
    &DEF_S13,
    &DEF_S14,
    &DEF_E15,
    &DEF_S16,
    &DEF_E17,
    &DEF_E18,
    &DEF_E19,
    &DEF_E20,
    &DEF_E21,
    &DEF_E22,
    &DEF_E23,
    &DEF_E24,
    &DEF_S25,
    &DEF_E26,
    &DEF_S27,
    &DEF_S28,
    &DEF_S29,
];

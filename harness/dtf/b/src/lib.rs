//! Generated by tools/gen_derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use std::collections::BTreeMap;

use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(name_all = "camelCase")]
#[musli(Binary, name_all = "camelCase")]
#[musli(mode = Odd)]
pub struct S0(
    #[musli(encode_only, skip)]
    #[musli(name = "")]
    #[musli(default = dti::special)]
    pub u16,
    #[musli(name = "two words17")]
    pub i32,
    #[musli(skip, name = "alpha15")]
    pub String,
    #[musli(name = "back\\slash")]
    pub u64,
    #[musli(Binary, name = "type2")]
    #[musli(Text, name = "émile")]
    #[musli(default)]
    #[musli(mode = Odd, name = "two words4")]
    pub bool,
);

impl Model for S0 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S0: Def = Def {
    name: "S0",
    source: r###"#[musli(name_all = "camelCase")]
#[musli(Binary, name_all = "camelCase")]
#[musli(mode = Odd)]
pub struct S0(
    #[musli(encode_only, skip)]
    #[musli(name = "")]
    #[musli(default = dti::special)]
    pub u16,
    #[musli(name = "two words17")]
    pub i32,
    #[musli(skip, name = "alpha15")]
    pub String,
    #[musli(name = "back\\slash")]
    pub u64,
    #[musli(Binary, name = "type2")]
    #[musli(Text, name = "émile")]
    #[musli(default)]
    #[musli(mode = Odd, name = "two words4")]
    pub bool,
);
"###,
    shapes: &[&[Ty::Int(Int::U16), Ty::Int(Int::I32), Ty::Str, Ty::Int(Int::U64), Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S(""), accept: &[Name::S("")], skip: true, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words17"), accept: &[Name::S("two words17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha15"), accept: &[Name::S("alpha15")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type2"), accept: &[Name::S("type2")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words17"), accept: &[Name::S("two words17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha15"), accept: &[Name::S("alpha15")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type2"), accept: &[Name::S("type2")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S(""), accept: &[Name::S("")], skip: true, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words17"), accept: &[Name::S("two words17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha15"), accept: &[Name::S("alpha15")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words17"), accept: &[Name::S("two words17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha15"), accept: &[Name::S("alpha15")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("émile"), accept: &[Name::S("émile")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S(""), accept: &[Name::S("")], skip: true, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words17"), accept: &[Name::S("two words17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha15"), accept: &[Name::S("alpha15")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words4"), accept: &[Name::S("two words4")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Path(dti::special_val::<u16>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words17"), accept: &[Name::S("two words17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha15"), accept: &[Name::S("alpha15")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words4"), accept: &[Name::S("two words4")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S0),
    dec: dti::decs!(S0),
};

#[derive(Encode, Decode)]
#[musli(name(type = dti::Tag))]
#[musli(mode = Odd, name(type = dti::Tag))]
pub enum E1 {
    #[musli(Text, name = dti::Tag(77))]
    #[musli(Binary, encode_only, name = dti::Tag(12))]
    #[musli(mode = Odd, name = dti::Tag(42))]
    #[musli(Binary, name = dti::Tag(73))]
    Alpha {
        r#type: bool,
        #[musli(with = dti::as_str)]
        items: u32,
        the_long_one: u8,
        #[musli(Text, pattern = "first_name")]
        first_name: u128,
    },
    #[musli(name = dti::Tag(38))]
    Empty {
        name: (u32, String, u32, ),
        #[musli(skip_encoding_if = dti::blank)]
        data: u32,
        #[musli(default, bytes)]
        #[musli(mode = Odd, default)]
        #[musli(Binary, name = 256)]
        x: [u8; 4],
    },
}

impl Model for E1 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha { r#type: dti::get(&f[0]), items: dti::get(&f[1]), the_long_one: dti::get(&f[2]), first_name: dti::get(&f[3]) },
            _ => Self::Empty { name: dti::get(&f[0]), data: dti::get(&f[1]), x: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha { r#type: v0, items: v1, the_long_one: v2, first_name: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Empty { name: v0, data: v1, x: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E1: Def = Def {
    name: "E1",
    source: r###"#[musli(name(type = dti::Tag))]
#[musli(mode = Odd, name(type = dti::Tag))]
pub enum E1 {
    #[musli(Text, name = dti::Tag(77))]
    #[musli(Binary, encode_only, name = dti::Tag(12))]
    #[musli(mode = Odd, name = dti::Tag(42))]
    #[musli(Binary, name = dti::Tag(73))]
    Alpha {
        r#type: bool,
        #[musli(with = dti::as_str)]
        items: u32,
        the_long_one: u8,
        #[musli(Text, pattern = "first_name")]
        first_name: u128,
    },
    #[musli(name = dti::Tag(38))]
    Empty {
        name: (u32, String, u32, ),
        #[musli(skip_encoding_if = dti::blank)]
        data: u32,
        #[musli(default, bytes)]
        #[musli(mode = Odd, default)]
        #[musli(Binary, name = 256)]
        x: [u8; 4],
    },
}
"###,
    shapes: &[&[Ty::Bool, Ty::Int(Int::U32), Ty::Int(Int::U8), Ty::Int(Int::U128)], &[Ty::Tup(&[Ty::Int(Int::U32), Ty::Str, Ty::Int(Int::U32)]), Ty::Int(Int::U32), Ty::Arr(&Ty::Int(Int::U8), 4)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 12), accept: &[Name::I(Int::U16, 12)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 38), accept: &[Name::I(Int::U16, 38)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 256), accept: &[Name::I(Int::Usize, 256)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 38), accept: &[Name::I(Int::U16, 38)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 256), accept: &[Name::I(Int::Usize, 256)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 38), accept: &[Name::I(Int::U16, 38)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 77), accept: &[Name::I(Int::U16, 77)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 38), accept: &[Name::I(Int::U16, 38)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 42), accept: &[Name::I(Int::U16, 42)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 38), accept: &[Name::I(Int::U16, 38)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 42), accept: &[Name::I(Int::U16, 42)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 38), accept: &[Name::I(Int::U16, 38)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Bytes },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E1),
    dec: dti::decs!(E1),
};

#[derive(Encode, Decode)]
#[musli(Text, content(value = 60, type = u8), tag(value = 32, type = u8))]
#[musli(mode = Odd)]
#[musli(name_all = "kebab-case")]
pub enum E2 {
    #[musli(decode_only, default)]
    Alpha,
    VeryLongName {
        #[musli(default)]
        #[musli(skip_encoding_if = dti::blank)]
        kind: Option<S0>,
        #[musli(Text, with = dti::as_str)]
        #[musli(Binary, decode_only, skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, default = dti::special)]
        #[musli(skip_encoding_if = dti::blank)]
        note_to_self: u32,
        #[musli(Binary, decode_only, default)]
        last_seen_at: [u8; 3],
        x: String,
    },
    #[musli(name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(Binary, name_all = "index", pattern = ("b2" | "émile16"))]
    B2 {
        kind: i8,
    },
}

impl Model for E2 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha,
            1 => Self::VeryLongName { kind: dti::get(&f[0]), note_to_self: dti::get(&f[1]), last_seen_at: dti::get(&f[2]), x: dti::get(&f[3]) },
            _ => Self::B2 { kind: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha => dti::rec(0, vec![]),
            Self::VeryLongName { kind: v0, note_to_self: v1, last_seen_at: v2, x: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::B2 { kind: v0 } => dti::rec(2, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E2: Def = Def {
    name: "E2",
    source: r###"#[musli(Text, content(value = 60, type = u8), tag(value = 32, type = u8))]
#[musli(mode = Odd)]
#[musli(name_all = "kebab-case")]
pub enum E2 {
    #[musli(decode_only, default)]
    Alpha,
    VeryLongName {
        #[musli(default)]
        #[musli(skip_encoding_if = dti::blank)]
        kind: Option<S0>,
        #[musli(Text, with = dti::as_str)]
        #[musli(Binary, decode_only, skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, default = dti::special)]
        #[musli(skip_encoding_if = dti::blank)]
        note_to_self: u32,
        #[musli(Binary, decode_only, default)]
        last_seen_at: [u8; 3],
        x: String,
    },
    #[musli(name_all = "SCREAMING-KEBAB-CASE")]
    #[musli(Binary, name_all = "index", pattern = ("b2" | "émile16"))]
    B2 {
        kind: i8,
    },
}
"###,
    shapes: &[&[], &[Ty::Opt(&Ty::Rec(&DEF_S0)), Ty::Int(Int::U32), Ty::Arr(&Ty::Int(Int::U8), 3), Ty::Str], &[Ty::Int(Int::I8)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("very-long-name"), accept: &[Name::S("very-long-name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("b2"), accept: &[Name::S("b2"), Name::S("émile16")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("very-long-name"), accept: &[Name::S("very-long-name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("b2"), accept: &[Name::S("b2"), Name::S("émile16")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 32), Name::I(Int::U8, 60), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("very-long-name"), accept: &[Name::S("very-long-name")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("b2"), accept: &[Name::S("b2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("KIND"), accept: &[Name::S("KIND")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U8, 32), Name::I(Int::U8, 60), K::Int(Int::U8)), kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("very-long-name"), accept: &[Name::S("very-long-name")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::With },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("b2"), accept: &[Name::S("b2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("KIND"), accept: &[Name::S("KIND")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("very-long-name"), accept: &[Name::S("very-long-name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("b2"), accept: &[Name::S("b2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("KIND"), accept: &[Name::S("KIND")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: Some(0), variants: &[
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("very-long-name"), accept: &[Name::S("very-long-name")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("b2"), accept: &[Name::S("b2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("KIND"), accept: &[Name::S("KIND")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E2),
    dec: dti::decs!(E2),
};

#[derive(Encode, Decode)]
#[musli(untagged)]
#[musli(Binary, encode_only, name(type = str))]
#[musli(name(type = str))]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(mode = Odd, name = "type2")]
    #[musli(name = "015")]
    VeryLongName {
        #[musli(Text, name = "two words12")]
        first_name: Vec<bool>,
    },
    #[musli(transparent)]
    FirstVariant(
        u8,
    ),
    #[musli(transparent)]
    Alpha(
        bool,
    ),
    #[musli(transparent)]
    ReplyTo(
        #[musli(default)]
        String,
    ),
}

impl Model for E3 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { first_name: dti::get(&f[0]) },
            1 => Self::FirstVariant(dti::get(&f[0])),
            2 => Self::Alpha(dti::get(&f[0])),
            _ => Self::ReplyTo(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { first_name: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::FirstVariant(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::Alpha(v0) => dti::rec(2, vec![v0.to_val()]),
            Self::ReplyTo(v0) => dti::rec(3, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E3: Def = Def {
    name: "E3",
    source: r###"#[musli(untagged)]
#[musli(Binary, encode_only, name(type = str))]
#[musli(name(type = str))]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(mode = Odd, name = "type2")]
    #[musli(name = "015")]
    VeryLongName {
        #[musli(Text, name = "two words12")]
        first_name: Vec<bool>,
    },
    #[musli(transparent)]
    FirstVariant(
        u8,
    ),
    #[musli(transparent)]
    Alpha(
        bool,
    ),
    #[musli(transparent)]
    ReplyTo(
        #[musli(default)]
        String,
    ),
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Bool)], &[Ty::Int(Int::U8)], &[Ty::Bool], &[Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("015"), accept: &[Name::S("015")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("015"), accept: &[Name::S("015")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("015"), accept: &[Name::S("015")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words12"), accept: &[Name::S("two words12")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("015"), accept: &[Name::S("015")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words12"), accept: &[Name::S("two words12")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E3),
    dec: dti::decs!(E3),
};

#[derive(Encode, Decode)]
#[musli(name_all = "name")]
#[musli(mode = Odd)]
pub struct S4 {
    #[musli(Text, name = "x.y")]
    #[musli(skip)]
    #[musli(default = dti::special, name = "back\\slash")]
    pub id: String,
    pub data: usize,
    #[musli(Text, encode_only, skip)]
    pub items: i8,
    #[musli(default = dti::special)]
    #[musli(Text, encode_only, skip)]
    #[musli(Binary, pattern = "age")]
    pub age: Option<u8>,
    #[musli(name = "alpha", default, skip_encoding_if = dti::blank)]
    #[musli(mode = Odd, name = "q\"uote")]
    pub note_to_self: u32,
}

impl Model for S4 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { id: dti::get(&f[0]), data: dti::get(&f[1]), items: dti::get(&f[2]), age: dti::get(&f[3]), note_to_self: dti::get(&f[4]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { id: v0, data: v1, items: v2, age: v3, note_to_self: v4 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S4: Def = Def {
    name: "S4",
    source: r###"#[musli(name_all = "name")]
#[musli(mode = Odd)]
pub struct S4 {
    #[musli(Text, name = "x.y")]
    #[musli(skip)]
    #[musli(default = dti::special, name = "back\\slash")]
    pub id: String,
    pub data: usize,
    #[musli(Text, encode_only, skip)]
    pub items: i8,
    #[musli(default = dti::special)]
    #[musli(Text, encode_only, skip)]
    #[musli(Binary, pattern = "age")]
    pub age: Option<u8>,
    #[musli(name = "alpha", default, skip_encoding_if = dti::blank)]
    #[musli(mode = Odd, name = "q\"uote")]
    pub note_to_self: u32,
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::Usize), Ty::Int(Int::I8), Ty::Opt(&Ty::Int(Int::U8)), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: true, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x.y"), accept: &[Name::S("x.y")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<Option<u8>>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S4),
    dec: dti::decs!(S4),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag = "tag")]
pub enum E5 {
    #[musli(transparent)]
    #[musli(Text, name = "a longer name than any other one here2")]
    ReplyTo {
        value: S4,
    },
    #[musli(name_all = "snake_case")]
    Request {
        #[musli(packed, name = "two words12")]
        #[musli(Binary, pattern = ("two words12" | "type2" | "0"), default)]
        #[musli(mode = Odd, name = "alpha")]
        age: [bool; 1],
        r#type: String,
        kind: Vec<S0>,
    },
    #[musli(Binary, default)]
    VeryLongName,
    #[musli(mode = Odd, name = 63)]
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    X {
        age: u32,
        the_long_one: Option<String>,
    },
}

impl Model for E5 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { value: dti::get(&f[0]) },
            1 => Self::Request { age: dti::get(&f[0]), r#type: dti::get(&f[1]), kind: dti::get(&f[2]) },
            2 => Self::VeryLongName,
            _ => Self::X { age: dti::get(&f[0]), the_long_one: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request { age: v0, r#type: v1, kind: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::VeryLongName => dti::rec(2, vec![]),
            Self::X { age: v0, the_long_one: v1 } => dti::rec(3, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E5: Def = Def {
    name: "E5",
    source: r###"#[musli(mode = Odd)]
#[musli(tag = "tag")]
pub enum E5 {
    #[musli(transparent)]
    #[musli(Text, name = "a longer name than any other one here2")]
    ReplyTo {
        value: S4,
    },
    #[musli(name_all = "snake_case")]
    Request {
        #[musli(packed, name = "two words12")]
        #[musli(Binary, pattern = ("two words12" | "type2" | "0"), default)]
        #[musli(mode = Odd, name = "alpha")]
        age: [bool; 1],
        r#type: String,
        kind: Vec<S0>,
    },
    #[musli(Binary, default)]
    VeryLongName,
    #[musli(mode = Odd, name = 63)]
    #[musli(name_all = "SCREAMING_SNAKE_CASE")]
    X {
        age: u32,
        the_long_one: Option<String>,
    },
}
"###,
    shapes: &[&[Ty::Rec(&DEF_S4)], &[Ty::Arr(&Ty::Bool, 1), Ty::Str, Ty::Seq(&Ty::Rec(&DEF_S0))], &[], &[Ty::Int(Int::U32), Ty::Opt(&Ty::Str)]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words12"), accept: &[Name::S("two words12"), Name::S("type2"), Name::S("0")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("THE_LONG_ONE"), accept: &[Name::S("THE_LONG_ONE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words12"), accept: &[Name::S("two words12"), Name::S("type2"), Name::S("0")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("THE_LONG_ONE"), accept: &[Name::S("THE_LONG_ONE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("a longer name than any other one here2"), accept: &[Name::S("a longer name than any other one here2")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words12"), accept: &[Name::S("two words12")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("THE_LONG_ONE"), accept: &[Name::S("THE_LONG_ONE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("a longer name than any other one here2"), accept: &[Name::S("a longer name than any other one here2")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("two words12"), accept: &[Name::S("two words12")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("THE_LONG_ONE"), accept: &[Name::S("THE_LONG_ONE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 63), accept: &[Name::I(Int::Usize, 63)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("THE_LONG_ONE"), accept: &[Name::S("THE_LONG_ONE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("tag"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("alpha"), accept: &[Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 63), accept: &[Name::I(Int::Usize, 63)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("AGE"), accept: &[Name::S("AGE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("THE_LONG_ONE"), accept: &[Name::S("THE_LONG_ONE")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E5),
    dec: dti::decs!(E5),
};

#[derive(Encode, Decode)]
#[musli(content(value = dti::Tag(63), type = dti::Tag), tag(value = dti::Tag(35), type = dti::Tag), name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub enum E6 {
    #[musli(name = b"k x6")]
    FirstVariant(
        #[musli(Binary, name = 951539806886)]
        #[musli(skip_encoding_if = dti::blank)]
        String,
    ),
}

impl Model for E6 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self::FirstVariant(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant(v0) => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E6: Def = Def {
    name: "E6",
    source: r###"#[musli(content(value = dti::Tag(63), type = dti::Tag), tag(value = dti::Tag(35), type = dti::Tag), name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub enum E6 {
    #[musli(name = b"k x6")]
    FirstVariant(
        #[musli(Binary, name = 951539806886)]
        #[musli(skip_encoding_if = dti::blank)]
        String,
    ),
}
"###,
    shapes: &[&[Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k x6"), accept: &[Name::B(b"k x6")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 951539806886), accept: &[Name::I(Int::Usize, 951539806886)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k x6"), accept: &[Name::B(b"k x6")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 951539806886), accept: &[Name::I(Int::Usize, 951539806886)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k x6"), accept: &[Name::B(b"k x6")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k x6"), accept: &[Name::B(b"k x6")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k x6"), accept: &[Name::B(b"k x6")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 63), K::Int(Int::U16)), kty: K::Bytes, fallback: None, variants: &[
                Var { name: Name::B(b"k x6"), accept: &[Name::B(b"k x6")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E6),
    dec: dti::decs!(E6),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name_all = "name")]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub enum E7 {
    ReplyTo,
}

impl Model for E7 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self::ReplyTo,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
        }
    }
}

pub static DEF_E7: Def = Def {
    name: "E7",
    source: r###"#[musli(mode = Odd, name_all = "name")]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub enum E7 {
    ReplyTo,
}
"###,
    shapes: &[&[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E7),
    dec: dti::decs!(E7),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E8 {
    #[musli(transparent)]
    ReplyTo {
        #[musli(Text, default)]
        value: [String; 2],
    },
    #[musli(name(type = usize))]
    #[musli(Binary, name(type = usize))]
    Request {
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        age: u32,
        #[musli(Text, decode_only, pattern = (1 | 161))]
        b2b: Vec<u32>,
    },
}

impl Model for E8 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { value: dti::get(&f[0]) },
            _ => Self::Request { age: dti::get(&f[0]), b2b: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request { age: v0, b2b: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E8: Def = Def {
    name: "E8",
    source: r###"#[musli(mode = Odd)]
pub enum E8 {
    #[musli(transparent)]
    ReplyTo {
        #[musli(Text, default)]
        value: [String; 2],
    },
    #[musli(name(type = usize))]
    #[musli(Binary, name(type = usize))]
    Request {
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        age: u32,
        #[musli(Text, decode_only, pattern = (1 | 161))]
        b2b: Vec<u32>,
    },
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Str, 2)], &[Ty::Int(Int::U32), Ty::Seq(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 161)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E8),
    dec: dti::decs!(E8),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
pub struct S9(
    #[musli(with = dti::as_str)]
    #[musli(mode = Odd, with = dti::as_str)]
    pub u32,
    pub u32,
);

impl Model for S9 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S9: Def = Def {
    name: "S9",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
pub struct S9(
    #[musli(with = dti::as_str)]
    #[musli(mode = Odd, with = dti::as_str)]
    pub u32,
    pub u32,
);
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S9),
    dec: dti::decs!(S9),
};

#[derive(Encode, Decode)]
#[musli(name(type = u64))]
#[musli(mode = Odd)]
pub struct S10 {
    #[musli(name = 34)]
    pub the_long_one: Vec<E3>,
    #[musli(Binary, encode_only, name = 380770736850489713, skip)]
    #[musli(default = dti::special, name = 280529295475990469)]
    pub name: char,
    #[musli(default)]
    #[musli(skip_encoding_if = dti::blank, name = 538270971539253055)]
    pub items: BTreeMap<String, i8>,
    #[musli(name = 443598622775790408)]
    #[musli(mode = Odd, decode_only, pattern = 443598622775790408)]
    pub r#type: String,
}

impl Model for S10 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { the_long_one: dti::get(&f[0]), name: dti::get(&f[1]), items: dti::get(&f[2]), r#type: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { the_long_one: v0, name: v1, items: v2, r#type: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S10: Def = Def {
    name: "S10",
    source: r###"#[musli(name(type = u64))]
#[musli(mode = Odd)]
pub struct S10 {
    #[musli(name = 34)]
    pub the_long_one: Vec<E3>,
    #[musli(Binary, encode_only, name = 380770736850489713, skip)]
    #[musli(default = dti::special, name = 280529295475990469)]
    pub name: char,
    #[musli(default)]
    #[musli(skip_encoding_if = dti::blank, name = 538270971539253055)]
    pub items: BTreeMap<String, i8>,
    #[musli(name = 443598622775790408)]
    #[musli(mode = Odd, decode_only, pattern = 443598622775790408)]
    pub r#type: String,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Rec(&DEF_E3)), Ty::Char, Ty::Map(&Ty::Int(Int::I8)), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 34), accept: &[Name::I(Int::U64, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 380770736850489713), accept: &[Name::I(Int::U64, 380770736850489713)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 538270971539253055), accept: &[Name::I(Int::U64, 538270971539253055)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 443598622775790408), accept: &[Name::I(Int::U64, 443598622775790408)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 34), accept: &[Name::I(Int::U64, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 280529295475990469), accept: &[Name::I(Int::U64, 280529295475990469)], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 538270971539253055), accept: &[Name::I(Int::U64, 538270971539253055)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 443598622775790408), accept: &[Name::I(Int::U64, 443598622775790408)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 34), accept: &[Name::I(Int::U64, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 280529295475990469), accept: &[Name::I(Int::U64, 280529295475990469)], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 538270971539253055), accept: &[Name::I(Int::U64, 538270971539253055)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 443598622775790408), accept: &[Name::I(Int::U64, 443598622775790408)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 34), accept: &[Name::I(Int::U64, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 280529295475990469), accept: &[Name::I(Int::U64, 280529295475990469)], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 538270971539253055), accept: &[Name::I(Int::U64, 538270971539253055)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 443598622775790408), accept: &[Name::I(Int::U64, 443598622775790408)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 34), accept: &[Name::I(Int::U64, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 280529295475990469), accept: &[Name::I(Int::U64, 280529295475990469)], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 538270971539253055), accept: &[Name::I(Int::U64, 538270971539253055)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 443598622775790408), accept: &[Name::I(Int::U64, 443598622775790408)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U64), unit: false, fields: &[
                Field { name: Name::I(Int::U64, 34), accept: &[Name::I(Int::U64, 34)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 280529295475990469), accept: &[Name::I(Int::U64, 280529295475990469)], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 538270971539253055), accept: &[Name::I(Int::U64, 538270971539253055)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::U64, 443598622775790408), accept: &[Name::I(Int::U64, 443598622775790408)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S10),
    dec: dti::decs!(S10),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S11<T> {
    #[musli(encode_only, skip)]
    pub the_long_one: Option<T>,
    #[musli(mode = Odd, skip)]
    #[musli(Text, name = "two words")]
    pub y: Vec<T>,
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub kind: Vec<bool>,
    pub last_seen_at: Option<char>,
    pub value: T,
    pub first_name: i16,
}

impl Model for S11<u32> {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { the_long_one: dti::get(&f[0]), y: dti::get(&f[1]), kind: dti::get(&f[2]), last_seen_at: dti::get(&f[3]), value: dti::get(&f[4]), first_name: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { the_long_one: v0, y: v1, kind: v2, last_seen_at: v3, value: v4, first_name: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S11: Def = Def {
    name: "S11",
    source: r###"#[musli(mode = Odd)]
pub struct S11<T> {
    #[musli(encode_only, skip)]
    pub the_long_one: Option<T>,
    #[musli(mode = Odd, skip)]
    #[musli(Text, name = "two words")]
    pub y: Vec<T>,
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub kind: Vec<bool>,
    pub last_seen_at: Option<char>,
    pub value: T,
    pub first_name: i16,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Int(Int::U32)), Ty::Seq(&Ty::Int(Int::U32)), Ty::Seq(&Ty::Bool), Ty::Opt(&Ty::Char), Ty::Int(Int::U32), Ty::Int(Int::I16)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<bool>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<bool>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Path(dti::special_val::<Vec<bool>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Path(dti::special_val::<Vec<bool>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<bool>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<Vec<bool>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S11<u32>),
    dec: dti::decs!(S11<u32>),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name_all = "PascalCase")]
pub struct S12 {
    #[musli(default = dti::special)]
    #[musli(Binary, default = dti::special)]
    pub last_seen_at: i8,
    pub age: (u32, ),
    pub data: S9,
    #[musli(Binary, with = dti::as_str)]
    #[musli(default)]
    #[musli(Text, skip_encoding_if = dti::blank)]
    pub b2b: u32,
    #[musli(encode_only, skip_encoding_if = dti::blank)]
    #[musli(trace)]
    #[musli(default)]
    pub name: BTreeMap<String, u32>,
    #[musli(Text, skip)]
    #[musli(with = dti::as_str)]
    pub kind: u32,
}

impl Model for S12 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { last_seen_at: dti::get(&f[0]), age: dti::get(&f[1]), data: dti::get(&f[2]), b2b: dti::get(&f[3]), name: dti::get(&f[4]), kind: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { last_seen_at: v0, age: v1, data: v2, b2b: v3, name: v4, kind: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S12: Def = Def {
    name: "S12",
    source: r###"#[musli(mode = Odd)]
#[musli(name_all = "PascalCase")]
pub struct S12 {
    #[musli(default = dti::special)]
    #[musli(Binary, default = dti::special)]
    pub last_seen_at: i8,
    pub age: (u32, ),
    pub data: S9,
    #[musli(Binary, with = dti::as_str)]
    #[musli(default)]
    #[musli(Text, skip_encoding_if = dti::blank)]
    pub b2b: u32,
    #[musli(encode_only, skip_encoding_if = dti::blank)]
    #[musli(trace)]
    #[musli(default)]
    pub name: BTreeMap<String, u32>,
    #[musli(Text, skip)]
    #[musli(with = dti::as_str)]
    pub kind: u32,
}
"###,
    shapes: &[&[Ty::Int(Int::I8), Ty::Tup(&[Ty::Int(Int::U32)]), Ty::Rec(&DEF_S9), Ty::Int(Int::U32), Ty::Map(&Ty::Int(Int::U32)), Ty::Int(Int::U32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("LastSeenAt"), accept: &[Name::S("LastSeenAt")], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Age"), accept: &[Name::S("Age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2b"), accept: &[Name::S("B2b")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::With },
                Field { name: Name::S("Name"), accept: &[Name::S("Name")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("LastSeenAt"), accept: &[Name::S("LastSeenAt")], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Age"), accept: &[Name::S("Age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2b"), accept: &[Name::S("B2b")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::With },
                Field { name: Name::S("Name"), accept: &[Name::S("Name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("LastSeenAt"), accept: &[Name::S("LastSeenAt")], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Age"), accept: &[Name::S("Age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2b"), accept: &[Name::S("B2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("Name"), accept: &[Name::S("Name")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("LastSeenAt"), accept: &[Name::S("LastSeenAt")], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Age"), accept: &[Name::S("Age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2b"), accept: &[Name::S("B2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("Name"), accept: &[Name::S("Name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("LastSeenAt"), accept: &[Name::S("LastSeenAt")], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Age"), accept: &[Name::S("Age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2b"), accept: &[Name::S("B2b")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Name"), accept: &[Name::S("Name")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("LastSeenAt"), accept: &[Name::S("LastSeenAt")], skip: false, default: Dflt::Path(dti::special_val::<i8>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Age"), accept: &[Name::S("Age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Data"), accept: &[Name::S("Data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2b"), accept: &[Name::S("B2b")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Name"), accept: &[Name::S("Name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Kind"), accept: &[Name::S("Kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
            ] }),
        ],
    ],
    enc: dti::encs!(S12),
    dec: dti::decs!(S12),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S13 {
    pub data: Option<bool>,
}

impl Model for S13 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { data: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { data: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S13: Def = Def {
    name: "S13",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S13 {
    pub data: Option<bool>,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Bool)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S13),
    dec: dti::decs!(S13),
};

#[derive(Encode, Decode)]
#[musli(name_all = "index")]
#[musli(mode = Odd)]
pub struct S14(
    #[musli(mode = Odd, decode_only, bytes)]
    pub Vec<u8>,
    #[musli(Binary, decode_only, pattern = (1 | 195 | 305))]
    pub i32,
    #[musli(with = dti::as_str)]
    pub u32,
    #[musli(decode_only, skip)]
    pub String,
);

impl Model for S14 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S14: Def = Def {
    name: "S14",
    source: r###"#[musli(name_all = "index")]
#[musli(mode = Odd)]
pub struct S14(
    #[musli(mode = Odd, decode_only, bytes)]
    pub Vec<u8>,
    #[musli(Binary, decode_only, pattern = (1 | 195 | 305))]
    pub i32,
    #[musli(with = dti::as_str)]
    pub u32,
    #[musli(decode_only, skip)]
    pub String,
);
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U8)), Ty::Int(Int::I32), Ty::Int(Int::U32), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 195), Name::I(Int::Usize, 305)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Bytes },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S14),
    dec: dti::decs!(S14),
};

#[derive(Encode, Decode)]
#[musli(tag = "t")]
#[musli(mode = Odd)]
pub enum E15 {
    #[musli(name_all = "camelCase")]
    #[musli(mode = Odd, pattern = 0)]
    X {
        #[musli(skip_encoding_if = dti::blank, default)]
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        flag: Vec<bool>,
    },
    #[musli(transparent)]
    Request(
        S0,
    ),
    #[musli(default)]
    Other,
}

impl Model for E15 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::X { flag: dti::get(&f[0]) },
            1 => Self::Request(dti::get(&f[0])),
            _ => Self::Other,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::X { flag: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::Other => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E15: Def = Def {
    name: "E15",
    source: r###"#[musli(tag = "t")]
#[musli(mode = Odd)]
pub enum E15 {
    #[musli(name_all = "camelCase")]
    #[musli(mode = Odd, pattern = 0)]
    X {
        #[musli(skip_encoding_if = dti::blank, default)]
        #[musli(Text, decode_only, skip_encoding_if = dti::blank)]
        flag: Vec<bool>,
    },
    #[musli(transparent)]
    Request(
        S0,
    ),
    #[musli(default)]
    Other,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Bool)], &[Ty::Rec(&DEF_S0)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Str, fallback: Some(2), variants: &[
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("t"), K::Str), kty: K::Int(Int::Usize), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E15),
    dec: dti::decs!(E15),
};

#[derive(Encode, Decode)]
#[musli(tag(value = "type"))]
#[musli(mode = Odd)]
pub enum E16 {
    #[musli(name(type = str))]
    FirstVariant {
    },
    #[musli(mode = Odd, name = 14)]
    #[musli(Text, pattern = ("X" | "x.y" | "x.y9"))]
    X,
    #[musli(name_all = "kebab-case")]
    #[musli(Binary, pattern = (2 | 197 | 241))]
    ReplyTo {
        #[musli(default = dti::special)]
        last_seen_at: char,
        #[musli(Text, default)]
        age: bool,
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Binary, decode_only, pattern = ("the-long-one" | "back\\slash" | ""))]
        the_long_one: Vec<String>,
        #[musli(mode = Odd, encode_only, default = dti::special)]
        name: u8,
    },
    #[musli(name(type = str))]
    Request {
        #[musli(skip)]
        #[musli(Text, decode_only, pattern = "x")]
        #[musli(Binary, skip)]
        x: String,
        value: String,
    },
}

impl Model for E16 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant {  },
            1 => Self::X,
            2 => Self::ReplyTo { last_seen_at: dti::get(&f[0]), age: dti::get(&f[1]), the_long_one: dti::get(&f[2]), name: dti::get(&f[3]) },
            _ => Self::Request { x: dti::get(&f[0]), value: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant {  } => dti::rec(0, vec![]),
            Self::X => dti::rec(1, vec![]),
            Self::ReplyTo { last_seen_at: v0, age: v1, the_long_one: v2, name: v3 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Request { x: v0, value: v1 } => dti::rec(3, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E16: Def = Def {
    name: "E16",
    source: r###"#[musli(tag(value = "type"))]
#[musli(mode = Odd)]
pub enum E16 {
    #[musli(name(type = str))]
    FirstVariant {
    },
    #[musli(mode = Odd, name = 14)]
    #[musli(Text, pattern = ("X" | "x.y" | "x.y9"))]
    X,
    #[musli(name_all = "kebab-case")]
    #[musli(Binary, pattern = (2 | 197 | 241))]
    ReplyTo {
        #[musli(default = dti::special)]
        last_seen_at: char,
        #[musli(Text, default)]
        age: bool,
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(Binary, decode_only, pattern = ("the-long-one" | "back\\slash" | ""))]
        the_long_one: Vec<String>,
        #[musli(mode = Odd, encode_only, default = dti::special)]
        name: u8,
    },
    #[musli(name(type = str))]
    Request {
        #[musli(skip)]
        #[musli(Text, decode_only, pattern = "x")]
        #[musli(Binary, skip)]
        x: String,
        value: String,
    },
}
"###,
    shapes: &[&[], &[], &[Ty::Char, Ty::Bool, Ty::Seq(&Ty::Str), Ty::Int(Int::U8)], &[Ty::Str, Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::S("type"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 197), Name::I(Int::Usize, 241)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last-seen-at"), accept: &[Name::S("last-seen-at")], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("type"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2), Name::I(Int::Usize, 197), Name::I(Int::Usize, 241)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last-seen-at"), accept: &[Name::S("last-seen-at")], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one"), Name::S("back\\slash"), Name::S("")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("type"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X"), Name::S("x.y"), Name::S("x.y9")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last-seen-at"), accept: &[Name::S("last-seen-at")], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("type"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X"), Name::S("x.y"), Name::S("x.y9")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last-seen-at"), accept: &[Name::S("last-seen-at")], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::S("type"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 14), accept: &[Name::I(Int::Usize, 14)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last-seen-at"), accept: &[Name::S("last-seen-at")], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Path(dti::special_val::<u8>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::S("type"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 14), accept: &[Name::I(Int::Usize, 14)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last-seen-at"), accept: &[Name::S("last-seen-at")], skip: false, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("the-long-one"), accept: &[Name::S("the-long-one")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E16),
    dec: dti::decs!(E16),
};

#[derive(Encode, Decode)]
#[musli(Text, name_all = "camelCase")]
#[musli(mode = Odd)]
pub struct S17<T> {
    #[musli(skip_encoding_if = Vec::is_empty)]
    #[musli(Binary, encode_only, default = dti::special)]
    pub the_long_one: Vec<u64>,
    pub kind: T,
    #[musli(default = dti::special)]
    pub note_to_self: u128,
    #[musli(mode = Odd, pattern = (3 | 51 | 174))]
    #[musli(decode_only, packed)]
    pub last_seen_at: [String; 1],
    pub y: i32,
}

impl Model for S17<u32> {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { the_long_one: dti::get(&f[0]), kind: dti::get(&f[1]), note_to_self: dti::get(&f[2]), last_seen_at: dti::get(&f[3]), y: dti::get(&f[4]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { the_long_one: v0, kind: v1, note_to_self: v2, last_seen_at: v3, y: v4 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val()]),
        }
    }
}

pub static DEF_S17: Def = Def {
    name: "S17",
    source: r###"#[musli(Text, name_all = "camelCase")]
#[musli(mode = Odd)]
pub struct S17<T> {
    #[musli(skip_encoding_if = Vec::is_empty)]
    #[musli(Binary, encode_only, default = dti::special)]
    pub the_long_one: Vec<u64>,
    pub kind: T,
    #[musli(default = dti::special)]
    pub note_to_self: u128,
    #[musli(mode = Odd, pattern = (3 | 51 | 174))]
    #[musli(decode_only, packed)]
    pub last_seen_at: [String; 1],
    pub y: i32,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U64)), Ty::Int(Int::U32), Ty::Int(Int::U128), Ty::Arr(&Ty::Str, 1), Ty::Int(Int::I32)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u64>>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("theLongOne"), accept: &[Name::S("theLongOne")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("lastSeenAt"), accept: &[Name::S("lastSeenAt")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("theLongOne"), accept: &[Name::S("theLongOne")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("lastSeenAt"), accept: &[Name::S("lastSeenAt")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 51), Name::I(Int::Usize, 174)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<u128>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3), Name::I(Int::Usize, 51), Name::I(Int::Usize, 174)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S17<u32>),
    dec: dti::decs!(S17<u32>),
};

#[derive(Encode, Decode)]
#[musli(content(value = dti::Tag(65), type = dti::Tag))]
#[musli(mode = Odd)]
#[musli(tag(value = dti::Tag(35), type = dti::Tag))]
pub enum E18 {
    ReplyTo,
    #[musli(encode_only, name(type = i32))]
    VeryLongName(
    ),
    B2(
        #[musli(name = 875456656031)]
        #[musli(mode = Odd, skip)]
        #[musli(mode = Odd, name = 148)]
        String,
        String,
        #[musli(name = 168843710397)]
        #[musli(mode = Odd, name = 61)]
        String,
    ),
    Request {
        items: String,
        #[musli(default = dti::special)]
        #[musli(skip_encoding_if = dti::blank)]
        x: i32,
        #[musli(Text, pattern = ("kind" | "4"))]
        kind: String,
        y: bool,
    },
}

impl Model for E18 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo,
            1 => Self::VeryLongName(),
            2 => Self::B2(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
            _ => Self::Request { items: dti::get(&f[0]), x: dti::get(&f[1]), kind: dti::get(&f[2]), y: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
            Self::VeryLongName() => dti::rec(1, vec![]),
            Self::B2(v0, v1, v2) => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Request { items: v0, x: v1, kind: v2, y: v3 } => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E18: Def = Def {
    name: "E18",
    source: r###"#[musli(content(value = dti::Tag(65), type = dti::Tag))]
#[musli(mode = Odd)]
#[musli(tag(value = dti::Tag(35), type = dti::Tag))]
pub enum E18 {
    ReplyTo,
    #[musli(encode_only, name(type = i32))]
    VeryLongName(
    ),
    B2(
        #[musli(name = 875456656031)]
        #[musli(mode = Odd, skip)]
        #[musli(mode = Odd, name = 148)]
        String,
        String,
        #[musli(name = 168843710397)]
        #[musli(mode = Odd, name = 61)]
        String,
    ),
    Request {
        items: String,
        #[musli(default = dti::special)]
        #[musli(skip_encoding_if = dti::blank)]
        x: i32,
        #[musli(Text, pattern = ("kind" | "4"))]
        kind: String,
        y: bool,
    },
}
"###,
    shapes: &[&[], &[], &[Ty::Str, Ty::Str, Ty::Str], &[Ty::Str, Ty::Int(Int::I32), Ty::Str, Ty::Bool]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 65), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 875456656031), accept: &[Name::I(Int::Usize, 875456656031)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 168843710397), accept: &[Name::I(Int::Usize, 168843710397)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 65), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 875456656031), accept: &[Name::I(Int::Usize, 875456656031)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 168843710397), accept: &[Name::I(Int::Usize, 168843710397)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 65), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 875456656031), accept: &[Name::I(Int::Usize, 875456656031)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 168843710397), accept: &[Name::I(Int::Usize, 168843710397)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind"), Name::S("4")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 65), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 875456656031), accept: &[Name::I(Int::Usize, 875456656031)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 168843710397), accept: &[Name::I(Int::Usize, 168843710397)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind"), Name::S("4")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 65), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::I32), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 148), accept: &[Name::I(Int::Usize, 148)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 61), accept: &[Name::I(Int::Usize, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 35), Name::I(Int::U16, 65), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 148), accept: &[Name::I(Int::Usize, 148)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 61), accept: &[Name::I(Int::Usize, 61)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<i32>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E18),
    dec: dti::decs!(E18),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
#[musli(Text, transparent)]
pub struct S19(
    pub Vec<u8>,
);

impl Model for S19 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0) => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S19: Def = Def {
    name: "S19",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
#[musli(Text, transparent)]
pub struct S19(
    pub Vec<u8>,
);
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U8))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S19),
    dec: dti::decs!(S19),
};

#[derive(Encode, Decode)]
#[musli(name(type = u64))]
#[musli(mode = Odd)]
#[musli(Binary, name(type = u64))]
pub enum E20 {
    #[musli(name = 17)]
    VeryLongName,
    #[musli(name = 103570766267141016, name(type = u8))]
    Other(
    ),
    #[musli(Text, name = 16)]
    #[musli(Binary, name = 77)]
    #[musli(mode = Odd, name = 64)]
    X,
}

impl Model for E20 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName,
            1 => Self::Other(),
            _ => Self::X,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName => dti::rec(0, vec![]),
            Self::Other() => dti::rec(1, vec![]),
            Self::X => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E20: Def = Def {
    name: "E20",
    source: r###"#[musli(name(type = u64))]
#[musli(mode = Odd)]
#[musli(Binary, name(type = u64))]
pub enum E20 {
    #[musli(name = 17)]
    VeryLongName,
    #[musli(name = 103570766267141016, name(type = u8))]
    Other(
    ),
    #[musli(Text, name = 16)]
    #[musli(Binary, name = 77)]
    #[musli(mode = Odd, name = 64)]
    X,
}
"###,
    shapes: &[&[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::U64), fallback: None, variants: &[
                Var { name: Name::I(Int::U64, 17), accept: &[Name::I(Int::U64, 17)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U64, 103570766267141016), accept: &[Name::I(Int::U64, 103570766267141016)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
                Var { name: Name::I(Int::U64, 77), accept: &[Name::I(Int::U64, 77)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::U64), fallback: None, variants: &[
                Var { name: Name::I(Int::U64, 17), accept: &[Name::I(Int::U64, 17)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U64, 103570766267141016), accept: &[Name::I(Int::U64, 103570766267141016)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
                Var { name: Name::I(Int::U64, 77), accept: &[Name::I(Int::U64, 77)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::U64), fallback: None, variants: &[
                Var { name: Name::I(Int::U64, 17), accept: &[Name::I(Int::U64, 17)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::U64, 103570766267141016), accept: &[Name::I(Int::U64, 103570766267141016)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
                Var { name: Name::I(Int::U64, 16), accept: &[Name::I(Int::U64, 16)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::U64), fallback: None, variants: &[
                Var { name: Name::I(Int::U64, 17), accept: &[Name::I(Int::U64, 17)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::U64, 103570766267141016), accept: &[Name::I(Int::U64, 103570766267141016)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
                Var { name: Name::I(Int::U64, 16), accept: &[Name::I(Int::U64, 16)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::U64), fallback: None, variants: &[
                Var { name: Name::I(Int::U64, 17), accept: &[Name::I(Int::U64, 17)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U64, 103570766267141016), accept: &[Name::I(Int::U64, 103570766267141016)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
                Var { name: Name::I(Int::U64, 64), accept: &[Name::I(Int::U64, 64)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::U64), fallback: None, variants: &[
                Var { name: Name::I(Int::U64, 17), accept: &[Name::I(Int::U64, 17)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::U64, 103570766267141016), accept: &[Name::I(Int::U64, 103570766267141016)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[] } },
                Var { name: Name::I(Int::U64, 64), accept: &[Name::I(Int::U64, 64)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E20),
    dec: dti::decs!(E20),
};

#[derive(Encode, Decode)]
#[musli(content(value = dti::Tag(64), type = dti::Tag), name_all = "SCREAMING-KEBAB-CASE")]
#[musli(tag(value = dti::Tag(32), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E21 {
    #[musli(mode = Odd, name = "back\\slash")]
    #[musli(name = "q\"uote", transparent)]
    Alpha(
        Option<S4>,
    ),
    #[musli(transparent)]
    B2(
        String,
    ),
    #[musli(Text, name(type = usize))]
    #[musli(name(type = usize))]
    ReplyTo {
        kind: String,
        #[musli(Text, default)]
        value: usize,
    },
    #[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
    Empty {
        #[musli(Text, packed)]
        #[musli(Binary, name = b"k46")]
        #[musli(Text, decode_only, default)]
        #[musli(packed)]
        the_long_one: [String; 3],
        #[musli(Binary, name = b"k x0")]
        #[musli(default = dti::special)]
        flag: Vec<u8>,
        #[musli(Binary, name = b"k x41", skip_encoding_if = dti::blank)]
        #[musli(default)]
        kind: String,
    },
}

impl Model for E21 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha(dti::get(&f[0])),
            1 => Self::B2(dti::get(&f[0])),
            2 => Self::ReplyTo { kind: dti::get(&f[0]), value: dti::get(&f[1]) },
            _ => Self::Empty { the_long_one: dti::get(&f[0]), flag: dti::get(&f[1]), kind: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::B2(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::ReplyTo { kind: v0, value: v1 } => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
            Self::Empty { the_long_one: v0, flag: v1, kind: v2 } => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E21: Def = Def {
    name: "E21",
    source: r###"#[musli(content(value = dti::Tag(64), type = dti::Tag), name_all = "SCREAMING-KEBAB-CASE")]
#[musli(tag(value = dti::Tag(32), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E21 {
    #[musli(mode = Odd, name = "back\\slash")]
    #[musli(name = "q\"uote", transparent)]
    Alpha(
        Option<S4>,
    ),
    #[musli(transparent)]
    B2(
        String,
    ),
    #[musli(Text, name(type = usize))]
    #[musli(name(type = usize))]
    ReplyTo {
        kind: String,
        #[musli(Text, default)]
        value: usize,
    },
    #[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
    Empty {
        #[musli(Text, packed)]
        #[musli(Binary, name = b"k46")]
        #[musli(Text, decode_only, default)]
        #[musli(packed)]
        the_long_one: [String; 3],
        #[musli(Binary, name = b"k x0")]
        #[musli(default = dti::special)]
        flag: Vec<u8>,
        #[musli(Binary, name = b"k x41", skip_encoding_if = dti::blank)]
        #[musli(default)]
        kind: String,
    },
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Rec(&DEF_S4))], &[Ty::Str], &[Ty::Str, Ty::Int(Int::Usize)], &[Ty::Arr(&Ty::Str, 3), Ty::Seq(&Ty::Int(Int::U8)), Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 32), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k46"), accept: &[Name::B(b"k46")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::B(b"k x0"), accept: &[Name::B(b"k x0")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k x41"), accept: &[Name::B(b"k x41")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 32), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k46"), accept: &[Name::B(b"k46")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::B(b"k x0"), accept: &[Name::B(b"k x0")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k x41"), accept: &[Name::B(b"k x41")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 32), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 32), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("q\"uote"), accept: &[Name::S("q\"uote")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 32), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 32), Name::I(Int::U16, 64), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY-TO"), accept: &[Name::S("REPLY-TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("EMPTY"), accept: &[Name::S("EMPTY")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u8>>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E21),
    dec: dti::decs!(E21),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E22 {
    #[musli(Binary, decode_only, pattern = (0 | 16))]
    ReplyTo {
        #[musli(decode_only, skip)]
        #[musli(mode = Odd, pattern = (0 | 347 | 298771256860))]
        kind: Vec<u8>,
    },
    VeryLongName {
        #[musli(Text, decode_only, pattern = ("age" | "q\"uote" | "x.y4"))]
        #[musli(Binary, packed)]
        #[musli(packed)]
        age: (u32, bool, ),
        #[musli(trace, skip)]
        #[musli(mode = Odd, encode_only, trace)]
        y: BTreeMap<String, E7>,
        name: char,
    },
}

impl Model for E22 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { kind: dti::get(&f[0]) },
            _ => Self::VeryLongName { age: dti::get(&f[0]), y: dti::get(&f[1]), name: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { kind: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::VeryLongName { age: v0, y: v1, name: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E22: Def = Def {
    name: "E22",
    source: r###"#[musli(mode = Odd)]
pub enum E22 {
    #[musli(Binary, decode_only, pattern = (0 | 16))]
    ReplyTo {
        #[musli(decode_only, skip)]
        #[musli(mode = Odd, pattern = (0 | 347 | 298771256860))]
        kind: Vec<u8>,
    },
    VeryLongName {
        #[musli(Text, decode_only, pattern = ("age" | "q\"uote" | "x.y4"))]
        #[musli(Binary, packed)]
        #[musli(packed)]
        age: (u32, bool, ),
        #[musli(trace, skip)]
        #[musli(mode = Odd, encode_only, trace)]
        y: BTreeMap<String, E7>,
        name: char,
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U8))], &[Ty::Tup(&[Ty::Int(Int::U32), Ty::Bool]), Ty::Map(&Ty::Rec(&DEF_E7)), Ty::Char]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 16)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age"), Name::S("q\"uote"), Name::S("x.y4")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 347), Name::I(Int::Usize, 298771256860)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 347), Name::I(Int::Usize, 298771256860)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E22),
    dec: dti::decs!(E22),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = i32))]
pub enum E23 {
    #[musli(Binary, name = -5)]
    #[musli(Text, name = -3118)]
    #[musli(mode = Odd, name = 53)]
    Empty(
        Vec<S4>,
        #[musli(Binary, decode_only, pattern = 1)]
        i64,
    ),
    #[musli(Text, name = 24)]
    #[musli(Binary, name = -2)]
    #[musli(mode = Odd, name = 17)]
    #[musli(name_all = "name")]
    VeryLongName {
    },
}

impl Model for E23 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty(dti::get(&f[0]), dti::get(&f[1])),
            _ => Self::VeryLongName {  },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::VeryLongName {  } => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E23: Def = Def {
    name: "E23",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = i32))]
pub enum E23 {
    #[musli(Binary, name = -5)]
    #[musli(Text, name = -3118)]
    #[musli(mode = Odd, name = 53)]
    Empty(
        Vec<S4>,
        #[musli(Binary, decode_only, pattern = 1)]
        i64,
    ),
    #[musli(Text, name = 24)]
    #[musli(Binary, name = -2)]
    #[musli(mode = Odd, name = 17)]
    #[musli(name_all = "name")]
    VeryLongName {
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Rec(&DEF_S4)), Ty::Int(Int::I64)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -5), accept: &[Name::I(Int::I32, -5)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -5), accept: &[Name::I(Int::I32, -5)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -2), accept: &[Name::I(Int::I32, -2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -3118), accept: &[Name::I(Int::I32, -3118)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, 24), accept: &[Name::I(Int::I32, 24)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -3118), accept: &[Name::I(Int::I32, -3118)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, 24), accept: &[Name::I(Int::I32, 24)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, 53), accept: &[Name::I(Int::I32, 53)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, 17), accept: &[Name::I(Int::I32, 17)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, 53), accept: &[Name::I(Int::I32, 53)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, 17), accept: &[Name::I(Int::I32, 17)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E23),
    dec: dti::decs!(E23),
};

#[derive(Encode, Decode)]
#[musli(name_all = "index")]
#[musli(mode = Odd, encode_only, name_all = "kebab-case")]
pub struct S24;

impl Model for S24 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => S24,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            S24 => dti::rec(0, vec![]),
        }
    }
}

pub static DEF_S24: Def = Def {
    name: "S24",
    source: r###"#[musli(name_all = "index")]
#[musli(mode = Odd, encode_only, name_all = "kebab-case")]
pub struct S24;
"###,
    shapes: &[&[]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] }),
        ],
    ],
    enc: dti::encs!(S24),
    dec: dti::decs!(S24),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S25(
    #[musli(skip, default = dti::special)]
    pub bool,
    pub u128,
);

impl Model for S25 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S25: Def = Def {
    name: "S25",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S25(
    #[musli(skip, default = dti::special)]
    pub bool,
    pub u128,
);
"###,
    shapes: &[&[Ty::Bool, Ty::Int(Int::U128)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S25),
    dec: dti::decs!(S25),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = u8))]
pub struct S26 {
    #[musli(Text, name = 151)]
    #[musli(mode = Odd, name = 246)]
    #[musli(Binary, name = 187)]
    pub items: usize,
    #[musli(mode = Odd, name = 6)]
    #[musli(Text, name = 207)]
    #[musli(Binary, name = 5)]
    pub value: String,
}

impl Model for S26 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { items: dti::get(&f[0]), value: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { items: v0, value: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_S26: Def = Def {
    name: "S26",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = u8))]
pub struct S26 {
    #[musli(Text, name = 151)]
    #[musli(mode = Odd, name = 246)]
    #[musli(Binary, name = 187)]
    pub items: usize,
    #[musli(mode = Odd, name = 6)]
    #[musli(Text, name = 207)]
    #[musli(Binary, name = 5)]
    pub value: String,
}
"###,
    shapes: &[&[Ty::Int(Int::Usize), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                Field { name: Name::I(Int::U8, 187), accept: &[Name::I(Int::U8, 187)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U8, 5), accept: &[Name::I(Int::U8, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                Field { name: Name::I(Int::U8, 187), accept: &[Name::I(Int::U8, 187)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U8, 5), accept: &[Name::I(Int::U8, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                Field { name: Name::I(Int::U8, 151), accept: &[Name::I(Int::U8, 151)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U8, 207), accept: &[Name::I(Int::U8, 207)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                Field { name: Name::I(Int::U8, 151), accept: &[Name::I(Int::U8, 151)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U8, 207), accept: &[Name::I(Int::U8, 207)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                Field { name: Name::I(Int::U8, 246), accept: &[Name::I(Int::U8, 246)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                Field { name: Name::I(Int::U8, 246), accept: &[Name::I(Int::U8, 246)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S26),
    dec: dti::decs!(S26),
};

#[derive(Encode, Decode)]
#[musli(name(type = usize))]
#[musli(mode = Odd)]
pub enum E27 {
    Request,
    #[musli(default)]
    B2,
    Empty,
}

impl Model for E27 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Request,
            1 => Self::B2,
            _ => Self::Empty,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Request => dti::rec(0, vec![]),
            Self::B2 => dti::rec(1, vec![]),
            Self::Empty => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E27: Def = Def {
    name: "E27",
    source: r###"#[musli(name(type = usize))]
#[musli(mode = Odd)]
pub enum E27 {
    Request,
    #[musli(default)]
    B2,
    Empty,
}
"###,
    shapes: &[&[], &[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: Some(1), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E27),
    dec: dti::decs!(E27),
};

#[derive(Encode, Decode)]
#[musli(Text, decode_only, tag = "tag", content = "content of")]
#[musli(mode = Odd)]
#[musli(content = "content of", tag = "tag")]
pub enum E28 {
    VeryLongName {
        #[musli(default)]
        flag: u16,
        age: E18,
        b2b: char,
    },
    #[musli(Binary, pattern = (1..=5 | 637442523975))]
    Request,
}

impl Model for E28 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName { flag: dti::get(&f[0]), age: dti::get(&f[1]), b2b: dti::get(&f[2]) },
            _ => Self::Request,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName { flag: v0, age: v1, b2b: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Request => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E28: Def = Def {
    name: "E28",
    source: r###"#[musli(Text, decode_only, tag = "tag", content = "content of")]
#[musli(mode = Odd)]
#[musli(content = "content of", tag = "tag")]
pub enum E28 {
    VeryLongName {
        #[musli(default)]
        flag: u16,
        age: E18,
        b2b: char,
    },
    #[musli(Binary, pattern = (1..=5 | 637442523975))]
    Request,
}
"###,
    shapes: &[&[Ty::Int(Int::U16), Ty::Rec(&DEF_E18), Ty::Char], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 637442523975)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 637442523975)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("tag"), Name::S("content of"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E28),
    dec: dti::decs!(E28),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, encode_only, packed)]
pub struct S29 {
    pub last_seen_at: i8,
    pub first_name: u32,
    pub r#type: bool,
    pub x: String,
}

impl Model for S29 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { last_seen_at: dti::get(&f[0]), first_name: dti::get(&f[1]), r#type: dti::get(&f[2]), x: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { last_seen_at: v0, first_name: v1, r#type: v2, x: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S29: Def = Def {
    name: "S29",
    source: r###"#[musli(mode = Odd, encode_only, packed)]
pub struct S29 {
    pub last_seen_at: i8,
    pub first_name: u32,
    pub r#type: bool,
    pub x: String,
}
"###,
    shapes: &[&[Ty::Int(Int::I8), Ty::Int(Int::U32), Ty::Bool, Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S29),
    dec: dti::decs!(S29),
};

pub static DEFS: &[&Def] = &[
    &DEF_S0,
    &DEF_E1,
    &DEF_E2,
    &DEF_E3,
    &DEF_S4,
    &DEF_E5,
    &DEF_E6,
    &DEF_E7,
    &DEF_E8,
    &DEF_S9,
    &DEF_S10,
    &DEF_S11,
    &DEF_S12,
    &DEF_S13,
    &DEF_S14,
    &DEF_E15,
    &DEF_E16,
    &DEF_S17,
    &DEF_E18,
    &DEF_S19,
    &DEF_E20,
    &DEF_E21,
    &DEF_E22,
    &DEF_E23,
    &DEF_S24,
    &DEF_S25,
    &DEF_S26,
    &DEF_E27,
    &DEF_E28,
    &DEF_S29,
];

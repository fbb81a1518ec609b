//! Generated by tools/gen_derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use std::collections::BTreeMap;

use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};
use musli::{Decode, Encode};

#[derive(Encode, Decode)]
#[musli(tag(value = 32, type = usize))]
#[musli(mode = Odd)]
pub enum E0 {
    ReplyTo,
    #[musli(name(type = usize))]
    #[musli(Text, name = "type2")]
    B2 {
        first_name: Option<char>,
        #[musli(mode = Odd, name = 133)]
        #[musli(name = 250)]
        b2b: bool,
        id: [i32; 1],
        x: [i32; 3],
    },
    #[musli(name(type = usize))]
    VeryLongName {
        #[musli(Text, pattern = 0)]
        #[musli(mode = Odd, name = 23)]
        r#type: String,
        #[musli(skip, default = dti::special)]
        name: String,
    },
}

impl Model for E0 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo,
            1 => Self::B2 { first_name: dti::get(&f[0]), b2b: dti::get(&f[1]), id: dti::get(&f[2]), x: dti::get(&f[3]) },
            _ => Self::VeryLongName { r#type: dti::get(&f[0]), name: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
            Self::B2 { first_name: v0, b2b: v1, id: v2, x: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::VeryLongName { r#type: v0, name: v1 } => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E0: Def = Def {
    name: "E0",
    source: r###"#[musli(tag(value = 32, type = usize))]
#[musli(mode = Odd)]
pub enum E0 {
    ReplyTo,
    #[musli(name(type = usize))]
    #[musli(Text, name = "type2")]
    B2 {
        first_name: Option<char>,
        #[musli(mode = Odd, name = 133)]
        #[musli(name = 250)]
        b2b: bool,
        id: [i32; 1],
        x: [i32; 3],
    },
    #[musli(name(type = usize))]
    VeryLongName {
        #[musli(Text, pattern = 0)]
        #[musli(mode = Odd, name = 23)]
        r#type: String,
        #[musli(skip, default = dti::special)]
        name: String,
    },
}
"###,
    shapes: &[&[], &[Ty::Opt(&Ty::Char), Ty::Bool, Ty::Arr(&Ty::Int(Int::I32), 1), Ty::Arr(&Ty::Int(Int::I32), 3)], &[Ty::Str, Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 250), accept: &[Name::I(Int::Usize, 250)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 250), accept: &[Name::I(Int::Usize, 250)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 250), accept: &[Name::I(Int::Usize, 250)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 250), accept: &[Name::I(Int::Usize, 250)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 133), accept: &[Name::I(Int::Usize, 133)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 23), accept: &[Name::I(Int::Usize, 23)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::Usize, 32), K::Int(Int::Usize)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 133), accept: &[Name::I(Int::Usize, 133)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 23), accept: &[Name::I(Int::Usize, 23)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E0),
    dec: dti::decs!(E0),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name(type = dti::Tag))]
#[musli(name(type = dti::Tag))]
pub enum E1 {
    #[musli(mode = Odd, decode_only, name = dti::Tag(78))]
    #[musli(name = dti::Tag(71))]
    #[musli(Binary, pattern = dti::Tag(71))]
    FirstVariant {
        kind: E0,
    },
    #[musli(name(type = [u8], format_with = dti::Show::new), name = dti::Tag(30))]
    #[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
    Empty {
        #[musli(mode = Odd, name = b"k x10")]
        #[musli(default)]
        #[musli(Text, name = b"k x10")]
        #[musli(Binary, name = b"k19", pattern = b"k19")]
        data: Option<u128>,
    },
    #[musli(Text, name = dti::Tag(17))]
    #[musli(mode = Odd, name = dti::Tag(32))]
    #[musli(Binary, name = dti::Tag(31))]
    X(
        #[musli(Text, name = 63)]
        #[musli(Text, decode_only, pattern = (63..=67 | 339 | 83495844551))]
        E0,
    ),
    #[musli(name = dti::Tag(50))]
    B2,
}

impl Model for E1 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { kind: dti::get(&f[0]) },
            1 => Self::Empty { data: dti::get(&f[0]) },
            2 => Self::X(dti::get(&f[0])),
            _ => Self::B2,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { kind: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Empty { data: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::X(v0) => dti::rec(2, vec![v0.to_val()]),
            Self::B2 => dti::rec(3, vec![]),
        }
    }
}

pub static DEF_E1: Def = Def {
    name: "E1",
    source: r###"#[musli(mode = Odd, name(type = dti::Tag))]
#[musli(name(type = dti::Tag))]
pub enum E1 {
    #[musli(mode = Odd, decode_only, name = dti::Tag(78))]
    #[musli(name = dti::Tag(71))]
    #[musli(Binary, pattern = dti::Tag(71))]
    FirstVariant {
        kind: E0,
    },
    #[musli(name(type = [u8], format_with = dti::Show::new), name = dti::Tag(30))]
    #[musli(Binary, name(type = [u8], format_with = dti::Show::new))]
    Empty {
        #[musli(mode = Odd, name = b"k x10")]
        #[musli(default)]
        #[musli(Text, name = b"k x10")]
        #[musli(Binary, name = b"k19", pattern = b"k19")]
        data: Option<u128>,
    },
    #[musli(Text, name = dti::Tag(17))]
    #[musli(mode = Odd, name = dti::Tag(32))]
    #[musli(Binary, name = dti::Tag(31))]
    X(
        #[musli(Text, name = 63)]
        #[musli(Text, decode_only, pattern = (63..=67 | 339 | 83495844551))]
        E0,
    ),
    #[musli(name = dti::Tag(50))]
    B2,
}
"###,
    shapes: &[&[Ty::Rec(&DEF_E0)], &[Ty::Opt(&Ty::Int(Int::U128))], &[Ty::Rec(&DEF_E0)], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 71), accept: &[Name::I(Int::U16, 71)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k19"), accept: &[Name::B(b"k19")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 31), accept: &[Name::I(Int::U16, 31)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 50), accept: &[Name::I(Int::U16, 50)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 71), accept: &[Name::I(Int::U16, 71)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k19"), accept: &[Name::B(b"k19")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 31), accept: &[Name::I(Int::U16, 31)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 50), accept: &[Name::I(Int::U16, 50)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 71), accept: &[Name::I(Int::U16, 71)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x10"), accept: &[Name::B(b"k x10")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 63), accept: &[Name::I(Int::Usize, 63)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 50), accept: &[Name::I(Int::U16, 50)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 71), accept: &[Name::I(Int::U16, 71)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x10"), accept: &[Name::B(b"k x10")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 17), accept: &[Name::I(Int::U16, 17)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 63), accept: &[Name::I(Int::Usize, 63), Name::I(Int::Usize, 64), Name::I(Int::Usize, 65), Name::I(Int::Usize, 66), Name::I(Int::Usize, 67), Name::I(Int::Usize, 339), Name::I(Int::Usize, 83495844551)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 50), accept: &[Name::I(Int::U16, 50)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 71), accept: &[Name::I(Int::U16, 71)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x10"), accept: &[Name::B(b"k x10")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 50), accept: &[Name::I(Int::U16, 50)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: None, variants: &[
                Var { name: Name::I(Int::U16, 78), accept: &[Name::I(Int::U16, 78)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 30), accept: &[Name::I(Int::U16, 30)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k x10"), accept: &[Name::B(b"k x10")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 32), accept: &[Name::I(Int::U16, 32)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 50), accept: &[Name::I(Int::U16, 50)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E1),
    dec: dti::decs!(E1),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S2 {
    #[musli(mode = Odd, name = 265244883969)]
    pub y: i32,
    #[musli(skip, default = dti::special)]
    pub b2b: bool,
    #[musli(default = dti::special, skip)]
    pub data: usize,
    pub first_name: Vec<i64>,
    #[musli(default = dti::special)]
    pub id: String,
    #[musli(Binary, packed)]
    pub flag: (bool, u32, ),
}

impl Model for S2 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { y: dti::get(&f[0]), b2b: dti::get(&f[1]), data: dti::get(&f[2]), first_name: dti::get(&f[3]), id: dti::get(&f[4]), flag: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { y: v0, b2b: v1, data: v2, first_name: v3, id: v4, flag: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S2: Def = Def {
    name: "S2",
    source: r###"#[musli(mode = Odd)]
pub struct S2 {
    #[musli(mode = Odd, name = 265244883969)]
    pub y: i32,
    #[musli(skip, default = dti::special)]
    pub b2b: bool,
    #[musli(default = dti::special, skip)]
    pub data: usize,
    pub first_name: Vec<i64>,
    #[musli(default = dti::special)]
    pub id: String,
    #[musli(Binary, packed)]
    pub flag: (bool, u32, ),
}
"###,
    shapes: &[&[Ty::Int(Int::I32), Ty::Bool, Ty::Int(Int::Usize), Ty::Seq(&Ty::Int(Int::I64)), Ty::Str, Ty::Tup(&[Ty::Bool, Ty::Int(Int::U32)])]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 265244883969), accept: &[Name::I(Int::Usize, 265244883969)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 265244883969), accept: &[Name::I(Int::Usize, 265244883969)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<bool>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S2),
    dec: dti::decs!(S2),
};

#[derive(Encode, Decode)]
#[musli(content(value = dti::Tag(61), type = dti::Tag))]
#[musli(tag(value = dti::Tag(30), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(transparent)]
    VeryLongName(
        S2,
    ),
    #[musli(Binary, name = 799905412553)]
    #[musli(Text, name(type = usize))]
    Alpha {
        y: u32,
        #[musli(mode = Odd, decode_only, pattern = (1 | 218 | 595536571757))]
        items: Vec<bool>,
    },
}

impl Model for E3 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::VeryLongName(dti::get(&f[0])),
            _ => Self::Alpha { y: dti::get(&f[0]), items: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::VeryLongName(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::Alpha { y: v0, items: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E3: Def = Def {
    name: "E3",
    source: r###"#[musli(content(value = dti::Tag(61), type = dti::Tag))]
#[musli(tag(value = dti::Tag(30), type = dti::Tag))]
#[musli(mode = Odd)]
pub enum E3 {
    #[musli(transparent)]
    VeryLongName(
        S2,
    ),
    #[musli(Binary, name = 799905412553)]
    #[musli(Text, name(type = usize))]
    Alpha {
        y: u32,
        #[musli(mode = Odd, decode_only, pattern = (1 | 218 | 595536571757))]
        items: Vec<bool>,
    },
}
"###,
    shapes: &[&[Ty::Rec(&DEF_S2)], &[Ty::Int(Int::U32), Ty::Seq(&Ty::Bool)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 61), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 799905412553), accept: &[Name::I(Int::Usize, 799905412553)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 61), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 799905412553), accept: &[Name::I(Int::Usize, 799905412553)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 61), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 61), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 61), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 30), Name::I(Int::U16, 61), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 218), Name::I(Int::Usize, 595536571757)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E3),
    dec: dti::decs!(E3),
};

#[derive(Encode, Decode)]
#[musli(packed)]
#[musli(mode = Odd)]
#[repr(C)]
pub struct S4 {
    pub x: String,
    #[musli(Binary, encode_only, skip)]
    pub items: u16,
    pub id: usize,
}

impl Model for S4 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { x: dti::get(&f[0]), items: dti::get(&f[1]), id: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { x: v0, items: v1, id: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S4: Def = Def {
    name: "S4",
    source: r###"#[musli(packed)]
#[musli(mode = Odd)]
#[repr(C)]
pub struct S4 {
    pub x: String,
    #[musli(Binary, encode_only, skip)]
    pub items: u16,
    pub id: usize,
}
"###,
    shapes: &[&[Ty::Str, Ty::Int(Int::U16), Ty::Int(Int::Usize)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S4),
    dec: dti::decs!(S4),
};

#[derive(Encode, Decode)]
#[musli(Text, decode_only, name_all = "name")]
#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct S5 {
    #[musli(skip)]
    pub r#type: Vec<E1>,
    #[musli(mode = Odd, name = "10")]
    #[musli(Text, decode_only, pattern = "y")]
    pub y: String,
    #[musli(default, skip_encoding_if = dti::blank)]
    #[musli(Text, skip_encoding_if = dti::blank)]
    pub b2b: u32,
    pub id: E3,
    #[musli(Binary, name = "7")]
    pub data: u32,
    #[musli(name = "", skip_encoding_if = dti::blank, default)]
    #[musli(Binary, name = "back\\slash")]
    pub last_seen_at: i8,
}

impl Model for S5 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { r#type: dti::get(&f[0]), y: dti::get(&f[1]), b2b: dti::get(&f[2]), id: dti::get(&f[3]), data: dti::get(&f[4]), last_seen_at: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { r#type: v0, y: v1, b2b: v2, id: v3, data: v4, last_seen_at: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S5: Def = Def {
    name: "S5",
    source: r###"#[musli(Text, decode_only, name_all = "name")]
#[musli(mode = Odd)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct S5 {
    #[musli(skip)]
    pub r#type: Vec<E1>,
    #[musli(mode = Odd, name = "10")]
    #[musli(Text, decode_only, pattern = "y")]
    pub y: String,
    #[musli(default, skip_encoding_if = dti::blank)]
    #[musli(Text, skip_encoding_if = dti::blank)]
    pub b2b: u32,
    pub id: E3,
    #[musli(Binary, name = "7")]
    pub data: u32,
    #[musli(name = "", skip_encoding_if = dti::blank, default)]
    #[musli(Binary, name = "back\\slash")]
    pub last_seen_at: i8,
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Rec(&DEF_E1)), Ty::Str, Ty::Int(Int::U32), Ty::Rec(&DEF_E3), Ty::Int(Int::U32), Ty::Int(Int::I8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("TYPE"), accept: &[Name::S("TYPE")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Y"), accept: &[Name::S("Y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2B"), accept: &[Name::S("B2B")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("7"), accept: &[Name::S("7")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("TYPE"), accept: &[Name::S("TYPE")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Y"), accept: &[Name::S("Y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2B"), accept: &[Name::S("B2B")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("7"), accept: &[Name::S("7")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("back\\slash"), accept: &[Name::S("back\\slash")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("TYPE"), accept: &[Name::S("TYPE")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("Y"), accept: &[Name::S("Y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2B"), accept: &[Name::S("B2B")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("TYPE"), accept: &[Name::S("TYPE")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("10"), accept: &[Name::S("10")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2B"), accept: &[Name::S("B2B")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("TYPE"), accept: &[Name::S("TYPE")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("10"), accept: &[Name::S("10")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("B2B"), accept: &[Name::S("B2B")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("ID"), accept: &[Name::S("ID")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("DATA"), accept: &[Name::S("DATA")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S5),
    dec: dti::decs!(S5),
};

#[derive(Encode, Decode)]
#[musli(untagged)]
#[musli(Binary, untagged)]
#[musli(mode = Odd)]
pub enum E6 {
    #[musli(transparent)]
    Empty(
        Vec<u16>,
    ),
    #[musli(name(type = usize))]
    Other {
        last_seen_at: E3,
        #[musli(Text, name = 115080707286)]
        id: bool,
    },
}

impl Model for E6 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Empty(dti::get(&f[0])),
            _ => Self::Other { last_seen_at: dti::get(&f[0]), id: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Empty(v0) => dti::rec(0, vec![v0.to_val()]),
            Self::Other { last_seen_at: v0, id: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E6: Def = Def {
    name: "E6",
    source: r###"#[musli(untagged)]
#[musli(Binary, untagged)]
#[musli(mode = Odd)]
pub enum E6 {
    #[musli(transparent)]
    Empty(
        Vec<u16>,
    ),
    #[musli(name(type = usize))]
    Other {
        last_seen_at: E3,
        #[musli(Text, name = 115080707286)]
        id: bool,
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U16))], &[Ty::Rec(&DEF_E3), Ty::Bool]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 115080707286), accept: &[Name::I(Int::Usize, 115080707286)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 115080707286), accept: &[Name::I(Int::Usize, 115080707286)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E6),
    dec: dti::decs!(E6),
};

#[derive(Encode, Decode)]
#[musli(name_all = "snake_case", name(type = str))]
#[musli(Binary, encode_only, name(type = str), name_all = "PascalCase")]
#[musli(mode = Odd, content(value = b"c", type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd, tag(value = b"kind of", type = [u8], format_with = dti::Show::new))]
pub enum E7 {
    #[musli(Text, name_all = "camelCase")]
    FirstVariant {
        flag: u32,
        note_to_self: [String; 0],
    },
    Other {
        the_long_one: String,
    },
    Empty {
        #[musli(skip_encoding_if = dti::blank)]
        flag: bool,
        #[musli(mode = Odd, pattern = (1 | 221 | 271))]
        last_seen_at: i32,
        x: u32,
        kind: bool,
    },
    #[musli(transparent)]
    #[musli(Text, pattern = ("reply_to" | "alpha4"))]
    ReplyTo(
        (),
    ),
}

impl Model for E7 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { flag: dti::get(&f[0]), note_to_self: dti::get(&f[1]) },
            1 => Self::Other { the_long_one: dti::get(&f[0]) },
            2 => Self::Empty { flag: dti::get(&f[0]), last_seen_at: dti::get(&f[1]), x: dti::get(&f[2]), kind: dti::get(&f[3]) },
            _ => Self::ReplyTo(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { flag: v0, note_to_self: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::Other { the_long_one: v0 } => dti::rec(1, vec![v0.to_val()]),
            Self::Empty { flag: v0, last_seen_at: v1, x: v2, kind: v3 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::ReplyTo(v0) => dti::rec(3, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E7: Def = Def {
    name: "E7",
    source: r###"#[musli(name_all = "snake_case", name(type = str))]
#[musli(Binary, encode_only, name(type = str), name_all = "PascalCase")]
#[musli(mode = Odd, content(value = b"c", type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd, tag(value = b"kind of", type = [u8], format_with = dti::Show::new))]
pub enum E7 {
    #[musli(Text, name_all = "camelCase")]
    FirstVariant {
        flag: u32,
        note_to_self: [String; 0],
    },
    Other {
        the_long_one: String,
    },
    Empty {
        #[musli(skip_encoding_if = dti::blank)]
        flag: bool,
        #[musli(mode = Odd, pattern = (1 | 221 | 271))]
        last_seen_at: i32,
        x: u32,
        kind: bool,
    },
    #[musli(transparent)]
    #[musli(Text, pattern = ("reply_to" | "alpha4"))]
    ReplyTo(
        (),
    ),
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Arr(&Ty::Str, 0)], &[Ty::Str], &[Ty::Bool, Ty::Int(Int::I32), Ty::Int(Int::U32), Ty::Bool], &[Ty::Unit]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("first_variant"), accept: &[Name::S("first_variant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("other"), accept: &[Name::S("other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("empty"), accept: &[Name::S("empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("first_variant"), accept: &[Name::S("first_variant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("other"), accept: &[Name::S("other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("empty"), accept: &[Name::S("empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to"), Name::S("alpha4")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("first_variant"), accept: &[Name::S("first_variant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("noteToSelf"), accept: &[Name::S("noteToSelf")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("other"), accept: &[Name::S("other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("the_long_one"), accept: &[Name::S("the_long_one")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("empty"), accept: &[Name::S("empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to"), Name::S("alpha4")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"c"), K::Bytes), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("first_variant"), accept: &[Name::S("first_variant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("other"), accept: &[Name::S("other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("empty"), accept: &[Name::S("empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 221), Name::I(Int::Usize, 271)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::B(b"kind of"), Name::B(b"c"), K::Bytes), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("first_variant"), accept: &[Name::S("first_variant")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("other"), accept: &[Name::S("other")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("empty"), accept: &[Name::S("empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 221), Name::I(Int::Usize, 271)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("reply_to"), accept: &[Name::S("reply_to")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E7),
    dec: dti::decs!(E7),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub struct S8(
    #[musli(name = 144)]
    #[musli(Text, name = 58)]
    pub E3,
    #[musli(Binary, name = 218)]
    #[musli(name = 1098084888709)]
    pub String,
    #[musli(skip, default = dti::special)]
    pub char,
    #[musli(default)]
    pub (usize, u8, ),
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub usize,
    #[musli(default)]
    pub Vec<u32>,
);

impl Model for S8 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3]), dti::get(&f[4]), dti::get(&f[5])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3, v4, v5) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S8: Def = Def {
    name: "S8",
    source: r###"#[musli(mode = Odd)]
pub struct S8(
    #[musli(name = 144)]
    #[musli(Text, name = 58)]
    pub E3,
    #[musli(Binary, name = 218)]
    #[musli(name = 1098084888709)]
    pub String,
    #[musli(skip, default = dti::special)]
    pub char,
    #[musli(default)]
    pub (usize, u8, ),
    #[musli(default = dti::special, skip_encoding_if = dti::blank)]
    pub usize,
    #[musli(default)]
    pub Vec<u32>,
);
"###,
    shapes: &[&[Ty::Rec(&DEF_E3), Ty::Str, Ty::Char, Ty::Tup(&[Ty::Int(Int::Usize), Ty::Int(Int::U8)]), Ty::Int(Int::Usize), Ty::Seq(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 144), accept: &[Name::I(Int::Usize, 144)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 218), accept: &[Name::I(Int::Usize, 218)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 144), accept: &[Name::I(Int::Usize, 144)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 218), accept: &[Name::I(Int::Usize, 218)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 58), accept: &[Name::I(Int::Usize, 58)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1098084888709), accept: &[Name::I(Int::Usize, 1098084888709)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 58), accept: &[Name::I(Int::Usize, 58)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1098084888709), accept: &[Name::I(Int::Usize, 1098084888709)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 144), accept: &[Name::I(Int::Usize, 144)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1098084888709), accept: &[Name::I(Int::Usize, 1098084888709)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 144), accept: &[Name::I(Int::Usize, 144)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1098084888709), accept: &[Name::I(Int::Usize, 1098084888709)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<char>), skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 4), accept: &[Name::I(Int::Usize, 4)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: true, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 5), accept: &[Name::I(Int::Usize, 5)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S8),
    dec: dti::decs!(S8),
};

#[derive(Encode, Decode)]
#[musli(name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub struct S9 {
    #[musli(name = b"k2")]
    pub data: u32,
    #[musli(name = b"k37")]
    #[musli(mode = Odd, skip_encoding_if = dti::blank)]
    pub note_to_self: Vec<u32>,
    #[musli(packed, name = b"key2")]
    #[musli(Text, pattern = b"key2")]
    pub last_seen_at: [bool; 0],
    #[musli(name = b"k35", packed)]
    pub kind: [String; 3],
}

impl Model for S9 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { data: dti::get(&f[0]), note_to_self: dti::get(&f[1]), last_seen_at: dti::get(&f[2]), kind: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { data: v0, note_to_self: v1, last_seen_at: v2, kind: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S9: Def = Def {
    name: "S9",
    source: r###"#[musli(name(type = [u8], format_with = dti::Show::new))]
#[musli(mode = Odd)]
pub struct S9 {
    #[musli(name = b"k2")]
    pub data: u32,
    #[musli(name = b"k37")]
    #[musli(mode = Odd, skip_encoding_if = dti::blank)]
    pub note_to_self: Vec<u32>,
    #[musli(packed, name = b"key2")]
    #[musli(Text, pattern = b"key2")]
    pub last_seen_at: [bool; 0],
    #[musli(name = b"k35", packed)]
    pub kind: [String; 3],
}
"###,
    shapes: &[&[Ty::Int(Int::U32), Ty::Seq(&Ty::Int(Int::U32)), Ty::Arr(&Ty::Bool, 0), Ty::Arr(&Ty::Str, 3)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k2"), accept: &[Name::B(b"k2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k37"), accept: &[Name::B(b"k37")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key2"), accept: &[Name::B(b"key2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k2"), accept: &[Name::B(b"k2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k37"), accept: &[Name::B(b"k37")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key2"), accept: &[Name::B(b"key2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k2"), accept: &[Name::B(b"k2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k37"), accept: &[Name::B(b"k37")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key2"), accept: &[Name::B(b"key2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k2"), accept: &[Name::B(b"k2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k37"), accept: &[Name::B(b"k37")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key2"), accept: &[Name::B(b"key2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k2"), accept: &[Name::B(b"k2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k37"), accept: &[Name::B(b"k37")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key2"), accept: &[Name::B(b"key2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"k2"), accept: &[Name::B(b"k2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k37"), accept: &[Name::B(b"k37")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key2"), accept: &[Name::B(b"key2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
            ] }),
        ],
    ],
    enc: dti::encs!(S9),
    dec: dti::decs!(S9),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E10 {
    #[musli(Binary, name = 73)]
    #[musli(mode = Odd, pattern = (0 | 3 | 212303057394))]
    B2,
    #[musli(Binary, pattern = (1 | 31695609024))]
    Alpha,
}

impl Model for E10 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::B2,
            _ => Self::Alpha,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::B2 => dti::rec(0, vec![]),
            Self::Alpha => dti::rec(1, vec![]),
        }
    }
}

pub static DEF_E10: Def = Def {
    name: "E10",
    source: r###"#[musli(mode = Odd)]
pub enum E10 {
    #[musli(Binary, name = 73)]
    #[musli(mode = Odd, pattern = (0 | 3 | 212303057394))]
    B2,
    #[musli(Binary, pattern = (1 | 31695609024))]
    Alpha,
}
"###,
    shapes: &[&[], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 73), accept: &[Name::I(Int::Usize, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 31695609024)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 73), accept: &[Name::I(Int::Usize, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 31695609024)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Alpha"), accept: &[Name::S("Alpha")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 3), Name::I(Int::Usize, 212303057394)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Empty, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 3), Name::I(Int::Usize, 212303057394)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E10),
    dec: dti::decs!(E10),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S11 {
    pub last_seen_at: bool,
}

impl Model for S11 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { last_seen_at: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { last_seen_at: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S11: Def = Def {
    name: "S11",
    source: r###"#[musli(mode = Odd)]
#[musli(transparent)]
pub struct S11 {
    pub last_seen_at: bool,
}
"###,
    shapes: &[&[Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S11),
    dec: dti::decs!(S11),
};

#[derive(Encode, Decode)]
#[musli(Text, tag(value = 31, type = u8))]
#[musli(mode = Odd)]
pub enum E12 {
    #[musli(Text, name(type = u8))]
    #[musli(Binary, name = 203)]
    B2 {
        #[musli(mode = Odd, pattern = (0 | 64 | 360), default, skip_encoding_if = Option::is_none)]
        #[musli(Text, name = 152)]
        #[musli(default, skip_encoding_if = Option::is_none)]
        b2b: Option<S9>,
        #[musli(mode = Odd, skip)]
        #[musli(default = dti::special)]
        #[musli(Text, name = 222)]
        flag: String,
        #[musli(Text, name = 33)]
        y: String,
    },
    #[musli(Text, name(type = u8))]
    Empty {
        #[musli(Text, name = 236)]
        #[musli(with = dti::as_str)]
        last_seen_at: u32,
        #[musli(default)]
        #[musli(Text, name = 185)]
        the_long_one: char,
    },
}

impl Model for E12 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::B2 { b2b: dti::get(&f[0]), flag: dti::get(&f[1]), y: dti::get(&f[2]) },
            _ => Self::Empty { last_seen_at: dti::get(&f[0]), the_long_one: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::B2 { b2b: v0, flag: v1, y: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Empty { last_seen_at: v0, the_long_one: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E12: Def = Def {
    name: "E12",
    source: r###"#[musli(Text, tag(value = 31, type = u8))]
#[musli(mode = Odd)]
pub enum E12 {
    #[musli(Text, name(type = u8))]
    #[musli(Binary, name = 203)]
    B2 {
        #[musli(mode = Odd, pattern = (0 | 64 | 360), default, skip_encoding_if = Option::is_none)]
        #[musli(Text, name = 152)]
        #[musli(default, skip_encoding_if = Option::is_none)]
        b2b: Option<S9>,
        #[musli(mode = Odd, skip)]
        #[musli(default = dti::special)]
        #[musli(Text, name = 222)]
        flag: String,
        #[musli(Text, name = 33)]
        y: String,
    },
    #[musli(Text, name(type = u8))]
    Empty {
        #[musli(Text, name = 236)]
        #[musli(with = dti::as_str)]
        last_seen_at: u32,
        #[musli(default)]
        #[musli(Text, name = 185)]
        the_long_one: char,
    },
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Rec(&DEF_S9)), Ty::Str, Ty::Str], &[Ty::Int(Int::U32), Ty::Char]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 203), accept: &[Name::I(Int::Usize, 203)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 203), accept: &[Name::I(Int::Usize, 203)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U8, 31), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 152), accept: &[Name::I(Int::U8, 152)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 222), accept: &[Name::I(Int::U8, 222)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 33), accept: &[Name::I(Int::U8, 33)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 236), accept: &[Name::I(Int::U8, 236)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::U8, 185), accept: &[Name::I(Int::U8, 185)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::I(Int::U8, 31), K::Int(Int::U8)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 152), accept: &[Name::I(Int::U8, 152)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 222), accept: &[Name::I(Int::U8, 222)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 33), accept: &[Name::I(Int::U8, 33)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 236), accept: &[Name::I(Int::U8, 236)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::U8, 185), accept: &[Name::I(Int::U8, 185)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 64), Name::I(Int::Usize, 360)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 64), Name::I(Int::Usize, 360)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E12),
    dec: dti::decs!(E12),
};

#[derive(Encode, Decode)]
#[musli(name_all = "index")]
#[musli(mode = Odd, encode_only, tag(value = 31, type = i32), content(value = 60, type = i32))]
pub enum E13 {
    #[musli(name = 137)]
    #[musli(mode = Odd, name = 994076230580)]
    B2 {
        #[musli(trace)]
        data: BTreeMap<String, String>,
        note_to_self: E3,
        #[musli(mode = Odd, packed)]
        #[musli(packed)]
        id: (u32, ),
        last_seen_at: Vec<E12>,
    },
    #[musli(mode = Odd, pattern = 1)]
    Empty {
        #[musli(default)]
        #[musli(Text, skip_encoding_if = Option::is_none)]
        flag: Option<u32>,
        #[musli(Binary, with = dti::as_str)]
        name: u32,
        kind: usize,
    },
}

impl Model for E13 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::B2 { data: dti::get(&f[0]), note_to_self: dti::get(&f[1]), id: dti::get(&f[2]), last_seen_at: dti::get(&f[3]) },
            _ => Self::Empty { flag: dti::get(&f[0]), name: dti::get(&f[1]), kind: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::B2 { data: v0, note_to_self: v1, id: v2, last_seen_at: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::Empty { flag: v0, name: v1, kind: v2 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E13: Def = Def {
    name: "E13",
    source: r###"#[musli(name_all = "index")]
#[musli(mode = Odd, encode_only, tag(value = 31, type = i32), content(value = 60, type = i32))]
pub enum E13 {
    #[musli(name = 137)]
    #[musli(mode = Odd, name = 994076230580)]
    B2 {
        #[musli(trace)]
        data: BTreeMap<String, String>,
        note_to_self: E3,
        #[musli(mode = Odd, packed)]
        #[musli(packed)]
        id: (u32, ),
        last_seen_at: Vec<E12>,
    },
    #[musli(mode = Odd, pattern = 1)]
    Empty {
        #[musli(default)]
        #[musli(Text, skip_encoding_if = Option::is_none)]
        flag: Option<u32>,
        #[musli(Binary, with = dti::as_str)]
        name: u32,
        kind: usize,
    },
}
"###,
    shapes: &[&[Ty::Map(&Ty::Str), Ty::Rec(&DEF_E3), Ty::Tup(&[Ty::Int(Int::U32)]), Ty::Seq(&Ty::Rec(&DEF_E12))], &[Ty::Opt(&Ty::Int(Int::U32)), Ty::Int(Int::U32), Ty::Int(Int::Usize)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 137), accept: &[Name::I(Int::Usize, 137)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 137), accept: &[Name::I(Int::Usize, 137)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::With },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 137), accept: &[Name::I(Int::Usize, 137)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 137), accept: &[Name::I(Int::Usize, 137)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::I32, 31), Name::I(Int::I32, 60), K::Int(Int::I32)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 994076230580), accept: &[Name::I(Int::Usize, 994076230580)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 994076230580), accept: &[Name::I(Int::Usize, 994076230580)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E13),
    dec: dti::decs!(E13),
};

#[derive(Encode, Decode)]
#[musli(name_all = "snake_case")]
#[musli(mode = Odd)]
pub struct S14 {
    #[musli(Binary, name = "14")]
    #[musli(Binary, skip)]
    #[musli(name = "0")]
    pub flag: Option<String>,
    #[musli(skip_encoding_if = dti::blank)]
    pub b2b: u32,
    #[musli(Binary, pattern = "note_to_self")]
    pub note_to_self: E10,
    pub r#type: u32,
    #[musli(mode = Odd, packed)]
    pub items: (u32, bool, i32, ),
    pub y: bool,
}

impl Model for S14 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { flag: dti::get(&f[0]), b2b: dti::get(&f[1]), note_to_self: dti::get(&f[2]), r#type: dti::get(&f[3]), items: dti::get(&f[4]), y: dti::get(&f[5]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { flag: v0, b2b: v1, note_to_self: v2, r#type: v3, items: v4, y: v5 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val(), v4.to_val(), v5.to_val()]),
        }
    }
}

pub static DEF_S14: Def = Def {
    name: "S14",
    source: r###"#[musli(name_all = "snake_case")]
#[musli(mode = Odd)]
pub struct S14 {
    #[musli(Binary, name = "14")]
    #[musli(Binary, skip)]
    #[musli(name = "0")]
    pub flag: Option<String>,
    #[musli(skip_encoding_if = dti::blank)]
    pub b2b: u32,
    #[musli(Binary, pattern = "note_to_self")]
    pub note_to_self: E10,
    pub r#type: u32,
    #[musli(mode = Odd, packed)]
    pub items: (u32, bool, i32, ),
    pub y: bool,
}
"###,
    shapes: &[&[Ty::Opt(&Ty::Str), Ty::Int(Int::U32), Ty::Rec(&DEF_E10), Ty::Int(Int::U32), Ty::Tup(&[Ty::Int(Int::U32), Ty::Bool, Ty::Int(Int::I32)]), Ty::Bool]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("14"), accept: &[Name::S("14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("14"), accept: &[Name::S("14")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S14),
    dec: dti::decs!(S14),
};

#[derive(Encode, Decode)]
#[musli(Text, untagged)]
#[musli(mode = Odd)]
pub enum E15 {
    #[musli(name_all = "PascalCase")]
    FirstVariant {
        #[musli(name = "back\\slash6")]
        #[musli(Text, name = "back\\slash7")]
        #[musli(Text, pattern = ("back\\slash7" | "back\\slash11"))]
        data: bool,
        id: Option<bool>,
    },
}

impl Model for E15 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self::FirstVariant { data: dti::get(&f[0]), id: dti::get(&f[1]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { data: v0, id: v1 } => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E15: Def = Def {
    name: "E15",
    source: r###"#[musli(Text, untagged)]
#[musli(mode = Odd)]
pub enum E15 {
    #[musli(name_all = "PascalCase")]
    FirstVariant {
        #[musli(name = "back\\slash6")]
        #[musli(Text, name = "back\\slash7")]
        #[musli(Text, pattern = ("back\\slash7" | "back\\slash11"))]
        data: bool,
        id: Option<bool>,
    },
}
"###,
    shapes: &[&[Ty::Bool, Ty::Opt(&Ty::Bool)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash6"), accept: &[Name::S("back\\slash6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Id"), accept: &[Name::S("Id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash6"), accept: &[Name::S("back\\slash6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Id"), accept: &[Name::S("Id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash7"), accept: &[Name::S("back\\slash7"), Name::S("back\\slash11")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Id"), accept: &[Name::S("Id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash7"), accept: &[Name::S("back\\slash7"), Name::S("back\\slash11")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Id"), accept: &[Name::S("Id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash6"), accept: &[Name::S("back\\slash6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Id"), accept: &[Name::S("Id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("back\\slash6"), accept: &[Name::S("back\\slash6")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("Id"), accept: &[Name::S("Id")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E15),
    dec: dti::decs!(E15),
};

#[derive(Encode, Decode)]
#[musli(content(value = dti::Tag(60), type = dti::Tag))]
#[musli(tag(value = dti::Tag(34), type = dti::Tag))]
#[musli(mode = Odd, name_all = "SCREAMING_SNAKE_CASE")]
pub enum E16 {
    #[musli(name(type = str, method = "unsized"))]
    #[musli(Text, name(type = str, method = "unsized"))]
    Other(
        #[musli(name = "011")]
        #[musli(Binary, pattern = "011")]
        Vec<i64>,
        #[musli(name = "17")]
        #[musli(Binary, decode_only, name = "type2")]
        i16,
    ),
    #[musli(Text, name = "0")]
    #[musli(mode = Odd, decode_only, pattern = "REPLY_TO")]
    ReplyTo {
        #[musli(packed)]
        last_seen_at: [usize; 4],
        #[musli(decode_only, packed)]
        first_name: [u64; 2],
        flag: BTreeMap<String, usize>,
        value: i8,
    },
    FirstVariant {
        #[musli(mode = Odd, pattern = (0 | 153))]
        #[musli(Text, default)]
        note_to_self: (u32, String, ),
        x: u128,
        #[musli(Binary, decode_only, skip)]
        #[musli(default = dti::special)]
        y: usize,
        #[musli(packed, default)]
        name: [char; 4],
    },
}

impl Model for E16 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Other(dti::get(&f[0]), dti::get(&f[1])),
            1 => Self::ReplyTo { last_seen_at: dti::get(&f[0]), first_name: dti::get(&f[1]), flag: dti::get(&f[2]), value: dti::get(&f[3]) },
            _ => Self::FirstVariant { note_to_self: dti::get(&f[0]), x: dti::get(&f[1]), y: dti::get(&f[2]), name: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Other(v0, v1) => dti::rec(0, vec![v0.to_val(), v1.to_val()]),
            Self::ReplyTo { last_seen_at: v0, first_name: v1, flag: v2, value: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
            Self::FirstVariant { note_to_self: v0, x: v1, y: v2, name: v3 } => dti::rec(2, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E16: Def = Def {
    name: "E16",
    source: r###"#[musli(content(value = dti::Tag(60), type = dti::Tag))]
#[musli(tag(value = dti::Tag(34), type = dti::Tag))]
#[musli(mode = Odd, name_all = "SCREAMING_SNAKE_CASE")]
pub enum E16 {
    #[musli(name(type = str, method = "unsized"))]
    #[musli(Text, name(type = str, method = "unsized"))]
    Other(
        #[musli(name = "011")]
        #[musli(Binary, pattern = "011")]
        Vec<i64>,
        #[musli(name = "17")]
        #[musli(Binary, decode_only, name = "type2")]
        i16,
    ),
    #[musli(Text, name = "0")]
    #[musli(mode = Odd, decode_only, pattern = "REPLY_TO")]
    ReplyTo {
        #[musli(packed)]
        last_seen_at: [usize; 4],
        #[musli(decode_only, packed)]
        first_name: [u64; 2],
        flag: BTreeMap<String, usize>,
        value: i8,
    },
    FirstVariant {
        #[musli(mode = Odd, pattern = (0 | 153))]
        #[musli(Text, default)]
        note_to_self: (u32, String, ),
        x: u128,
        #[musli(Binary, decode_only, skip)]
        #[musli(default = dti::special)]
        y: usize,
        #[musli(packed, default)]
        name: [char; 4],
    },
}
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::I64)), Ty::Int(Int::I16)], &[Ty::Arr(&Ty::Int(Int::Usize), 4), Ty::Arr(&Ty::Int(Int::U64), 2), Ty::Map(&Ty::Int(Int::Usize)), Ty::Int(Int::I8)], &[Ty::Tup(&[Ty::Int(Int::U32), Ty::Str]), Ty::Int(Int::U128), Ty::Int(Int::Usize), Ty::Arr(&Ty::Char, 4)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 34), Name::I(Int::U16, 60), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("011"), accept: &[Name::S("011")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 34), Name::I(Int::U16, 60), K::Int(Int::U16)), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("011"), accept: &[Name::S("011")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type2"), accept: &[Name::S("type2")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: true, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 34), Name::I(Int::U16, 60), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("011"), accept: &[Name::S("011")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 34), Name::I(Int::U16, 60), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("Other"), accept: &[Name::S("Other")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("011"), accept: &[Name::S("011")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("0"), accept: &[Name::S("0")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("last_seen_at"), accept: &[Name::S("last_seen_at")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("x"), accept: &[Name::S("x")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("y"), accept: &[Name::S("y")], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 34), Name::I(Int::U16, 60), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("OTHER"), accept: &[Name::S("OTHER")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("011"), accept: &[Name::S("011")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY_TO"), accept: &[Name::S("REPLY_TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FIRST_VARIANT"), accept: &[Name::S("FIRST_VARIANT")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 153)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::U16, 34), Name::I(Int::U16, 60), K::Int(Int::U16)), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("OTHER"), accept: &[Name::S("OTHER")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("011"), accept: &[Name::S("011")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("17"), accept: &[Name::S("17")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("REPLY_TO"), accept: &[Name::S("REPLY_TO")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FIRST_VARIANT"), accept: &[Name::S("FIRST_VARIANT")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 153)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::Path(dti::special_val::<usize>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Packed },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E16),
    dec: dti::decs!(E16),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, encode_only, content(value = "c"))]
#[musli(mode = Odd, encode_only, tag = "kind of")]
pub enum E17 {
    FirstVariant {
        #[musli(default = dti::special)]
        #[musli(mode = Odd, default)]
        #[musli(Binary, encode_only, skip_encoding_if = dti::blank)]
        kind: u32,
    },
    X {
        #[musli(encode_only, default = dti::special)]
        age: String,
        #[musli(default = dti::special)]
        id: Vec<String>,
    },
    #[musli(Text, pattern = "Empty")]
    Empty {
        note_to_self: E16,
    },
    #[musli(Text, name = "alpha")]
    #[musli(Binary, decode_only, name(type = u8))]
    #[musli(name(type = u8))]
    B2 {
        #[musli(skip_encoding_if = dti::blank, name = 190)]
        #[musli(Text, decode_only, pattern = (190 | 140))]
        x: Option<char>,
        #[musli(Text, encode_only, name = 41)]
        #[musli(Text, decode_only, pattern = (6 | 214 | 70))]
        #[musli(default, skip_encoding_if = dti::blank, name = 6)]
        y: i64,
        #[musli(name = 22)]
        last_seen_at: [usize; 2],
    },
}

impl Model for E17 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { kind: dti::get(&f[0]) },
            1 => Self::X { age: dti::get(&f[0]), id: dti::get(&f[1]) },
            2 => Self::Empty { note_to_self: dti::get(&f[0]) },
            _ => Self::B2 { x: dti::get(&f[0]), y: dti::get(&f[1]), last_seen_at: dti::get(&f[2]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { kind: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::X { age: v0, id: v1 } => dti::rec(1, vec![v0.to_val(), v1.to_val()]),
            Self::Empty { note_to_self: v0 } => dti::rec(2, vec![v0.to_val()]),
            Self::B2 { x: v0, y: v1, last_seen_at: v2 } => dti::rec(3, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_E17: Def = Def {
    name: "E17",
    source: r###"#[musli(mode = Odd, encode_only, content(value = "c"))]
#[musli(mode = Odd, encode_only, tag = "kind of")]
pub enum E17 {
    FirstVariant {
        #[musli(default = dti::special)]
        #[musli(mode = Odd, default)]
        #[musli(Binary, encode_only, skip_encoding_if = dti::blank)]
        kind: u32,
    },
    X {
        #[musli(encode_only, default = dti::special)]
        age: String,
        #[musli(default = dti::special)]
        id: Vec<String>,
    },
    #[musli(Text, pattern = "Empty")]
    Empty {
        note_to_self: E16,
    },
    #[musli(Text, name = "alpha")]
    #[musli(Binary, decode_only, name(type = u8))]
    #[musli(name(type = u8))]
    B2 {
        #[musli(skip_encoding_if = dti::blank, name = 190)]
        #[musli(Text, decode_only, pattern = (190 | 140))]
        x: Option<char>,
        #[musli(Text, encode_only, name = 41)]
        #[musli(Text, decode_only, pattern = (6 | 214 | 70))]
        #[musli(default, skip_encoding_if = dti::blank, name = 6)]
        y: i64,
        #[musli(name = 22)]
        last_seen_at: [usize; 2],
    },
}
"###,
    shapes: &[&[Ty::Int(Int::U32)], &[Ty::Str, Ty::Seq(&Ty::Str)], &[Ty::Rec(&DEF_E16)], &[Ty::Opt(&Ty::Char), Ty::Int(Int::I64), Ty::Arr(&Ty::Int(Int::Usize), 2)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 190), accept: &[Name::I(Int::U8, 190)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 22), accept: &[Name::I(Int::U8, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 190), accept: &[Name::I(Int::U8, 190)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 22), accept: &[Name::I(Int::U8, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 190), accept: &[Name::I(Int::U8, 190)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 41), accept: &[Name::I(Int::U8, 41)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 22), accept: &[Name::I(Int::U8, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::Path(dti::special_val::<u32>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("alpha"), accept: &[Name::S("alpha")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 190), accept: &[Name::I(Int::U8, 190), Name::I(Int::U8, 140)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6), Name::I(Int::U8, 214), Name::I(Int::U8, 70)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 22), accept: &[Name::I(Int::U8, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("kind of"), Name::S("c"), K::Str), kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 190), accept: &[Name::I(Int::U8, 190)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 22), accept: &[Name::I(Int::U8, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::Path(dti::special_val::<Vec<String>>), skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::U8), unit: false, fields: &[
                    Field { name: Name::I(Int::U8, 190), accept: &[Name::I(Int::U8, 190)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 6), accept: &[Name::I(Int::U8, 6)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::U8, 22), accept: &[Name::I(Int::U8, 22)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E17),
    dec: dti::decs!(E17),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(untagged)]
pub enum E18 {
    ReplyTo {
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = 39)]
        flag: String,
    },
    #[musli(mode = Odd, decode_only, pattern = (1..=5 | 812103048725))]
    #[musli(transparent)]
    Request(
        bool,
    ),
}

impl Model for E18 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo { flag: dti::get(&f[0]) },
            _ => Self::Request(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo { flag: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::Request(v0) => dti::rec(1, vec![v0.to_val()]),
        }
    }
}

pub static DEF_E18: Def = Def {
    name: "E18",
    source: r###"#[musli(mode = Odd)]
#[musli(untagged)]
pub enum E18 {
    ReplyTo {
        #[musli(skip_encoding_if = dti::blank)]
        #[musli(mode = Odd, name = 39)]
        flag: String,
    },
    #[musli(mode = Odd, decode_only, pattern = (1..=5 | 812103048725))]
    #[musli(transparent)]
    Request(
        bool,
    ),
}
"###,
    shapes: &[&[Ty::Str], &[Ty::Bool]],
    views: [
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("flag"), accept: &[Name::S("flag")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 39), accept: &[Name::I(Int::Usize, 39)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Untagged, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 39), accept: &[Name::I(Int::Usize, 39)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4), Name::I(Int::Usize, 5), Name::I(Int::Usize, 812103048725)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E18),
    dec: dti::decs!(E18),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
pub enum E19 {
    #[musli(mode = Odd, default)]
    B2,
    X {
    },
    #[musli(mode = Odd, pattern = (49 | 961248714956 | 219), name = 49)]
    VeryLongName(
        #[musli(skip_encoding_if = Vec::is_empty, default = dti::special)]
        Vec<u32>,
        #[musli(name = 459697004008)]
        #[musli(mode = Odd, name = 1027995123265)]
        String,
    ),
}

impl Model for E19 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::B2,
            1 => Self::X {  },
            _ => Self::VeryLongName(dti::get(&f[0]), dti::get(&f[1])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::B2 => dti::rec(0, vec![]),
            Self::X {  } => dti::rec(1, vec![]),
            Self::VeryLongName(v0, v1) => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
        }
    }
}

pub static DEF_E19: Def = Def {
    name: "E19",
    source: r###"#[musli(mode = Odd)]
pub enum E19 {
    #[musli(mode = Odd, default)]
    B2,
    X {
    },
    #[musli(mode = Odd, pattern = (49 | 961248714956 | 219), name = 49)]
    VeryLongName(
        #[musli(skip_encoding_if = Vec::is_empty, default = dti::special)]
        Vec<u32>,
        #[musli(name = 459697004008)]
        #[musli(mode = Odd, name = 1027995123265)]
        String,
    ),
}
"###,
    shapes: &[&[], &[], &[Ty::Seq(&Ty::Int(Int::U32)), Ty::Str]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 459697004008), accept: &[Name::I(Int::Usize, 459697004008)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 459697004008), accept: &[Name::I(Int::Usize, 459697004008)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 459697004008), accept: &[Name::I(Int::Usize, 459697004008)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("B2"), accept: &[Name::S("B2")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[] } },
                Var { name: Name::S("VeryLongName"), accept: &[Name::S("VeryLongName")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 459697004008), accept: &[Name::I(Int::Usize, 459697004008)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 49), accept: &[Name::I(Int::Usize, 49), Name::I(Int::Usize, 961248714956), Name::I(Int::Usize, 219)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1027995123265), accept: &[Name::I(Int::Usize, 1027995123265)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: Some(0), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 49), accept: &[Name::I(Int::Usize, 49), Name::I(Int::Usize, 961248714956), Name::I(Int::Usize, 219)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<Vec<u32>>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1027995123265), accept: &[Name::I(Int::Usize, 1027995123265)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E19),
    dec: dti::decs!(E19),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Text, content = "c")]
#[musli(Text, tag = "t")]
pub enum E20 {
    FirstVariant,
    Empty {
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        #[musli(Binary, default)]
        id: i64,
        kind: char,
        age: bool,
        #[musli(mode = Odd, name = 52)]
        r#type: u32,
    },
}

impl Model for E20 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant,
            _ => Self::Empty { id: dti::get(&f[0]), kind: dti::get(&f[1]), age: dti::get(&f[2]), r#type: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant => dti::rec(0, vec![]),
            Self::Empty { id: v0, kind: v1, age: v2, r#type: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E20: Def = Def {
    name: "E20",
    source: r###"#[musli(mode = Odd)]
#[musli(Text, content = "c")]
#[musli(Text, tag = "t")]
pub enum E20 {
    FirstVariant,
    Empty {
        #[musli(default = dti::special, skip_encoding_if = dti::blank)]
        #[musli(Binary, default)]
        id: i64,
        kind: char,
        age: bool,
        #[musli(mode = Odd, name = 52)]
        r#type: u32,
    },
}
"###,
    shapes: &[&[], &[Ty::Int(Int::I64), Ty::Char, Ty::Bool, Ty::Int(Int::U32)]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("c"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::S("t"), Name::S("c"), K::Str), kty: K::Str, fallback: None, variants: &[
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Empty"), accept: &[Name::S("Empty")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("id"), accept: &[Name::S("id")], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("age"), accept: &[Name::S("age")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("type"), accept: &[Name::S("type")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 52), accept: &[Name::I(Int::Usize, 52)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::Usize), fallback: None, variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Path(dti::special_val::<i64>), skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 52), accept: &[Name::I(Int::Usize, 52)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E20),
    dec: dti::decs!(E20),
};

#[derive(Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Odd)]
pub struct S21(
    #[musli(Binary, name = "a longer name than any other one here")]
    #[musli(Text, name = "a longer name than any other one here18")]
    #[musli(mode = Odd, name = "0")]
    pub E20,
    #[musli(name = "two words")]
    pub usize,
    #[musli(name = "")]
    #[musli(decode_only, default)]
    pub (),
);

impl Model for S21 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
        }
    }
}

pub static DEF_S21: Def = Def {
    name: "S21",
    source: r###"#[musli(name(type = str))]
#[musli(mode = Odd)]
pub struct S21(
    #[musli(Binary, name = "a longer name than any other one here")]
    #[musli(Text, name = "a longer name than any other one here18")]
    #[musli(mode = Odd, name = "0")]
    pub E20,
    #[musli(name = "two words")]
    pub usize,
    #[musli(name = "")]
    #[musli(decode_only, default)]
    pub (),
);
"###,
    shapes: &[&[Ty::Rec(&DEF_E20), Ty::Int(Int::Usize), Ty::Unit]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here"), accept: &[Name::S("a longer name than any other one here")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("a longer name than any other one here18"), accept: &[Name::S("a longer name than any other one here18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("0"), accept: &[Name::S("0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("two words"), accept: &[Name::S("two words")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S(""), accept: &[Name::S("")], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S21),
    dec: dti::decs!(S21),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd, name_all = "name")]
#[musli(tag(value = b"type", type = [u8], format_with = dti::Show::new))]
pub enum E22 {
    ReplyTo,
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    Request {
    },
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    X {
        #[musli(name = b"k30")]
        last_seen_at: E0,
        #[musli(mode = Odd, encode_only, name = b"key5")]
        #[musli(Text, name = b"k10")]
        #[musli(Binary, name = b"k35")]
        #[musli(mode = Odd, name = b"k x26", pattern = b"k x26")]
        name: String,
    },
    #[musli(mode = Odd, name = "type2")]
    #[musli(default)]
    FirstVariant,
}

impl Model for E22 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::ReplyTo,
            1 => Self::Request {  },
            2 => Self::X { last_seen_at: dti::get(&f[0]), name: dti::get(&f[1]) },
            _ => Self::FirstVariant,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::ReplyTo => dti::rec(0, vec![]),
            Self::Request {  } => dti::rec(1, vec![]),
            Self::X { last_seen_at: v0, name: v1 } => dti::rec(2, vec![v0.to_val(), v1.to_val()]),
            Self::FirstVariant => dti::rec(3, vec![]),
        }
    }
}

pub static DEF_E22: Def = Def {
    name: "E22",
    source: r###"#[musli(mode = Odd, name_all = "name")]
#[musli(tag(value = b"type", type = [u8], format_with = dti::Show::new))]
pub enum E22 {
    ReplyTo,
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    Request {
    },
    #[musli(name(type = [u8], format_with = dti::Show::new))]
    X {
        #[musli(name = b"k30")]
        last_seen_at: E0,
        #[musli(mode = Odd, encode_only, name = b"key5")]
        #[musli(Text, name = b"k10")]
        #[musli(Binary, name = b"k35")]
        #[musli(mode = Odd, name = b"k x26", pattern = b"k x26")]
        name: String,
    },
    #[musli(mode = Odd, name = "type2")]
    #[musli(default)]
    FirstVariant,
}
"###,
    shapes: &[&[], &[], &[Ty::Rec(&DEF_E0), Ty::Str], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::Internal(Name::B(b"type"), K::Bytes), kty: K::Int(Int::Usize), fallback: Some(3), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k30"), accept: &[Name::B(b"k30")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::B(b"type"), K::Bytes), kty: K::Int(Int::Usize), fallback: Some(3), variants: &[
                Var { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[] } },
                Var { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k30"), accept: &[Name::B(b"k30")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k35"), accept: &[Name::B(b"k35")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::B(b"type"), K::Bytes), kty: K::Str, fallback: Some(3), variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k30"), accept: &[Name::B(b"k30")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k10"), accept: &[Name::B(b"k10")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::B(b"type"), K::Bytes), kty: K::Str, fallback: Some(3), variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k30"), accept: &[Name::B(b"k30")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k10"), accept: &[Name::B(b"k10")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("FirstVariant"), accept: &[Name::S("FirstVariant")], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Internal(Name::B(b"type"), K::Bytes), kty: K::Str, fallback: Some(3), variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k30"), accept: &[Name::B(b"k30")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"key5"), accept: &[Name::B(b"k x26")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Internal(Name::B(b"type"), K::Bytes), kty: K::Str, fallback: Some(3), variants: &[
                Var { name: Name::S("ReplyTo"), accept: &[Name::S("ReplyTo")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
                Var { name: Name::S("Request"), accept: &[Name::S("Request")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[] } },
                Var { name: Name::S("X"), accept: &[Name::S("X")], body: Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                    Field { name: Name::B(b"k30"), accept: &[Name::B(b"k30")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::B(b"k x26"), accept: &[Name::B(b"k x26")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::S("type2"), accept: &[Name::S("type2")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E22),
    dec: dti::decs!(E22),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = dti::Tag))]
pub enum E23 {
    #[musli(name = dti::Tag(29), transparent)]
    FirstVariant {
        value: S21,
    },
    #[musli(mode = Odd, encode_only, name_all = "PascalCase")]
    #[musli(name = dti::Tag(73))]
    ReplyTo(
        #[musli(mode = Odd, encode_only, name = "x.y18")]
        #[musli(mode = Odd, decode_only, pattern = 0..=4)]
        #[musli(Text, encode_only, default)]
        Vec<E15>,
    ),
    #[musli(Binary, name = dti::Tag(43))]
    #[musli(default)]
    #[musli(Text, pattern = (dti::Tag(41) | dti::Tag(4)), name = dti::Tag(41))]
    #[musli(mode = Odd, name = dti::Tag(10))]
    Request,
}

impl Model for E23 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::FirstVariant { value: dti::get(&f[0]) },
            1 => Self::ReplyTo(dti::get(&f[0])),
            _ => Self::Request,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant { value: v0 } => dti::rec(0, vec![v0.to_val()]),
            Self::ReplyTo(v0) => dti::rec(1, vec![v0.to_val()]),
            Self::Request => dti::rec(2, vec![]),
        }
    }
}

pub static DEF_E23: Def = Def {
    name: "E23",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = dti::Tag))]
pub enum E23 {
    #[musli(name = dti::Tag(29), transparent)]
    FirstVariant {
        value: S21,
    },
    #[musli(mode = Odd, encode_only, name_all = "PascalCase")]
    #[musli(name = dti::Tag(73))]
    ReplyTo(
        #[musli(mode = Odd, encode_only, name = "x.y18")]
        #[musli(mode = Odd, decode_only, pattern = 0..=4)]
        #[musli(Text, encode_only, default)]
        Vec<E15>,
    ),
    #[musli(Binary, name = dti::Tag(43))]
    #[musli(default)]
    #[musli(Text, pattern = (dti::Tag(41) | dti::Tag(4)), name = dti::Tag(41))]
    #[musli(mode = Odd, name = dti::Tag(10))]
    Request,
}
"###,
    shapes: &[&[Ty::Rec(&DEF_S21)], &[Ty::Seq(&Ty::Rec(&DEF_E15))], &[]],
    views: [
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::U16, 29), accept: &[Name::I(Int::U16, 29)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 43), accept: &[Name::I(Int::U16, 43)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::U16, 29), accept: &[Name::I(Int::U16, 29)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 43), accept: &[Name::I(Int::U16, 43)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::U16, 29), accept: &[Name::I(Int::U16, 29)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 41), accept: &[Name::I(Int::U16, 41), Name::I(Int::U16, 4)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::U16, 29), accept: &[Name::I(Int::U16, 29)], body: Body { packing: Packing::Transparent, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 41), accept: &[Name::I(Int::U16, 41), Name::I(Int::U16, 4)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: true, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::U16, 29), accept: &[Name::I(Int::U16, 29)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("x.y18"), accept: &[Name::S("x.y18")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 10), accept: &[Name::I(Int::U16, 10)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::External, kty: K::Int(Int::U16), fallback: Some(2), variants: &[
                Var { name: Name::I(Int::U16, 29), accept: &[Name::I(Int::U16, 29)], body: Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0), Name::I(Int::Usize, 1), Name::I(Int::Usize, 2), Name::I(Int::Usize, 3), Name::I(Int::Usize, 4)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::U16, 10), accept: &[Name::I(Int::U16, 10)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: true, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E23),
    dec: dti::decs!(E23),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag(value = 35), content(value = 60, type = usize))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
pub enum E24 {
    #[musli(default)]
    #[musli(name = b"k x7")]
    FirstVariant(
    ),
}

impl Model for E24 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self::FirstVariant(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::FirstVariant() => dti::rec(0, vec![]),
        }
    }
}

pub static DEF_E24: Def = Def {
    name: "E24",
    source: r###"#[musli(mode = Odd)]
#[musli(tag(value = 35), content(value = 60, type = usize))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
pub enum E24 {
    #[musli(default)]
    #[musli(name = b"k x7")]
    FirstVariant(
    ),
}
"###,
    shapes: &[&[]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 60), K::Int(Int::Usize)), kty: K::Bytes, fallback: Some(0), variants: &[
                Var { name: Name::B(b"k x7"), accept: &[Name::B(b"k x7")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 60), K::Int(Int::Usize)), kty: K::Bytes, fallback: Some(0), variants: &[
                Var { name: Name::B(b"k x7"), accept: &[Name::B(b"k x7")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 60), K::Int(Int::Usize)), kty: K::Bytes, fallback: Some(0), variants: &[
                Var { name: Name::B(b"k x7"), accept: &[Name::B(b"k x7")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 60), K::Int(Int::Usize)), kty: K::Bytes, fallback: Some(0), variants: &[
                Var { name: Name::B(b"k x7"), accept: &[Name::B(b"k x7")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 60), K::Int(Int::Usize)), kty: K::Bytes, fallback: Some(0), variants: &[
                Var { name: Name::B(b"k x7"), accept: &[Name::B(b"k x7")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 35), Name::I(Int::Usize, 60), K::Int(Int::Usize)), kty: K::Bytes, fallback: Some(0), variants: &[
                Var { name: Name::B(b"k x7"), accept: &[Name::B(b"k x7")], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[] } },
            ] },
        ],
    ],
    enc: dti::encs!(E24),
    dec: dti::decs!(E24),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S25 {
    pub b2b: i64,
    pub note_to_self: u64,
    pub first_name: String,
    #[musli(skip)]
    pub name: i8,
}

impl Model for S25 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { b2b: dti::get(&f[0]), note_to_self: dti::get(&f[1]), first_name: dti::get(&f[2]), name: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { b2b: v0, note_to_self: v1, first_name: v2, name: v3 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S25: Def = Def {
    name: "S25",
    source: r###"#[musli(mode = Odd)]
#[musli(packed)]
#[repr(C)]
pub struct S25 {
    pub b2b: i64,
    pub note_to_self: u64,
    pub first_name: String,
    #[musli(skip)]
    pub name: i8,
}
"###,
    shapes: &[&[Ty::Int(Int::I64), Ty::Int(Int::U64), Ty::Str, Ty::Int(Int::I8)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Str, unit: false, fields: &[
                Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("note_to_self"), accept: &[Name::S("note_to_self")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("first_name"), accept: &[Name::S("first_name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::S("name"), accept: &[Name::S("name")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Packed, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S25),
    dec: dti::decs!(S25),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(Text, name(type = [u8], format_with = dti::Show::new))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
pub struct S26(
    #[musli(name = b"key0")]
    #[musli(mode = Odd, skip)]
    pub String,
    #[musli(Binary, name = b"key8")]
    #[musli(skip_encoding_if = Vec::is_empty)]
    #[musli(mode = Odd, name = b"k15", default)]
    #[musli(Text, name = b"key32")]
    pub Vec<u32>,
    #[musli(skip_encoding_if = dti::blank, name = b"k27")]
    pub i64,
    #[musli(skip, default = dti::special, name = b"key15")]
    pub String,
);

impl Model for S26 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0]), dti::get(&f[1]), dti::get(&f[2]), dti::get(&f[3])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0, v1, v2, v3) => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_S26: Def = Def {
    name: "S26",
    source: r###"#[musli(mode = Odd)]
#[musli(Text, name(type = [u8], format_with = dti::Show::new))]
#[musli(name(type = [u8], format_with = dti::Show::new))]
pub struct S26(
    #[musli(name = b"key0")]
    #[musli(mode = Odd, skip)]
    pub String,
    #[musli(Binary, name = b"key8")]
    #[musli(skip_encoding_if = Vec::is_empty)]
    #[musli(mode = Odd, name = b"k15", default)]
    #[musli(Text, name = b"key32")]
    pub Vec<u32>,
    #[musli(skip_encoding_if = dti::blank, name = b"k27")]
    pub i64,
    #[musli(skip, default = dti::special, name = b"key15")]
    pub String,
);
"###,
    shapes: &[&[Ty::Str, Ty::Seq(&Ty::Int(Int::U32)), Ty::Int(Int::I64), Ty::Str]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key0"), accept: &[Name::B(b"key0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key8"), accept: &[Name::B(b"key8")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"k27"), accept: &[Name::B(b"k27")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key15"), accept: &[Name::B(b"key15")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key0"), accept: &[Name::B(b"key0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key8"), accept: &[Name::B(b"key8")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"k27"), accept: &[Name::B(b"k27")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key15"), accept: &[Name::B(b"key15")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key0"), accept: &[Name::B(b"key0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key32"), accept: &[Name::B(b"key32")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"k27"), accept: &[Name::B(b"k27")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key15"), accept: &[Name::B(b"key15")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key0"), accept: &[Name::B(b"key0")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"key32"), accept: &[Name::B(b"key32")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"k27"), accept: &[Name::B(b"k27")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key15"), accept: &[Name::B(b"key15")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key0"), accept: &[Name::B(b"key0")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k15"), accept: &[Name::B(b"k15")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"k27"), accept: &[Name::B(b"k27")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key15"), accept: &[Name::B(b"key15")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Bytes, unit: false, fields: &[
                Field { name: Name::B(b"key0"), accept: &[Name::B(b"key0")], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                Field { name: Name::B(b"k15"), accept: &[Name::B(b"k15")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"k27"), accept: &[Name::B(b"k27")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                Field { name: Name::B(b"key15"), accept: &[Name::B(b"key15")], skip: true, default: Dflt::Path(dti::special_val::<String>), skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S26),
    dec: dti::decs!(S26),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(tag(value = 38, type = usize), content = 62, name(type = i32))]
pub enum E27 {
    #[musli(name = -40279)]
    #[musli(Binary, decode_only, pattern = (-40279 | -12812 | 15))]
    Alpha {
        items: E13,
        #[musli(Binary, name = 67304447823)]
        #[musli(skip_encoding_if = String::is_empty)]
        #[musli(Binary, decode_only, skip_encoding_if = String::is_empty)]
        data: String,
        value: Option<String>,
    },
    #[musli(mode = Odd, pattern = -49338..=-49334)]
    #[musli(name = -49338)]
    Empty {
        #[musli(mode = Odd, default)]
        #[musli(skip_encoding_if = dti::blank, default)]
        b2b: BTreeMap<String, S11>,
        #[musli(mode = Odd, skip)]
        #[musli(Text, pattern = ("value" | "two words14" | "alpha"))]
        #[musli(Text, encode_only, packed)]
        value: (String, String, u32, ),
        #[musli(Binary, name = 186)]
        kind: u128,
        name: E24,
    },
}

impl Model for E27 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            0 => Self::Alpha { items: dti::get(&f[0]), data: dti::get(&f[1]), value: dti::get(&f[2]) },
            _ => Self::Empty { b2b: dti::get(&f[0]), value: dti::get(&f[1]), kind: dti::get(&f[2]), name: dti::get(&f[3]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::Alpha { items: v0, data: v1, value: v2 } => dti::rec(0, vec![v0.to_val(), v1.to_val(), v2.to_val()]),
            Self::Empty { b2b: v0, value: v1, kind: v2, name: v3 } => dti::rec(1, vec![v0.to_val(), v1.to_val(), v2.to_val(), v3.to_val()]),
        }
    }
}

pub static DEF_E27: Def = Def {
    name: "E27",
    source: r###"#[musli(mode = Odd)]
#[musli(tag(value = 38, type = usize), content = 62, name(type = i32))]
pub enum E27 {
    #[musli(name = -40279)]
    #[musli(Binary, decode_only, pattern = (-40279 | -12812 | 15))]
    Alpha {
        items: E13,
        #[musli(Binary, name = 67304447823)]
        #[musli(skip_encoding_if = String::is_empty)]
        #[musli(Binary, decode_only, skip_encoding_if = String::is_empty)]
        data: String,
        value: Option<String>,
    },
    #[musli(mode = Odd, pattern = -49338..=-49334)]
    #[musli(name = -49338)]
    Empty {
        #[musli(mode = Odd, default)]
        #[musli(skip_encoding_if = dti::blank, default)]
        b2b: BTreeMap<String, S11>,
        #[musli(mode = Odd, skip)]
        #[musli(Text, pattern = ("value" | "two words14" | "alpha"))]
        #[musli(Text, encode_only, packed)]
        value: (String, String, u32, ),
        #[musli(Binary, name = 186)]
        kind: u128,
        name: E24,
    },
}
"###,
    shapes: &[&[Ty::Rec(&DEF_E13), Ty::Str, Ty::Opt(&Ty::Str)], &[Ty::Map(&Ty::Rec(&DEF_S11)), Ty::Tup(&[Ty::Str, Ty::Str, Ty::Int(Int::U32)]), Ty::Int(Int::U128), Ty::Rec(&DEF_E24)]],
    views: [
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 38), Name::I(Int::Usize, 62), K::Int(Int::Usize)), kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -40279), accept: &[Name::I(Int::I32, -40279)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 67304447823), accept: &[Name::I(Int::Usize, 67304447823)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -49338), accept: &[Name::I(Int::I32, -49338)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 186), accept: &[Name::I(Int::Usize, 186)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 38), Name::I(Int::Usize, 62), K::Int(Int::Usize)), kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -40279), accept: &[Name::I(Int::I32, -40279), Name::I(Int::I32, -12812), Name::I(Int::I32, 15)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 67304447823), accept: &[Name::I(Int::Usize, 67304447823)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -49338), accept: &[Name::I(Int::I32, -49338)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 186), accept: &[Name::I(Int::Usize, 186)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 38), Name::I(Int::Usize, 62), K::Int(Int::Usize)), kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -40279), accept: &[Name::I(Int::I32, -40279)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -49338), accept: &[Name::I(Int::I32, -49338)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value"), Name::S("two words14"), Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Packed },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 38), Name::I(Int::Usize, 62), K::Int(Int::Usize)), kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -40279), accept: &[Name::I(Int::I32, -40279)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("items"), accept: &[Name::S("items")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("data"), accept: &[Name::S("data")], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -49338), accept: &[Name::I(Int::I32, -49338)], body: Body { packing: Packing::Tagged, kty: K::Str, unit: false, fields: &[
                    Field { name: Name::S("b2b"), accept: &[Name::S("b2b")], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::S("value"), accept: &[Name::S("value"), Name::S("two words14"), Name::S("alpha")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("kind"), accept: &[Name::S("kind")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::S("name"), accept: &[Name::S("name")], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
        [
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 38), Name::I(Int::Usize, 62), K::Int(Int::Usize)), kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -40279), accept: &[Name::I(Int::I32, -40279)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -49338), accept: &[Name::I(Int::I32, -49338), Name::I(Int::I32, -49337), Name::I(Int::I32, -49336), Name::I(Int::I32, -49335), Name::I(Int::I32, -49334)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
            View::Enum { tagging: Tagging::Adjacent(Name::I(Int::Usize, 38), Name::I(Int::Usize, 62), K::Int(Int::Usize)), kty: K::Int(Int::I32), fallback: None, variants: &[
                Var { name: Name::I(Int::I32, -40279), accept: &[Name::I(Int::I32, -40279)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: false, default: Dflt::No, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
                Var { name: Name::I(Int::I32, -49338), accept: &[Name::I(Int::I32, -49338), Name::I(Int::I32, -49337), Name::I(Int::I32, -49336), Name::I(Int::I32, -49335), Name::I(Int::I32, -49334)], body: Body { packing: Packing::Tagged, kty: K::Int(Int::Usize), unit: false, fields: &[
                    Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::Default, skip_if: true, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 1), accept: &[Name::I(Int::Usize, 1)], skip: true, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 2), accept: &[Name::I(Int::Usize, 2)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                    Field { name: Name::I(Int::Usize, 3), accept: &[Name::I(Int::Usize, 3)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
                ] } },
            ] },
        ],
    ],
    enc: dti::encs!(E27),
    dec: dti::decs!(E27),
};

#[derive(Encode, Decode)]
#[musli(transparent)]
#[musli(mode = Odd)]
pub struct S28(
    pub Vec<u32>,
);

impl Model for S28 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self(dti::get(&f[0])),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self(v0) => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S28: Def = Def {
    name: "S28",
    source: r###"#[musli(transparent)]
#[musli(mode = Odd)]
pub struct S28(
    pub Vec<u32>,
);
"###,
    shapes: &[&[Ty::Seq(&Ty::Int(Int::U32))]],
    views: [
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Transparent, kty: K::Int(Int::Usize), unit: false, fields: &[
                Field { name: Name::I(Int::Usize, 0), accept: &[Name::I(Int::Usize, 0)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S28),
    dec: dti::decs!(S28),
};

#[derive(Encode, Decode)]
#[musli(mode = Odd)]
#[musli(name(type = dti::Tag))]
pub struct S29 {
    #[musli(Text, name = dti::Tag(72))]
    #[musli(Binary, name = dti::Tag(73))]
    #[musli(mode = Odd, pattern = dti::Tag(75))]
    #[musli(mode = Odd, name = dti::Tag(75))]
    pub first_name: [u32; 2],
}

impl Model for S29 {
    fn from_val(v: &Val) -> Self {
        let f = dti::fields(v);
        let _ = f;
        match dti::variant(v) {
            _ => Self { first_name: dti::get(&f[0]) },
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self { first_name: v0 } => dti::rec(0, vec![v0.to_val()]),
        }
    }
}

pub static DEF_S29: Def = Def {
    name: "S29",
    source: r###"#[musli(mode = Odd)]
#[musli(name(type = dti::Tag))]
pub struct S29 {
    #[musli(Text, name = dti::Tag(72))]
    #[musli(Binary, name = dti::Tag(73))]
    #[musli(mode = Odd, pattern = dti::Tag(75))]
    #[musli(mode = Odd, name = dti::Tag(75))]
    pub first_name: [u32; 2],
}
"###,
    shapes: &[&[Ty::Arr(&Ty::Int(Int::U32), 2)]],
    views: [
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 73), accept: &[Name::I(Int::U16, 73)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 72), accept: &[Name::I(Int::U16, 72)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 72), accept: &[Name::I(Int::U16, 72)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
        [
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 75), accept: &[Name::I(Int::U16, 75)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
            View::Struct(Body { packing: Packing::Tagged, kty: K::Int(Int::U16), unit: false, fields: &[
                Field { name: Name::I(Int::U16, 75), accept: &[Name::I(Int::U16, 75)], skip: false, default: Dflt::No, skip_if: false, coding: Coding::Default },
            ] }),
        ],
    ],
    enc: dti::encs!(S29),
    dec: dti::decs!(S29),
};

pub static DEFS: &[&Def] = &[
    &DEF_E0,
    &DEF_E1,
    &DEF_S2,
    &DEF_E3,
    &DEF_S4,
    &DEF_S5,
    &DEF_E6,
    &DEF_E7,
    &DEF_S8,
    &DEF_S9,
    &DEF_E10,
    &DEF_S11,
    &DEF_E12,
    &DEF_E13,
    &DEF_S14,
    &DEF_E15,
    &DEF_E16,
    &DEF_E17,
    &DEF_E18,
    &DEF_E19,
    &DEF_E20,
    &DEF_S21,
    &DEF_E22,
    &DEF_E23,
    &DEF_E24,
    &DEF_S25,
    &DEF_S26,
    &DEF_E27,
    &DEF_S28,
    &DEF_S29,
];

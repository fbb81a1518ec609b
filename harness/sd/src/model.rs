//! Shapes of the data model of serde chosen at run time.
use std::cell::Cell;
use std::fmt;

use dynv::{Int, Num, Val, INTS};
use pbt::Src;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant,
};
use serde::{Deserialize, Serialize};

pub type Names = &'static [&'static str; 6];

pub static NAMES: [[&str; 6]; 4] = [
    ["a", "b", "c", "d", "e", "f"],
    ["", "name", "two words", "émile", "q\"uote", "a longer name than any other one here"],
    ["0", "1", "2", "type", "data", "$x"],
    ["Alpha", "Beta", "Gamma", "Delta", "back\\slash", "\u{1f600}"],
];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int(Int),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(Names, Vec<Field>),
    Enum(Names, Vec<VTy>),
    /// A string where it is to be read by humans, or a number.
    Human,
    /// Whatever is there.
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field(pub Ty, /** may be missing */ pub bool);

#[derive(Clone, Debug, PartialEq)]
pub enum VTy {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Names, Vec<Field>),
}

pub struct Gen {
    pub json: bool,
    pub any: bool,
    pub budget: isize,
}

fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct | Ty::Opt(_) => true,
        Ty::Newtype(t) => nullable(t),
        _ => false,
    }
}

fn options(t: &Ty) -> usize {
    match t {
        Ty::Opt(t) => options(t) + 1,
        Ty::Newtype(t) => options(t),
        _ => 0,
    }
}

impl Gen {
    fn leaf(&mut self, s: &mut Src) -> Ty {
        match s.weighted(&[8, 2, 2, 2, 2, 5, 2, 1]) {
            0 => loop {
                let t = *s.pick(&INTS);
                if !matches!(t, Int::Usize | Int::Isize) {
                    break Ty::Int(t);
                }
            },
            1 => Ty::Bool,
            2 => Ty::Char,
            3 if !(self.any && self.json) => Ty::F32,
            4 => Ty::F64,
            6 => Ty::Bytes,
            7 if !self.any => Ty::Human,
            _ => Ty::Str,
        }
    }

    fn key(&mut self, s: &mut Src) -> Ty {
        match s.weighted(&[4, 4, 1, 1]) {
            1 => Ty::Int(*s.pick(&[Int::U8, Int::I8, Int::I32, Int::U64, Int::I64, Int::U128])),
            2 if !self.json => Ty::Bool,
            3 if !self.json => Ty::Char,
            _ => Ty::Str,
        }
    }

    fn many(&mut self, s: &mut Src, d: usize) -> Vec<Ty> {
        (0..s.size(0, 4)).map(|_| self.ty(s, d)).collect()
    }

    fn fields(&mut self, s: &mut Src, d: usize) -> (Names, Vec<Field>) {
        let names = s.pick(&NAMES);
        (names, (0..s.size(0, 6)).map(|_| Field(self.ty(s, d), s.chance(1, 4))).collect())
    }

    pub fn ty(&mut self, s: &mut Src, depth: usize) -> Ty {
        self.budget -= 1;
        if depth == 0 || self.budget <= 0 {
            return self.leaf(s);
        }
        let d = depth - 1;
        match s.weighted(&[8, 1, 1, 4, 2, 4, 3, 2, 4, 6, 6]) {
            1 => Ty::Unit,
            2 => Ty::UnitStruct,
            3 => {
                let t = self.ty(s, d);
                if nullable(&t) && self.json || options(&t) == 2 {
                    return t;
                }
                Ty::Opt(Box::new(t))
            }
            4 => Ty::Newtype(Box::new(self.ty(s, d))),
            5 => Ty::Seq(Box::new(self.ty(s, d))),
            6 => Ty::Tuple(self.many(s, d)),
            7 => Ty::TupleStruct(self.many(s, d)),
            8 => Ty::Map(Box::new(self.key(s)), Box::new(self.ty(s, d))),
            9 => {
                let (n, f) = self.fields(s, d);
                Ty::Struct(n, f)
            }
            10 if !self.any => Ty::Enum(
                s.pick(&NAMES),
                (0..s.size(1, 4))
                    .map(|_| match s.upto(3) {
                        0 => VTy::Unit,
                        1 => VTy::Newtype(self.ty(s, d)),
                        2 => VTy::Tuple(self.many(s, d)),
                        _ => {
                            let (n, f) = self.fields(s, d);
                            VTy::Struct(n, f)
                        }
                    })
                    .collect(),
            ),
            _ => self.leaf(s),
        }
    }

    pub fn val(&mut self, s: &mut Src, t: &Ty) -> Val {
        self.budget -= 1;
        let n = |g: &mut Self, s: &mut Src| if g.budget <= 0 { s.size(0, 1) } else { s.size(0, 5) };
        match t {
            Ty::Bool => Val::Bool(s.bool()),
            Ty::Int(t) => Val::Int(*t, Num::gen(s, *t)),
            Ty::F32 => {
                let b = s.f32_bits();
                Val::F32(if self.json && !f32::from_bits(b).is_finite() { b & 0x80ff_ffff } else { b })
            }
            Ty::F64 => {
                let b = s.f64_bits();
                Val::F64(if self.json && !f64::from_bits(b).is_finite() { b & 0x800f_ffff_ffff_ffff } else { b })
            }
            Ty::Char => Val::Char(s.char()),
            Ty::Str => Val::Str(s.string(200)),
            Ty::Bytes => Val::Bytes(s.bytes(200)),
            Ty::Unit | Ty::UnitStruct => Val::Unit,
            Ty::Opt(t) => {
                if s.chance(2, 3) {
                    Val::Some(Box::new(self.val(s, t)))
                } else {
                    Val::None
                }
            }
            Ty::Newtype(t) => self.val(s, t),
            Ty::Seq(t) => Val::Seq((0..n(self, s)).map(|_| self.val(s, t)).collect()),
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => Val::Seq(ts.iter().map(|t| self.val(s, t)).collect()),
            Ty::Map(k, v) => Val::Map((0..n(self, s)).map(|_| (self.val(s, k), self.val(s, v))).collect()),
            Ty::Struct(names, f) => Val::Map(self.entries(s, names, f)),
            Ty::Enum(names, vs) => {
                let i = s.index(vs.len());
                let tag = Box::new(Val::Str(names[i].into()));
                match &vs[i] {
                    VTy::Unit => Val::Datav(tag, Box::new(Val::Unit)),
                    VTy::Newtype(t) => Val::Datav(tag, Box::new(self.val(s, t))),
                    VTy::Tuple(ts) => Val::Seqv(tag, ts.iter().map(|t| self.val(s, t)).collect()),
                    VTy::Struct(names, f) => Val::Mapv(tag, self.entries(s, names, f)),
                }
            }
            Ty::Human => Val::Int(Int::U32, Num::gen(s, Int::U32)),
            Ty::Any => unreachable!(),
        }
    }

    fn entries(&mut self, s: &mut Src, names: Names, f: &[Field]) -> Vec<(Val, Val)> {
        names.iter().zip(f).map(|(n, f)| (Val::Str((*n).into()), self.val(s, &f.0))).collect()
    }
}

/// What fields which are missing become.
pub fn blank(t: &Ty) -> Val {
    match t {
        Ty::Bool => Val::Bool(true),
        Ty::Int(t) => Val::Int(*t, if t.signed() { Num::I(-7) } else { Num::U(7) }),
        Ty::F32 => Val::F32(1.5f32.to_bits()),
        Ty::F64 => Val::F64(2.5f64.to_bits()),
        Ty::Char => Val::Char('?'),
        Ty::Str => Val::Str("blank".into()),
        Ty::Bytes => Val::Bytes(vec![1]),
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Opt(_) => Val::None,
        Ty::Newtype(t) => blank(t),
        Ty::Seq(_) => Val::Seq(vec![]),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => Val::Seq(ts.iter().map(blank).collect()),
        Ty::Map(..) => Val::Map(vec![]),
        Ty::Struct(names, f) => Val::Map(blanks(names, f)),
        Ty::Enum(names, vs) => {
            let tag = Box::new(Val::Str(names[0].into()));
            match &vs[0] {
                VTy::Unit => Val::Datav(tag, Box::new(Val::Unit)),
                VTy::Newtype(t) => Val::Datav(tag, Box::new(blank(t))),
                VTy::Tuple(ts) => Val::Seqv(tag, ts.iter().map(blank).collect()),
                VTy::Struct(names, f) => Val::Mapv(tag, blanks(names, f)),
            }
        }
        Ty::Human => Val::Int(Int::U32, Num::U(7)),
        Ty::Any => Val::Unit,
    }
}

fn blanks(names: Names, f: &[Field]) -> Vec<(Val, Val)> {
    names.iter().zip(f).map(|(n, f)| (Val::Str((*n).into()), blank(&f.0))).collect()
}

pub fn has_unit_variant(v: &Val) -> bool {
    match v {
        Val::Datav(_, v) if **v == Val::Unit => true,
        Val::Datav(_, v) | Val::Some(v) => has_unit_variant(v),
        Val::Seq(v) | Val::Seqv(_, v) => v.iter().any(has_unit_variant),
        Val::Map(v) | Val::Mapv(_, v) => v.iter().any(|(_, v)| has_unit_variant(v)),
        _ => false,
    }
}

// ------------------------------------------------------------ documents

/// The native representation, and what is decoded from it.
pub struct Doc<'a> {
    pub s: &'a mut Src,
    pub human: bool,
    pub skip: bool,
    pub alter: bool,
    /// Leave out what is needed, once.
    pub spoil: bool,
    pub spoiled: Option<String>,
    pub changes: usize,
}

impl Doc<'_> {
    pub fn of(&mut self, t: &Ty, v: &Val) -> (Val, Val) {
        match (t, v) {
            (Ty::Human, Val::Int(_, n)) if self.human => (Val::Str(n.u().to_string()), v.clone()),
            (Ty::Newtype(t), v) => self.of(t, v),
            (Ty::Opt(t), Val::Some(v)) => {
                let (d, e) = self.of(t, v);
                (Val::Some(Box::new(d)), Val::Some(Box::new(e)))
            }
            (Ty::Seq(t), Val::Seq(v)) => {
                let (d, e) = v.iter().map(|v| self.of(t, v)).unzip();
                (Val::Seq(d), Val::Seq(e))
            }
            (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(v)) => {
                let (d, e) = self.each(ts, v);
                (Val::Seq(d), Val::Seq(e))
            }
            (Ty::Map(k, t), Val::Map(v)) => {
                let mut d = Vec::new();
                let mut e = Vec::new();
                for (key, v) in v {
                    let (a, b) = self.of(t, v);
                    d.push((self.of(k, key).0, a));
                    e.push((key.clone(), b));
                }
                (Val::Map(d), Val::Map(e))
            }
            (Ty::Struct(_, f), Val::Map(v)) => {
                let (d, e) = self.entries(f, v);
                (Val::Map(d), Val::Map(e))
            }
            (Ty::Enum(names, vs), v) => {
                let (Val::Datav(tag, _) | Val::Seqv(tag, _) | Val::Mapv(tag, _)) = v else { unreachable!() };
                let i = names.iter().position(|n| **tag == Val::Str((*n).into())).unwrap();
                let mut doc_tag = tag.clone();
                if self.spoil && self.spoiled.is_none() && self.s.chance(1, 2) {
                    self.spoiled = Some("unknown variant".into());
                    doc_tag = Box::new(Val::Str("nonesuch".into()));
                }
                match (&vs[i], v) {
                    (VTy::Newtype(t), Val::Datav(_, v)) => {
                        let (d, e) = self.of(t, v);
                        (Val::Datav(doc_tag, Box::new(d)), Val::Datav(tag.clone(), Box::new(e)))
                    }
                    (VTy::Tuple(ts), Val::Seqv(_, v)) => {
                        let (d, e) = self.each(ts, v);
                        (Val::Seqv(doc_tag, d), Val::Seqv(tag.clone(), e))
                    }
                    (VTy::Struct(_, f), Val::Mapv(_, v)) => {
                        let (d, e) = self.entries(f, v);
                        (Val::Mapv(doc_tag, d), Val::Mapv(tag.clone(), e))
                    }
                    _ => (Val::Datav(doc_tag, Box::new(Val::Unit)), v.clone()),
                }
            }
            _ => (v.clone(), v.clone()),
        }
    }

    fn each(&mut self, ts: &[Ty], v: &[Val]) -> (Vec<Val>, Vec<Val>) {
        ts.iter().zip(v).map(|(t, v)| self.of(t, v)).unzip()
    }

    fn entries(&mut self, f: &[Field], v: &[(Val, Val)]) -> (Vec<(Val, Val)>, Vec<(Val, Val)>) {
        let mut d = Vec::new();
        let mut e = Vec::new();
        for (f, (k, v)) in f.iter().zip(v) {
            if self.alter && f.1 && self.s.chance(1, 2) {
                self.changes += 1;
                e.push((k.clone(), blank(&f.0)));
                continue;
            }
            if self.spoil && self.spoiled.is_none() && !f.1 && self.s.chance(1, 3) {
                self.spoiled = Some(format!("missing field {k:?}"));
                e.push((k.clone(), blank(&f.0)));
                continue;
            }
            let (a, b) = self.of(&f.0, v);
            d.push((k.clone(), a));
            e.push((k.clone(), b));
        }
        if self.alter {
            if d.len() > 1 && self.s.chance(1, 2) {
                self.changes += 1;
                for i in (1..d.len()).rev() {
                    let j = self.s.index(i + 1);
                    d.swap(i, j);
                }
            }
            if self.skip && self.s.chance(1, 2) {
                self.changes += 1;
                let at = self.s.index(d.len() + 1);
                let junk = self.junk(2);
                d.insert(at, (Val::Str(format!("unknown{at}")), junk));
            }
        }
        (d, e)
    }

    fn junk(&mut self, depth: usize) -> Val {
        let mut g = Gen { json: true, any: false, budget: 12 };
        let t = g.ty(self.s, depth);
        g.val(self.s, &t)
    }
}

// ------------------------------------------------------------ serialize

/// Types of serializers can nest with options, so these are counted.
pub struct Ser<'a, const N: usize>(pub &'a Ty, pub &'a Val);

macro_rules! ser {
    (@some $s:ident $t:ident $v:ident $next:literal) => { $s.serialize_some(&Ser::<$next>($t, $v)) };
    (@some $s:ident $t:ident $v:ident) => { Err(ser::Error::custom("too many options")) };
    ($n:literal $($next:literal)?) => {
impl Serialize for Ser<'_, $n> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Human, Val::Int(_, n)) => {
                if s.is_human_readable() {
                    s.collect_str(&n.u())
                } else {
                    s.serialize_u32(n.u() as u32)
                }
            }
            (_, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(t), Val::Int(_, n)) => match t {
                Int::U8 => s.serialize_u8(n.u() as u8),
                Int::U16 => s.serialize_u16(n.u() as u16),
                Int::U32 => s.serialize_u32(n.u() as u32),
                Int::U64 | Int::Usize => s.serialize_u64(n.u() as u64),
                Int::U128 => s.serialize_u128(n.u()),
                Int::I8 => s.serialize_i8(n.i() as i8),
                Int::I16 => s.serialize_i16(n.i() as i16),
                Int::I32 => s.serialize_i32(n.i() as i32),
                Int::I64 | Int::Isize => s.serialize_i64(n.i() as i64),
                Int::I128 => s.serialize_i128(n.i()),
            },
            (_, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (_, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (_, Val::Char(c)) => s.serialize_char(*c),
            (_, Val::Str(v)) => s.serialize_str(v),
            (_, Val::Bytes(v)) => s.serialize_bytes(v),
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("UnitStruct"),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(_t), Val::Some(_v)) => ser!(@some s _t _v $($next)?),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("Newtype", &Ser::<$n>(t, v)),
            (Ty::Seq(t), Val::Seq(v)) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for v in v {
                    q.serialize_element(&Ser::<0>(t, v))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::Seq(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (t, v) in ts.iter().zip(v) {
                    q.serialize_element(&Ser::<0>(t, v))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Seq(v)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", v.len())?;
                for (t, v) in ts.iter().zip(v) {
                    q.serialize_field(&Ser::<0>(t, v))?;
                }
                q.end()
            }
            (Ty::Map(kt, vt), Val::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Ser::<0>(kt, k), &Ser::<0>(vt, v))?;
                    } else {
                        q.serialize_key(&Ser::<0>(kt, k))?;
                        q.serialize_value(&Ser::<0>(vt, v))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(names, f), Val::Map(m)) => {
                let mut q = s.serialize_struct("Struct", m.len())?;
                for ((n, f), (_, v)) in names.iter().zip(f).zip(m) {
                    q.serialize_field(n, &Ser::<0>(&f.0, v))?;
                }
                q.end()
            }
            (Ty::Enum(names, vs), v) => {
                let (Val::Datav(tag, _) | Val::Seqv(tag, _) | Val::Mapv(tag, _)) = v else { unreachable!() };
                let i = names.iter().position(|n| **tag == Val::Str((*n).into())).unwrap();
                let (n, tag) = (i as u32, names[i]);
                match (&vs[i], v) {
                    (VTy::Newtype(t), Val::Datav(_, v)) => s.serialize_newtype_variant("Enum", n, tag, &Ser::<0>(t, v)),
                    (VTy::Tuple(ts), Val::Seqv(_, v)) => {
                        let mut q = s.serialize_tuple_variant("Enum", n, tag, v.len())?;
                        for (t, v) in ts.iter().zip(v) {
                            q.serialize_field(&Ser::<0>(t, v))?;
                        }
                        q.end()
                    }
                    (VTy::Struct(names, f), Val::Mapv(_, m)) => {
                        let mut q = s.serialize_struct_variant("Enum", n, tag, m.len())?;
                        for ((n, f), (_, v)) in names.iter().zip(f).zip(m) {
                            q.serialize_field(n, &Ser::<0>(&f.0, v))?;
                        }
                        q.end()
                    }
                    _ => s.serialize_unit_variant("Enum", n, tag),
                }
            }
            (t, v) => unreachable!("{t:?} {v:?}"),
        }
    }
}
    };
}
ser!(0 1);
ser!(1 2);
ser!(2);

// ------------------------------------------------------------ deserialize

#[derive(Clone, Copy)]
pub struct De<'a>(pub &'a Ty);

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = Val;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let t = self.0;
        match t {
            Ty::Bool => d.deserialize_bool(self),
            Ty::Int(i) => match i {
                Int::U8 => d.deserialize_u8(self),
                Int::U16 => d.deserialize_u16(self),
                Int::U32 => d.deserialize_u32(self),
                Int::U64 | Int::Usize => d.deserialize_u64(self),
                Int::U128 => d.deserialize_u128(self),
                Int::I8 => d.deserialize_i8(self),
                Int::I16 => d.deserialize_i16(self),
                Int::I32 => d.deserialize_i32(self),
                Int::I64 | Int::Isize => d.deserialize_i64(self),
                Int::I128 => d.deserialize_i128(self),
            },
            Ty::F32 => d.deserialize_f32(self),
            Ty::F64 => d.deserialize_f64(self),
            Ty::Char => d.deserialize_char(self),
            Ty::Str => {
                thread_local!(static N: Cell<usize> = const { Cell::new(0) });
                N.set(N.get() + 1);
                if N.get() % 2 == 0 {
                    d.deserialize_str(self)
                } else {
                    d.deserialize_string(self)
                }
            }
            Ty::Bytes => d.deserialize_byte_buf(self),
            Ty::Unit => d.deserialize_unit(self),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", self),
            Ty::Opt(_) => d.deserialize_option(self),
            Ty::Newtype(_) => d.deserialize_newtype_struct("Newtype", self),
            Ty::Seq(_) => d.deserialize_seq(self),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), self),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("TupleStruct", t.len(), self),
            Ty::Map(..) => d.deserialize_map(self),
            Ty::Struct(names, f) => d.deserialize_struct("Struct", &names[..f.len()], self),
            Ty::Enum(names, v) => d.deserialize_enum("Enum", &names[..v.len()], self),
            Ty::Human => {
                if d.is_human_readable() {
                    let s = De(&Ty::Str).deserialize(d)?;
                    let Val::Str(s) = s else { unreachable!() };
                    Ok(Val::Int(Int::U32, Num::U(s.parse::<u32>().map_err(de::Error::custom)? as u128)))
                } else {
                    d.deserialize_u32(De(&Ty::Int(Int::U32)))
                }
            }
            Ty::Any => d.deserialize_any(self),
        }
    }
}

impl De<'_> {
    fn int<E: de::Error>(self, from: Int, n: Num) -> Result<Val, E> {
        match self.0 {
            Ty::Any => Ok(Val::Int(from, n)),
            Ty::Int(t) => match n.convert(*t) {
                Some(n) => Ok(Val::Int(*t, n)),
                None => Err(E::custom("integer out of range")),
            },
            Ty::F32 => Ok(Val::F32((if let Num::U(u) = n { u as f32 } else { n.i() as f32 }).to_bits())),
            Ty::F64 => Ok(Val::F64((if let Num::U(u) = n { u as f64 } else { n.i() as f64 }).to_bits())),
            _ => Err(E::custom("unexpected integer")),
        }
    }

    fn fields<'de, A: MapAccess<'de>>(names: Names, f: &[Field], mut a: A) -> Result<Vec<(Val, Val)>, A::Error> {
        let mut got: Vec<Option<Val>> = vec![None; f.len()];
        while let Some(i) = a.next_key_seed(Ident(&names[..f.len()]))? {
            match i {
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(names[i])),
                Some(i) => got[i] = Some(a.next_value_seed(De(&f[i].0))?),
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        names
            .iter()
            .zip(f)
            .zip(got)
            .map(|((n, f), v)| match v {
                Some(v) => Ok((Val::Str((*n).into()), v)),
                None if f.1 => Ok((Val::Str((*n).into()), blank(&f.0))),
                None => Err(de::Error::missing_field(n)),
            })
            .collect()
    }

    fn tuple<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut out = Vec::new();
        for (i, t) in ts.iter().enumerate() {
            match a.next_element_seed(De(t))? {
                Some(v) => out.push(v),
                None => return Err(de::Error::invalid_length(i, &"more")),
            }
        }
        Ok(out)
    }
}

struct Ident(&'static [&'static str]);

impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl de::Visitor<'_> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("an identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|n| *n == v))
    }
}

impl<'de> de::Visitor<'de> for De<'_> {
    type Value = Val;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        match self.0 {
            Ty::Bool | Ty::Any => Ok(Val::Bool(v)),
            _ => Err(E::custom("unexpected boolean")),
        }
    }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<Val, E> {
        self.int(Int::U8, Num::U(v as u128))
    }
    fn visit_u16<E: de::Error>(self, v: u16) -> Result<Val, E> {
        self.int(Int::U16, Num::U(v as u128))
    }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<Val, E> {
        self.int(Int::U32, Num::U(v as u128))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        self.int(Int::U64, Num::U(v as u128))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Val, E> {
        self.int(Int::U128, Num::U(v))
    }
    fn visit_i8<E: de::Error>(self, v: i8) -> Result<Val, E> {
        self.int(Int::I8, Num::I(v as i128))
    }
    fn visit_i16<E: de::Error>(self, v: i16) -> Result<Val, E> {
        self.int(Int::I16, Num::I(v as i128))
    }
    fn visit_i32<E: de::Error>(self, v: i32) -> Result<Val, E> {
        self.int(Int::I32, Num::I(v as i128))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        self.int(Int::I64, Num::I(v as i128))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Val, E> {
        self.int(Int::I128, Num::I(v))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        match self.0 {
            Ty::F32 | Ty::Any => Ok(Val::F32(v.to_bits())),
            Ty::F64 => Ok(Val::F64((v as f64).to_bits())),
            _ => Err(E::custom("unexpected float")),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        match self.0 {
            // as the implementation for f32 does
            Ty::F32 => Ok(Val::F32((v as f32).to_bits())),
            Ty::F64 | Ty::Any => Ok(Val::F64(v.to_bits())),
            _ => Err(E::custom("unexpected float")),
        }
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        match self.0 {
            Ty::Char | Ty::Any => Ok(Val::Char(v)),
            _ => Err(E::custom("unexpected char")),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        match self.0 {
            Ty::Str | Ty::Any => Ok(Val::Str(v.into())),
            Ty::Char => {
                let mut c = v.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(Val::Char(c)),
                    _ => Err(E::custom("not one character")),
                }
            }
            _ => Err(E::custom("unexpected string")),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        match self.0 {
            Ty::Bytes | Ty::Any => Ok(Val::Bytes(v.into())),
            _ => Err(E::custom("unexpected bytes")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Opt(_) | Ty::Any => Ok(Val::None),
            _ => Err(E::custom("unexpected none")),
        }
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Opt(t) => Ok(Val::Some(Box::new(De(t).deserialize(d)?))),
            Ty::Any => Ok(Val::Some(Box::new(self.deserialize(d)?))),
            _ => Err(de::Error::custom("unexpected some")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Unit | Ty::UnitStruct | Ty::Any => Ok(Val::Unit),
            _ => Err(E::custom("unexpected unit")),
        }
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Newtype(t) => De(t).deserialize(d),
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Bytes => {
                let mut out = Vec::new();
                while let Some(b) = a.next_element()? {
                    out.push(b);
                }
                Ok(Val::Bytes(out))
            }
            Ty::Seq(t) => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(De(t))? {
                    out.push(v);
                }
                Ok(Val::Seq(out))
            }
            Ty::Any => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(self)? {
                    out.push(v);
                }
                Ok(Val::Seq(out))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => Ok(Val::Seq(Self::tuple(ts, a)?)),
            _ => Err(de::Error::custom("unexpected sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Map(k, v) => {
                let mut out = Vec::new();
                while let Some(k) = a.next_key_seed(De(k))? {
                    out.push((k, a.next_value_seed(De(v))?));
                }
                Ok(Val::Map(out))
            }
            Ty::Any => {
                let mut out = Vec::new();
                while let Some(k) = a.next_key_seed(self)? {
                    out.push((k, a.next_value_seed(self)?));
                }
                Ok(Val::Map(out))
            }
            Ty::Struct(names, f) => Ok(Val::Map(Self::fields(names, f, a)?)),
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum(names, vs) = self.0 else {
            return Err(de::Error::custom("unexpected enum"));
        };
        let (i, a) = a.variant_seed(Ident(&names[..vs.len()]))?;
        let Some(i) = i else {
            return Err(de::Error::custom("unknown variant"));
        };
        let tag = Box::new(Val::Str(names[i].into()));
        Ok(match &vs[i] {
            VTy::Unit => {
                a.unit_variant()?;
                Val::Datav(tag, Box::new(Val::Unit))
            }
            VTy::Newtype(t) => Val::Datav(tag, Box::new(a.newtype_variant_seed(De(t))?)),
            VTy::Tuple(ts) => {
                struct Tup<'a>(&'a [Ty]);
                impl<'de> de::Visitor<'de> for Tup<'_> {
                    type Value = Vec<Val>;
                    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        f.write_str("a tuple variant")
                    }
                    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
                        De::tuple(self.0, a)
                    }
                }
                Val::Seqv(tag, a.tuple_variant(ts.len(), Tup(ts))?)
            }
            VTy::Struct(names, f) => {
                struct Fields<'a>(Names, &'a [Field]);
                impl<'de> de::Visitor<'de> for Fields<'_> {
                    type Value = Vec<(Val, Val)>;
                    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        f.write_str("a struct variant")
                    }
                    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> {
                        De::fields(self.0, self.1, a)
                    }
                }
                Val::Mapv(tag, a.struct_variant(&names[..f.len()], Fields(names, f))?)
            }
        })
    }
}

// ------------------------------------------------------------ bridge

thread_local!(static CUR: Cell<*const Ty> = const { Cell::new(std::ptr::null()) });

pub fn with_ty<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    let was = CUR.replace(t);
    let out = f();
    CUR.set(was);
    out
}

/// Deserializes as the current type.
pub struct Dyn(pub Val);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        // Only set to what `with_ty` borrows.
        let t = unsafe { &*CUR.get() };
        De(t).deserialize(d).map(Dyn)
    }
}

/// Goes through the bridge.
pub struct Bridge<T>(pub T);

impl<M: 'static, T: Serialize> musli::Encode<M> for Bridge<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: musli::Encoder<Mode = M>>(&self, encoder: E) -> Result<(), E::Error> {
        musli::serde::encode(&self.0, encoder)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M: 'static, A: musli::Allocator, T: Deserialize<'de>> musli::Decode<'de, M, A> for Bridge<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        musli::serde::decode(decoder).map(Bridge)
    }
}

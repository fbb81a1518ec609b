//! Values and shapes chosen at run time, encoded and decoded through the
//! public Encoder / Decoder API.
use std::cell::{Cell, RefCell};

use musli::de::{
    Decode, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, UnsizedVisitor, VariantDecoder,
};
use musli::en::{
    Encode, Encoder, EntriesEncoder, EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder,
};
use musli::{Allocator, Context};
use pbt::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Int {
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
    I8,
    I16,
    I32,
    I64,
    I128,
    Isize,
}

pub const INTS: [Int; 12] = [
    Int::U8, Int::U16, Int::U32, Int::U64, Int::U128, Int::Usize, Int::I8, Int::I16, Int::I32, Int::I64, Int::I128,
    Int::Isize,
];

impl Int {
    pub fn bits(self) -> u32 {
        match self {
            Int::U8 | Int::I8 => 8,
            Int::U16 | Int::I16 => 16,
            Int::U32 | Int::I32 => 32,
            Int::U64 | Int::I64 | Int::Usize | Int::Isize => 64,
            Int::U128 | Int::I128 => 128,
        }
    }
    pub fn signed(self) -> bool {
        self as u8 >= Int::I8 as u8
    }
}

/// An integer as sign and magnitude-free pair: `neg` selects which is in use.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Num {
    U(u128),
    I(i128),
}

impl Num {
    pub fn gen(s: &mut Src, ty: Int) -> Num {
        if ty.signed() {
            Num::I(s.signed(ty.bits()))
        } else {
            Num::U(s.unsigned(ty.bits()))
        }
    }
    /// The same number in another type, if it fits.
    pub fn convert(self, ty: Int) -> Option<Num> {
        if ty.signed() {
            let v: i128 = match self {
                Num::U(v) => v.try_into().ok()?,
                Num::I(v) => v,
            };
            let sh = 128 - ty.bits();
            ((v << sh) >> sh == v).then_some(Num::I(v))
        } else {
            let v: u128 = match self {
                Num::U(v) => v,
                Num::I(v) => v.try_into().ok()?,
            };
            let sh = 128 - ty.bits();
            ((v << sh) >> sh == v).then_some(Num::U(v))
        }
    }
    pub fn u(self) -> u128 {
        match self {
            Num::U(v) => v,
            Num::I(v) => v as u128,
        }
    }
    pub fn i(self) -> i128 {
        match self {
            Num::U(v) => v as i128,
            Num::I(v) => v,
        }
    }
}

/// Element types for bulk slices.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Elem {
    U8,
    U16,
    U32,
    U64,
    I32,
    I64,
    F32,
    Bool,
    U128,
}

pub const ELEMS: [Elem; 9] = [
    Elem::U8, Elem::U16, Elem::U32, Elem::U64, Elem::I32, Elem::I64, Elem::F32, Elem::Bool, Elem::U128,
];

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Unit,
    Bool,
    Char,
    Int(Int),
    F32,
    F64,
    Str,
    Bytes,
    Arr(usize),
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    Pack(Vec<Ty>),
    Slice(Elem),
    Map(Box<Ty>, Box<Ty>),
    /// Fields which a reader knows. A writer's fields are all of these.
    Struct(Vec<(Val, Ty)>),
    Enum(Vec<(Val, VTy)>),
    /// Skip whatever is there.
    Skip,
    /// Read no more than so many elements or entries.
    First(usize, Box<Ty>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum VTy {
    Unit,
    Data(Ty),
    Seq(Vec<Ty>),
    Map(Vec<(Val, Ty)>),
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Val {
    Unit,
    Bool(bool),
    Char(char),
    Int(Int, Num),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Arr(Vec<u8>),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Tuple(Vec<Val>),
    Pack(Vec<Val>),
    Slice(Elem, Vec<u128>),
    Map(Vec<(Val, Val)>),
    Struct(Vec<(Val, Val)>),
    Unitv(Box<Val>),
    Datav(Box<Val>, Box<Val>),
    Seqv(Box<Val>, Vec<Val>),
    Mapv(Box<Val>, Vec<(Val, Val)>),
    /// Was not present, or was skipped.
    Absent,
    /// Parts which are written one after another by formats which copy native
    /// fixed width numbers, and something else in all others.
    Raw(Vec<Val>, Box<Val>),
}

impl Val {
    pub fn size(&self) -> usize {
        match self {
            Val::Some(v) => 1 + v.size(),
            Val::Seq(v) | Val::Tuple(v) | Val::Pack(v) | Val::Seqv(_, v) => 1 + v.iter().map(|v| v.size()).sum::<usize>(),
            Val::Slice(_, v) => 1 + v.len(),
            Val::Map(v) | Val::Struct(v) | Val::Mapv(_, v) => {
                1 + v.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>()
            }
            Val::Datav(_, v) => 1 + v.size(),
            Val::Str(s) => 1 + s.len() / 8,
            Val::Bytes(s) | Val::Arr(s) => 1 + s.len() / 8,
            Val::Raw(_, v) => v.size(),
            _ => 1,
        }
    }
}

// ------------------------------------------------------------ generation

/// What a format can carry.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Caps {
    /// Map keys and variant tags are limited to strings and integers.
    pub simple_keys: bool,
    /// null stands for none and the unit.
    pub ambiguous_null: bool,
    /// NaN and infinities are not part of the format.
    pub finite: bool,
    /// Optional values cannot be used (packed) since absence is not marked.
    pub no_option: bool,
    pub slices: bool,
}

pub const BINARY: Caps =
    Caps { simple_keys: false, ambiguous_null: false, finite: false, no_option: false, slices: true };
pub const PACKED: Caps = Caps { no_option: true, ..BINARY };
pub const JSON: Caps = Caps { simple_keys: true, ambiguous_null: true, finite: true, no_option: false, slices: true };

impl Caps {
    pub fn and(self, o: Caps) -> Caps {
        Caps {
            simple_keys: self.simple_keys || o.simple_keys,
            ambiguous_null: self.ambiguous_null || o.ambiguous_null,
            finite: self.finite || o.finite,
            no_option: self.no_option || o.no_option,
            slices: self.slices && o.slices,
        }
    }
}

pub struct Gen {
    pub caps: Caps,
    pub budget: isize,
    pub str_max: usize,
}

impl Gen {
    pub fn new(caps: Caps) -> Self {
        Gen { caps, budget: 60, str_max: 300 }
    }

    fn scalar(&mut self, s: &mut Src) -> Ty {
        match s.weighted(&[8, 2, 2, 2, 2, 4, 2, 2]) {
            0 => Ty::Int(*s.pick(&INTS)),
            1 => Ty::Bool,
            2 => Ty::Char,
            3 => Ty::F32,
            4 => Ty::F64,
            5 => Ty::Str,
            6 => Ty::Bytes,
            _ => Ty::Arr(*s.pick(&[0, 1, 2, 3, 4, 8, 16, 33])),
        }
    }

    pub fn key_ty(&mut self, s: &mut Src) -> Ty {
        if self.caps.simple_keys || s.chance(3, 4) {
            if s.bool() {
                Ty::Int(*s.pick(&INTS))
            } else {
                Ty::Str
            }
        } else {
            *[Ty::Bool, Ty::Char].map(Box::new)[s.index(2)].clone()
        }
    }

    pub fn ty(&mut self, s: &mut Src, depth: usize) -> Ty {
        self.ty2(s, depth, false, false)
    }

    /// `opt`: directly inside of an option; `pack`: somewhere in a pack.
    fn ty2(&mut self, s: &mut Src, depth: usize, opt: bool, pack: bool) -> Ty {
        if depth == 0 || self.budget <= 0 {
            return self.scalar(s);
        }
        self.budget -= 1;
        let d = depth - 1;
        match s.weighted(&[10, 3, 4, 3, 3, 3, 4, 4, 3, 2]) {
            0 => self.scalar(s),
            1 if !(opt && self.caps.ambiguous_null) => Ty::Unit,
            2 if !(opt && self.caps.ambiguous_null) && !pack && !self.caps.no_option && !matches!(opt, true if self.caps.ambiguous_null) => {
                if opt {
                    // at most two directly nested
                    let t = self.scalar(s);
                    Ty::Opt(Box::new(t))
                } else {
                    let t = self.ty2(s, d, true, pack);
                    // an option in an option in an option
                    let t = match t {
                        Ty::Opt(i) if matches!(*i, Ty::Opt(_)) => *i,
                        t => t,
                    };
                    Ty::Opt(Box::new(t))
                }
            }
            3 => Ty::Seq(Box::new(self.ty2(s, d, false, pack))),
            4 => {
                let n = s.size(0, 5);
                Ty::Tuple((0..n).map(|_| self.ty2(s, d, false, pack)).collect())
            }
            5 => {
                let n = s.size(0, 5);
                Ty::Pack((0..n).map(|_| self.ty2(s, d.min(1), false, true)).collect())
            }
            6 => {
                let k = self.key_ty(s);
                Ty::Map(Box::new(k), Box::new(self.ty2(s, d, false, pack)))
            }
            7 => Ty::Struct(self.fields(s, d, pack)),
            8 => {
                let n = s.size(1, 4);
                let kty = self.key_ty(s);
                let mut out: Vec<(Val, VTy)> = Vec::new();
                for _ in 0..n {
                    let tag = self.distinct(s, &kty, |k| out.iter().any(|(o, _)| o == k));
                    let Some(tag) = tag else { continue };
                    let v = match s.upto(3) {
                        0 => VTy::Unit,
                        1 => VTy::Data(self.ty2(s, d, false, pack)),
                        2 => {
                            let n = s.size(0, 4);
                            VTy::Seq((0..n).map(|_| self.ty2(s, d, false, pack)).collect())
                        }
                        _ => VTy::Map(self.fields(s, d, pack)),
                    };
                    out.push((tag, v));
                }
                Ty::Enum(out)
            }
            9 if self.caps.slices => Ty::Slice(*s.pick(&ELEMS)),
            _ => self.scalar(s),
        }
    }

    fn distinct(&mut self, s: &mut Src, ty: &Ty, used: impl Fn(&Val) -> bool) -> Option<Val> {
        for _ in 0..20 {
            let k = if let (Ty::Str, true) = (ty, s.bool()) {
                Val::Str(format!("f{}", s.upto(9)))
            } else {
                self.val(s, ty)
            };
            if !used(&k) {
                return Some(k);
            }
        }
        None
    }

    pub fn fields(&mut self, s: &mut Src, d: usize, pack: bool) -> Vec<(Val, Ty)> {
        let n = s.size(0, 6);
        let kty = match s.upto(2) {
            0 => Ty::Int(Int::Usize),
            1 => Ty::Str,
            _ => self.key_ty(s),
        };
        let mut out: Vec<(Val, Ty)> = Vec::new();
        for i in 0..n {
            let key = if kty == Ty::Int(Int::Usize) {
                Val::Int(Int::Usize, Num::U(i as u128))
            } else {
                match self.distinct(s, &kty, |k| out.iter().any(|(o, _)| o == k)) {
                    Some(k) => k,
                    None => continue,
                }
            };
            let t = self.ty2(s, d, false, pack);
            out.push((key, t));
        }
        out
    }

    pub fn val(&mut self, s: &mut Src, ty: &Ty) -> Val {
        match ty {
            Ty::Unit => Val::Unit,
            Ty::Bool => Val::Bool(s.bool()),
            Ty::Char => Val::Char(s.char()),
            Ty::Int(t) => Val::Int(*t, Num::gen(s, *t)),
            Ty::F32 => {
                let b = s.f32_bits();
                Val::F32(if self.caps.finite && !f32::from_bits(b).is_finite() { b & 0x80ff_ffff } else { b })
            }
            Ty::F64 => {
                let b = s.f64_bits();
                Val::F64(if self.caps.finite && !f64::from_bits(b).is_finite() {
                    b & 0x800f_ffff_ffff_ffff
                } else {
                    b
                })
            }
            Ty::Str => Val::Str(s.string(self.str_max)),
            Ty::Bytes => Val::Bytes(s.bytes(self.str_max)),
            Ty::Arr(n) => Val::Arr((0..*n).map(|_| s.upto(255) as u8).collect()),
            Ty::Opt(t) => {
                if s.chance(2, 3) {
                    Val::Some(Box::new(self.val(s, t)))
                } else {
                    Val::None
                }
            }
            Ty::Seq(t) => {
                let n = self.count(s);
                Val::Seq((0..n).map(|_| self.val(s, t)).collect())
            }
            Ty::Tuple(ts) => Val::Tuple(ts.iter().map(|t| self.val(s, t)).collect()),
            Ty::Pack(ts) => Val::Pack(ts.iter().map(|t| self.val(s, t)).collect()),
            Ty::Slice(e) => {
                let n = s.len(400);
                Val::Slice(*e, (0..n).map(|_| elem(s, *e, self.caps.finite)).collect())
            }
            Ty::Map(k, v) => {
                let n = self.count(s);
                Val::Map((0..n).map(|_| (self.val(s, k), self.val(s, v))).collect())
            }
            Ty::Struct(fs) => Val::Struct(fs.iter().map(|(k, t)| (k.clone(), self.val(s, t))).collect()),
            Ty::Enum(vs) => {
                if vs.is_empty() {
                    return Val::Unit;
                }
                let (tag, v) = &vs[s.index(vs.len())];
                let tag = Box::new(tag.clone());
                match v {
                    VTy::Unit => Val::Unitv(tag),
                    VTy::Data(t) => Val::Datav(tag, Box::new(self.val(s, t))),
                    VTy::Seq(ts) => Val::Seqv(tag, ts.iter().map(|t| self.val(s, t)).collect()),
                    VTy::Map(fs) => Val::Mapv(tag, fs.iter().map(|(k, t)| (k.clone(), self.val(s, t))).collect()),
                }
            }
            Ty::Skip => Val::Absent,
            Ty::First(_, t) => self.val(s, t),
        }
    }

    fn count(&mut self, s: &mut Src) -> usize {
        if self.budget <= 0 {
            return s.size(0, 1);
        }
        let n = match s.weighted(&[12, 3, 1]) {
            0 => s.size(0, 4),
            1 => s.size(0, 20),
            _ => s.size(0, 140),
        };
        self.budget -= n as isize;
        n
    }
}

fn elem(s: &mut Src, e: Elem, finite: bool) -> u128 {
    match e {
        Elem::U8 => s.upto(255) as u128,
        Elem::U16 => s.unsigned(16),
        Elem::U32 => s.unsigned(32),
        Elem::U64 => s.unsigned(64),
        Elem::I32 => s.unsigned(32),
        Elem::I64 => s.unsigned(64),
        Elem::F32 => {
            let b = s.f32_bits();
            (if finite && !f32::from_bits(b).is_finite() { b & 0x80ff_ffff } else { b }) as u128
        }
        Elem::Bool => s.upto(1) as u128,
        Elem::U128 => s.unsigned(128),
    }
}

// ------------------------------------------------------------ encoding

thread_local! {
    /// Which of several equivalent API calls to use next. Never affects bytes.
    static STYLE: Cell<u64> = const { Cell::new(0) };
    static CUR: RefCell<Vec<*const Ty>> = const { RefCell::new(Vec::new()) };
}

pub fn set_style(v: u64) {
    STYLE.with(|s| s.set(v));
}

fn style(n: u64) -> u64 {
    STYLE.with(|s| {
        let v = s.get();
        s.set(v.rotate_right(5).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(v & 1));
        if v == 0 {
            0
        } else {
            (v >> 20) % n
        }
    })
}

/// A value to encode. `O` is how many more options may directly nest.
pub struct En<'a, const O: u8>(pub &'a Val);

pub type Enc<'a> = En<'a, 0>;

macro_rules! encode_impl {
    ($lvl:literal, |$encoder:ident| $some:block, $inner:ident) => {
        impl<'a, M: 'static> Encode<M> for En<'a, $lvl> {
            type Encode = Self;
            const IS_BITWISE_ENCODE: bool = false;
            fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
            where
                E: Encoder<Mode = M>,
            {
                match self.0 {
                    Val::Some($inner) => {
                        let $encoder = encoder;
                        $some
                    }
                    v => encode_val(v, encoder),
                }
            }
            fn as_encode(&self) -> &Self {
                self
            }
        }
    };
}

encode_impl!(0, |encoder| { encoder.encode_some()?.encode(En::<1>(inner)) }, inner);
encode_impl!(1, |encoder| { encoder.encode_some()?.encode(En::<2>(inner)) }, inner);
encode_impl!(2, |encoder| { Err(encoder.cx().message("options nested too deeply")) }, _inner);

fn encode_int<E: Encoder>(encoder: E, t: Int, n: Num) -> Result<(), E::Error> {
    match t {
        Int::U8 => encoder.encode_u8(n.u() as u8),
        Int::U16 => encoder.encode_u16(n.u() as u16),
        Int::U32 => encoder.encode_u32(n.u() as u32),
        Int::U64 => encoder.encode_u64(n.u() as u64),
        Int::U128 => encoder.encode_u128(n.u()),
        Int::Usize => encoder.encode_usize(n.u() as usize),
        Int::I8 => encoder.encode_i8(n.i() as i8),
        Int::I16 => encoder.encode_i16(n.i() as i16),
        Int::I32 => encoder.encode_i32(n.i() as i32),
        Int::I64 => encoder.encode_i64(n.i() as i64),
        Int::I128 => encoder.encode_i128(n.i()),
        Int::Isize => encoder.encode_isize(n.i() as isize),
    }
}

struct Disp<'a>(&'a str);
impl std::fmt::Display for Disp<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // in pieces
        let n = self.0.char_indices().nth(self.0.chars().count() / 2).map(|(i, _)| i).unwrap_or(0);
        f.write_str(&self.0[..n])?;
        f.write_str(&self.0[n..])
    }
}

fn slice_enc<E: Encoder, T: Encode<E::Mode>>(encoder: E, v: Vec<T>) -> Result<(), E::Error> {
    match style(3) {
        0 => encoder.encode_slice(&v),
        1 => {
            let mid = v.len() / 3;
            encoder.encode_slices(v.len(), [&v[..mid], &v[mid..]])
        }
        _ => {
            let mut seq = encoder.encode_sequence(v.len())?;
            let mid = v.len() / 2;
            seq.encode_slice(&v[..mid])?;
            seq.encode_slices([&v[mid..]])?;
            seq.finish_sequence()
        }
    }
}

fn seq_items<S: SequenceEncoder>(seq: &mut S, v: &[Val]) -> Result<(), S::Error> {
    for v in v {
        match style(2) {
            0 => seq.push(En::<0>(v))?,
            _ => seq.encode_next()?.encode(En::<0>(v))?,
        }
    }
    Ok(())
}

fn map_items<S: MapEncoder>(map: &mut S, v: &[(Val, Val)]) -> Result<(), S::Error> {
    for (k, v) in v {
        match style(3) {
            0 => map.insert_entry(En::<0>(k), En::<0>(v))?,
            1 => map.encode_entry_fn(|e| {
                e.encode_key()?.encode(En::<0>(k))?;
                e.encode_value()?.encode(En::<0>(v))
            })?,
            _ => {
                let mut e = map.encode_entry()?;
                e.encode_key()?.encode(En::<0>(k))?;
                e.encode_value()?.encode(En::<0>(v))?;
                e.finish_entry()?;
            }
        }
    }
    Ok(())
}

fn encode_map_val<E: Encoder>(encoder: E, v: &[(Val, Val)]) -> Result<(), E::Error> {
    match style(3) {
        0 => {
            let mut map = encoder.encode_map(v.len())?;
            map_items(&mut map, v)?;
            map.finish_map()
        }
        1 => encoder.encode_map_fn(v.len(), |map| map_items(map, v)),
        _ => {
            let mut map = encoder.encode_map_entries(v.len())?;
            for (k, v) in v {
                match style(2) {
                    0 => map.insert_entry(En::<0>(k), En::<0>(v))?,
                    _ => {
                        map.encode_entry_key()?.encode(En::<0>(k))?;
                        map.encode_entry_value()?.encode(En::<0>(v))?;
                    }
                }
            }
            map.finish_entries()
        }
    }
}

fn encode_val<E: Encoder>(v: &Val, encoder: E) -> Result<(), E::Error> {
    match v {
        Val::Unit => encoder.encode_empty(),
        Val::Bool(b) => encoder.encode_bool(*b),
        Val::Char(c) => encoder.encode_char(*c),
        Val::Int(t, n) => encode_int(encoder, *t, *n),
        Val::F32(b) => encoder.encode_f32(f32::from_bits(*b)),
        Val::F64(b) => encoder.encode_f64(f64::from_bits(*b)),
        Val::Str(s) => match style(2) {
            0 => encoder.encode_string(s),
            _ => encoder.collect_string(&Disp(s)),
        },
        Val::Bytes(b) => match style(2) {
            0 => encoder.encode_bytes(b),
            _ => {
                let mid = b.len() / 3;
                encoder.encode_bytes_vectored(b.len(), [&b[..mid], &b[mid..]])
            }
        },
        Val::Arr(b) => match b.len() {
            0 => encoder.encode_array::<0>(&[]),
            1 => encoder.encode_array::<1>(b[..].try_into().unwrap()),
            2 => encoder.encode_array::<2>(b[..].try_into().unwrap()),
            3 => encoder.encode_array::<3>(b[..].try_into().unwrap()),
            4 => encoder.encode_array::<4>(b[..].try_into().unwrap()),
            8 => encoder.encode_array::<8>(b[..].try_into().unwrap()),
            16 => encoder.encode_array::<16>(b[..].try_into().unwrap()),
            _ => encoder.encode_array::<33>(b[..].try_into().unwrap()),
        },
        Val::None => encoder.encode_none(),
        Val::Some(_) => unreachable!(),
        Val::Seq(v) | Val::Tuple(v) => match style(2) {
            0 => {
                let mut seq = encoder.encode_sequence(v.len())?;
                seq_items(&mut seq, v)?;
                seq.finish_sequence()
            }
            _ => encoder.encode_sequence_fn(v.len(), |seq| seq_items(seq, v)),
        },
        Val::Pack(v) => match style(2) {
            0 => {
                let mut seq = encoder.encode_pack()?;
                seq_items(&mut seq, v)?;
                seq.finish_sequence()
            }
            _ => encoder.encode_pack_fn(|seq| seq_items(seq, v)),
        },
        Val::Slice(e, v) => match e {
            Elem::U8 => slice_enc(encoder, v.iter().map(|v| *v as u8).collect()),
            Elem::U16 => slice_enc(encoder, v.iter().map(|v| *v as u16).collect()),
            Elem::U32 => slice_enc(encoder, v.iter().map(|v| *v as u32).collect()),
            Elem::U64 => slice_enc(encoder, v.iter().map(|v| *v as u64).collect()),
            Elem::I32 => slice_enc(encoder, v.iter().map(|v| *v as i32).collect()),
            Elem::I64 => slice_enc(encoder, v.iter().map(|v| *v as i64).collect()),
            Elem::F32 => slice_enc(encoder, v.iter().map(|v| f32::from_bits(*v as u32)).collect()),
            Elem::Bool => slice_enc(encoder, v.iter().map(|v| *v != 0).collect()),
            Elem::U128 => slice_enc(encoder, v.clone()),
        },
        Val::Map(v) | Val::Struct(v) => encode_map_val(encoder, v),
        Val::Unitv(tag) => match style(2) {
            0 => encoder.encode_unit_variant(&En::<0>(tag)),
            _ => encoder.encode_variant_fn(|v| {
                v.encode_tag()?.encode(En::<0>(tag))?;
                v.encode_data()?.encode_empty()
            }),
        },
        Val::Datav(tag, v) => match style(2) {
            0 => encoder.encode_variant()?.insert_variant(En::<0>(tag), En::<0>(v)),
            _ => encoder.encode_variant_fn(|e| {
                e.encode_tag()?.encode(En::<0>(tag))?;
                e.encode_data()?.encode(En::<0>(v))
            }),
        },
        Val::Seqv(tag, v) => match style(2) {
            0 => {
                let mut seq = encoder.encode_sequence_variant(&En::<0>(tag), v.len())?;
                seq_items(&mut seq, v)?;
                seq.finish_sequence()
            }
            _ => encoder.encode_variant_fn(|e| {
                e.encode_tag()?.encode(En::<0>(tag))?;
                e.encode_data()?.encode_sequence_fn(v.len(), |seq| seq_items(seq, v))
            }),
        },
        Val::Mapv(tag, v) => match style(2) {
            0 => {
                let mut map = encoder.encode_map_variant(&En::<0>(tag), v.len())?;
                map_items(&mut map, v)?;
                map.finish_map()
            }
            _ => encoder.encode_variant_fn(|e| {
                e.encode_tag()?.encode(En::<0>(tag))?;
                e.encode_data()?.encode_map_fn(v.len(), |map| map_items(map, v))
            }),
        },
        Val::Raw(_, v) => encode_val(v, encoder),
        Val::Absent => Err(encoder.cx().message("nothing to encode")),
    }
}

// ------------------------------------------------------------ decoding

/// A value decoded as directed by the shape on top of the stack.
pub struct De(pub Val);

struct Pop;
impl Drop for Pop {
    fn drop(&mut self) {
        CUR.with(|c| {
            c.borrow_mut().pop();
        });
    }
}

/// Run `f` with `ty` directing the next `De`.
pub fn with_ty<T>(ty: &Ty, f: impl FnOnce() -> T) -> T {
    CUR.with(|c| c.borrow_mut().push(ty));
    let _pop = Pop;
    f()
}

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for De {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        let ty = CUR.with(|c| *c.borrow().last().expect("a shape to direct decoding"));
        // SAFETY: `with_ty` keeps what it pushes borrowed while it is there.
        decode_ty(unsafe { &*ty }, decoder).map(De)
    }
}

fn sub<'de, D: Decoder<'de>>(ty: &Ty, d: D) -> Result<Val, D::Error> {
    with_ty(ty, || d.decode::<De>()).map(|d| d.0)
}

fn next_key<'de, E: EntriesDecoder<'de>>(ty: &Ty, e: &mut E) -> Result<Option<Val>, E::Error> {
    Ok(match e.decode_entry_key()? {
        Some(d) => Some(sub(ty, d)?),
        None => None,
    })
}

struct StrVisitor;
#[musli::de::unsized_visitor]
impl<'de, C: Context> UnsizedVisitor<'de, C, str> for StrVisitor {
    type Ok = String;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "a string")
    }
    fn visit_ref(self, _: C, s: &str) -> Result<String, C::Error> {
        Ok(s.to_string())
    }
}

struct BytesVisitor;
#[musli::de::unsized_visitor]
impl<'de, C: Context> UnsizedVisitor<'de, C, [u8]> for BytesVisitor {
    type Ok = Vec<u8>;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_ref(self, _: C, s: &[u8]) -> Result<Vec<u8>, C::Error> {
        Ok(s.to_vec())
    }
}

fn decode_int<'de, D: Decoder<'de>>(d: D, t: Int) -> Result<Num, D::Error> {
    Ok(match t {
        Int::U8 => Num::U(d.decode_u8()? as u128),
        Int::U16 => Num::U(d.decode_u16()? as u128),
        Int::U32 => Num::U(d.decode_u32()? as u128),
        Int::U64 => Num::U(d.decode_u64()? as u128),
        Int::U128 => Num::U(d.decode_u128()?),
        Int::Usize => Num::U(d.decode_usize()? as u128),
        Int::I8 => Num::I(d.decode_i8()? as i128),
        Int::I16 => Num::I(d.decode_i16()? as i128),
        Int::I32 => Num::I(d.decode_i32()? as i128),
        Int::I64 => Num::I(d.decode_i64()? as i128),
        Int::I128 => Num::I(d.decode_i128()?),
        Int::Isize => Num::I(d.decode_isize()? as i128),
    })
}

/// `tail`: sequences may be longer than what the reader asks for.
fn decode_fixed<'de, S: SequenceDecoder<'de>>(seq: &mut S, tys: &[Ty], tail: bool) -> Result<Vec<Val>, S::Error> {
    let mut out = Vec::new();
    for ty in tys {
        match style(3) {
            0 => out.push(with_ty(ty, || seq.next::<De>())?.0),
            1 => {
                let d = seq.decode_next()?;
                out.push(sub(ty, d)?)
            }
            _ => {
                let cx = seq.cx();
                match seq.try_decode_next()? {
                    Some(d) => out.push(sub(ty, d)?),
                    None => return Err(cx.message("sequence ended early")),
                }
            }
        }
    }
    if !tail {
        let cx = seq.cx();
        if let Some(_d) = seq.try_decode_next()? {
            return Err(cx.message("sequence too long"));
        }
    }
    Ok(out)
}

fn decode_fields<'de, D: MapDecoder<'de>>(map: &mut D, fields: &[(Val, Ty)]) -> Result<Vec<(Val, Val)>, D::Error> {
    let kty = key_type(fields.first().map(|(k, _)| k));
    let mut out: Vec<(Val, Val)> = fields.iter().map(|(k, _)| (k.clone(), Val::Absent)).collect();
    let cx = map.cx();
    match style(3) {
        2 => {
            let mut e = map.decode_remaining_entries()?;
            while let Some(key) = next_key(&kty, &mut e)? {
                let v = e.decode_entry_value()?;
                match fields.iter().position(|(k, _)| *k == key) {
                    Some(i) => out[i].1 = sub(&fields[i].1, v)?,
                    None => skip(cx, v)?,
                }
            }
            e.end_entries()?;
        }
        _ => {
            while let Some(mut e) = map.decode_entry()? {
                let key = sub(&kty, e.decode_key()?)?;
                let v = e.decode_value()?;
                match fields.iter().position(|(k, _)| *k == key) {
                    Some(i) => out[i].1 = sub(&fields[i].1, v)?,
                    None => skip(cx, v)?,
                }
            }
        }
    }
    Ok(out)
}

fn skip<'de, D: Decoder<'de>>(cx: D::Cx, d: D) -> Result<(), D::Error> {
    if style(2) == 0 {
        d.skip()
    } else if d.try_skip()?.is_unsupported() {
        Err(cx.message("skipping is not supported"))
    } else {
        Ok(())
    }
}

pub fn key_type(k: Option<&Val>) -> Ty {
    match k {
        Some(Val::Str(_)) => Ty::Str,
        Some(Val::Int(t, _)) => Ty::Int(*t),
        Some(Val::Bool(_)) => Ty::Bool,
        Some(Val::Char(_)) => Ty::Char,
        _ => Ty::Str,
    }
}

fn decode_struct<'de, D: Decoder<'de>>(d: D, fields: &[(Val, Ty)]) -> Result<Vec<(Val, Val)>, D::Error> {
    if fields.is_empty() {
        // No field is known, so neither is the type of the keys: skip them.
        return d.decode_map(|map| {
            let cx = map.cx();
            while let Some(mut e) = map.decode_entry()? {
                skip(cx, e.decode_key()?)?;
                let v = e.decode_value()?;
                skip(cx, v)?;
            }
            Ok(Vec::new())
        });
    }
    match style(3) {
        0 => d.decode_map(|map| decode_fields(map, fields)),
        1 => d.decode_map_hint(fields.len(), |map| decode_fields(map, fields)),
        _ => d.decode_map_entries(|e| {
            let kty = key_type(fields.first().map(|(k, _)| k));
            let mut out: Vec<(Val, Val)> = fields.iter().map(|(k, _)| (k.clone(), Val::Absent)).collect();
            let cx = e.cx();
            while let Some(key) = next_key(&kty, e)? {
                let v = e.decode_entry_value()?;
                match fields.iter().position(|(k, _)| *k == key) {
                    Some(i) => out[i].1 = sub(&fields[i].1, v)?,
                    None => skip(cx, v)?,
                }
            }
            Ok(out)
        }),
    }
}

thread_local! {
    /// Readers leave what follows in a sequence unread instead of insisting on
    /// its end.
    pub static LAX_TAIL: Cell<bool> = const { Cell::new(false) };
}

pub fn decode_ty<'de, D: Decoder<'de>>(ty: &Ty, d: D) -> Result<Val, D::Error> {
    let tail = LAX_TAIL.with(|t| t.get());
    Ok(match ty {
        Ty::Unit => {
            d.decode_empty()?;
            Val::Unit
        }
        Ty::Bool => Val::Bool(d.decode_bool()?),
        Ty::Char => Val::Char(d.decode_char()?),
        Ty::Int(t) => Val::Int(*t, decode_int(d, *t)?),
        Ty::F32 => Val::F32(d.decode_f32()?.to_bits()),
        Ty::F64 => Val::F64(d.decode_f64()?.to_bits()),
        Ty::Str => Val::Str(d.decode_string(StrVisitor)?),
        Ty::Bytes => Val::Bytes(d.decode_bytes(BytesVisitor)?),
        Ty::Arr(n) => Val::Arr(match n {
            0 => d.decode_array::<0>()?.to_vec(),
            1 => d.decode_array::<1>()?.to_vec(),
            2 => d.decode_array::<2>()?.to_vec(),
            3 => d.decode_array::<3>()?.to_vec(),
            4 => d.decode_array::<4>()?.to_vec(),
            8 => d.decode_array::<8>()?.to_vec(),
            16 => d.decode_array::<16>()?.to_vec(),
            _ => d.decode_array::<33>()?.to_vec(),
        }),
        Ty::Opt(t) => match d.decode_option()? {
            Some(d) => Val::Some(Box::new(sub(t, d)?)),
            None => Val::None,
        },
        Ty::Seq(t) => {
            let f = |out: &mut Vec<Val>, v| out.push(v);
            let mut out = Vec::new();
            match style(2) {
                0 => d.decode_sequence(|seq| {
                    while let Some(v) = with_ty(t, || seq.try_next::<De>())? {
                        f(&mut out, v.0);
                    }
                    Ok(())
                })?,
                _ => d.decode_sequence(|seq| {
                    while let Some(d) = seq.try_decode_next()? {
                        f(&mut out, sub(t, d)?);
                    }
                    Ok(())
                })?,
            }
            Val::Seq(out)
        }
        Ty::Tuple(ts) => Val::Tuple(match style(2) {
            0 => d.decode_sequence(|seq| decode_fixed(seq, ts, tail))?,
            _ => d.decode_sequence_hint(ts.len(), |seq| decode_fixed(seq, ts, tail))?,
        }),
        Ty::Pack(ts) => Val::Pack(d.decode_pack(|seq| decode_fixed(seq, ts, true))?),
        Ty::Slice(e) => Val::Slice(*e, match e {
            Elem::U8 => d.decode::<Vec<u8>>()?.iter().map(|v| *v as u128).collect(),
            Elem::U16 => d.decode::<Vec<u16>>()?.iter().map(|v| *v as u128).collect(),
            Elem::U32 => d.decode::<Vec<u32>>()?.iter().map(|v| *v as u128).collect(),
            Elem::U64 => d.decode::<Vec<u64>>()?.iter().map(|v| *v as u128).collect(),
            Elem::I32 => d.decode::<Vec<i32>>()?.iter().map(|v| *v as u32 as u128).collect(),
            Elem::I64 => d.decode::<Vec<i64>>()?.iter().map(|v| *v as u64 as u128).collect(),
            Elem::F32 => d.decode::<Vec<f32>>()?.iter().map(|v| v.to_bits() as u128).collect(),
            Elem::Bool => d.decode::<Vec<bool>>()?.iter().map(|v| *v as u128).collect(),
            Elem::U128 => d.decode::<Vec<u128>>()?.iter().copied().collect(),
        }),
        Ty::Map(k, v) => {
            let mut out = Vec::new();
            match style(3) {
                0 => d.decode_map(|map| {
                    while let Some(mut e) = map.decode_entry()? {
                        let key = sub(k, e.decode_key()?)?;
                        let val = sub(v, e.decode_value()?)?;
                        out.push((key, val));
                    }
                    Ok(())
                })?,
                1 => d.decode_map(|map| {
                    let mut e = map.decode_remaining_entries()?;
                    while let Some(key) = next_key(k, &mut e)? {
                        let val = sub(v, e.decode_entry_value()?)?;
                        out.push((key, val));
                    }
                    e.end_entries()
                })?,
                _ => d.decode_map_entries(|e| {
                    while let Some(key) = next_key(k, e)? {
                        let val = sub(v, e.decode_entry_value()?)?;
                        out.push((key, val));
                    }
                    Ok(())
                })?,
            }
            Val::Map(out)
        }
        Ty::Struct(fields) => Val::Struct(decode_struct(d, fields)?),
        Ty::Enum(vs) => {
            if vs.is_empty() {
                d.decode_empty()?;
                return Ok(Val::Unit);
            }
            let kty = key_type(vs.first().map(|(k, _)| k));
            d.decode_variant(|v| {
                let cx = v.cx();
                let tag = sub(&kty, v.decode_tag()?)?;
                let Some((_, vt)) = vs.iter().find(|(t, _)| *t == tag) else {
                    return Err(cx.message("unknown variant"));
                };
                let tag = Box::new(tag);
                let d = v.decode_value()?;
                Ok(match vt {
                    VTy::Unit => {
                        d.decode_empty()?;
                        Val::Unitv(tag)
                    }
                    VTy::Data(t) => Val::Datav(tag, Box::new(sub(t, d)?)),
                    VTy::Seq(ts) => Val::Seqv(tag, d.decode_sequence(|seq| decode_fixed(seq, ts, tail))?),
                    VTy::Map(fs) => Val::Mapv(tag, decode_struct(d, fs)?),
                })
            })?
        }
        Ty::Skip => {
            let cx = d.cx();
            skip(cx, d)?;
            Val::Absent
        }
        Ty::First(n, t) => match &**t {
            Ty::Seq(t) => {
                let mut out = Vec::new();
                let f = |out: &mut Vec<Val>, seq: &mut D::DecodeSequence| {
                    while out.len() < *n {
                        match style(2) {
                            0 => match with_ty(t, || seq.try_next::<De>())? {
                                Some(v) => out.push(v.0),
                                None => break,
                            },
                            _ => match seq.try_decode_next()? {
                                Some(d) => out.push(sub(t, d)?),
                                None => break,
                            },
                        }
                    }
                    Ok(())
                };
                d.decode_sequence(|seq| f(&mut out, seq))?;
                Val::Seq(out)
            }
            Ty::Map(k, v) => {
                let mut out = Vec::new();
                match style(3) {
                    0 => d.decode_map(|map| {
                        while out.len() < *n {
                            let Some(mut e) = map.decode_entry()? else { break };
                            let key = sub(k, e.decode_key()?)?;
                            let val = sub(v, e.decode_value()?)?;
                            out.push((key, val));
                        }
                        Ok(())
                    })?,
                    1 => d.decode_map(|map| {
                        let mut e = map.decode_remaining_entries()?;
                        while out.len() < *n {
                            let Some(key) = next_key(k, &mut e)? else { break };
                            let val = sub(v, e.decode_entry_value()?)?;
                            out.push((key, val));
                        }
                        e.end_entries()
                    })?,
                    _ => d.decode_map_entries(|e| {
                        while out.len() < *n {
                            let Some(key) = next_key(k, e)? else { break };
                            let val = sub(v, e.decode_entry_value()?)?;
                            out.push((key, val));
                        }
                        Ok(())
                    })?,
                }
                Val::Map(out)
            }
            t => decode_ty(t, d)?,
        },
    })
}

/// Sequences of things without a width can announce any number of them.
pub fn zero_width(ty: &Ty) -> bool {
    fn none(ty: &Ty) -> bool {
        match ty {
            Ty::Arr(0) => true,
            Ty::Pack(t) => t.iter().all(none),
            _ => false,
        }
    }
    match ty {
        Ty::Seq(t) => none(t) || zero_width(t),
        Ty::Opt(t) | Ty::First(_, t) => zero_width(t),
        Ty::Tuple(t) | Ty::Pack(t) => t.iter().any(zero_width),
        Ty::Map(k, v) => zero_width(k) || zero_width(v),
        Ty::Struct(t) => t.iter().any(|(_, t)| zero_width(t)),
        Ty::Enum(t) => t.iter().any(|(_, t)| match t {
            VTy::Unit => false,
            VTy::Data(t) => zero_width(t),
            VTy::Seq(t) => t.iter().any(zero_width),
            VTy::Map(t) => t.iter().any(|(_, t)| zero_width(t)),
        }),
        _ => false,
    }
}

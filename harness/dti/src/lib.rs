//! What derived implementations are documented to read and write, as tables
//! over generated types. The documents are values of `dynv`, which go through
//! the same formats by hand.
pub use dynv::{Int, Num, Val};
pub use musli;
use musli::de::{Decode, Decoder, SequenceDecoder};
use musli::en::{Encode, Encoder, SequenceEncoder};
use musli::Allocator;
use pbt::Src;
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

/// A mode of our own, next to `Binary` and `Text`.
pub enum Odd {}

pub enum Ty {
    Int(Int),
    Bool,
    Char,
    Str,
    /// A borrowed string.
    Ref,
    Unit,
    Opt(&'static Ty),
    Seq(&'static Ty),
    Arr(&'static Ty, usize),
    Map(&'static Ty),
    Tup(&'static [Ty]),
    Rec(&'static Def),
}

pub struct Def {
    pub name: &'static str,
    pub source: &'static str,
    /// The types of the fields of each variant, a struct has just one.
    pub shapes: &'static [&'static [Ty]],
    /// By mode (binary, text, odd) and direction (encode, decode).
    pub views: [[View; 2]; 3],
    pub enc: [fn(&Val, u8) -> R<Vec<u8>>; COMBOS],
    pub dec: [fn(&[u8]) -> R<(Val, u8)>; COMBOS],
}

pub enum View {
    Struct(Body),
    Enum { tagging: Tagging, kty: K, variants: &'static [Var], fallback: Option<usize> },
}

pub enum Tagging {
    Empty,
    External,
    Internal(Name, K),
    Adjacent(Name, Name, K),
    Untagged,
}

pub struct Var {
    pub name: Name,
    pub accept: &'static [Name],
    pub body: Body,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Packing {
    Tagged,
    Packed,
    Transparent,
}

pub struct Body {
    pub packing: Packing,
    pub kty: K,
    /// Has no fields, nor braces for them.
    pub unit: bool,
    pub fields: &'static [Field],
}

pub struct Field {
    pub name: Name,
    pub accept: &'static [Name],
    pub skip: bool,
    pub default: Dflt,
    pub skip_if: bool,
    pub coding: Coding,
}

pub enum Dflt {
    No,
    Default,
    Path(fn() -> Val),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Coding {
    Default,
    Bytes,
    Packed,
    With,
}

/// Types of names.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Int(Int),
    Str,
    Bytes,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Name {
    I(Int, i128),
    S(&'static str),
    B(&'static [u8]),
}

impl Name {
    fn val(&self) -> Val {
        match self {
            Name::I(t, v) => int(*t, *v),
            Name::S(s) => Val::Str(s.to_string()),
            Name::B(b) => Val::Bytes(b.to_vec()),
        }
    }
}

pub fn int(t: Int, v: i128) -> Val {
    Val::Int(t, if t.signed() { Num::I(v) } else { Num::U(v as u128) })
}

// ------------------------------------------------------------ models

pub trait Model: Sized {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

macro_rules! ints {
    ($($t:ident $v:ident),*) => {$(
        impl Model for $t {
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::Int(_, Num::U(v)) => *v as $t,
                    Val::Int(_, Num::I(v)) => *v as $t,
                    v => panic!("{v:?} is not a number"),
                }
            }
            fn to_val(&self) -> Val {
                if Int::$v.signed() {
                    Val::Int(Int::$v, Num::I(*self as i128))
                } else {
                    Val::Int(Int::$v, Num::U(*self as u128))
                }
            }
        }
    )*};
}
ints!(u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, usize Usize, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128);

impl Model for bool {
    fn from_val(v: &Val) -> Self {
        matches!(v, Val::Bool(true))
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Model for char {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Char(c) => *c,
            v => panic!("{v:?} is not a character"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Char(*self)
    }
}
impl Model for () {
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val {
        Val::Unit
    }
}
impl Model for String {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(s) => s.clone(),
            v => panic!("{v:?} is not a string"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
}
pub const POOL: &[&str] = &["", "a", "name", "Aristotle", "some longer string which is borrowed", "0", "x y z"];
impl Model for &str {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(s) => POOL.iter().find(|p| *p == s).expect("one of the pool"),
            v => panic!("{v:?} is not a string"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Str(self.to_string())
    }
}
impl<T: Model> Model for Option<T> {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Some(v) => Some(T::from_val(v)),
            _ => None,
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Some(v) => Val::Some(Box::new(v.to_val())),
            None => Val::None,
        }
    }
}
pub fn fields(v: &Val) -> &[Val] {
    match v {
        Val::Seq(v) | Val::Tuple(v) | Val::Pack(v) => v,
        Val::Datav(_, v) => fields(v),
        v => panic!("{v:?} has no fields"),
    }
}
pub fn variant(v: &Val) -> usize {
    match v {
        Val::Datav(n, _) => usize::from_val(n),
        v => panic!("{v:?} is not a variant"),
    }
}
pub fn rec(n: usize, f: Vec<Val>) -> Val {
    Val::Datav(Box::new(n.to_val()), Box::new(Val::Tuple(f)))
}
pub fn get<T: Model>(v: &Val) -> T {
    T::from_val(v)
}
impl<T: Model> Model for Vec<T> {
    fn from_val(v: &Val) -> Self {
        fields(v).iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn from_val(v: &Val) -> Self {
        let f = fields(v);
        std::array::from_fn(|i| T::from_val(&f[i]))
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
}
impl<T: Model> Model for BTreeMap<String, T> {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Map(v) => v.iter().map(|(k, v)| (get(k), get(v))).collect(),
            v => panic!("{v:?} is not a map"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
}
macro_rules! tuples {
    ($($n:tt $t:ident),*) => {
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn from_val(v: &Val) -> Self {
                let f = fields(v);
                ($($t::from_val(&f[$n]),)*)
            }
            fn to_val(&self) -> Val {
                Val::Tuple(vec![$(self.$n.to_val()),*])
            }
        }
    };
}
tuples!(0 T0);
tuples!(0 T0, 1 T1);
tuples!(0 T0, 1 T1, 2 T2);

// ------------------------------------------------------------ what types use

/// A number as a string.
pub mod as_str {
    use musli::{Context, Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> {
        e.encode_string(&v.to_string())
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
        let cx = d.cx();
        let s: Option<u32> = d.decode_unsized(|s: &str| Ok(s.parse().ok()))?;
        s.ok_or_else(|| cx.message("not a number"))
    }
}

pub trait Blank {
    fn is_blank(&self) -> bool;
}
macro_rules! blank {
    ($($t:ty),*) => {$(
        impl Blank for $t {
            fn is_blank(&self) -> bool {
                *self == 0
            }
        }
    )*};
}
blank!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
impl Blank for bool {
    fn is_blank(&self) -> bool {
        !*self
    }
}
impl Blank for String {
    fn is_blank(&self) -> bool {
        self.is_empty()
    }
}
impl<T> Blank for Option<T> {
    fn is_blank(&self) -> bool {
        self.is_none()
    }
}
impl<T> Blank for Vec<T> {
    fn is_blank(&self) -> bool {
        self.is_empty()
    }
}
impl<T> Blank for BTreeMap<String, T> {
    fn is_blank(&self) -> bool {
        self.is_empty()
    }
}
pub fn blank<T: Blank>(v: &T) -> bool {
    v.is_blank()
}

/// The value which defaults by path have.
pub trait Special {
    fn special() -> Self;
}
macro_rules! special {
    ($($t:ty => $e:expr),* $(,)?) => {$(
        impl Special for $t {
            fn special() -> Self {
                $e
            }
        }
    )*};
}
special! {
    u8 => 7, u16 => 77, u32 => 777, u64 => 7777, u128 => 77777, usize => 7, i8 => -7, i16 => -77, i32 => -777,
    i64 => -7777, i128 => -7, bool => true, char => 's', String => "special".into(),
}
impl<T: Special> Special for Option<T> {
    fn special() -> Self {
        Some(T::special())
    }
}
impl<T: Special> Special for Vec<T> {
    fn special() -> Self {
        vec![T::special(), T::special()]
    }
}
pub fn special<T: Special>() -> T {
    T::special()
}
pub fn special_val<T: Special + Model>() -> Val {
    T::special().to_val()
}

/// A name of a type of our own.
#[derive(Debug, Clone, Copy, PartialEq, Eq, musli::Encode, musli::Decode)]
#[musli(crate = musli, transparent)]
#[musli(mode = Odd)]
pub struct Tag(pub u16);

impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0)
    }
}

/// Formats names which are bytes.
pub struct Show<'a>(&'a [u8]);
impl<'a> Show<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Show(b)
    }
}
impl std::fmt::Debug for Show<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(self.0))
    }
}
impl std::fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", String::from_utf8_lossy(self.0))
    }
}

// ------------------------------------------------------------ documents

pub fn default(ty: &Ty) -> Val {
    match ty {
        Ty::Int(t) => int(*t, 0),
        Ty::Bool => Val::Bool(false),
        Ty::Char => Val::Char('\0'),
        Ty::Str | Ty::Ref => Val::Str(String::new()),
        Ty::Unit => Val::Unit,
        Ty::Opt(_) => Val::None,
        Ty::Seq(_) => Val::Seq(vec![]),
        Ty::Arr(t, n) => Val::Seq((0..*n).map(|_| default(t)).collect()),
        Ty::Map(_) => Val::Map(vec![]),
        Ty::Tup(t) => Val::Tuple(t.iter().map(default).collect()),
        Ty::Rec(d) => panic!("{} has no default", d.name),
    }
}

fn is_blank(v: &Val) -> bool {
    match v {
        Val::Int(_, Num::U(0) | Num::I(0)) | Val::Bool(false) | Val::None => true,
        Val::Str(s) => s.is_empty(),
        Val::Seq(v) => v.is_empty(),
        Val::Map(v) => v.is_empty(),
        _ => false,
    }
}

pub fn gen(s: &mut Src, ty: &Ty) -> Val {
    match ty {
        Ty::Int(t) => {
            if s.chance(1, 6) {
                int(*t, 0)
            } else {
                Val::Int(*t, Num::gen(s, *t))
            }
        }
        Ty::Bool => Val::Bool(s.bool()),
        Ty::Char => Val::Char(s.char()),
        Ty::Str => Val::Str(s.string(20)),
        Ty::Ref => Val::Str(s.pick(POOL).to_string()),
        Ty::Unit => Val::Unit,
        Ty::Opt(t) => {
            if s.chance(2, 3) {
                Val::Some(Box::new(gen(s, t)))
            } else {
                Val::None
            }
        }
        Ty::Seq(t) => {
            let n = s.size(0, 3);
            Val::Seq((0..n).map(|_| gen(s, t)).collect())
        }
        Ty::Arr(t, n) => Val::Seq((0..*n).map(|_| gen(s, t)).collect()),
        Ty::Map(t) => {
            let n = s.size(0, 3);
            let m: BTreeMap<String, Val> = (0..n).map(|_| (s.string(6), gen(s, t))).collect();
            Val::Map(m.into_iter().map(|(k, v)| (Val::Str(k), v)).collect())
        }
        Ty::Tup(ts) => Val::Tuple(ts.iter().map(|t| gen(s, t)).collect()),
        Ty::Rec(d) => gen_def(s, d),
    }
}

pub fn gen_def(s: &mut Src, d: &Def) -> Val {
    let n = s.index(d.shapes.len());
    rec(n, d.shapes[n].iter().map(|t| gen(s, t)).collect())
}

/// Changes which do not, or which do, change the outcome.
pub struct Dx<'a> {
    pub s: &'a mut Src,
    pub mode: usize,
    /// 0 to encode, 1 to decode.
    pub dir: usize,
    /// Unknown things can be skipped.
    pub skip: bool,
    pub alter: bool,
    /// Make one change which cannot be decoded.
    pub spoil: bool,
    pub spoiled: Option<String>,
    pub changes: usize,
    buffered: bool,
}

impl<'a> Dx<'a> {
    pub fn new(s: &'a mut Src, mode: usize, dir: usize) -> Self {
        Dx { s, mode, dir, skip: false, alter: false, spoil: false, spoiled: None, changes: 0, buffered: false }
    }

    fn odds(&mut self, num: u64, den: u64) -> bool {
        let yes = self.alter && self.s.chance(num, den);
        self.changes += yes as usize;
        yes
    }

    fn spoils(&mut self, why: impl FnOnce() -> String) -> bool {
        if self.spoil && self.spoiled.is_none() && self.s.chance(1, 4) {
            self.spoiled = Some(why());
            true
        } else {
            false
        }
    }

    /// The document of a value, and the value it becomes.
    pub fn doc(&mut self, ty: &Ty, v: &Val) -> (Val, Val) {
        match (ty, v) {
            (Ty::Opt(t), Val::Some(v)) => {
                let (d, v) = self.doc(t, v);
                (Val::Some(Box::new(d)), Val::Some(Box::new(v)))
            }
            (Ty::Seq(t) | Ty::Arr(t, _), Val::Seq(vs)) => {
                let (d, v) = vs.iter().map(|v| self.doc(t, v)).unzip();
                (Val::Seq(d), Val::Seq(v))
            }
            (Ty::Map(t), Val::Map(vs)) => {
                let mut d = Vec::new();
                let mut e = Vec::new();
                for (k, v) in vs {
                    let (x, y) = self.doc(t, v);
                    d.push((k.clone(), x));
                    e.push((k.clone(), y));
                }
                (Val::Map(d), Val::Map(e))
            }
            (Ty::Tup(ts), Val::Tuple(vs)) => {
                let (d, v) = ts.iter().zip(vs).map(|(t, v)| self.doc(t, v)).unzip();
                (Val::Seq(d), Val::Tuple(v))
            }
            (Ty::Rec(d), v) => self.rec(d, v),
            (_, v) => (v.clone(), v.clone()),
        }
    }

    pub fn rec(&mut self, d: &Def, v: &Val) -> (Val, Val) {
        let n = variant(v);
        let f = fields(v);
        match &d.views[self.mode][self.dir] {
            View::Struct(b) => {
                let (doc, f) = self.body(b, d.shapes[0], f);
                (doc, rec(0, f))
            }
            View::Enum { tagging, kty, variants, fallback } => {
                let var = &variants[n];
                let known: Vec<Name> = variants.iter().flat_map(|v| v.accept.iter().copied()).collect();

                // A variant which nobody knows.
                if !matches!(tagging, Tagging::Untagged) && self.dir == 1 {
                    // The data of an unknown variant has to be skipped.
                    let can = matches!(tagging, Tagging::Empty) || self.skip;
                    if let (Some(n), true) = (*fallback, can) {
                        if self.odds(1, 8) {
                            let name = self.unknown(kty, &known);
                            let doc = match tagging {
                                Tagging::Empty => name,
                                Tagging::Internal(tag, tk) => {
                                    let mut m = vec![(tag.val(), name)];
                                    self.extra(&mut m, tk, &[*tag], 0);
                                    Val::Map(m)
                                }
                                Tagging::Adjacent(tag, content, _) => {
                                    Val::Map(vec![(tag.val(), name), (content.val(), self.junk(2))])
                                }
                                _ => Val::Datav(Box::new(name), Box::new(self.junk(2))),
                            };
                            return (doc, rec(n, vec![]));
                        }
                    } else if fallback.is_none() && self.spoils(|| format!("an unknown variant of {}", d.name)) {
                        let name = self.unknown(kty, &known);
                        let data = self.junk(2);
                        let doc = match tagging {
                            Tagging::Empty => name,
                            Tagging::Internal(tag, _) => Val::Map(vec![(tag.val(), name)]),
                            Tagging::Adjacent(tag, content, _) => {
                                Val::Map(vec![(tag.val(), name), (content.val(), data)])
                            }
                            _ => Val::Datav(Box::new(name), Box::new(data)),
                        };
                        return (doc, v.clone());
                    }
                }

                let name = self.name(&var.name, var.accept);
                let tys = d.shapes[n];

                match tagging {
                    Tagging::Empty => (name, rec(n, vec![])),
                    Tagging::Untagged => {
                        let (doc, f) = self.body(&var.body, tys, f);
                        (doc, rec(n, f))
                    }
                    Tagging::External => {
                        let (doc, f) = self.body(&var.body, tys, f);
                        (Val::Datav(Box::new(name), Box::new(doc)), rec(n, f))
                    }
                    Tagging::Adjacent(tag, content, tk) => {
                        let (doc, f) = self.body(&var.body, tys, f);
                        if self.dir == 1 && self.spoils(|| format!("a missing tag of {}", d.name)) {
                            return (Val::Map(vec![(content.val(), doc)]), rec(n, f));
                        }
                        let mut m = vec![(tag.val(), name), (content.val(), doc)];
                        if self.skip && self.odds(1, 6) {
                            let at = self.s.size(0, 2);
                            let k = self.unknown(tk, &[*tag, *content]);
                            let v = self.junk(2);
                            m.insert(at, (k, v));
                        }
                        (Val::Map(m), rec(n, f))
                    }
                    Tagging::Internal(tag, tk) => {
                        let was = std::mem::replace(&mut self.buffered, true);
                        let (doc, f) = self.body(&var.body, tys, f);
                        self.buffered = was;
                        let Val::Map(mut m) = doc else { panic!("{} has a variant which is no map", d.name) };
                        if self.dir == 1 && self.spoils(|| format!("a missing tag of {}", d.name)) {
                            return (Val::Map(m), rec(n, f));
                        }
                        let at = if self.odds(1, 3) { self.s.size(0, m.len()) } else { 0 };
                        m.insert(at, (tag.val(), name));
                        if var.body.unit {
                            self.extra(&mut m, tk, &[*tag], 0);
                        }
                        (Val::Map(m), rec(n, f))
                    }
                }
            }
        }
    }

    fn name(&mut self, name: &Name, accept: &[Name]) -> Val {
        if accept.len() > 1 && self.dir == 1 && self.odds(1, 2) {
            return self.s.pick(accept).val();
        }
        name.val()
    }

    fn unknown(&mut self, k: &K, known: &[Name]) -> Val {
        match k {
            K::Int(t) => {
                let mut n = 90 + self.s.upto(30) as i128;
                while known.iter().any(|k| matches!(k, Name::I(_, v) if *v == n)) {
                    n -= 1;
                }
                int(*t, n)
            }
            K::Str => Val::Str(format!("zz {}", self.s.string(3))),
            K::Bytes => Val::Bytes(format!("zz {}", self.s.upto(9)).into_bytes()),
        }
    }

    fn junk(&mut self, depth: usize) -> Val {
        let s = &mut *self.s;
        match s.upto(if depth == 0 { 4 } else { 8 }) {
            0 => int(Int::U32, s.upto(1 << 31) as i128),
            1 => Val::Str(s.string(6)),
            2 => Val::Bool(s.bool()),
            3 => Val::Unit,
            4 => int(Int::I64, -(s.upto(1 << 40) as i128)),
            5 => Val::Seq((0..s.size(0, 3)).map(|_| self.junk(depth - 1)).collect()),
            6 => {
                let n = self.s.size(0, 3);
                Val::Map((0..n).map(|i| (Val::Str(format!("k{i}")), self.junk(depth - 1))).collect())
            }
            7 => Val::Some(Box::new(self.junk(0))),
            _ => Val::Datav(Box::new(Val::Str("v".into())), Box::new(self.junk(depth - 1))),
        }
    }

    /// Unknown entries among others.
    fn extra(&mut self, m: &mut Vec<(Val, Val)>, k: &K, known: &[Name], from: usize) {
        if !self.skip || self.dir == 0 {
            return;
        }
        for _ in 0..2 {
            if self.odds(1, 4) {
                let key = self.unknown(k, known);
                let val = self.junk(2);
                let at = self.s.size(from, m.len());
                m.insert(at, (key, val));
            }
        }
    }

    fn code(&mut self, f: &Field, ty: &Ty, v: &Val) -> (Val, Val) {
        match (f.coding, v) {
            (Coding::Bytes, Val::Seq(b)) => {
                let raw: Vec<u8> = b.iter().map(u8::from_val).collect();
                (if let Ty::Arr(..) = ty { Val::Arr(raw) } else { Val::Bytes(raw) }, v.clone())
            }
            (Coding::Packed, Val::Seq(vs)) => {
                let Ty::Arr(t, _) = ty else { panic!("a packed field which is no array") };
                let (d, v) = vs.iter().map(|v| self.doc(t, v)).unzip();
                (Val::Pack(d), Val::Seq(v))
            }
            (Coding::Packed, Val::Tuple(vs)) => {
                let Ty::Tup(ts) = ty else { panic!("a packed field which is no tuple") };
                let (d, v) = ts.iter().zip(vs).map(|(t, v)| self.doc(t, v)).unzip();
                (Val::Pack(d), Val::Tuple(v))
            }
            (Coding::With, v) => (Val::Str(u32::from_val(v).to_string()), v.clone()),
            _ => self.doc(ty, v),
        }
    }

    fn absent(f: &Field, ty: &Ty) -> Val {
        match f.default {
            Dflt::Path(p) => p(),
            _ => default(ty),
        }
    }

    fn body(&mut self, b: &Body, tys: &[Ty], vals: &[Val]) -> (Val, Vec<Val>) {
        let mut out = Vec::new();
        match b.packing {
            Packing::Transparent => {
                let mut doc = None;
                for ((f, ty), v) in b.fields.iter().zip(tys).zip(vals) {
                    if f.skip {
                        out.push(Self::absent(f, ty));
                    } else {
                        let (d, v) = self.code(f, ty, v);
                        doc = Some(d);
                        out.push(v);
                    }
                }
                (doc.expect("a transparent field"), out)
            }
            Packing::Packed => {
                let mut doc = Vec::new();
                for ((f, ty), v) in b.fields.iter().zip(tys).zip(vals) {
                    if f.skip {
                        out.push(Self::absent(f, ty));
                    } else {
                        let (d, v) = self.code(f, ty, v);
                        doc.push(d);
                        out.push(v);
                    }
                }
                (Val::Pack(doc), out)
            }
            Packing::Tagged => {
                let mut m = Vec::new();
                for ((f, ty), v) in b.fields.iter().zip(tys).zip(vals) {
                    if f.skip {
                        out.push(Self::absent(f, ty));
                        continue;
                    }
                    if self.dir == 0 && f.skip_if && is_blank(v) {
                        out.push(v.clone());
                        continue;
                    }
                    if self.dir == 1 {
                        if let Dflt::No = f.default {
                            if self.spoils(|| format!("a missing field {:?}", f.name)) {
                                out.push(v.clone());
                                continue;
                            }
                        } else if self.odds(1, 3) {
                            out.push(Self::absent(f, ty));
                            continue;
                        }
                    }
                    let (d, v) = self.code(f, ty, v);
                    m.push((self.name(&f.name, f.accept), d));
                    out.push(v);
                }
                if self.dir == 1 && m.len() > 1 && self.odds(1, 2) {
                    for i in (1..m.len()).rev() {
                        let j = self.s.size(0, i);
                        m.swap(i, j);
                    }
                }
                if !b.unit {
                    let known: Vec<Name> = b.fields.iter().filter(|f| !f.skip).flat_map(|f| f.accept.iter().copied()).collect();
                    self.extra(&mut m, &b.kty, &known, 0);
                }
                (Val::Map(m), out)
            }
        }
    }
}

/// What a type needs from a format.
#[derive(Default, Clone, Copy, Debug)]
pub struct Needs {
    pub self_descriptive: bool,
    pub byte_names: bool,
    pub pack_in_buffer: bool,
}

pub fn needs(d: &Def, mode: usize, dir: usize, in_buffer: bool, n: &mut Needs) {
    let body = |b: &Body, tys: &[Ty], inb: bool, n: &mut Needs| {
        if b.packing == Packing::Packed && inb {
            n.pack_in_buffer = true;
        }
        if b.kty == K::Bytes && b.packing == Packing::Tagged {
            n.byte_names = true;
        }
        for (f, ty) in b.fields.iter().zip(tys) {
            if f.skip {
                continue;
            }
            n.pack_in_buffer |= f.coding == Coding::Packed && inb;
            needs_ty(ty, mode, dir, inb, n);
        }
    };
    match &d.views[mode][dir] {
        View::Struct(b) => body(b, d.shapes[0], in_buffer, n),
        View::Enum { tagging, kty, variants, .. } => {
            let mut inb = in_buffer;
            if *kty == K::Bytes && !matches!(tagging, Tagging::Untagged) {
                n.byte_names = true;
            }
            match tagging {
                Tagging::Internal(_, k) => {
                    inb = true;
                    n.self_descriptive = true;
                    n.byte_names |= *k == K::Bytes;
                }
                Tagging::Adjacent(_, _, k) => {
                    n.self_descriptive = true;
                    n.byte_names |= *k == K::Bytes;
                }
                Tagging::Untagged => {
                    inb = true;
                    n.self_descriptive = true;
                }
                _ => {}
            }
            for (v, tys) in variants.iter().zip(d.shapes) {
                body(&v.body, tys, inb, n);
            }
        }
    }
}

fn needs_ty(ty: &Ty, mode: usize, dir: usize, inb: bool, n: &mut Needs) {
    match ty {
        Ty::Opt(t) | Ty::Seq(t) | Ty::Arr(t, _) | Ty::Map(t) => needs_ty(t, mode, dir, inb, n),
        Ty::Tup(t) => t.iter().for_each(|t| needs_ty(t, mode, dir, inb, n)),
        Ty::Rec(d) => needs(d, mode, dir, inb, n),
        _ => {}
    }
}

// ------------------------------------------------------------ formats

/// Something and a byte which shows where it ended.
pub struct Pair<T>(pub T, pub u8);

impl<M: 'static, T: Encode<M>> Encode<M> for Pair<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, encoder: E) -> Result<(), E::Error>
    {
        encoder.encode_sequence_fn(2, |s| {
            s.encode_next()?.encode(&self.0)?;
            s.encode_next()?.encode_u8(self.1)
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M: 'static, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Pair<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        decoder.decode_sequence_hint(2usize, |s| {
            let t = s.decode_next()?.decode()?;
            let n = s.decode_next()?.decode_u8()?;
            Ok(Pair(t, n))
        })
    }
}

pub const COMBOS: usize = 8;

pub struct Combo {
    pub name: &'static str,
    pub mode: usize,
    pub json: bool,
    /// Values can be skipped without knowing what they are.
    pub skip: bool,
    /// Values can be buffered.
    pub buffer: bool,
}

const fn combo(name: &'static str, mode: usize, json: bool, skip: bool, buffer: bool) -> Combo {
    Combo { name, mode, json, skip, buffer }
}

pub const TABLE: [Combo; COMBOS] = [
    combo("json/text", 1, true, true, true),
    combo("json/binary", 0, true, true, true),
    combo("descriptive/odd", 2, false, true, true),
    combo("descriptive/text", 1, false, true, true),
    combo("storage/binary", 0, false, false, false),
    combo("storage native/odd", 2, false, false, false),
    combo("wire/text", 1, false, true, false),
    combo("wire/binary", 0, false, true, false),
];

pub const FIXED: musli::options::Options = musli::options::new().fixed().native_byte_order().build();

#[macro_export]
macro_rules! encoding {
    (0) => { $crate::musli::json::Encoding::new().with_mode::<$crate::musli::mode::Text>() };
    (1) => { $crate::musli::json::Encoding::new().with_mode::<$crate::musli::mode::Binary>() };
    (2) => { $crate::musli::descriptive::Encoding::new().with_mode::<$crate::Odd>() };
    (3) => { $crate::musli::descriptive::Encoding::new().with_mode::<$crate::musli::mode::Text>() };
    (4) => { $crate::musli::storage::Encoding::new().with_mode::<$crate::musli::mode::Binary>() };
    (5) => { $crate::musli::storage::Encoding::new().with_options::<{ $crate::FIXED }>().with_mode::<$crate::Odd>() };
    (6) => { $crate::musli::wire::Encoding::new().with_mode::<$crate::musli::mode::Text>() };
    (7) => { $crate::musli::wire::Encoding::new().with_mode::<$crate::musli::mode::Binary>() };
}

#[macro_export]
macro_rules! encs {
    ($t:ty) => { $crate::encs!($t; 0 1 2 3 4 5 6 7) };
    ($t:ty; $($n:tt)*) => {
        [$(|v, n| {
            let v = <$t as $crate::Model>::from_val(v);
            $crate::encoding!($n).to_vec(&$crate::Pair(v, n)).map_err(|e| e.to_string())
        }),*]
    };
}

#[macro_export]
macro_rules! decs {
    ($t:ty) => { $crate::decs!($t; 0 1 2 3 4 5 6 7) };
    ($t:ty; $($n:tt)*) => {
        [$(|b| {
            let p = $crate::encoding!($n).from_slice::<$crate::Pair<$t>>(b).map_err(|e| e.to_string())?;
            Ok(($crate::Model::to_val(&p.0), p.1))
        }),*]
    };
}

/// A document and the byte which shows where it ended.
pub fn encode_doc(combo: usize, v: &Val, n: u8) -> R<Vec<u8>> {
    let v = Pair(dynv::En::<0>(v), n);
    match combo {
        0 => encoding!(0).to_vec(&v).map_err(|e| e.to_string()),
        1 => encoding!(1).to_vec(&v).map_err(|e| e.to_string()),
        2 => encoding!(2).to_vec(&v).map_err(|e| e.to_string()),
        3 => encoding!(3).to_vec(&v).map_err(|e| e.to_string()),
        4 => encoding!(4).to_vec(&v).map_err(|e| e.to_string()),
        5 => encoding!(5).to_vec(&v).map_err(|e| e.to_string()),
        6 => encoding!(6).to_vec(&v).map_err(|e| e.to_string()),
        _ => encoding!(7).to_vec(&v).map_err(|e| e.to_string()),
    }
}

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::PhantomData;
use std::net::*;
use std::num::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::Arc;

use dynv::{Int, Num, Val};
use musli::compat::{Bytes, Packed, Sequence};
use musli::de::DecodeBytes;
use musli::{Allocator, Decode, Decoder, Encode, Encoder};
use pbt::Src;

use crate::{raw_parts, Model};

pub fn tstr(s: &str) -> Val {
    Val::Str(s.to_string())
}

macro_rules! int {
    ($($t:ident $k:ident $via:ident $u:ident),*) => {$(
        impl Model for $t {
            const RAW: bool = true;
            fn gen(s: &mut Src) -> Self { Num::gen(s, Int::$k).$u() as $t }
            fn model(&self, _: bool) -> Val { Val::Int(Int::$k, Num::$via(*self as _)) }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
int!(u8 U8 U u, u16 U16 U u, u32 U32 U u, u64 U64 U u, u128 U128 U u, usize Usize U u,
     i8 I8 I i, i16 I16 I i, i32 I32 I i, i64 I64 I i, i128 I128 I i, isize Isize I i);

macro_rules! nonzero {
    ($($t:ident $i:ident),*) => {$(
        impl Model for $t {
            const RAW: bool = true;
            fn gen(s: &mut Src) -> Self { $t::new(<$i>::gen(s)).unwrap_or($t::new(1).unwrap()) }
            fn model(&self, t: bool) -> Val { self.get().model(t) }
            fn same(&self, o: &Self) -> bool { self == o }
            fn valid(&self) -> bool {
                // SAFETY: same size, and integers are always valid
                (unsafe { std::mem::transmute_copy::<Self, $i>(self) }) != 0
            }
        }
    )*};
}
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize,
         NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize);

impl Model for bool {
    const RAW: bool = true;
    fn gen(s: &mut Src) -> Self {
        s.bool()
    }
    fn model(&self, _: bool) -> Val {
        Val::Bool(*self)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn valid(&self) -> bool {
        // SAFETY: one byte
        (unsafe { std::mem::transmute_copy::<bool, u8>(self) }) < 2
    }
}

impl Model for char {
    const RAW: bool = true;
    fn gen(s: &mut Src) -> Self {
        s.char()
    }
    fn model(&self, _: bool) -> Val {
        Val::Char(*self)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn valid(&self) -> bool {
        // SAFETY: four bytes
        char::from_u32(unsafe { std::mem::transmute_copy::<char, u32>(self) }).is_some()
    }
}

/// Floats are finite here: the formats which take others are covered by run
/// time shapes.
impl Model for f32 {
    const RAW: bool = true;
    fn gen(s: &mut Src) -> Self {
        let b = f32::from_bits(s.f32_bits());
        if b.is_finite() { b } else { 0.1 }
    }
    fn model(&self, _: bool) -> Val {
        Val::F32(self.to_bits())
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}

impl Model for f64 {
    const RAW: bool = true;
    fn gen(s: &mut Src) -> Self {
        let b = f64::from_bits(s.f64_bits());
        if b.is_finite() { b } else { 0.1 }
    }
    fn model(&self, _: bool) -> Val {
        Val::F64(self.to_bits())
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}

/// A value which is copied as memory even where nothing contains it.
fn again(v: Val) -> Val {
    if matches!(v, Val::Raw(..)) {
        return Val::Raw(vec![v.clone()], Box::new(v));
    }
    v
}

impl<T: Model> Model for Wrapping<T> {
    const RAW: bool = T::RAW;
    fn gen(s: &mut Src) -> Self {
        Wrapping(T::gen(s))
    }
    fn model(&self, t: bool) -> Val {
        again(self.0.model(t))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
    fn valid(&self) -> bool {
        self.0.valid()
    }
}

impl Model for () {
    const RAW: bool = true;
    fn gen(_: &mut Src) -> Self {}
    fn model(&self, _: bool) -> Val {
        Val::Raw(vec![], Box::new(Val::Unit))
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

impl<T: 'static> Model for PhantomData<T> {
    const RAW: bool = true;
    fn gen(_: &mut Src) -> Self {
        PhantomData
    }
    fn model(&self, _: bool) -> Val {
        Val::Raw(vec![], Box::new(Val::Unit))
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    const RAW: bool = T::RAW;
    fn gen(s: &mut Src) -> Self {
        std::array::from_fn(|_| T::gen(s))
    }
    fn model(&self, t: bool) -> Val {
        let items: Vec<Val> = self.iter().map(|v| v.model(t)).collect();
        if T::RAW {
            Val::Raw(items.iter().cloned().flat_map(raw_parts).collect(), Box::new(Val::Seq(items)))
        } else {
            Val::Seq(items)
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn valid(&self) -> bool {
        self.iter().all(T::valid)
    }
}

fn many<T>(s: &mut Src, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let n = s.len(300).min(if s.chance(1, 8) { 300 } else { 12 });
    (0..n).map(|_| f(s)).collect()
}

fn seq<'a, T: Model>(v: impl IntoIterator<Item = &'a T>, t: bool) -> Val {
    Val::Seq(v.into_iter().map(|v| v.model(t)).collect())
}

impl<T: Model> Model for Vec<T> {
    fn gen(s: &mut Src) -> Self {
        many(s, T::gen)
    }
    fn model(&self, t: bool) -> Val {
        seq(self, t)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn valid(&self) -> bool {
        self.iter().all(T::valid)
    }
}

impl<T: Model> Model for Box<[T]> {
    fn gen(s: &mut Src) -> Self {
        many(s, T::gen).into()
    }
    fn model(&self, t: bool) -> Val {
        seq(self, t)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
    fn valid(&self) -> bool {
        self.iter().all(T::valid)
    }
}

impl<T: Model> Model for VecDeque<T> {
    fn gen(s: &mut Src) -> Self {
        // in two parts
        let mut d = VecDeque::with_capacity(s.size(0, 8));
        for v in many(s, T::gen) {
            match s.upto(3) {
                0 => d.push_front(v),
                _ => d.push_back(v),
            }
        }
        d
    }
    fn model(&self, t: bool) -> Val {
        seq(self, t)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn valid(&self) -> bool {
        self.iter().all(T::valid)
    }
}

macro_rules! collection {
    ($([$($g:tt)*] $t:ty, $e:ty;)*) => {$(
        impl<$($g)*> Model for $t {
            fn gen(s: &mut Src) -> Self {
                many(s, <$e>::gen).into_iter().collect()
            }
            fn model(&self, t: bool) -> Val {
                seq(self, t)
            }
            fn same(&self, o: &Self) -> bool {
                let mut a: Vec<&$e> = self.iter().collect();
                let mut b: Vec<&$e> = o.iter().collect();
                a.sort();
                b.sort();
                a == b
            }
            fn valid(&self) -> bool {
                self.iter().all(|v| v.valid())
            }
        }
    )*};
}
collection! {
    [T: Model + Ord] BTreeSet<T>, T;
    [T: Model + Ord] BinaryHeap<T>, T;
    [T: Model + Ord + std::hash::Hash] HashSet<T>, T;
}

macro_rules! map {
    ($([$($g:tt)*] $t:ident,)*) => {$(
        impl<$($g)*> Model for $t<K, V> {
            fn gen(s: &mut Src) -> Self {
                many(s, |s| (K::gen(s), V::gen(s))).into_iter().collect()
            }
            fn model(&self, t: bool) -> Val {
                Val::Map(self.iter().map(|(k, v)| (k.model(t), v.model(t))).collect())
            }
            fn same(&self, o: &Self) -> bool {
                self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
            }
            fn valid(&self) -> bool {
                self.iter().all(|(k, v)| k.valid() && v.valid())
            }
        }
    )*};
}
map! {
    [K: Model + Ord, V: Model] BTreeMap,
    [K: Model + Eq + std::hash::Hash, V: Model] HashMap,
}

macro_rules! text {
    ($($t:ty),*) => {$(
        impl Model for $t {
            fn gen(s: &mut Src) -> Self {
                s.string(400).into()
            }
            fn model(&self, _: bool) -> Val {
                tstr(self)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn valid(&self) -> bool {
                std::str::from_utf8(self.as_bytes()).is_ok()
            }
        }
    )*};
}
text!(String, Box<str>);

fn cstring(s: &mut Src) -> CString {
    CString::new(s.bytes(60).into_iter().filter(|b| *b != 0).collect::<Vec<_>>()).unwrap()
}

macro_rules! ctext {
    ($($t:ty),*) => {$(
        impl Model for $t {
            fn gen(s: &mut Src) -> Self {
                cstring(s).into()
            }
            fn model(&self, _: bool) -> Val {
                Val::Bytes(self.to_bytes_with_nul().to_vec())
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn valid(&self) -> bool {
                CStr::from_bytes_with_nul(self.to_bytes_with_nul()).is_ok()
            }
        }
    )*};
}
ctext!(CString, Box<CStr>, Arc<CStr>, Rc<CStr>);

fn platform(b: &[u8], text: bool) -> Val {
    Val::Datav(Box::new(tag(text, 0, "Unix")), Box::new(Val::Bytes(b.to_vec())))
}

/// The tag of a variant: its index or its name.
pub fn tag(text: bool, index: u128, name: &str) -> Val {
    if text {
        tstr(name)
    } else {
        Val::Int(Int::Usize, Num::U(index))
    }
}

macro_rules! os {
    ($($t:ty, |$s:ident| $e:expr;)*) => {$(
        impl Model for $t {
            fn gen(s: &mut Src) -> Self {
                OsString::from_vec(s.bytes(60)).into()
            }
            fn model(&self, t: bool) -> Val {
                let $s = self;
                platform($e, t)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
os! {
    OsString, |s| s.as_bytes();
    PathBuf, |s| s.as_os_str().as_bytes();
    Box<OsStr>, |s| s.as_bytes();
    Arc<OsStr>, |s| s.as_bytes();
}
impl Model for Rc<Path> {
    fn gen(s: &mut Src) -> Self {
        PathBuf::gen(s).into()
    }
    fn model(&self, t: bool) -> Val {
        platform(self.as_os_str().as_bytes(), t)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

macro_rules! pointer {
    ($($t:ident),*) => {$(
        impl<T: Model> Model for $t<T> {
            fn gen(s: &mut Src) -> Self {
                $t::new(T::gen(s))
            }
            fn model(&self, t: bool) -> Val {
                again((**self).model(t))
            }
            fn same(&self, o: &Self) -> bool {
                (**self).same(o)
            }
            fn valid(&self) -> bool {
                (**self).valid()
            }
        }
    )*};
}
pointer!(Box, Rc, Arc);

impl<T: Model> Model for Option<T> {
    fn gen(s: &mut Src) -> Self {
        s.chance(2, 3).then(|| T::gen(s))
    }
    fn model(&self, t: bool) -> Val {
        match self {
            Some(v) => Val::Some(Box::new(v.model(t))),
            None => Val::None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
    fn valid(&self) -> bool {
        self.as_ref().map_or(true, T::valid)
    }
}

impl<T: Model, U: Model> Model for Result<T, U> {
    fn gen(s: &mut Src) -> Self {
        if s.bool() { Ok(T::gen(s)) } else { Err(U::gen(s)) }
    }
    fn model(&self, t: bool) -> Val {
        match self {
            Ok(v) => Val::Datav(Box::new(tag(t, 0, "Ok")), Box::new(v.model(t))),
            Err(v) => Val::Datav(Box::new(tag(t, 1, "Err")), Box::new(v.model(t))),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
    fn valid(&self) -> bool {
        match self {
            Ok(v) => v.valid(),
            Err(v) => v.valid(),
        }
    }
}

macro_rules! tuple {
    ($($($t:ident $n:tt),*;)*) => {$(
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn gen(s: &mut Src) -> Self {
                ($($t::gen(s),)*)
            }
            fn model(&self, t: bool) -> Val {
                Val::Tuple(vec![$(self.$n.model(t)),*])
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& self.$n.same(&o.$n))*
            }
            fn valid(&self) -> bool {
                true $(&& self.$n.valid())*
            }
        }
    )*};
}
tuple! {
    A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11;
}

impl<T: Model> Model for Range<T> {
    fn gen(s: &mut Src) -> Self {
        T::gen(s)..T::gen(s)
    }
    fn model(&self, t: bool) -> Val {
        Val::Tuple(vec![self.start.model(t), self.end.model(t)])
    }
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start) && self.end.same(&o.end)
    }
}
impl<T: Model> Model for RangeInclusive<T> {
    fn gen(s: &mut Src) -> Self {
        T::gen(s)..=T::gen(s)
    }
    fn model(&self, t: bool) -> Val {
        Val::Tuple(vec![self.start().model(t), self.end().model(t)])
    }
    fn same(&self, o: &Self) -> bool {
        self.start().same(o.start()) && self.end().same(o.end())
    }
}
impl<T: Model> Model for RangeFrom<T> {
    fn gen(s: &mut Src) -> Self {
        T::gen(s)..
    }
    fn model(&self, t: bool) -> Val {
        Val::Tuple(vec![self.start.model(t)])
    }
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start)
    }
}
impl<T: Model> Model for RangeTo<T> {
    fn gen(s: &mut Src) -> Self {
        ..T::gen(s)
    }
    fn model(&self, t: bool) -> Val {
        Val::Tuple(vec![self.end.model(t)])
    }
    fn same(&self, o: &Self) -> bool {
        self.end.same(&o.end)
    }
}
impl<T: Model> Model for RangeToInclusive<T> {
    fn gen(s: &mut Src) -> Self {
        ..=T::gen(s)
    }
    fn model(&self, t: bool) -> Val {
        Val::Tuple(vec![self.end.model(t)])
    }
    fn same(&self, o: &Self) -> bool {
        self.end.same(&o.end)
    }
}
impl Model for RangeFull {
    fn gen(_: &mut Src) -> Self {
        ..
    }
    fn model(&self, _: bool) -> Val {
        Val::Tuple(vec![])
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

// ---------------------------------------------------------------- addresses

impl Model for Ipv4Addr {
    fn gen(s: &mut Src) -> Self {
        u32::gen(s).into()
    }
    fn model(&self, text: bool) -> Val {
        if text {
            tstr(&self.octets().map(|b| b.to_string()).join("."))
        } else {
            Val::Arr(self.octets().to_vec())
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Model for Ipv6Addr {
    fn gen(s: &mut Src) -> Self {
        match s.upto(4) {
            0 => Ipv6Addr::from([0, 0, 0, 0, 0, 0xffff, u16::gen(s), 7]),
            1 => Ipv6Addr::from([0x2001, 0xdb8, 0, 0, u16::gen(s), 0, 0, 1]),
            _ => u128::gen(s).into(),
        }
    }
    fn model(&self, text: bool) -> Val {
        if text {
            tstr(&self.to_string())
        } else {
            Val::Arr(self.octets().to_vec())
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Model for IpAddr {
    fn gen(s: &mut Src) -> Self {
        if s.bool() { IpAddr::V4(Model::gen(s)) } else { IpAddr::V6(Model::gen(s)) }
    }
    fn model(&self, t: bool) -> Val {
        match self {
            IpAddr::V4(v) => Val::Datav(Box::new(tag(t, 0, "ipv4")), Box::new(v.model(t))),
            IpAddr::V6(v) => Val::Datav(Box::new(tag(t, 1, "ipv6")), Box::new(v.model(t))),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Model for SocketAddrV4 {
    fn gen(s: &mut Src) -> Self {
        SocketAddrV4::new(Model::gen(s), u16::gen(s))
    }
    fn model(&self, text: bool) -> Val {
        if text {
            tstr(&self.to_string())
        } else {
            Val::Pack(vec![self.ip().model(false), self.port().model(false)])
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Model for SocketAddrV6 {
    fn gen(s: &mut Src) -> Self {
        SocketAddrV6::new(Model::gen(s), u16::gen(s), u32::gen(s), u32::gen(s))
    }
    fn model(&self, text: bool) -> Val {
        if text {
            tstr(&self.to_string())
        } else {
            Val::Pack(vec![
                self.ip().model(false),
                self.port().model(false),
                self.flowinfo().model(false),
                self.scope_id().model(false),
            ])
        }
    }
    fn same(&self, o: &Self) -> bool {
        // The text form has no flow information.
        self == o || (self.ip() == o.ip() && self.port() == o.port() && self.scope_id() == o.scope_id() && o.flowinfo() == 0)
    }
}
impl Model for SocketAddr {
    fn gen(s: &mut Src) -> Self {
        if s.bool() { SocketAddr::V4(Model::gen(s)) } else { SocketAddr::V6(Model::gen(s)) }
    }
    fn model(&self, t: bool) -> Val {
        match self {
            SocketAddr::V4(v) => Val::Datav(Box::new(tag(t, 0, "v4")), Box::new(v.model(t))),
            SocketAddr::V6(v) => Val::Datav(Box::new(tag(t, 1, "v6")), Box::new(v.model(t))),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (SocketAddr::V4(a), SocketAddr::V4(b)) => a.same(b),
            (SocketAddr::V6(a), SocketAddr::V6(b)) => a.same(b),
            _ => false,
        }
    }
}

// ----------------------------------------------------------------- wrappers

macro_rules! bytes {
    ($([$($g:tt)*] $t:ty, |$s:ident| $gen:expr;)*) => {$(
        impl<$($g)*> Model for Bytes<$t> {
            fn gen($s: &mut Src) -> Self {
                Bytes($gen)
            }
            fn model(&self, _: bool) -> Val {
                Val::Bytes(self.0.iter().copied().collect())
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
bytes! {
    [] Vec<u8>, |s| s.bytes(400);
    [] Box<[u8]>, |s| s.bytes(40).into();
    [] VecDeque<u8>, |s| VecDeque::gen(s);
}
impl<const N: usize> Model for Bytes<[u8; N]> {
    fn gen(s: &mut Src) -> Self {
        Bytes(Model::gen(s))
    }
    fn model(&self, _: bool) -> Val {
        Val::Arr(self.0.to_vec())
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl Model for Sequence<()> {
    fn gen(_: &mut Src) -> Self {
        Sequence(())
    }
    fn model(&self, _: bool) -> Val {
        Val::Raw(vec![], Box::new(Val::Seq(vec![])))
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

impl<T: Model, const N: usize> Model for Packed<[T; N]> {
    fn gen(s: &mut Src) -> Self {
        Packed(Model::gen(s))
    }
    fn model(&self, t: bool) -> Val {
        Val::Pack(self.0.iter().map(|v| v.model(t)).collect())
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}

impl<A: Model, B: Model> Model for Packed<(A, B)> {
    fn gen(s: &mut Src) -> Self {
        Packed(Model::gen(s))
    }
    fn model(&self, t: bool) -> Val {
        Val::Pack(vec![self.0 .0.model(t), self.0 .1.model(t)])
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}

/// A type with a borrowed or allocator-bound form, which goes through that
/// form to be encoded and decoded.
#[derive(Debug, Clone, PartialEq)]
pub struct Bound<const K: u8>(pub Vec<u8>);

macro_rules! bound {
    ($($k:literal, |$e:ident, $v:ident| $enc:expr, |$d:ident, $l:lifetime, $a:ident| $dec:expr, |$s:ident| $gen:expr, |$m:ident| $model:expr;)*) => {$(
        impl<M: 'static> Encode<M> for Bound<$k> {
            type Encode = Self;
            fn encode<E: Encoder<Mode = M>>(&self, $e: E) -> Result<(), E::Error> {
                let $v = &self.0;
                $enc
            }
            fn as_encode(&self) -> &Self {
                self
            }
        }
        impl<$l, M: 'static, $a: Allocator> Decode<$l, M, $a> for Bound<$k> {
            fn decode<D>($d: D) -> Result<Self, D::Error>
            where
                D: Decoder<$l, Mode = M, Allocator = $a>,
            {
                $dec.map(Bound)
            }
        }
        impl Model for Bound<$k> {
            fn gen($s: &mut Src) -> Self {
                Bound($gen)
            }
            fn model(&self, _: bool) -> Val {
                let $m = &self.0;
                $model
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn valid(&self) -> bool {
                $k != 7 || self.0.iter().all(|b| *b < 2)
            }
        }
    )*};
}

fn utf8(v: &[u8]) -> &str {
    std::str::from_utf8(v).expect("decoded strings are UTF-8")
}

bound! {
    // &str, if there is one to borrow
    0, |e, v| e.encode(utf8(v)), |d, 'de, A| d.decode::<Cow<'de, str>>().map(|s| s.as_bytes().to_vec()),
        |s| s.string(200).into_bytes(), |v| tstr(utf8(v));
    1, |e, v| e.encode(Cow::Borrowed(utf8(v))), |d, 'de, A| d.decode::<musli::alloc::String<A>>().map(|s| s.as_str().as_bytes().to_vec()),
        |s| s.string(200).into_bytes(), |v| tstr(utf8(v));
    2, |e, v| e.encode(v.as_slice()), |d, 'de, A| d.decode::<musli::alloc::Vec<u8, A>>().map(|s| s.as_slice().to_vec()),
        |s| s.bytes(100), |v| seq(v.iter(), false);
    3, |e, v| e.encode(Box::new(utf8(v))), |d, 'de, A| d.decode_unsized(|s: &str| Ok(s.as_bytes().to_vec())),
        |s| s.string(200).into_bytes(), |v| tstr(utf8(v));
    4, |e, v| e.encode_bytes(v), |d, 'de, A| d.decode_unsized(|s: &[u8]| Ok(s.to_vec())),
        |s| s.bytes(100), |v| Val::Bytes(v.clone());
    5, |e, v| e.encode_bytes(v), |d, 'de, A| <Cow<'de, [u8]> as DecodeBytes<'de, M, A>>::decode_bytes(d).map(|s| s.to_vec()),
        |s| s.bytes(100), |v| Val::Bytes(v.clone());
    6, |e, v| e.encode(CStr::from_bytes_with_nul(v).unwrap()), |d, 'de, A| d.decode::<Cow<'de, CStr>>().map(|s| s.to_bytes_with_nul().to_vec()),
        |s| cstring(s).into_bytes_with_nul(), |v| Val::Bytes(v.clone());
    // Atomic numbers are only decoded.
    7, |e, v| e.encode(v.iter().map(|b| *b == 1).collect::<Vec<bool>>()),
        |d, 'de, A| d.decode::<Vec<AtomicBool>>().map(|s| s.iter().map(|b| unsafe { *b.as_ptr().cast::<u8>() }).collect::<Vec<u8>>()),
        |s| s.bytes(30).into_iter().map(|b| b % 2).collect(), |v| seq(v.iter().map(|b| *b == 1).collect::<Vec<bool>>().iter(), false);
    8, |e, v| e.encode(v.chunks(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect::<Vec<u16>>()),
        |d, 'de, A| d.decode::<Vec<AtomicU16>>().map(|s| s.into_iter().flat_map(|b| b.into_inner().to_le_bytes()).collect::<Vec<u8>>()),
        |s| { let b = s.bytes(30); [&b[..], &b[..]].concat() }, |v| seq(v.chunks(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect::<Vec<u16>>().iter(), false);
    9, |e, v| e.encode(atoms(v)),
        |d, 'de, A| d.decode::<(AtomicU8, AtomicI16, AtomicU32, AtomicI64, AtomicUsize)>().map(|(a, b, c, d, e)| {
            let mut v = vec![a.into_inner()];
            v.extend(b.into_inner().to_le_bytes());
            v.extend(c.into_inner().to_le_bytes());
            v.extend(d.into_inner().to_le_bytes());
            v.extend(e.into_inner().to_le_bytes());
            v
        }),
        |s| {
            let mut v = u8::gen(s).to_le_bytes().to_vec();
            v.extend(i16::gen(s).to_le_bytes());
            v.extend(u32::gen(s).to_le_bytes());
            v.extend(i64::gen(s).to_le_bytes());
            v.extend(usize::gen(s).to_le_bytes());
            v
        }, |v| atoms(v).model(false);
}

fn atoms(v: &[u8]) -> (u8, i16, u32, i64, usize) {
    (
        v[0],
        i16::from_le_bytes(v[1..3].try_into().unwrap()),
        u32::from_le_bytes(v[3..7].try_into().unwrap()),
        i64::from_le_bytes(v[7..15].try_into().unwrap()),
        usize::from_le_bytes(v[15..23].try_into().unwrap()),
    )
}

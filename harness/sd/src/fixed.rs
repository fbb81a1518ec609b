//! Types which serde derives.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::{NonZeroI64, NonZeroU8, Wrapping};
use std::ops::{Bound, Range, RangeInclusive};
use std::time::Duration;

use dti::{Pair, COMBOS, TABLE};
use musli::{Decode, Encode};
use pbt::{ensure, ensure_eq, short, Case, Res, Src};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::each;
use crate::model::Bridge;
use crate::show;

pub trait Sample {
    fn sample(s: &mut Src) -> Self;
}

macro_rules! ints {
    ($($t:ident $bits:literal $m:ident),*) => {$(
        impl Sample for $t {
            fn sample(s: &mut Src) -> Self {
                s.$m($bits) as $t
            }
        }
    )*};
}
ints!(u8 8 unsigned, u16 16 unsigned, u32 32 unsigned, u64 64 unsigned, u128 128 unsigned, usize 64 unsigned,
      i8 8 signed, i16 16 signed, i32 32 signed, i64 64 signed, i128 128 signed, isize 64 signed);

impl Sample for bool {
    fn sample(s: &mut Src) -> Self {
        s.bool()
    }
}
impl Sample for char {
    fn sample(s: &mut Src) -> Self {
        s.char()
    }
}
impl Sample for () {
    fn sample(_: &mut Src) -> Self {}
}
impl Sample for f32 {
    fn sample(s: &mut Src) -> Self {
        let f = f32::from_bits(s.f32_bits());
        if f.is_finite() { f } else { 0.25 }
    }
}
impl Sample for f64 {
    fn sample(s: &mut Src) -> Self {
        let f = f64::from_bits(s.f64_bits());
        if f.is_finite() { f } else { 0.25 }
    }
}
impl Sample for String {
    fn sample(s: &mut Src) -> Self {
        s.string(40)
    }
}
impl<T: Sample> Sample for Option<T> {
    fn sample(s: &mut Src) -> Self {
        s.bool().then(|| T::sample(s))
    }
}
impl<T: Sample, E: Sample> Sample for Result<T, E> {
    fn sample(s: &mut Src) -> Self {
        if s.bool() { Ok(T::sample(s)) } else { Err(E::sample(s)) }
    }
}
impl<T: Sample> Sample for Box<T> {
    fn sample(s: &mut Src) -> Self {
        Box::new(T::sample(s))
    }
}
impl<T: Sample> Sample for Wrapping<T> {
    fn sample(s: &mut Src) -> Self {
        Wrapping(T::sample(s))
    }
}
fn many<T: Sample, C: FromIterator<T>>(s: &mut Src) -> C {
    (0..s.size(0, 4)).map(|_| T::sample(s)).collect()
}
impl<T: Sample> Sample for Vec<T> {
    fn sample(s: &mut Src) -> Self {
        many(s)
    }
}
impl<T: Sample> Sample for VecDeque<T> {
    fn sample(s: &mut Src) -> Self {
        many(s)
    }
}
impl<T: Sample + Ord> Sample for BTreeSet<T> {
    fn sample(s: &mut Src) -> Self {
        many(s)
    }
}
impl<K: Sample + Ord, V: Sample> Sample for BTreeMap<K, V> {
    fn sample(s: &mut Src) -> Self {
        many(s)
    }
}
impl<K: Sample + Eq + std::hash::Hash, V: Sample> Sample for HashMap<K, V> {
    fn sample(s: &mut Src) -> Self {
        many(s)
    }
}
impl<T: Sample, const N: usize> Sample for [T; N] {
    fn sample(s: &mut Src) -> Self {
        std::array::from_fn(|_| T::sample(s))
    }
}
macro_rules! tuples {
    ($($t:ident),*) => {
        impl<$($t: Sample),*> Sample for ($($t,)*) {
            fn sample(s: &mut Src) -> Self {
                ($($t::sample(s),)*)
            }
        }
    };
}
tuples!(A);
tuples!(A, B);
tuples!(A, B, C);
impl Sample for NonZeroU8 {
    fn sample(s: &mut Src) -> Self {
        NonZeroU8::new(u8::sample(s)).unwrap_or(NonZeroU8::MAX)
    }
}
impl Sample for NonZeroI64 {
    fn sample(s: &mut Src) -> Self {
        NonZeroI64::new(i64::sample(s)).unwrap_or(NonZeroI64::MIN)
    }
}
impl Sample for Duration {
    fn sample(s: &mut Src) -> Self {
        Duration::new(u64::sample(s), s.upto(999_999_999) as u32)
    }
}
impl Sample for Ipv4Addr {
    fn sample(s: &mut Src) -> Self {
        <[u8; 4]>::sample(s).into()
    }
}
impl Sample for Ipv6Addr {
    fn sample(s: &mut Src) -> Self {
        <[u16; 8]>::sample(s).into()
    }
}
impl Sample for IpAddr {
    fn sample(s: &mut Src) -> Self {
        if s.bool() { Ipv4Addr::sample(s).into() } else { Ipv6Addr::sample(s).into() }
    }
}
impl Sample for SocketAddr {
    fn sample(s: &mut Src) -> Self {
        (IpAddr::sample(s), u16::sample(s)).into()
    }
}
impl<T: Sample> Sample for Range<T> {
    fn sample(s: &mut Src) -> Self {
        T::sample(s)..T::sample(s)
    }
}
impl<T: Sample> Sample for RangeInclusive<T> {
    fn sample(s: &mut Src) -> Self {
        T::sample(s)..=T::sample(s)
    }
}
impl<T: Sample> Sample for Bound<T> {
    fn sample(s: &mut Src) -> Self {
        match s.upto(2) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::sample(s)),
            _ => Bound::Excluded(T::sample(s)),
        }
    }
}
impl Sample for Cow<'static, str> {
    fn sample(s: &mut Src) -> Self {
        String::sample(s).into()
    }
}

macro_rules! sampled {
    ($(#[$m:meta])* struct $name:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        $(#[$m])*
        struct $name { $($(#[$fm])* $f: $t),* }
        impl Sample for $name {
            fn sample(s: &mut Src) -> Self {
                $name { $($f: Sample::sample(s)),* }
            }
        }
    };
}

sampled! {
    #[serde(rename_all = "camelCase")]
    struct Person {
        full_name: String,
        #[serde(rename = "@age")]
        age: u8,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        nick_name: Option<String>,
        #[serde(alias = "addr", default)]
        home_address: Option<Box<Address>>,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        tags: Vec<String>,
    }
}
sampled! {
    #[serde(deny_unknown_fields)]
    struct Address { street: String, zip: u32, at: (f64, f64), r#type: Shape }
}
sampled! {
    struct Std {
        b: BTreeMap<u32, Vec<i16>>, h: HashMap<String, char>, set: BTreeSet<i64>, q: VecDeque<bool>,
        o: Option<Vec<u8>>, arr: [u16; 5], e: [String; 0], r: Result<u8, String>, d: Duration, w: Wrapping<i32>,
        nz: NonZeroU8, ni: Option<NonZeroI64>, ip: IpAddr, v6: Ipv6Addr, sock: SocketAddr, range: Range<u64>,
        ri: RangeInclusive<i8>, bound: Bound<u32>, cow: Cow<'static, str>, big: (u128, i128), u: (), size: (usize, isize),
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
enum Shape {
    Empty,
    Circle(f32),
    LineTo(i32, i32),
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    TextBox { the_text: String, width: Option<u16> },
    #[serde(rename = "Never mind")]
    Group(Vec<Shape>),
    NoFields {},
}
impl Sample for Shape {
    fn sample(s: &mut Src) -> Self {
        match s.upto(5) {
            0 => Shape::Empty,
            1 => Shape::Circle(f32::sample(s)),
            2 => Shape::LineTo(i32::sample(s), i32::sample(s)),
            3 => Shape::TextBox { the_text: String::sample(s), width: Option::sample(s) },
            4 => Shape::Group((0..s.size(0, 2)).map(|_| Shape::sample(s)).collect()),
            _ => Shape::NoFields {},
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Unit;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Newtype(Vec<Newtype>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Transparent { only: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Triple(u8, Option<String>, Unit);
impl Sample for Unit {
    fn sample(_: &mut Src) -> Self {
        Unit
    }
}
impl Sample for Newtype {
    fn sample(s: &mut Src) -> Self {
        fn nest(s: &mut Src, d: usize) -> Newtype {
            Newtype((0..if d == 0 { 0 } else { s.size(0, 2) }).map(|_| nest(s, d - 1)).collect())
        }
        nest(s, 6)
    }
}
impl Sample for Transparent {
    fn sample(s: &mut Src) -> Self {
        Transparent { only: Option::sample(s) }
    }
}
impl Sample for Triple {
    fn sample(s: &mut Src) -> Self {
        Triple(u8::sample(s), Option::sample(s), Unit)
    }
}

/// Written and read as bytes.
#[derive(Debug, Clone, PartialEq)]
struct Blob(Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Blob, E> {
                Ok(Blob(v.into()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(v))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Blob, A::Error> {
                let mut out = vec![];
                while let Some(b) = a.next_element()? {
                    out.push(b);
                }
                Ok(Blob(out))
            }
        }
        d.deserialize_byte_buf(V)
    }
}
impl Sample for Blob {
    fn sample(s: &mut Src) -> Self {
        Blob(s.bytes(200))
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind", rename_all = "snake_case")]
enum Internal {
    Nothing,
    SomeFields { a: i64, b: Option<String>, #[serde(default)] c: Vec<u16> },
    Wrapped(Plain),
    Nested { inner: Box<Internal> },
}
sampled! { struct Plain { x: u32, y: String, z: Option<bool>, m: BTreeMap<String, i32> } }
impl Sample for Internal {
    fn sample(s: &mut Src) -> Self {
        match s.upto(3) {
            0 => Internal::Nothing,
            1 => Internal::SomeFields { a: i64::sample(s), b: Option::sample(s), c: Vec::sample(s) },
            2 => Internal::Wrapped(Plain::sample(s)),
            _ => Internal::Nested { inner: Box::new(Internal::sample(s)) },
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Nothing,
    One(u32),
    Two(String, i8),
    Fields { a: Vec<String>, b: char },
    Deep(Box<Adjacent>),
}
impl Sample for Adjacent {
    fn sample(s: &mut Src) -> Self {
        match s.upto(4) {
            0 => Adjacent::Nothing,
            1 => Adjacent::One(u32::sample(s)),
            2 => Adjacent::Two(String::sample(s), i8::sample(s)),
            3 => Adjacent::Fields { a: Vec::sample(s), b: char::sample(s) },
            _ => Adjacent::Deep(Box::new(Adjacent::sample(s))),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged {
    Num(u64),
    Neg(i64),
    Text(String),
    List(Vec<Untagged>),
    Fields { a: bool, b: String },
    Map(BTreeMap<String, Untagged>),
    Pair(Plain, Option<u8>),
}
impl Sample for Untagged {
    fn sample(s: &mut Src) -> Self {
        match s.upto(6) {
            0 => Untagged::Num(u64::sample(s)),
            1 => Untagged::Neg(-1 - (u64::sample(s) >> 1) as i64),
            2 => Untagged::Text(String::sample(s)),
            3 => Untagged::List((0..s.size(0, 3)).map(|_| Untagged::sample(s)).collect()),
            4 => Untagged::Fields { a: bool::sample(s), b: String::sample(s) },
            5 => Untagged::Map((0..s.size(0, 2)).map(|i| (format!("k{i}"), Untagged::sample(s))).collect()),
            _ => Untagged::Pair(Plain::sample(s), Option::sample(s)),
        }
    }
}

type R = Result<(), String>;

fn round<T>(s: &mut Src, c: &mut Case, combo: usize) -> R
where
    T: Sample + Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let v = T::sample(s);
    let end = s.upto(255) as u8;
    let name = TABLE[combo].name;
    c.desc(|| format!("{name} {v:?}"));
    let key = format!("{v:?}");
    if key.len() > 8 {
        c.nontrivial(&(combo, key));
    }
    let (b, got) = each!(combo, e => {
        let b = e.to_vec(&Pair(Bridge(&v), end)).map_err(|e| format!("ENCODING in {name} failed: {e}"))?;
        let got = e.from_slice::<Pair<Bridge<T>>>(&b).map_err(|e| {
            format!("ROUND trip in {name} failed: {e}, for {}", show(TABLE[combo].json, &b))
        })?;
        (b, got)
    });
    ensure_eq!(got.0 .0, v, "ROUND trip in {name} changed the value, by {}", show(TABLE[combo].json, &b));
    ensure_eq!(got.1, end, "ROUND trip in {name} ended in the wrong place, for {}", show(TABLE[combo].json, &b));
    Ok(())
}

fn val<T>(s: &mut Src, c: &mut Case) -> R
where
    T: Sample + Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let v = T::sample(s);
    c.desc(|| format!("value {v:?}"));
    c.nontrivial(&format!("{v:?}"));
    let x = musli::value::encode(Bridge(&v)).map_err(|e| format!("ENCODING to a value failed: {e}"))?;
    let got = musli::value::decode::<Bridge<T>>(&x).map_err(|e| format!("DECODING {x:?} failed: {e}"))?;
    ensure_eq!(got.0, v, "ROUND trip by {x:?} changed it");
    Ok(())
}

pub fn derived(s: &mut Src, c: &mut Case) -> Res {
    let ty = s.upto(16);
    if s.chance(1, 9) {
        return match ty {
            0 => val::<Person>(s, c),
            1 => val::<Shape>(s, c),
            2 => val::<Std>(s, c),
            3 => val::<Plain>(s, c),
            4 => val::<Internal>(s, c),
            5 => val::<Adjacent>(s, c),
            6 => val::<Untagged>(s, c),
            _ => val::<(Blob, Address, Triple)>(s, c),
        };
    }
    // tags inside, and none, need formats which describe themselves
    let combo = if ty < 5 { s.index(4) } else { s.index(COMBOS) };
    match ty {
        0 | 1 => round::<Internal>(s, c, combo),
        2 => round::<Untagged>(s, c, combo),
        3 => round::<Vec<Untagged>>(s, c, combo),
        4 => round::<(Internal, Untagged)>(s, c, combo),
        5 => round::<Adjacent>(s, c, combo % 4),
        6 | 7 => round::<Person>(s, c, combo),
        8 => round::<Address>(s, c, combo),
        9 | 10 => round::<Std>(s, c, combo),
        11 => round::<Shape>(s, c, combo),
        12 => round::<(Newtype, Transparent, Triple)>(s, c, combo),
        13 => round::<Blob>(s, c, combo),
        14 => round::<Result<Vec<Shape>, Unit>>(s, c, combo),
        15 => round::<HashMap<String, Shape>>(s, c, combo),
        _ => round::<Option<[Triple; 3]>>(s, c, combo),
    }
}

fn by_json<T>(s: &mut Src, c: &mut Case) -> R
where
    T: Sample + Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let v = T::sample(s);
    c.desc(|| format!("{v:?}"));
    c.nontrivial(&format!("{v:?}"));
    let ours = crate::to_json(&v, true).map_err(|e| format!("ENCODING failed: {e}"))?;
    let got: T = serde_json::from_slice(&ours).map_err(|e| format!("SERDE_JSON does not read {}: {e}", show(true, &ours)))?;
    ensure!(got == v, "SERDE_JSON reads {} as {}", show(true, &ours), short(format!("{got:?}")));
    let theirs = serde_json::to_vec(&v).unwrap();
    let text = format!("{v:?}");
    if text.contains("Empty") || text.contains("Unbounded") {
        // unit variants
        return Ok(());
    }
    let got = musli::json::Encoding::new()
        .with_mode::<musli::mode::Text>()
        .from_slice::<Bridge<T>>(&theirs)
        .map_err(|e| format!("REFUSED what serde_json wrote, {}: {e}", show(true, &theirs)))?;
    ensure!(got.0 == v, "DECODED {} as {}", show(true, &theirs), short(format!("{:?}", got.0)));
    Ok(())
}

/// Has fields of another type among its own.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Flat {
    first: u8,
    #[serde(flatten)]
    plain: Plain,
    #[serde(flatten)]
    rest: BTreeMap<String, Vec<i16>>,
}
impl Sample for Flat {
    fn sample(s: &mut Src) -> Self {
        let plain = Plain::sample(s);
        Flat { first: u8::sample(s), plain, rest: (0..s.size(0, 3)).map(|i| (format!("more{i}"), Vec::sample(s))).collect() }
    }
}

#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Borrowed<'a> {
    a: &'a str,
    #[serde(borrow)]
    b: Cow<'a, str>,
    #[serde(borrow)]
    o: Option<&'a str>,
}

fn borrowed(s: &mut Src, c: &mut Case) -> R {
    let (a, b) = (String::sample(s), String::sample(s));
    let v = Borrowed { a: &a, b: Cow::Borrowed(&b), o: s.bool().then_some(b.as_str()) };
    // not JSON, where strings may have escapes
    let combo = 2 + s.index(COMBOS - 2);
    c.desc(|| format!("{} {v:?}", TABLE[combo].name));
    c.nontrivial(&(combo, format!("{v:?}")));
    each!(combo, e => {
        let b = e.to_vec(&Bridge(&v)).map_err(|e| format!("ENCODING failed: {e}"))?;
        let got = e.from_slice::<Bridge<Borrowed<'_>>>(&b).map_err(|e| format!("BORROWING failed: {e}"))?.0;
        ensure_eq!(got, v, "BORROWED something else");
        ensure!(matches!(got.b, Cow::Borrowed(_)), "COPIED what could be borrowed");
        let r = b.as_ptr_range();
        ensure!(got.a.is_empty() || r.contains(&got.a.as_ptr()), "BORROWED from elsewhere");
        Ok(())
    })
}

/// Does not know how much it has.
struct Unknown(u8);
impl Serialize for Unknown {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for n in 0..self.0 {
            m.serialize_entry(&n, &n)?;
        }
        m.end()
    }
}

pub fn json(s: &mut Src, c: &mut Case) -> Res {
    match s.upto(13) {
        0 => by_json::<Person>(s, c),
        1 => by_json::<Address>(s, c),
        2 => by_json::<Std>(s, c),
        3 => by_json::<Shape>(s, c),
        4 => by_json::<(Newtype, Transparent, Triple)>(s, c),
        5 => by_json::<Internal>(s, c),
        6 => by_json::<Vec<Internal>>(s, c),
        7 => by_json::<Untagged>(s, c),
        8 => by_json::<HashMap<u64, Untagged>>(s, c),
        9 => by_json::<Blob>(s, c),
        10 => borrowed(s, c),
        11 => {
            let v = Flat::sample(s);
            c.desc(|| format!("{v:?}"));
            c.nontrivial(&format!("{v:?}"));
            let b = serde_json::to_vec(&v).unwrap();
            let got = musli::json::from_slice::<Bridge<Flat>>(&b).map_err(|e| format!("REFUSED {}: {e}", show(true, &b)))?;
            ensure!(got.0 == v, "DECODED {} as {:?}", show(true, &b), got.0);
            Ok(())
        }
        12 => {
            let v = serde_value(s, 3);
            c.desc(|| format!("{v}"));
            c.nontrivial(&v.to_string());
            let b = crate::to_json(&v, true).map_err(|e| format!("ENCODING failed: {e}"))?;
            let theirs: serde_json::Value = serde_json::from_slice(&b).map_err(|e| format!("SERDE_JSON does not read it: {e}"))?;
            ensure!(theirs == v, "SERDE_JSON reads {} as something else", show(true, &b));
            let b = v.to_string();
            let got = musli::json::from_str::<Bridge<serde_json::Value>>(&b).map_err(|e| format!("REFUSED {}: {e}", short(&b)))?;
            ensure!(got.0 == v, "DECODED {} as {}", short(&b), got.0);
            for combo in [2, 3] {
                let got = each!(combo, e => {
                    let b = e.to_vec(&Bridge(&v)).map_err(|e| format!("ENCODING failed: {e}"))?;
                    e.from_slice::<Bridge<serde_json::Value>>(&b).map_err(|e| format!("ANY value failed: {e}"))?
                });
                ensure!(got.0 == v, "ANY value became {}", got.0);
            }
            Ok(())
        }
        _ => {
            let n = s.upto(3) as u8;
            let combo = s.index(COMBOS);
            each!(combo, e => ensure!(e.to_vec(&Bridge(Unknown(n))).is_err(), "GUESSED how long a map is"));
            Ok(())
        }
    }
}

fn serde_value(s: &mut Src, d: usize) -> serde_json::Value {
    use serde_json::Value as V;
    match s.weighted(&if d == 0 { [1, 1, 3, 3, 0, 0] } else { [1, 1, 2, 2, 4, 4] }) {
        0 => V::Null,
        1 => V::Bool(s.bool()),
        2 => match s.upto(2) {
            0 => u64::sample(s).into(),
            1 => i64::sample(s).into(),
            // with a fraction, or else it may be a whole number
            _ => (i32::sample(s) as f64 + 0.5).into(),
        },
        3 => String::sample(s).into(),
        4 => V::Array((0..s.size(0, 4)).map(|_| serde_value(s, d - 1)).collect()),
        _ => V::Object((0..s.size(0, 4)).map(|_| (String::sample(s), serde_value(s, d - 1))).collect()),
    }
}

// ------------------------------------------------------------ twins

/// Derived by both.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[musli(crate = musli, name_all = "name")]
#[musli(mode = dti::Odd)]
struct Twin {
    name: String,
    age: u8,
    tags: Vec<String>,
    opt: Option<i64>,
    #[musli(name = "kind")]
    #[serde(rename = "kind")]
    r#type: TwinKind,
    pair: (u16, char),
    map: BTreeMap<String, f64>,
    unit: (),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[musli(crate = musli, name_all = "name")]
#[musli(mode = dti::Odd)]
enum TwinKind {
    Unit,
    #[musli(transparent)]
    New(u32),
    #[musli(name_all = "name")]
    Fields { a: bool, b: Option<String> },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[musli(crate = musli, name_all = "name")]
#[musli(mode = dti::Odd)]
struct Holder {
    before: u32,
    #[musli(with = musli::serde)]
    person: Person,
    #[musli(with = musli::serde)]
    shape: Shape,
    after: String,
}

impl Sample for TwinKind {
    fn sample(s: &mut Src) -> Self {
        match s.upto(2) {
            0 => TwinKind::Unit,
            1 => TwinKind::New(u32::sample(s)),
            _ => TwinKind::Fields { a: bool::sample(s), b: Option::sample(s) },
        }
    }
}
impl Sample for Twin {
    fn sample(s: &mut Src) -> Self {
        Twin {
            name: Sample::sample(s),
            age: Sample::sample(s),
            tags: Sample::sample(s),
            opt: Sample::sample(s),
            r#type: Sample::sample(s),
            pair: Sample::sample(s),
            map: Sample::sample(s),
            unit: (),
        }
    }
}

pub fn twins(s: &mut Src, c: &mut Case) -> Res {
    let combo = s.index(COMBOS);
    let end = s.upto(255) as u8;
    let (name, js) = (TABLE[combo].name, TABLE[combo].json);
    if s.chance(1, 3) {
        let v = Holder { before: u32::sample(s), person: Person::sample(s), shape: Shape::sample(s), after: String::sample(s) };
        c.desc(|| format!("{name} {v:?}"));
        c.nontrivial(&(combo, format!("{v:?}")));
        return each!(combo, e => {
            let b = e.to_vec(&Pair(&v, end)).map_err(|e| format!("ENCODING failed: {e}"))?;
            let got = e.from_slice::<Pair<Holder>>(&b).map_err(|e| format!("DECODING {} failed: {e}", show(js, &b)))?;
            ensure!(got.0 == v && got.1 == end, "DECODED {} as {:?}", show(js, &b), got.0);
            // all the same, as far as it is written
            let all = e.to_vec(&Pair(Bridge(&v), end)).map_err(|e| format!("ENCODING failed: {e}"))?;
            ensure!(all == b, "REPRESENTATION of fields through the bridge differs: {} and {}", show(js, &all), show(js, &b));
            Ok(())
        });
    }
    let v = Twin::sample(s);
    c.desc(|| format!("{name} {v:?}"));
    c.nontrivial(&(combo, format!("{v:?}")));
    each!(combo, e => {
        let native = e.to_vec(&Pair(&v, end)).map_err(|e| format!("ENCODING failed: {e}"))?;
        let bridged = e.to_vec(&Pair(Bridge(&v), end)).map_err(|e| format!("ENCODING through the bridge failed: {e}"))?;
        if !matches!(v.r#type, TwinKind::Unit) {
            ensure!(native == bridged, "REPRESENTATION in {name} differs: {} and {}", show(js, &native), show(js, &bridged));
        }
        let got = e.from_slice::<Pair<Bridge<Twin>>>(&native).map_err(|e| format!("BRIDGE refused {}: {e}", show(js, &native)))?;
        ensure!(got.0 .0 == v && got.1 == end, "BRIDGE read {} as {:?}", show(js, &native), got.0 .0);
        let got = e.from_slice::<Pair<Twin>>(&bridged).map_err(|e| format!("NATIVE refused {}: {e}", show(js, &bridged)));
        match got {
            Ok(got) => ensure!(got.0 == v && got.1 == end, "NATIVE read {} as {:?}", show(js, &bridged), got.0),
            // native variants without fields are not read from nothing
            Err(_) if matches!(v.r#type, TwinKind::Unit) => c.label("unit variant"),
            Err(e) => return Err(e),
        }
        Ok(())
    })
}

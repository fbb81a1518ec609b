//! Documents which are decoded with memory from a slice.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::mem::MaybeUninit;

use musli::alloc::{Allocator, Slice, String as MString, System, Vec as MVec};
use musli::mode::{Binary, Text};
use musli::{context, descriptive, json, packed, storage, wire, Decode, Encode};
use pbt::{ensure, ensure_eq, hex, short, Case, Res, Src};

/// What a decoded value means, whatever its allocator.
pub trait Plain {
    type P: PartialEq + Debug;
    fn plain(&self) -> Self::P;
}

macro_rules! same {
    ($($t:ty),*) => {$(
        impl Plain for $t {
            type P = $t;
            fn plain(&self) -> $t {
                self.clone()
            }
        }
    )*};
}

same!(u8, u16, u32, u64, String, bool, Tagged);

impl<A: Allocator> Plain for MString<A> {
    type P = String;
    fn plain(&self) -> String {
        self.as_str().to_owned()
    }
}

impl<T: Plain, A: Allocator> Plain for MVec<T, A> {
    type P = Vec<T::P>;
    fn plain(&self) -> Self::P {
        self.iter().map(T::plain).collect()
    }
}

impl<T: Plain> Plain for Vec<T> {
    type P = Vec<T::P>;
    fn plain(&self) -> Self::P {
        self.iter().map(T::plain).collect()
    }
}

impl<T: Plain> Plain for Option<T> {
    type P = Option<T::P>;
    fn plain(&self) -> Self::P {
        self.as_ref().map(T::plain)
    }
}

impl<K: Plain, V: Plain> Plain for BTreeMap<K, V> {
    type P = Vec<(K::P, V::P)>;
    fn plain(&self) -> Self::P {
        self.iter().map(|(k, v)| (k.plain(), v.plain())).collect()
    }
}

impl<X: Plain, Y: Plain> Plain for (X, Y) {
    type P = (X::P, Y::P);
    fn plain(&self) -> Self::P {
        (self.0.plain(), self.1.plain())
    }
}

#[derive(Debug, Encode, Decode)]
#[musli(Binary, bound = {X: Encode<Binary>}, decode_bound<'de, A> = {X: Decode<'de, Binary, A>})]
#[musli(Binary, bound = {Y: Encode<Binary>}, decode_bound = {Y: Decode<'de, Binary, A>})]
#[musli(Text, bound = {X: Encode<Text>}, decode_bound<'de, A> = {X: Decode<'de, Text, A>})]
#[musli(Text, bound = {Y: Encode<Text>}, decode_bound = {Y: Decode<'de, Text, A>})]
pub struct Doc<X, Y> {
    first: X,
    #[musli(Text, name = "the \"second\" field\n")]
    second: Y,
    third: Option<X>,
}

impl<X: Plain, Y: Plain> Plain for Doc<X, Y> {
    type P = (X::P, Y::P, Option<X::P>);
    fn plain(&self) -> Self::P {
        (self.first.plain(), self.second.plain(), self.third.plain())
    }
}

#[derive(Debug, Encode, Decode)]
#[musli(Binary, bound = {X: Encode<Binary>}, decode_bound<'de, A> = {X: Decode<'de, Binary, A>})]
#[musli(Text, bound = {X: Encode<Text>}, decode_bound<'de, A> = {X: Decode<'de, Text, A>})]
pub enum Choice<X> {
    One(X),
    Two { x: X, n: u32 },
    Three,
}

impl<X: Plain> Plain for Choice<X> {
    type P = (u8, Option<X::P>, u32);
    fn plain(&self) -> Self::P {
        match self {
            Choice::One(x) => (1, Some(x.plain()), 0),
            Choice::Two { x, n } => (2, Some(x.plain()), *n),
            Choice::Three => (3, None, 0),
        }
    }
}

/// Which is read twice, through a value which is kept.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "kind", name_all = "name")]
pub enum Tagged {
    #[musli(name_all = "name")]
    One { x: Vec<String> },
    #[musli(name_all = "name")]
    Two { x: Vec<String>, n: u32 },
    Three,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Format {
    Packed,
    Storage,
    Wire,
    Descriptive,
    Json,
}

const FORMATS: [Format; 5] = [Format::Packed, Format::Storage, Format::Wire, Format::Descriptive, Format::Json];

macro_rules! by_format {
    ($f:expr, $enc:ident => $body:expr) => {
        match $f {
            Format::Packed => {
                let $enc = packed::Encoding::new();
                $body
            }
            Format::Storage => {
                let $enc = storage::Encoding::new();
                $body
            }
            Format::Wire => {
                let $enc = wire::Encoding::new();
                $body
            }
            Format::Descriptive => {
                let $enc = descriptive::Encoding::new();
                $body
            }
            Format::Json => {
                let $enc = json::Encoding::new();
                $body
            }
        }
    };
}

struct Plan {
    format: Format,
    bytes: Vec<u8>,
    room: usize,
    shift: usize,
    changed: bool,
}

const LARGE: usize = 64 << 10;

fn plan<T: Encode<Binary> + Encode<Text>>(s: &mut Src, case: &mut Case, v: &T, formats: &[Format], what: &str) -> Result<Plan, String> {
    let format = *s.pick(formats);
    let mut bytes = by_format!(format, enc => enc.to_vec(v).map_err(|e| format!("does not encode: {e}"))?);
    let changed = s.chance(1, 4) && !bytes.is_empty();
    if changed {
        for _ in 0..s.size(1, 3) {
            let at = s.index(bytes.len());
            match s.upto(3) {
                0 => bytes[at] = s.upto(255) as u8,
                1 => bytes[at] ^= 1 << s.upto(7),
                2 => bytes.truncate(at.max(1)),
                _ => bytes[at] = *s.pick(b"\"\\,{}[]0:n"),
            }
        }
    }
    let room = match s.upto(2) {
        0 => LARGE,
        1 => s.size(0, 2000),
        _ => s.size(0, 200),
    };
    let shift = s.upto(15) as usize;
    case.nontrivial(&(format as u8, &bytes, room));
    let p = Plan { format, bytes, room, shift, changed };
    case.desc(|| short(format!("{what} in {format:?}, {} bytes of room at {shift}: {}", p.room, hex(&p.bytes))));
    Ok(p)
}

fn judge<P: PartialEq + Debug>(p: &Plan, want: Option<P>, got: Option<P>) -> Res {
    match (want, got) {
        (Some(want), Some(got)) => ensure_eq!(got, want, "decoded with memory from a slice"),
        (None, None) => {}
        (Some(want), None) => ensure!(p.room < LARGE, "decoding fails with {} bytes of memory: {want:?}", p.room),
        (None, Some(got)) => return Err(format!("decoding fails, but not with memory from a slice: {got:?}")),
    }
    Ok(())
}

macro_rules! both {
    ($p:expr, $ty:ident) => {{
        let p = $p;
        let bytes = &p.bytes[..];
        by_format!(p.format, enc => {
            let want: Option<<$ty<System> as Plain>::P> = {
                let cx = context::new_in(System::new());
                enc.from_slice_with::<_, $ty<System>>(&cx, bytes).ok().map(|v| v.plain())
            };
            if !p.changed {
                ensure!(want.is_some(), "what was encoded does not decode");
            }
            let mut memory = vec![MaybeUninit::<u8>::uninit(); p.room + p.shift];
            let got = {
                let alloc = Slice::new(&mut memory[p.shift..]);
                let got = if p.shift % 2 == 0 {
                    let cx = context::new_in(&alloc);
                    enc.from_slice_with::<_, $ty<&Slice<'_>>>(&cx, bytes).ok().map(|v| v.plain())
                } else {
                    let cx = context::new_in(&alloc).with_trace();
                    enc.from_slice_with::<_, $ty<&Slice<'_>>>(&cx, bytes).ok().map(|v| v.plain())
                };
                got
            };
            judge(&p, want, got)
        })
    }};
}

type Strings<A> = MVec<MString<A>, A>;
type Bytes<A> = MVec<MVec<u8, A>, A>;
type Deep<A> = MVec<MVec<MVec<u16, A>, A>, A>;
type Pairs<A> = (MString<A>, MVec<(u32, MString<A>), A>);
type Docs<A> = Doc<MString<A>, MVec<Doc<MString<A>, MVec<u64, A>>, A>>;
type Choices<A> = MVec<Choice<MString<A>>, A>;
type Tags<A> = MVec<Tagged, A>;
#[allow(type_alias_bounds)]
type Std<A> = <Own as Of<A>>::T;

/// Which does not depend on the allocator, but needs one on the way.
struct Own;
trait Of<A> {
    type T;
}
impl<A> Of<A> for Own {
    type T = BTreeMap<String, Vec<Option<String>>>;
}

fn list<T>(s: &mut Src, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let n = s.len(max);
    (0..n).map(|_| f(s)).collect()
}

fn text(s: &mut Src) -> String {
    let mut t = s.string(24);
    if s.chance(1, 4) {
        t.push_str(s.pick(&["\n", "\"", "\\", "\u{1}", "\u{1f600}"]));
    }
    t
}

fn doc<X, Y>(first: X, second: Y, third: Option<X>) -> Doc<X, Y> {
    Doc { first, second, third }
}

pub fn decode(s: &mut Src, case: &mut Case) -> Res {
    // The packed format has no names, and cannot tell what follows.
    const NAMED: &[Format] = &[Format::Storage, Format::Wire, Format::Descriptive, Format::Json];
    const TAGGED: &[Format] = &[Format::Descriptive, Format::Json];
    match s.upto(7) {
        0 => {
            let v = list(s, 12, text);
            both!(plan(s, case, &v, &FORMATS, "strings")?, Strings)
        }
        1 => {
            let v = list(s, 6, |s| s.bytes(40));
            both!(plan(s, case, &v, &FORMATS, "bytes")?, Bytes)
        }
        2 => {
            let v = list(s, 4, |s| list(s, 4, |s| list(s, 6, |s| s.unsigned(16) as u16)));
            both!(plan(s, case, &v, &FORMATS, "lists of lists")?, Deep)
        }
        3 => {
            let v = (text(s), list(s, 6, |s| (s.unsigned(32) as u32, text(s))));
            both!(plan(s, case, &v, &FORMATS, "pairs")?, Pairs)
        }
        4 => {
            let inner = |s: &mut Src| {
                let third = s.bool().then(|| text(s));
                doc(text(s), list(s, 5, |s| s.unsigned(64) as u64), third)
            };
            let third = s.bool().then(|| text(s));
            let v = doc(text(s), list(s, 4, inner), third);
            both!(plan(s, case, &v, NAMED, "structs")?, Docs)
        }
        5 => {
            let v = list(s, 6, |s| match s.upto(2) {
                0 => Choice::One(text(s)),
                1 => Choice::Two { x: text(s), n: s.unsigned(32) as u32 },
                _ => Choice::Three,
            });
            both!(plan(s, case, &v, NAMED, "variants")?, Choices)
        }
        6 => {
            let v = list(s, 4, |s| match s.upto(2) {
                0 => Tagged::One { x: list(s, 4, text) },
                1 => Tagged::Two { x: list(s, 4, text), n: s.unsigned(32) as u32 },
                _ => Tagged::Three,
            });
            both!(plan(s, case, &v, TAGGED, "variants which are tagged inside")?, Tags)
        }
        _ => {
            let v: BTreeMap<String, Vec<Option<String>>> =
                list(s, 5, |s| (text(s), list(s, 4, |s| s.bool().then(|| text(s))))).into_iter().collect();
            both!(plan(s, case, &v, NAMED, "a map")?, Std)
        }
    }
}

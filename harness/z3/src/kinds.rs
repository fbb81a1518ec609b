//! The kinds of keys which tables are built from.
use std::fmt::Debug;
use std::hash::Hash;
use std::num::NonZeroU16;

use musli_zerocopy::{ByteOrder, OwnedBuf, Ref, Visit, ZeroCopy};
use pbt::Src;
use zc::types::Sz;

pub trait Kind {
    const NAME: &'static str;
    /// How many there are.
    const MANY: usize = usize::MAX;
    type M: Clone + Debug + Eq + Hash;
    type T: ?Sized + Hash + Eq;
    type K<E: ByteOrder, O: Sz>: ZeroCopy + Visit<Target = Self::T> + Copy;

    fn gen(s: &mut Src) -> Self::M;
    /// One which is similar.
    fn near(s: &mut Src, m: &Self::M) -> Self::M;
    fn store<E: ByteOrder, O: Sz>(buf: &mut OwnedBuf<E, O>, m: &Self::M) -> Self::K<E, O>;
    fn target(m: &Self::M) -> &Self::T;
}

macro_rules! int {
    ($name:ident, $ty:ty, $bits:expr, $many:expr) => {
        pub struct $name;

        impl Kind for $name {
            const NAME: &'static str = stringify!($ty);
            const MANY: usize = $many;
            type M = $ty;
            type T = $ty;
            type K<E: ByteOrder, O: Sz> = $ty;

            fn gen(s: &mut Src) -> $ty {
                if s.chance(1, 2) {
                    s.upto(600) as $ty
                } else {
                    s.unsigned($bits) as $ty
                }
            }

            fn near(s: &mut Src, m: &$ty) -> $ty {
                match s.upto(3) {
                    0 => m.wrapping_add(1),
                    1 => m.wrapping_sub(1),
                    2 => m ^ (1 << s.upto($bits - 1)),
                    _ => Self::gen(s),
                }
            }

            fn store<E: ByteOrder, O: Sz>(_: &mut OwnedBuf<E, O>, m: &$ty) -> $ty {
                *m
            }

            fn target(m: &$ty) -> &$ty {
                m
            }
        }
    };
}

int!(U8, u8, 8, 256);
int!(U32, u32, 32, usize::MAX);
int!(I64, i64, 64, usize::MAX);
int!(U128, u128, 128, usize::MAX);

pub struct Char;

impl Kind for Char {
    const NAME: &'static str = "char";
    type M = char;
    type T = char;
    type K<E: ByteOrder, O: Sz> = char;

    fn gen(s: &mut Src) -> char {
        if s.chance(1, 2) {
            char::from_u32(s.upto(600) as u32).unwrap()
        } else {
            s.char()
        }
    }

    fn near(s: &mut Src, m: &char) -> char {
        char::from_u32((*m as u32).wrapping_add(1)).unwrap_or_else(|| Self::gen(s))
    }

    fn store<E: ByteOrder, O: Sz>(_: &mut OwnedBuf<E, O>, m: &char) -> char {
        *m
    }

    fn target(m: &char) -> &char {
        m
    }
}

pub struct Str;

impl Kind for Str {
    const NAME: &'static str = "str";
    type M = String;
    type T = str;
    type K<E: ByteOrder, O: Sz> = Ref<str, E, O>;

    fn gen(s: &mut Src) -> String {
        if s.chance(1, 2) {
            s.upto(600).to_string()
        } else {
            s.string(6)
        }
    }

    fn near(s: &mut Src, m: &String) -> String {
        let mut m = m.clone();
        if s.chance(1, 2) {
            m.push('0');
        } else {
            m.pop();
        }
        m
    }

    fn store<E: ByteOrder, O: Sz>(buf: &mut OwnedBuf<E, O>, m: &String) -> Ref<str, E, O> {
        buf.store_unsized(m.as_str())
    }

    fn target(m: &String) -> &str {
        m
    }
}

pub struct Bytes;

impl Kind for Bytes {
    const NAME: &'static str = "[u8]";
    type M = Vec<u8>;
    type T = [u8];
    type K<E: ByteOrder, O: Sz> = Ref<[u8], E, O>;

    fn gen(s: &mut Src) -> Vec<u8> {
        (0..s.size(0, 4)).map(|_| *s.pick(&[0u8, 1, 2, 0xff])).collect()
    }

    fn near(s: &mut Src, m: &Vec<u8>) -> Vec<u8> {
        let mut m = m.clone();
        if s.chance(1, 2) {
            m.push(0);
        } else {
            m.pop();
        }
        m
    }

    fn store<E: ByteOrder, O: Sz>(buf: &mut OwnedBuf<E, O>, m: &Vec<u8>) -> Ref<[u8], E, O> {
        buf.store_slice(m)
    }

    fn target(m: &Vec<u8>) -> &[u8] {
        m
    }
}

/// A value which is a key by what it refers to.
pub struct Refs;

impl Kind for Refs {
    const NAME: &'static str = "Ref<u32>";
    type M = u32;
    type T = u32;
    type K<E: ByteOrder, O: Sz> = Ref<u32, E, O>;

    fn gen(s: &mut Src) -> u32 {
        U32::gen(s)
    }

    fn near(s: &mut Src, m: &u32) -> u32 {
        U32::near(s, m)
    }

    fn store<E: ByteOrder, O: Sz>(buf: &mut OwnedBuf<E, O>, m: &u32) -> Ref<u32, E, O> {
        buf.store(m)
    }

    fn target(m: &u32) -> &u32 {
        m
    }
}

#[derive(ZeroCopy, Visit, Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(C)]
pub struct Pair {
    a: u8,
    b: u32,
    c: bool,
    d: NonZeroU16,
}

pub struct Struct;

impl Kind for Struct {
    const NAME: &'static str = "Pair";
    type M = Pair;
    type T = Pair;
    type K<E: ByteOrder, O: Sz> = Pair;

    fn gen(s: &mut Src) -> Pair {
        Pair {
            a: s.upto(3) as u8,
            b: s.upto(99) as u32,
            c: s.bool(),
            d: NonZeroU16::new(s.unsigned(16) as u16).unwrap_or(NonZeroU16::MIN),
        }
    }

    fn near(s: &mut Src, m: &Pair) -> Pair {
        let mut m = *m;
        match s.upto(2) {
            0 => m.a ^= 1,
            1 => m.b ^= 1,
            _ => m.c ^= true,
        }
        m
    }

    fn store<E: ByteOrder, O: Sz>(_: &mut OwnedBuf<E, O>, m: &Pair) -> Pair {
        *m
    }

    fn target(m: &Pair) -> &Pair {
        m
    }
}

pub struct Flag;

impl Kind for Flag {
    const NAME: &'static str = "bool";
    const MANY: usize = 2;
    type M = bool;
    type T = bool;
    type K<E: ByteOrder, O: Sz> = bool;

    fn gen(s: &mut Src) -> bool {
        s.bool()
    }

    fn near(_: &mut Src, m: &bool) -> bool {
        !m
    }

    fn store<E: ByteOrder, O: Sz>(_: &mut OwnedBuf<E, O>, m: &bool) -> bool {
        *m
    }

    fn target(m: &bool) -> &bool {
        m
    }
}

pub struct Unit;

impl Kind for Unit {
    const NAME: &'static str = "()";
    const MANY: usize = 1;
    type M = ();
    type T = ();
    type K<E: ByteOrder, O: Sz> = ();

    fn gen(_: &mut Src) {}

    fn near(_: &mut Src, _: &()) {}

    fn store<E: ByteOrder, O: Sz>(_: &mut OwnedBuf<E, O>, _: &()) {}

    fn target(m: &()) -> &() {
        m
    }
}

/// Pick a kind of key and an order.
macro_rules! any {
    ($s:expr, $f:ident, $($args:tt)*) => {{
        macro_rules! of {
            ($k:ty) => {
                match $s.weighted(&[4, 2, 1, 1]) {
                    0 => $f::<$k, Native, u32>($($args)*),
                    1 => $f::<$k, Big, u32>($($args)*),
                    2 => $f::<$k, Big, u64>($($args)*),
                    _ => $f::<$k, Little, u16>($($args)*),
                }
            };
        }
        match $s.weighted(&[1, 4, 2, 1, 2, 4, 2, 1, 2, 1, 1]) {
            0 => of!(U8),
            1 => of!(U32),
            2 => of!(I64),
            3 => of!(U128),
            4 => of!(Char),
            5 => of!(Str),
            6 => of!(Bytes),
            7 => of!(Refs),
            8 => of!(Struct),
            9 => of!(Flag),
            _ => of!(Unit),
        }
    }};
}
pub(crate) use any;

//! Packed types, what their bytes are, and a twin of each which is never
//! copied in bulk.
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::*;

use musli::alloc::System;
use musli::mode::Binary;
use musli::{Allocator, Decode, Decoder, Encode, Encoder};
use pbt::Src;

/// Bytes of a length.
pub fn put_len(n: usize, out: &mut Vec<u8>) {
    out.extend_from_slice(&n.to_ne_bytes());
}

pub fn take_len(b: &mut &[u8]) -> Option<usize> {
    let (n, rest) = b.split_first_chunk()?;
    *b = rest;
    Some(usize::from_ne_bytes(*n))
}

pub trait Model: Sized + Debug + Encode<Binary> + for<'de> Decode<'de, Binary, System> {
    /// There is nothing inside which has bytes of its own only if it is coded
    /// as an element.
    const SIMPLE: bool;
    /// Every bit pattern is a value.
    const ANY: bool;
    const BULK: bool = <Self as Encode<Binary>>::IS_BITWISE_ENCODE;

    type Twin: Debug + Encode<Binary> + for<'de> Decode<'de, Binary, System>;

    fn twin(&self) -> Self::Twin;
    fn of(t: Self::Twin) -> Self;
    fn gen(s: &mut Src) -> Self;

    /// What it is in bulk: one field after the other with nothing in between.
    fn raw(&self, out: &mut Vec<u8>);
    fn take_raw(b: &mut &[u8]) -> Option<Self>;

    /// What it is as an element.
    fn put(&self, out: &mut Vec<u8>);
    fn take(b: &mut &[u8]) -> Option<Self>;

    /// What identifies it.
    fn bits(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.raw(&mut v);
        v
    }
}

/// Inside of something else.
pub fn nest<T: Model>(v: &T, out: &mut Vec<u8>) {
    if T::BULK {
        v.raw(out)
    } else {
        v.put(out)
    }
}

pub fn take_nested<T: Model>(b: &mut &[u8]) -> Option<T> {
    if T::BULK {
        T::take_raw(b)
    } else {
        T::take(b)
    }
}

pub fn put_all<T: Model>(it: &[T], out: &mut Vec<u8>) {
    put_len(it.len(), out);
    it.iter().for_each(|v| nest(v, out));
}

/// Never copied in bulk.
#[derive(Debug)]
pub struct Slow<T>(pub T);

impl<M, T: Encode<M>> Encode<M> for Slow<T> {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        self.0.encode(e)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Slow<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        T::decode(d).map(Slow)
    }
}

macro_rules! scalar {
    ($($ty:ty, $bits:ty, $any:expr, |$s:ident| $gen:expr, |$v:ident| $to:expr, |$b:ident| $from:expr;)*) => {
        $(
            impl Model for $ty {
                const SIMPLE: bool = true;
                const ANY: bool = $any;
                type Twin = Slow<$ty>;
                fn twin(&self) -> Self::Twin {
                    Slow(*self)
                }
                fn of(t: Self::Twin) -> Self {
                    t.0
                }
                fn gen($s: &mut Src) -> Self {
                    $gen
                }
                fn raw(&self, out: &mut Vec<u8>) {
                    let $v = *self;
                    let bits: $bits = $to;
                    out.extend_from_slice(&bits.to_ne_bytes());
                }
                fn take_raw(b: &mut &[u8]) -> Option<Self> {
                    let (n, rest) = b.split_first_chunk()?;
                    *b = rest;
                    let $b = <$bits>::from_ne_bytes(*n);
                    $from
                }
                fn put(&self, out: &mut Vec<u8>) {
                    self.raw(out)
                }
                fn take(b: &mut &[u8]) -> Option<Self> {
                    Self::take_raw(b)
                }
            }
        )*
    };
}

scalar! {
    u8, u8, true, |s| s.unsigned(8) as _, |v| v, |b| Some(b);
    i8, i8, true, |s| s.signed(8) as _, |v| v, |b| Some(b);
    u16, u16, true, |s| s.unsigned(16) as _, |v| v, |b| Some(b);
    i16, i16, true, |s| s.signed(16) as _, |v| v, |b| Some(b);
    u32, u32, true, |s| s.unsigned(32) as _, |v| v, |b| Some(b);
    i32, i32, true, |s| s.signed(32) as _, |v| v, |b| Some(b);
    u64, u64, true, |s| s.unsigned(64) as _, |v| v, |b| Some(b);
    i64, i64, true, |s| s.signed(64) as _, |v| v, |b| Some(b);
    u128, u128, true, |s| s.unsigned(128) as _, |v| v, |b| Some(b);
    i128, i128, true, |s| s.signed(128) as _, |v| v, |b| Some(b);
    f32, u32, true, |s| f32::from_bits(s.f32_bits()), |v| v.to_bits(), |b| Some(f32::from_bits(b));
    f64, u64, true, |s| f64::from_bits(s.f64_bits()), |v| v.to_bits(), |b| Some(f64::from_bits(b));
    usize, usize, true, |s| s.unsigned(64) as _, |v| v, |b| Some(b);
    isize, isize, true, |s| s.signed(64) as _, |v| v, |b| Some(b);
    Wrapping<u16>, u16, true, |s| Wrapping(s.unsigned(16) as _), |v| v.0, |b| Some(Wrapping(b));
    Wrapping<i64>, i64, true, |s| Wrapping(s.signed(64) as _), |v| v.0, |b| Some(Wrapping(b));
    bool, u8, false, |s| s.bool(), |v| v as u8, |b| match b { 0 => Some(false), 1 => Some(true), _ => None };
    char, u32, false, |s| s.char(), |v| v as u32, |b| char::from_u32(b);
    NonZeroU8, u8, false, |s| NonZeroU8::new(s.unsigned(8) as u8).unwrap_or(NonZeroU8::MAX), |v| v.get(), |b| NonZeroU8::new(b);
    NonZeroI16, i16, false, |s| NonZeroI16::new(s.signed(16) as i16).unwrap_or(NonZeroI16::MIN), |v| v.get(), |b| NonZeroI16::new(b);
    NonZeroU32, u32, false, |s| NonZeroU32::new(s.unsigned(32) as u32).unwrap_or(NonZeroU32::MAX), |v| v.get(), |b| NonZeroU32::new(b);
    NonZeroI64, i64, false, |s| NonZeroI64::new(s.signed(64) as i64).unwrap_or(NonZeroI64::MIN), |v| v.get(), |b| NonZeroI64::new(b);
    NonZeroU128, u128, false, |s| NonZeroU128::new(s.unsigned(128)).unwrap_or(NonZeroU128::MAX), |v| v.get(), |b| NonZeroU128::new(b);
}

macro_rules! unit {
    ($($ty:ty, $v:expr;)*) => {
        $(
            impl Model for $ty {
                const SIMPLE: bool = false;
                const ANY: bool = true;
                type Twin = Slow<$ty>;
                fn twin(&self) -> Self::Twin {
                    Slow($v)
                }
                fn of(_: Self::Twin) -> Self {
                    $v
                }
                fn gen(_: &mut Src) -> Self {
                    $v
                }
                fn raw(&self, _: &mut Vec<u8>) {}
                fn take_raw(_: &mut &[u8]) -> Option<Self> {
                    Some($v)
                }
                fn put(&self, out: &mut Vec<u8>) {
                    put_len(0, out);
                }
                fn take(b: &mut &[u8]) -> Option<Self> {
                    (take_len(b)? == 0).then_some($v)
                }
            }
        )*
    };
}

unit! {
    (), ();
    PhantomData<u64>, PhantomData;
}

impl<T: Model, const N: usize> Model for [T; N] {
    const SIMPLE: bool = false;
    const ANY: bool = T::ANY;
    type Twin = [T::Twin; N];
    fn twin(&self) -> Self::Twin {
        std::array::from_fn(|i| self[i].twin())
    }
    fn of(t: Self::Twin) -> Self {
        t.map(T::of)
    }
    fn gen(s: &mut Src) -> Self {
        // Long ones repeat.
        let few: Vec<Vec<u8>> = (0..N.min(5)).map(|_| T::gen(s).bits()).collect();
        std::array::from_fn(|i| T::take_raw(&mut &few[i % few.len()][..]).expect("valid bits"))
    }
    fn raw(&self, out: &mut Vec<u8>) {
        self.iter().for_each(|v| v.raw(out));
    }
    fn take_raw(b: &mut &[u8]) -> Option<Self> {
        let v: Option<Vec<T>> = (0..N).map(|_| T::take_raw(b)).collect();
        v?.try_into().ok()
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_all(self, out);
    }
    fn take(b: &mut &[u8]) -> Option<Self> {
        if take_len(b)? != N {
            return None;
        }
        let v: Option<Vec<T>> = (0..N).map(|_| take_nested(b)).collect();
        v?.try_into().ok()
    }
}

macro_rules! shape {
    ($(#[$m:meta])* $n:ident { $($f:ident: $p:ident),* }) => {
        #[derive(Debug, Encode, Decode)]
        $(#[$m])*
        pub struct $n<$($p),*> { $($f: $p),* }
        shape!(@impl $n { $($f: $p),* });
    };
    (@impl $n:ident { $($f:ident: $p:ident),* }) => {
        impl<$($p: Model),*> Model for $n<$($p),*> {
            const SIMPLE: bool = true $(&& $p::SIMPLE)*;
            const ANY: bool = true $(&& $p::ANY)*;
            type Twin = $n<$($p::Twin),*>;
            fn twin(&self) -> Self::Twin {
                $n { $($f: self.$f.twin()),* }
            }
            fn of(t: Self::Twin) -> Self {
                $n { $($f: $p::of(t.$f)),* }
            }
            fn gen(s: &mut Src) -> Self {
                $n { $($f: $p::gen(s)),* }
            }
            fn raw(&self, out: &mut Vec<u8>) {
                $(self.$f.raw(out);)*
            }
            fn take_raw(b: &mut &[u8]) -> Option<Self> {
                Some($n { $($f: $p::take_raw(b)?),* })
            }
            fn put(&self, out: &mut Vec<u8>) {
                if Self::BULK {
                    return self.raw(out);
                }
                $(self.$f.put(out);)*
            }
            fn take(b: &mut &[u8]) -> Option<Self> {
                if Self::BULK {
                    return Self::take_raw(b);
                }
                Some($n { $($f: $p::take(b)?),* })
            }
        }
    };
}

shape!(#[musli(packed)] R1 { a: T1 });
shape!(#[musli(packed)] R2 { a: T1, b: T2 });
shape!(#[musli(packed)] R3 { a: T1, b: T2, c: T3 });
shape!(#[musli(packed)] R5 { a: T1, b: T2, c: T3, d: T4, e: T5 });
shape!(#[musli(packed)] #[repr(C)] C1 { a: T1 });
shape!(#[musli(packed)] #[repr(C)] C2 { a: T1, b: T2 });
shape!(#[musli(packed)] #[repr(C)] C3 { a: T1, b: T2, c: T3 });
shape!(#[musli(packed)] #[repr(C)] C4 { a: T1, b: T2, c: T3, d: T4 });
shape!(#[musli(packed)] #[repr(C)] C6 { a: T1, b: T2, c: T3, d: T4, e: T5, f: T6 });
shape!(#[musli(packed)] #[repr(C, align(8))] A2 { a: T1, b: T2 });

/// Types which are not generic.
macro_rules! plain {
    ($($(#[$m:meta])* $n:ident { $($f:tt: $t:ty),* })*) => {
        $(
            const _: () = {
                impl Model for $n {
                    const SIMPLE: bool = true $(&& <$t as Model>::SIMPLE)*;
                    const ANY: bool = true $(&& <$t as Model>::ANY)*;
                    type Twin = Slow<$n>;
                    fn twin(&self) -> Self::Twin {
                        Slow($n { $($f: <$t as Model>::of(self.$f.twin())),* })
                    }
                    fn of(t: Self::Twin) -> Self {
                        t.0
                    }
                    fn gen(s: &mut Src) -> Self {
                        $n { $($f: <$t as Model>::gen(s)),* }
                    }
                    fn raw(&self, out: &mut Vec<u8>) {
                        $(self.$f.raw(out);)*
                    }
                    fn take_raw(b: &mut &[u8]) -> Option<Self> {
                        Some($n { $($f: <$t as Model>::take_raw(b)?),* })
                    }
                    fn put(&self, out: &mut Vec<u8>) {
                        if Self::BULK {
                            return self.raw(out);
                        }
                        $(self.$f.put(out);)*
                    }
                    fn take(b: &mut &[u8]) -> Option<Self> {
                        if Self::BULK {
                            return Self::take_raw(b);
                        }
                        Some($n { $($f: <$t as Model>::take(b)?),* })
                    }
                }
            };
        )*
    };
}

#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Pixel {
    r: u8,
    g: u8,
    b: u8,
}

#[derive(Debug, Encode, Decode)]
#[musli(packed)]
pub struct Swapped(u8, u32, u8, u16);

#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Checked {
    a: u32,
    b: bool,
    c: NonZeroU8,
    d: u16,
    e: char,
}

#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Padded {
    a: u32,
    b: u8,
}

#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Within {
    a: Pixel,
    b: u8,
    c: Wrapping<u16>,
    d: i16,
    e: f64,
}

/// Ends with padding which is not between fields.
#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Inner {
    a: Padded,
    b: [u8; 4],
}

/// The order in memory is not the one it is declared in.
#[derive(Debug, Encode, Decode)]
#[musli(packed)]
pub struct Order {
    a: u8,
    b: u64,
    c: u8,
    d: u16,
    e: u32,
}

#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(transparent)]
pub struct OnlyBinary(u64);

plain! {
    Pixel { r: u8, g: u8, b: u8 }
    Swapped { 0: u8, 1: u32, 2: u8, 3: u16 }
    Checked { a: u32, b: bool, c: NonZeroU8, d: u16, e: char }
    Padded { a: u32, b: u8 }
    Within { a: Pixel, b: u8, c: Wrapping<u16>, d: i16, e: f64 }
    Inner { a: Padded, b: [u8; 4] }
    Order { a: u8, b: u64, c: u8, d: u16, e: u32 }
    OnlyBinary { 0: u64 }
}

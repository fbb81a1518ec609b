//! Zero-copy types with an independent account of their memory: which bytes
//! carry data, what they are, and which are valid.
use std::fmt::Debug;
use std::marker::PhantomData;
use std::mem::{align_of, offset_of, size_of};
use std::num::*;

use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::pointer::Pointee;
use musli_zerocopy::{ByteOrder, Endian, Ref, Size, ZeroCopy};
use pbt::Src;

/// A byte of a value: `None` is padding.
pub type Image = Vec<Option<u8>>;

pub trait Z: ZeroCopy + Clone + Debug + 'static {
    fn gen(s: &mut Src) -> Self;
    /// Memory of the value.
    fn image(&self) -> Image;
    /// Whether bytes are those of a value.
    fn valid(b: &[u8]) -> bool;
    /// The image with the bytes of every number reversed, when the type has
    /// one.
    fn swapped(&self) -> Option<Image>;
}

/// The image of bytes which are those of a value.
pub fn reimage<T: Z>(b: &[u8]) -> Image {
    assert!(T::valid(b));
    // SAFETY: the bytes are valid.
    unsafe { b.as_ptr().cast::<T>().read_unaligned() }.image()
}

/// The bytes a value is stored as.
pub fn zeroed(i: &Image) -> Vec<u8> {
    i.iter().map(|b| b.unwrap_or(0)).collect()
}

fn data(b: impl AsRef<[u8]>) -> Image {
    b.as_ref().iter().map(|b| Some(*b)).collect()
}

/// A value of which the padding holds a byte of our choosing.
#[repr(C)]
pub struct Poisoned<T>(std::mem::MaybeUninit<T>);

impl<T: Z> Poisoned<T> {
    pub fn new(v: &T, fill: u8) -> Self {
        let i = v.image();
        let mut out: Poisoned<T> = Poisoned(std::mem::MaybeUninit::uninit());
        let p = out.0.as_mut_ptr().cast::<u8>();
        for (n, b) in i.iter().enumerate() {
            // SAFETY: the image has the size of the type.
            unsafe { p.add(n).write(b.unwrap_or(fill)) };
        }
        out
    }

    pub fn get_mut(&mut self) -> &mut T {
        // SAFETY: as below.
        unsafe { &mut *self.0.as_mut_ptr() }
    }

    pub fn get(&self) -> &T {
        // SAFETY: every byte is written, and the data is that of a value.
        unsafe { &*self.0.as_ptr() }
    }
}

pub struct PoisonedSlice<T> {
    mem: Vec<std::mem::MaybeUninit<T>>,
}

impl<T: Z> PoisonedSlice<T> {
    pub fn new(v: &[T], fill: u8) -> Self {
        let mut mem: Vec<std::mem::MaybeUninit<T>> = Vec::with_capacity(v.len());
        for (n, v) in v.iter().enumerate() {
            let i = v.image();
            // SAFETY: the element has been allocated.
            unsafe {
                let p = mem.as_mut_ptr().add(n).cast::<u8>();
                for (n, b) in i.iter().enumerate() {
                    p.add(n).write(b.unwrap_or(fill));
                }
            }
        }
        // SAFETY: every element has been written.
        unsafe { mem.set_len(v.len()) };
        PoisonedSlice { mem }
    }

    pub fn get(&self) -> &[T] {
        // SAFETY: as above.
        unsafe { std::slice::from_raw_parts(self.mem.as_ptr().cast(), self.mem.len()) }
    }
}

fn rev(b: impl AsRef<[u8]>) -> Option<Image> {
    Some(b.as_ref().iter().rev().map(|b| Some(*b)).collect())
}

macro_rules! unsigned { ($($ty:ident)*) => { $(
    impl Z for $ty {
        fn gen(s: &mut Src) -> Self { s.unsigned($ty::BITS) as $ty }
        fn image(&self) -> Image { data(self.to_ne_bytes()) }
        fn valid(_: &[u8]) -> bool { true }
        fn swapped(&self) -> Option<Image> { rev(self.to_ne_bytes()) }
    }
)* } }

macro_rules! signed { ($($ty:ident)*) => { $(
    impl Z for $ty {
        fn gen(s: &mut Src) -> Self { s.signed($ty::BITS) as $ty }
        fn image(&self) -> Image { data(self.to_ne_bytes()) }
        fn valid(_: &[u8]) -> bool { true }
        fn swapped(&self) -> Option<Image> { rev(self.to_ne_bytes()) }
    }
)* } }

unsigned!(u8 u16 u32 u64 u128 usize);
signed!(i8 i16 i32 i64 i128 isize);

impl Z for f32 {
    fn gen(s: &mut Src) -> Self {
        f32::from_bits(s.f32_bits())
    }
    fn image(&self) -> Image {
        data(self.to_ne_bytes())
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        rev(self.to_ne_bytes())
    }
}

impl Z for f64 {
    fn gen(s: &mut Src) -> Self {
        f64::from_bits(s.f64_bits())
    }
    fn image(&self) -> Image {
        data(self.to_ne_bytes())
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        rev(self.to_ne_bytes())
    }
}

impl Z for bool {
    fn gen(s: &mut Src) -> Self {
        s.bool()
    }
    fn image(&self) -> Image {
        vec![Some(*self as u8)]
    }
    fn valid(b: &[u8]) -> bool {
        b[0] < 2
    }
    fn swapped(&self) -> Option<Image> {
        Some(self.image())
    }
}

impl Z for char {
    fn gen(s: &mut Src) -> Self {
        s.char()
    }
    fn image(&self) -> Image {
        data((*self as u32).to_ne_bytes())
    }
    fn valid(b: &[u8]) -> bool {
        let n = u32::from_ne_bytes(b.try_into().unwrap());
        n < 0xd800 || (0xe000..0x110000).contains(&n)
    }
    fn swapped(&self) -> Option<Image> {
        None
    }
}

macro_rules! nonzero { ($($ty:ident $inner:ident,)*) => { $(
    impl Z for $ty {
        fn gen(s: &mut Src) -> Self { $ty::new(<$inner as Z>::gen(s)).unwrap_or($ty::MIN) }
        fn image(&self) -> Image { self.get().image() }
        fn valid(b: &[u8]) -> bool { b.iter().any(|b| *b != 0) }
        fn swapped(&self) -> Option<Image> { self.get().swapped() }
    }
    impl Z for Option<$ty> {
        fn gen(s: &mut Src) -> Self { $ty::new(<$inner as Z>::gen(s)) }
        fn image(&self) -> Image { self.map_or(0, |v| v.get()).image() }
        fn valid(_: &[u8]) -> bool { true }
        fn swapped(&self) -> Option<Image> { self.map_or(0, |v| v.get()).swapped() }
    }
)* } }

nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize,
    NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize,);

impl<T: Z> Z for Wrapping<T> {
    fn gen(s: &mut Src) -> Self {
        Wrapping(T::gen(s))
    }
    fn image(&self) -> Image {
        self.0.image()
    }
    fn valid(b: &[u8]) -> bool {
        T::valid(b)
    }
    fn swapped(&self) -> Option<Image> {
        self.0.swapped()
    }
}

impl<T: Z, const N: usize> Z for [T; N] {
    fn gen(s: &mut Src) -> Self {
        std::array::from_fn(|_| T::gen(s))
    }
    fn image(&self) -> Image {
        self.iter().flat_map(T::image).collect()
    }
    fn valid(b: &[u8]) -> bool {
        size_of::<T>() == 0 || b.chunks(size_of::<T>()).all(T::valid)
    }
    fn swapped(&self) -> Option<Image> {
        let mut out = Vec::new();
        for v in self {
            out.extend(v.swapped()?);
        }
        Some(out)
    }
}

impl Z for () {
    fn gen(_: &mut Src) -> Self {}
    fn image(&self) -> Image {
        vec![]
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        Some(vec![])
    }
}

impl Z for PhantomData<u64> {
    fn gen(_: &mut Src) -> Self {
        PhantomData
    }
    fn image(&self) -> Image {
        vec![]
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        Some(vec![])
    }
}

pub fn is_big<E: 'static>() -> bool {
    std::any::TypeId::of::<E>() == std::any::TypeId::of::<Big>()
}

/// Bytes of a number in a byte order.
pub fn ordered<E: 'static>(n: u128, size: usize) -> Vec<u8> {
    let mut b = n.to_le_bytes()[..size].to_vec();
    if is_big::<E>() {
        b.reverse();
    }
    b
}

/// Sizes with what they are called.
pub trait Sz: Size + Debug + TryFrom<usize> + Ord + std::hash::Hash + std::panic::RefUnwindSafe {
    const BITS: u32;
}
impl Sz for u8 {
    const BITS: u32 = 8;
}
impl Sz for u16 {
    const BITS: u32 = 16;
}
impl Sz for u32 {
    const BITS: u32 = 32;
}
impl Sz for u64 {
    const BITS: u32 = 64;
}
impl Sz for usize {
    const BITS: u32 = 64;
}

pub fn size_max<O: Sz>() -> u128 {
    (1u128 << O::BITS) - 1
}

/// A reference with the offset and length.
impl<T: Z, E: ByteOrder, O: Sz> Z for Ref<T, E, O> {
    fn gen(s: &mut Src) -> Self {
        Ref::new(s.unsigned(O::BITS.min(63)) as usize)
    }
    fn image(&self) -> Image {
        data(ordered::<E>(self.offset() as u128, size_of::<O>()))
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        // The order is part of the type.
        Some(self.image())
    }
}

impl<T: Z, E: ByteOrder, O: Sz> Z for Ref<[T], E, O> {
    fn gen(s: &mut Src) -> Self {
        Ref::with_metadata(s.unsigned(O::BITS.min(63)) as usize, s.unsigned(O::BITS.min(63)) as usize)
    }
    fn image(&self) -> Image {
        let mut b = ordered::<E>(self.offset() as u128, size_of::<O>());
        b.extend(ordered::<E>(self.len() as u128, size_of::<O>()));
        data(b)
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        Some(self.image())
    }
}

impl<E: ByteOrder, O: Sz> Z for Ref<str, E, O> {
    fn gen(s: &mut Src) -> Self {
        Ref::with_metadata(s.unsigned(O::BITS.min(63)) as usize, s.unsigned(O::BITS.min(63)) as usize)
    }
    fn image(&self) -> Image {
        let mut b = ordered::<E>(self.offset() as u128, size_of::<O>());
        b.extend(ordered::<E>(self.len() as u128, size_of::<O>()));
        data(b)
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn swapped(&self) -> Option<Image> {
        Some(self.image())
    }
}

fn _assert<T: ?Sized + Pointee>() {}

impl<T: Z + Copy, E: ByteOrder> Z for Endian<T, E> {
    fn gen(s: &mut Src) -> Self {
        Endian::new(T::gen(s))
    }
    fn image(&self) -> Image {
        let v = self.to_ne();
        if is_big::<E>() {
            v.swapped().expect("only types which can be swapped")
        } else {
            v.image()
        }
    }
    fn valid(b: &[u8]) -> bool {
        T::valid(b)
    }
    fn swapped(&self) -> Option<Image> {
        Some(self.image())
    }
}

fn put(out: &mut Image, at: usize, i: Image) {
    for (n, b) in i.into_iter().enumerate() {
        assert!(out[at + n].is_none());
        out[at + n] = b;
    }
}

macro_rules! zstruct {
    ($(#[$m:meta])* struct $name:ident $(<$($g:ident),*>)? { $($(#[$fm:meta])* $f:ident: $ty:ty),* $(,)? }) => {
        #[derive(Debug, Clone, ZeroCopy)]
        $(#[$m])*
        pub struct $name $(<$($g),*>)? { $($(#[$fm])* pub $f: $ty),* }

        impl $(<$($g: Z + Copy),*>)? Z for $name $(<$($g),*>)? {
            #[allow(unused)]
            fn gen(s: &mut Src) -> Self {
                $name { $($f: <$ty as Z>::gen(s)),* }
            }
            fn image(&self) -> Image {
                #[allow(unused_mut)]
                let mut out: Image = vec![None; size_of::<Self>()];
                $({
                    let v = self.$f.clone();
                    put(&mut out, offset_of!(Self, $f), v.image());
                })*
                out
            }
            #[allow(unused)]
            fn valid(b: &[u8]) -> bool {
                true $(&& {
                    let at = offset_of!(Self, $f);
                    <$ty as Z>::valid(&b[at..at + size_of::<$ty>()])
                })*
            }
            fn swapped(&self) -> Option<Image> {
                #[allow(unused_mut)]
                let mut out: Image = vec![None; size_of::<Self>()];
                $({
                    let v = self.$f.clone();
                    put(&mut out, offset_of!(Self, $f), v.swapped()?);
                })*
                Some(out)
            }
        }
    };
}

// As above, for packed structs, which are copied out of themselves.
macro_rules! zpacked {
    ($(#[$m:meta])* struct $name:ident { $($f:ident: $ty:ty),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, ZeroCopy)]
        $(#[$m])*
        pub struct $name { $(pub $f: $ty),* }

        impl Z for $name {
            fn gen(s: &mut Src) -> Self {
                $name { $($f: <$ty as Z>::gen(s)),* }
            }
            fn image(&self) -> Image {
                let mut out: Image = vec![None; size_of::<Self>()];
                $({
                    let v = self.$f;
                    put(&mut out, offset_of!(Self, $f), v.image());
                })*
                out
            }
            fn valid(b: &[u8]) -> bool {
                true $(&& {
                    let at = offset_of!(Self, $f);
                    <$ty as Z>::valid(&b[at..at + size_of::<$ty>()])
                })*
            }
            fn swapped(&self) -> Option<Image> {
                let mut out: Image = vec![None; size_of::<Self>()];
                $({
                    let v = self.$f;
                    put(&mut out, offset_of!(Self, $f), v.swapped()?);
                })*
                Some(out)
            }
        }
    };
}

fn align_up(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

// Enums, for which the language documents the layout to be that of a union of
// C structs which start with the tag.
macro_rules! zenum {
    ($(#[$m:meta])* enum $name:ident: $repr:ident {
        $($(#[$vm:meta])* $v:ident = $disc:expr $(=> $other:ident)? ; { $($f:ident: $ty:ty),* })*
    }) => {
        #[derive(Debug, Clone, Copy, ZeroCopy)]
        $(#[$m])*
        #[repr($repr)]
        pub enum $name { $($(#[$vm])* $v { $($f: $ty),* } = $disc),* }

        impl Z for $name {
            #[allow(unused)]
            fn gen(s: &mut Src) -> Self {
                let n = [$(stringify!($v)),*].len();
                let mut at = s.index(n);
                $(
                    if at == 0 {
                        return $name::$v { $($f: <$ty as Z>::gen(s)),* };
                    }
                    at -= 1;
                )*
                unreachable!()
            }
            #[allow(unused)]
            fn image(&self) -> Image {
                let mut out: Image = vec![None; size_of::<Self>()];
                match self {
                    $($name::$v { $($f),* } => {
                        let tag: $repr = $disc;
                        put(&mut out, 0, tag.image());
                        let mut at = size_of::<$repr>();
                        $(
                            at = align_up(at, align_of::<$ty>());
                            put(&mut out, at, $f.image());
                            at += size_of::<$ty>();
                        )*
                    })*
                }
                out
            }
            #[allow(unused)]
            fn valid(b: &[u8]) -> bool {
                let tag = $repr::from_ne_bytes(b[..size_of::<$repr>()].try_into().unwrap());
                $({
                    let it: $repr = $disc;
                    if tag == it {
                        let mut at = size_of::<$repr>();
                        $(
                            at = align_up(at, align_of::<$ty>());
                            if !<$ty as Z>::valid(&b[at..at + size_of::<$ty>()]) {
                                return false;
                            }
                            at += size_of::<$ty>();
                        )*
                        return true;
                    }
                })*
                false
            }
            #[allow(unused)]
            fn swapped(&self) -> Option<Image> {
                let mut out: Image = vec![None; size_of::<Self>()];
                match self {
                    $($name::$v { $($f),* } => {
                        let mut tag: Option<$repr> = None;
                        $(
                            let _ = stringify!($other);
                            let it: $repr = $disc;
                            tag = Some(it.swap_bytes());
                        )?
                        put(&mut out, 0, tag?.image());
                        let mut at = size_of::<$repr>();
                        $(
                            at = align_up(at, align_of::<$ty>());
                            put(&mut out, at, $f.swapped()?);
                            at += size_of::<$ty>();
                        )*
                    })*
                }
                Some(out)
            }
        }
    };
}

zstruct!(#[repr(C)] struct Plain { a: u32, b: u32 });
zstruct!(#[repr(C)] struct Padded { a: u8, b: u32, c: u16 });
zstruct!(#[repr(C)] struct Padded2 { a: u16, b: bool, c: u64, d: u8 });
zstruct!(#[repr(C)] struct Outer { a: u8, b: Padded, c: u8, d: Padded2 });
zstruct!(#[repr(C, align(64))] struct Aligned { a: u8, b: u16 });
zstruct!(#[repr(C, align(128))] struct AlignedMore { a: u64, b: u8 });
zstruct!(#[repr(C)] struct Empty {});
zstruct!(#[repr(C, align(16))] struct EmptyAligned {});
zstruct!(#[repr(transparent)] struct Through { a: Padded });
zstruct!(#[repr(C)] struct Arrays { a: [u8; 3], b: [Padded; 2], c: [bool; 5], d: [u16; 0] });
zstruct!(#[repr(C)] struct Checked { a: bool, b: char, c: NonZeroU16, d: Option<NonZeroU32>, e: NonZeroI64 });
zstruct!(#[repr(C)] struct Wide { a: u8, b: u128, c: i8, d: f32, e: Wrapping<u64> });
zstruct!(#[repr(C)] #[zero_copy(bounds = {A: ZeroCopy, B: ZeroCopy})] struct Pair<A, B> { a: A, b: B });
zstruct!(#[repr(C)] struct Ignored { a: u8, #[zero_copy(ignore)] b: PhantomData<u64>, c: bool });
zstruct!(#[repr(C)] struct IgnoredAligned { a: u8, #[zero_copy(ignore)] b: [u64; 0], c: bool });
zpacked!(#[repr(C, packed)] struct Packed1 { a: u8, b: u32, c: bool, d: u64 });
zpacked!(#[repr(C, packed(2))] struct Packed2 { a: u8, b: u32, c: u8, d: u16, e: bool });
zpacked!(#[repr(C, packed(4))] struct Packed4 { a: u8, b: u8, c: u64, d: u16, e: u8, f: u32 });
zpacked!(#[repr(C, packed)] struct PackedEnum { a: u8, b: Tagged32, c: NonZeroU32, d: Tagged8 });
zpacked!(#[repr(C, packed)] struct PackedInner { a: u8, b: Inner, c: u16, d: Inner });
zpacked!(#[repr(C, packed(2))] struct PackedInner2 { a: u8, b: Inner, c: u8, d: u8, e: Tagged16 });

zpacked!(#[repr(C)] struct Inner { a: u8, b: bool, c: u32, d: u8 });

zenum!(enum Tagged8: u8 {
    A = 0; {}
    B = 3; { x: u32 }
    C = 4; { x: u8, y: u16, z: bool }
    D = 255; { x: u64, y: u8 }
});
zenum!(enum Tagged16: u16 {
    A = 1; { x: u8 }
    B = 0x1234; { x: [u8; 2] }
    C = 0xffff; { x: bool, y: char }
});
zenum!(enum Tagged32: u32 {
    A = 0x01020304; {}
    B = 7; { x: NonZeroU8, y: u32 }
});
zenum!(enum Tagged64: i64 {
    A = -1; { x: u8, y: u128 }
    B = 5; {}
});
zenum!(enum TaggedI8: i8 {
    A = -128; { x: Padded3 }
    B = 127; { x: Tagged8, y: Tagged16 }
});
zenum!(enum TaggedU64: u64 {
    A = 1; { x: u8 }
    B = 2; { x: u16 }
});
zenum!(enum Only: u8 {
    A = 9; {}
});
zpacked!(#[repr(C)] struct Padded3 { a: u8, b: u32, c: u16 });

zenum!(#[zero_copy(swap_bytes)] enum Swap: u32 {
    A = 1 => A_; { x: u32, y: u16 }
    A_ = u32::swap_bytes(1) => A; { x: u32, y: u16 }
    B = 2 => B_; {}
    B_ = u32::swap_bytes(2) => B; {}
});
zenum!(#[zero_copy(swap_bytes)] enum Swap2: u16 {
    A = 0x0001 => B; { x: u8 }
    #[zero_copy(swap = A)]
    B = 0x0100 => A; { x: u8 }
    C = 0x0203 => D; { x: Padded3, y: bool }
    #[zero_copy(swap = C)]
    D = 0x0302 => C; { x: Padded3, y: bool }
});

/// Implicit discriminants and other spellings.
#[derive(Debug, Clone, Copy, PartialEq, ZeroCopy)]
#[repr(i16)]
pub enum Implicit {
    A,
    B(u8),
    C = -3,
    D { x: u32, y: bool },
    E = 5 * 20,
    F,
    G = i16::MAX,
}

impl Z for Implicit {
    fn gen(s: &mut Src) -> Self {
        match s.index(7) {
            0 => Implicit::A,
            1 => Implicit::B(Z::gen(s)),
            2 => Implicit::C,
            3 => Implicit::D { x: Z::gen(s), y: Z::gen(s) },
            4 => Implicit::E,
            5 => Implicit::F,
            _ => Implicit::G,
        }
    }
    fn image(&self) -> Image {
        let mut out: Image = vec![None; 12];
        let tag: i16 = match self {
            Implicit::A => 0,
            Implicit::B(x) => {
                put(&mut out, 2, x.image());
                1
            }
            Implicit::C => -3,
            Implicit::D { x, y } => {
                put(&mut out, 4, x.image());
                put(&mut out, 8, y.image());
                -2
            }
            Implicit::E => 100,
            Implicit::F => 101,
            Implicit::G => i16::MAX,
        };
        put(&mut out, 0, tag.image());
        out
    }
    fn valid(b: &[u8]) -> bool {
        match i16::from_ne_bytes([b[0], b[1]]) {
            0 | 1 | -3 | 100 | 101 | i16::MAX => true,
            -2 => b[8] < 2,
            _ => false,
        }
    }
    fn swapped(&self) -> Option<Image> {
        None
    }
}

/// Names a type at run time.
pub trait Visitor {
    type Out;
    fn visit<T: Z>(self, name: &'static str) -> Self::Out;
}

#[macro_export]
macro_rules! table {
    ($n:ident, $f:ident, $($ty:ty),* $(,)?) => {
        pub const $n: usize = [$(stringify!($ty)),*].len();

        pub fn $f<V: Visitor>(n: usize, v: V) -> V::Out {
            let mut at = n;
            $(
                if at == 0 {
                    return v.visit::<$ty>(stringify!($ty));
                }
                at -= 1;
            )*
            let _ = at;
            unreachable!()
        }
    };
}

table!(FEW, with_few, u8, u32, Padded, u64, bool, u128, (), Aligned, Tagged8, Packed2, Empty, [Padded2; 2], u16);

table!(TYPES, with_type,
    u8, u32, Padded, u16, u64, bool, char, u128, i8, i16, i32, i64, i128, usize, isize, f32, f64,
    NonZeroU8, NonZeroU32, NonZeroU64, NonZeroI16, NonZeroI128, NonZeroUsize, NonZeroU16, NonZeroI8, NonZeroI32, NonZeroI64, NonZeroIsize, NonZeroU128,
    Option<NonZeroU8>, Option<NonZeroI32>, Option<NonZeroU64>, Option<NonZeroI128>,
    Wrapping<u32>, Wrapping<bool>, Wrapping<Padded2>, (), PhantomData<u64>,
    [u8; 5], [u32; 3], [Padded; 2], [bool; 4], [Checked; 2], [u64; 0], [[u16; 2]; 2], [Tagged16; 3], [char; 3],
    Plain, Padded2, Outer, Aligned, AlignedMore, Empty, EmptyAligned, Through, Arrays, Checked, Wide,
    Pair<u8, u64>, Pair<bool, char>, Pair<Padded3, Tagged8>, Pair<Tagged8, u8>, Pair<Packed2, Padded3>,
    Ignored, IgnoredAligned, [bool; 0], [Padded; 0], [Tagged8; 2], [[bool; 3]; 2],
    Packed1, Packed2, Packed4, PackedEnum, PackedInner, PackedInner2, Inner, Padded3,
    Tagged8, Tagged16, Tagged32, Tagged64, TaggedI8, TaggedU64, Only, Swap, Swap2, Implicit,
    Ref<u32>, Ref<[u16], Big, u16>, Ref<str, Little, u8>, Ref<u8, Big, usize>, Ref<[Padded], Little, u64>, Ref<Ref<str>, Big, u32>,
    Endian<u32, Big>, Endian<u64, Little>, Endian<i16, Big>, Endian<f64, Big>, Endian<Padded3, Big>, Endian<[u16; 3], Big>,
    Pair<Endian<u32, Big>, Ref<str, Big, u16>>,
);

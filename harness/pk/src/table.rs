// Written by tools/gen_packed.py.
use std::marker::PhantomData;
use std::num::*;

use crate::model::*;

pub const TYPES: &[Type] = &[
    Type::new::<u8>("u8"),
    Type::new::<i16>("i16"),
    Type::new::<u32>("u32"),
    Type::new::<i64>("i64"),
    Type::new::<u128>("u128"),
    Type::new::<f64>("f64"),
    Type::new::<bool>("bool"),
    Type::new::<char>("char"),
    Type::new::<NonZeroU8>("NonZeroU8"),
    Type::new::<NonZeroU32>("NonZeroU32"),
    Type::new::<usize>("usize"),
    Type::new::<()>("()"),
    Type::new::<Pixel>("Pixel"),
    Type::new::<Swapped>("Swapped"),
    Type::new::<Checked>("Checked"),
    Type::new::<Padded>("Padded"),
    Type::new::<Within>("Within"),
    Type::new::<Inner>("Inner"),
    Type::new::<Order>("Order"),
    Type::new::<OnlyBinary>("OnlyBinary"),
    Type::new::<[u8; 3]>("[u8; 3]"),
    Type::new::<[u32; 2]>("[u32; 2]"),
    Type::new::<[[u16; 2]; 2]>("[[u16; 2]; 2]"),
    Type::new::<C2<u8, bool>>("C2<u8, bool>"),
    Type::new::<C2<u16, u32>>("C2<u16, u32>"),
    Type::new::<A2<u32, u32>>("A2<u32, u32>"),
    Type::new::<A2<u8, u8>>("A2<u8, u8>"),
    Type::new::<C2<[u8; 5], [Pixel; 3]>>("C2<[u8; 5], [Pixel; 3]>"),
    Type::new::<C1<u32>>("C1<u32>"),
    Type::new::<C1<Wrapping<u16>>>("C1<Wrapping<u16>>"),
    Type::new::<R2<i64, i64>>("R2<i64, i64>"),
    Type::new::<C6<f64, u64, u64, u64, i64, u64>>("C6<f64, u64, u64, u64, i64, u64>"),
    Type::new::<Wrapping<i64>>("Wrapping<i64>"),
    Type::new::<C3<NonZeroI16, u16, NonZeroI16>>("C3<NonZeroI16, u16, NonZeroI16>"),
    Type::new::<R2<C2<NonZeroU8, i8>, Wrapping<i64>>>("R2<C2<NonZeroU8, i8>, Wrapping<i64>>"),
    Type::new::<C1<i32>>("C1<i32>"),
    Type::new::<C3<NonZeroU32, char, char>>("C3<NonZeroU32, char, char>"),
    Type::new::<C4<bool, NonZeroU8, NonZeroU8, i8>>("C4<bool, NonZeroU8, NonZeroU8, i8>"),
    Type::new::<A2<i128, C1<i8>>>("A2<i128, C1<i8>>"),
    Type::new::<C3<C2<NonZeroU32, NonZeroI16>, bool, R1<NonZeroI16>>>("C3<C2<NonZeroU32, NonZeroI16>, bool, R1<NonZeroI16>>"),
    Type::new::<C2<[u32; 3], f32>>("C2<[u32; 3], f32>"),
    Type::new::<[[PhantomData<u64>; 5]; 3]>("[[PhantomData<u64>; 5]; 3]"),
    Type::new::<[C2<OnlyBinary, Swapped>; 3]>("[C2<OnlyBinary, Swapped>; 3]"),
    Type::new::<C2<[OnlyBinary; 0], [i16; 0]>>("C2<[OnlyBinary; 0], [i16; 0]>"),
    Type::new::<R3<Wrapping<u16>, Wrapping<u16>, [u16; 3]>>("R3<Wrapping<u16>, Wrapping<u16>, [u16; 3]>"),
    Type::new::<[R2<Pixel, f32>; 0]>("[R2<Pixel, f32>; 0]"),
    Type::new::<R5<R2<Wrapping<u16>, Wrapping<i64>>, Wrapping<i64>, C3<Wrapping<u16>, i16, i64>, u16, ()>>("R5<R2<Wrapping<u16>, Wrapping<i64>>, Wrapping<i64>, C3<Wrapping<u16>, i16, i64>, u16, ()>"),
    Type::new::<R5<(), R5<[u64; 3], f64, i64, i64, [u64; 3]>, R1<u16>, C4<u32, (), Within, i128>, R3<u8, [u8; 3], u8>>>("R5<(), R5<[u64; 3], f64, i64, i64, [u64; 3]>, R1<u16>, C4<u32, (), Within, i128>, R3<u8, [u8; 3], u8>>"),
    Type::new::<R5<C4<i32, OnlyBinary, f32, Wrapping<i64>>, PhantomData<u64>, u64, i64, [Wrapping<u16>; 0]>>("R5<C4<i32, OnlyBinary, f32, Wrapping<i64>>, PhantomData<u64>, u64, i64, [Wrapping<u16>; 0]>"),
    Type::new::<R2<R1<OnlyBinary>, R5<PhantomData<u64>, u16, u16, Swapped, i16>>>("R2<R1<OnlyBinary>, R5<PhantomData<u64>, u16, u16, Swapped, i16>>"),
    Type::new::<[C2<i64, f64>; 3]>("[C2<i64, f64>; 3]"),
    Type::new::<R2<u8, R5<i8, [u8; 3], [u8; 3], u8, i8>>>("R2<u8, R5<i8, [u8; 3], [u8; 3], u8, i8>>"),
];

/// What there is enough of to be read in chunks.
pub const LARGE: &[Type] = &[
    Type::new::<u8>("u8"),
    Type::new::<u16>("u16"),
    Type::new::<u32>("u32"),
    Type::new::<u128>("u128"),
    Type::new::<f64>("f64"),
    Type::new::<Pixel>("Pixel"),
    Type::new::<Within>("Within"),
    Type::new::<C2<u64, [u8; 16]>>("C2<u64, [u8; 16]>"),
    Type::new::<[u8; 7]>("[u8; 7]"),
    Type::new::<[u8; 70000]>("[u8; 70000]"),
    Type::new::<[u32; 16384]>("[u32; 16384]"),
    Type::new::<C3<u8, u8, u8>>("C3<u8, u8, u8>"),
    Type::new::<bool>("bool"),
    Type::new::<Checked>("Checked"),
    Type::new::<Swapped>("Swapped"),
    Type::new::<()>("()"),
];

use crate::Type;

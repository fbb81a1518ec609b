//! Z05: byte orders and pointer sizes.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::mem::size_of;
use std::num::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

use musli_zerocopy::buf::Load;
use musli_zerocopy::endian::{self, Big, Little, Native, Other};
use musli_zerocopy::pointer::{Coerce, CoerceSlice, Pointee};
use musli_zerocopy::slice::{Packed, Slice};
use musli_zerocopy::{Buf, ByteOrder, Endian, OwnedBuf, Ref, ZeroCopy};
use pbt::{ensure, ensure_eq, hex, Case, Family, Property, Res, Src};

use zc::guard::guarded;
use zc::table;
use zc::types::*;

fn name<T: ?Sized>() -> &'static str {
    std::any::type_name::<T>()
}

fn is_native<E: ByteOrder>() -> bool {
    let name = name::<E>();
    assert!(name.ends_with("Big") || name.ends_with("Little"), "{name}");
    name.ends_with("Big") == cfg!(target_endian = "big")
}

// References.

/// A number of the size in an order.
fn number<E: ByteOrder, O: Sz>(n: usize) -> Vec<u8> {
    let mut b = (n as u64).to_be_bytes()[8 - size_of::<O>()..].to_vec();
    if !name::<E>().ends_with("Big") {
        b.reverse();
    }
    b
}

fn fits<O: Sz>(n: usize) -> bool {
    n as u128 <= size_max::<O>()
}

fn stored<R: ZeroCopy>(r: &R) -> Vec<u8> {
    let mut buf = OwnedBuf::new();
    buf.store(r);
    buf.as_slice().to_vec()
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! every_order {
    ($n:expr, $f:ident, [$($t:ty),*], $($a:expr),*) => {
        match $n {
            0 => $f::<$($t,)* Native, u32>($($a),*),
            1 => $f::<$($t,)* Big, u8>($($a),*),
            2 => $f::<$($t,)* Big, u16>($($a),*),
            3 => $f::<$($t,)* Big, u32>($($a),*),
            4 => $f::<$($t,)* Big, u64>($($a),*),
            5 => $f::<$($t,)* Big, usize>($($a),*),
            6 => $f::<$($t,)* Little, u8>($($a),*),
            7 => $f::<$($t,)* Little, u16>($($a),*),
            8 => $f::<$($t,)* Little, u64>($($a),*),
            _ => $f::<$($t,)* Little, usize>($($a),*),
        }
    };
}

fn near<O: Sz>(s: &mut Src) -> usize {
    let max = size_max::<O>() as usize;
    match s.upto(5) {
        0..=1 => s.size(0, 40),
        2 => max - s.size(0, 40).min(max),
        3 => s.unsigned(O::BITS) as usize,
        4 => s.unsigned(64) as usize,
        _ => max.wrapping_add(s.size(0, 3)),
    }
}

/// The same meaning in every order.
fn orders<T: ?Sized + Pointee, E: ByteOrder, O: Sz>(r: Ref<T, E, O>, want: impl Fn(usize, Option<usize>) -> Res, len: impl Fn(Vec<u8>) -> Option<usize>) -> Res
where
    T::Stored<O>: Debug + PartialEq,
{
    macro_rules! to {
        ($r:expr, $what:literal, $u:ty) => {{
            let r: Ref<T, $u, O> = $r;
            let bytes = stored(&r);
            let mut meta = bytes[size_of::<O>()..].to_vec();
            if !is_native::<$u>() {
                meta.reverse();
            }
            ensure_eq!(bytes[..size_of::<O>()], number::<$u, O>(r.offset())[..], "bytes of {}", $what);
            want(r.offset(), len(meta)).map_err(|e| format!("{}: {e}", $what))?;
            let back: Ref<T, E, O> = r.to_endian::<E>();
            ensure!(back == r.to_endian(), "{} back", $what);
            ensure_eq!(back.offset(), r.offset(), "{} back", $what);
        }};
    }
    to!(r.to_be(), "to_be", Big);
    to!(r.to_le(), "to_le", Little);
    to!(r.to_ne(), "to_ne", Native);
    to!(r.to_endian::<Big>(), "to_endian::<Big>", Big);
    to!(r.to_endian::<Little>(), "to_endian::<Little>", Little);
    to!(r.to_endian::<E>(), "to_endian::<E>", E);
    to!(r.to_be().to_le(), "to_be().to_le()", Little);
    ensure!(r.to_be().to_endian::<E>() == r, "to_be and back");
    ensure!(r.to_le().to_endian::<E>() == r, "to_le and back");
    Ok(())
}

fn native(meta: Vec<u8>) -> Option<usize> {
    if meta.is_empty() {
        return None;
    }
    let mut b = [0; 8];
    if cfg!(target_endian = "big") {
        b[8 - meta.len()..].copy_from_slice(&meta);
    } else {
        b[..meta.len()].copy_from_slice(&meta);
    }
    Some(usize::from_ne_bytes(b))
}

macro_rules! typed {
    ($f:ident, $g:ident, $v:ident) => {
        struct $v<'a>(&'a mut Src, &'a mut Case);
        impl Visitor for $v<'_> {
            type Out = Res;
            fn visit<T: Z>(self, _: &'static str) -> Res {
                let n = self.0.upto(9);
                every_order!(n, $g, [T], self.0, self.1)
            }
        }
        pub fn $f(s: &mut Src, c: &mut Case) -> Res {
            let n = s.index(SOME);
            with_some(n, $v(s, c))
        }
    };
}


table!(SOME, with_some, u8, Padded, u128, (), u16, [Padded2; 2]);

mod values;
mod wrapped;
mod sized;
mod slices;
mod iterate;
mod contents;
mod coerce;
mod documents;

fn property() -> Property {
    Property {
        id: "Z05",
        rule: "the value has another image in the other order, or the reference selects something",
        assumptions: &["The host is a little endian machine with 64-bit pointers; big endian is then always the order which swaps."],
        families: vec![
            Family::new("values", 1_000_000, values::values).thorough(20_000_000),
            Family::new("wrapped", 600_000, wrapped::wrapped).thorough(10_000_000),
            Family::new("sized", 200_000, sized::all).thorough(5_000_000),
            Family::new("slices", 200_000, slices::all).thorough(5_000_000),
            Family::new("iterate", 300_000, iterate::all).thorough(5_000_000),
            Family::new("contents", 200_000, contents::all).thorough(5_000_000),
            Family::new("coerce", 600_000, coerce::coerce).thorough(10_000_000),
            Family::new("documents", 200_000, documents::documents).thorough(5_000_000),
        ],
        findings: vec![],
    }
}

fn main() {
    pbt::main(vec![property()])
}


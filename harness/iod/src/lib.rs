//! One format with every target, source and context.
pub use dynv;
pub use dynv::musli;
use dynv::{Caps, Kind, Opts, Ty, Val, R};
use musli::alloc::{Slice, System};
use std::io::Write;

/// Bytes given to allocators which are meant to have enough of them.
pub const ARENA: usize = 1 << 20;

/// Decodes from the start of the second argument, of which there is more than
/// the third says if the source can be limited. Gives how much was used if the
/// source tells.
pub type Dec = fn(&Ty, &[u8], usize) -> R<(Val, Option<usize>)>;

pub struct Io {
    pub name: &'static str,
    pub kind: Kind,
    pub opts: Opts,
    pub caps: Caps,
    pub to_vec: fn(&Val) -> R<Vec<u8>>,
    /// Append to what is in a vector.
    pub append: fn(&Val, &mut Vec<u8>) -> R<()>,
    /// How much was written.
    pub to_slice: fn(&Val, &mut [u8]) -> R<usize>,
    /// How much is left.
    pub in_slice: fn(&Val, &mut [u8]) -> R<usize>,
    pub to_writer: fn(&Val, &mut dyn Write) -> R<()>,
    pub wrapped: fn(&Val, &mut dyn Write) -> R<()>,
    pub fixed: [(usize, fn(&Val) -> R<Vec<u8>>); 2],
    /// Append to what is in a fixed buffer of 48 bytes.
    pub fixed_append: fn(&Val, &[u8]) -> (R<()>, Vec<u8>),
    /// With contexts of every kind.
    pub enc_cx: Vec<(&'static str, fn(&Val) -> R<Vec<u8>>)>,
    /// Sources which are not limited use all of the input.
    pub dec: Vec<(&'static str, bool, Dec)>,
    pub dec_cx: Vec<(&'static str, fn(&Ty, &[u8]) -> R<Val>)>,
}

/// The memory is only ever taken once. Does not nest.
pub fn slice_alloc<T>(n: usize, f: impl FnOnce(&Slice<'_>) -> T) -> T {
    thread_local! {
        static BYTES: std::cell::RefCell<Vec<std::mem::MaybeUninit<u8>>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    BYTES.with(|b| {
        let mut b = b.borrow_mut();
        b.resize(ARENA, std::mem::MaybeUninit::uninit());
        let a = Slice::new(&mut b[..n]);
        f(&a)
    })
}

pub type Sys = System;

#[macro_export]
macro_rules! uses {
    () => {
        #[allow(unused_imports)]
        use {
            std::io::Write,
            $crate::dynv::*,
            $crate::musli::{self, context, FixedBytes, reader::{Reader, SliceReader}},
        };
    };
}

/// What every format has. Every function has a module of its own, since those
/// are what the compiler works on in parallel.
#[macro_export]
macro_rules! common {
    ($enc:expr) => {
        mod to_vec {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> { e!().to_vec(&En::<0>(v)).map_err(|e| e.to_string()) }
        }
        mod append {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val, out: &mut Vec<u8>) -> R<()> { e!().encode(out, &En::<0>(v)).map_err(|e| e.to_string()) }
        }
        mod to_slice {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn to_slice(v: &Val, out: &mut [u8]) -> R<usize> { e!().to_slice(out, &En::<0>(v)).map_err(|e| e.to_string()) }
            pub fn in_slice(v: &Val, out: &mut [u8]) -> R<usize> { e!().encode(out, &En::<0>(v)).map_err(|e| e.to_string()) }
        }
        mod to_writer {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val, w: &mut dyn Write) -> R<()> { e!().to_writer(w, &En::<0>(v)).map_err(|e| e.to_string()) }
        }
        mod wrapped {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val, w: &mut dyn Write) -> R<()> {
                let mut w = $crate::musli::wrap::wrap(w);
                e!().encode(&mut w, &En::<0>(v)).map_err(|e| e.to_string())
            }
        }
        mod fixed {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f<const N: usize>(v: &Val) -> R<Vec<u8>> {
                let b: FixedBytes<N> = e!().to_fixed_bytes(&En::<0>(v)).map_err(|e| e.to_string())?;
                Ok(b.as_slice().to_vec())
            }
            pub fn a(v: &Val) -> R<Vec<u8>> { f::<3>(v) }
        }
        mod fixed_b {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> { super::fixed::f::<24>(v) }
        }
        mod fixed_append {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val, pre: &[u8]) -> (R<()>, Vec<u8>) {
                let mut b = FixedBytes::<48>::new();
                assert!(b.extend_from_slice(pre));
                let r = e!().encode(&mut b, &En::<0>(v)).map_err(|e| e.to_string());
                (r, b.as_slice().to_vec())
            }
        }
        mod enc_plain {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> {
                let cx = context::new();
                e!().to_vec_with(&cx, &En::<0>(v)).map_err(|e| e.to_string())
            }
        }
        mod dec_plain {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8]) -> R<Val> {
                let cx = context::new();
                with_ty(t, || e!().from_slice_with::<_, De>(&cx, b)).map(|d| d.0).map_err(|e| e.to_string())
            }
        }
        mod enc_capture {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> {
                let cx = context::new().with_capture::<String>();
                let r = e!().to_vec_with(&cx, &En::<0>(v));
                let err = cx.result();
                match r {
                    Ok(v) => Ok(v),
                    Err(_) => Err(err.err().ok_or("NOTHING was captured")?),
                }
            }
        }
        mod dec_capture {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8]) -> R<Val> {
                let cx = context::new().with_capture::<String>();
                let r = with_ty(t, || e!().from_slice_with::<_, De>(&cx, b)).map(|d| d.0);
                let err = cx.result();
                match r {
                    Ok(v) => Ok(v),
                    Err(_) => Err(err.err().ok_or("NOTHING was captured")?),
                }
            }
        }
        mod enc_trace {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> {
                let cx = context::new().with_trace().with_type();
                e!().to_vec_with(&cx, &En::<0>(v)).map_err(|_| cx.report().to_string())
            }
        }
        mod dec_trace {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8]) -> R<Val> {
                let cx = context::new().with_trace().with_type();
                with_ty(t, || e!().from_slice_with::<_, De>(&cx, b)).map(|d| d.0).map_err(|_| cx.report().to_string())
            }
        }
        mod enc_arena {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> {
                $crate::slice_alloc($crate::ARENA, |a| {
                let cx = context::new_in(a).with_trace().with_error::<String>();
                e!().to_vec_with(&cx, &En::<0>(v)).map_err(|e| e.to_string())
                })
            }
        }
        mod dec_arena {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8]) -> R<Val> {
                $crate::slice_alloc($crate::ARENA, |a| {
                let cx = context::new_in(a).with_trace().with_error::<String>();
                with_ty(t, || e!().from_slice_with::<_, De>(&cx, b)).map(|d| d.0).map_err(|e| e.to_string())
                })
            }
        }
        mod dec_moving {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                let mut r = b;
                let v = with_ty(t, || e!().decode::<_, De>(&mut r)).map_err(|e| e.to_string())?;
                Ok((v.0, Some(b.len() - r.len())))
            }
        }
        mod dec_from_slice {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                with_ty(t, || e!().from_slice::<De>(b)).map(|d| (d.0, None)).map_err(|e| e.to_string())
            }
        }
    };
}

/// A binary format.
#[macro_export]
macro_rules! binary {
    ($name:literal, $kind:ident, $opts:expr, $caps:expr, $enc:expr) => {
        $crate::common!($enc);
        mod dec_reader {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                let mut r = SliceReader::new(b);
                let v = with_ty(t, || e!().decode::<_, De>(&mut r)).map_err(|e| e.to_string())?;
                assert_eq!(r.as_slice().len(), r.remaining());
                assert!(b.ends_with(r.as_slice()));
                Ok((v.0, Some(b.len() - r.remaining())))
            }
        }
        mod dec_limited_reader {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                let mut r = SliceReader::new(b).limit(n);
                let v = with_ty(t, || e!().decode::<_, De>(&mut r)).map_err(|e| e.to_string())?;
                Ok((v.0, Some(n - r.remaining())))
            }
        }
        mod dec_limited_slice {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                let mut r = b;
                let mut l = (&mut r).limit(n);
                let v = with_ty(t, || e!().decode::<_, De>(&mut l)).map_err(|e| e.to_string())?;
                let left = l.remaining();
                assert_eq!(b.len() - r.len(), n - left, "the limit and what it is for moved by different amounts");
                Ok((v.0, Some(n - left)))
            }
        }
        pub fn io() -> $crate::Io {
            #[allow(unused_imports)]
            use $crate::dynv::*;
            $crate::Io {
                name: $name,
                kind: Kind::$kind,
                opts: $opts,
                caps: $caps,
                to_vec: to_vec::f,
                append: append::f,
                to_slice: to_slice::to_slice,
                in_slice: to_slice::in_slice,
                to_writer: to_writer::f,
                wrapped: wrapped::f,
                fixed: [(3, fixed::a), (24, fixed_b::f)],
                fixed_append: fixed_append::f,
                enc_cx: vec![("a plain context", enc_plain::f), ("a capturing context", enc_capture::f), ("a tracing context", enc_trace::f), ("a tracing context with a slice allocator", enc_arena::f)],
                dec_cx: vec![("a plain context", dec_plain::f), ("a capturing context", dec_capture::f), ("a tracing context", dec_trace::f), ("a tracing context with a slice allocator", dec_arena::f)],
                dec: vec![("from_slice", false, dec_from_slice::f), ("a moving slice", false, dec_moving::f), ("a slice reader", false, dec_reader::f), ("a limited slice reader", true, dec_limited_reader::f), ("a limited moving slice", true, dec_limited_slice::f)],
            }
        }
    };
}

/// JSON.
#[macro_export]
macro_rules! json {
    ($name:literal, $enc:expr) => {
        $crate::common!($enc);
        mod dec_str {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                let Ok(b) = std::str::from_utf8(b) else {
                    return Err(String::from("not a string"));
                };
                with_ty(t, || e!().from_str::<De>(b)).map(|d| (d.0, None)).map_err(|e| e.to_string())
            }
        }
        mod dec_moving_str {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(t: &Ty, b: &[u8], n: usize) -> R<(Val, Option<usize>)> {
                let _ = n;
                let Ok(b) = std::str::from_utf8(b) else {
                    return Err(String::from("not a string"));
                };
                let mut r = b;
                let v = with_ty(t, || e!().decode::<_, De>(&mut r)).map_err(|e| e.to_string());
                assert!(b.ends_with(r), "the string was left in the middle of a character");
                let v = v?;
                Ok((v.0, Some(b.len() - r.len())))
            }
        }
        mod enc_string {
            $crate::uses!();
            macro_rules! e { () => { $enc } }
            pub fn f(v: &Val) -> R<Vec<u8>> { e!().to_string(&En::<0>(v)).map(String::into_bytes).map_err(|e| e.to_string()) }
        }
        pub fn io() -> $crate::Io {
            #[allow(unused_imports)]
            use $crate::dynv::*;
            $crate::Io {
                name: $name,
                kind: Kind::Json,
                opts: o(false, false, 0),
                caps: JSON,
                to_vec: to_vec::f,
                append: append::f,
                to_slice: to_slice::to_slice,
                in_slice: to_slice::in_slice,
                to_writer: to_writer::f,
                wrapped: wrapped::f,
                fixed: [(3, fixed::a), (24, fixed_b::f)],
                fixed_append: fixed_append::f,
                enc_cx: vec![("to_string", enc_string::f), ("a plain context", enc_plain::f), ("a capturing context", enc_capture::f), ("a tracing context", enc_trace::f), ("a tracing context with a slice allocator", enc_arena::f)],
                dec_cx: vec![("a plain context", dec_plain::f), ("a capturing context", dec_capture::f), ("a tracing context", dec_trace::f), ("a tracing context with a slice allocator", dec_arena::f)],
                dec: vec![("from_slice", false, dec_from_slice::f), ("a moving slice", false, dec_moving::f), ("a string", false, dec_str::f), ("a moving string", false, dec_moving_str::f)],
            }
        }
    };
}

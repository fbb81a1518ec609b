//! Z02: loading from untrusted bytes.
use std::mem::{align_of, size_of};

use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::{binary_search, binary_search_by, BinarySearch, Packed, Slice};
use musli_zerocopy::{Buf, ByteOrder, Ref, ZeroCopy};
use pbt::{ensure, ensure_eq, hex, Case, Family, Property, Res, Src};

use zc::guard::guarded;
use zc::types::*;

/// Bytes which are, or nearly are, those of values.
fn nearly<T: Z>(s: &mut Src, n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..n {
        match s.weighted(&[6, 2]) {
            0 => {
                let fill = *s.pick(&[0u8, 1, 0xff]);
                out.extend(T::gen(s).image().iter().map(|b| b.unwrap_or(fill)));
            }
            _ => {
                for _ in 0..size_of::<T>() {
                    let b = *s.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xd8, 0xff]);
                    out.push(b);
                }
            }
        }
    }
    if !out.is_empty() {
        for _ in 0..s.weighted(&[4, 3, 1]) {
            let at = s.index(out.len());
            out[at] = match s.upto(3) {
                0 => out[at] ^ (1 << s.upto(7)),
                1 => out[at].wrapping_add(1),
                2 => 0,
                _ => s.upto(255) as u8,
            };
        }
    }
    out
}

fn garbage(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.size(0, max);
    (0..n).map(|_| *s.pick(&[0u8, 1, 2, 0x11, 0xff])).collect()
}

/// Where a load is from: mostly where the value is.
fn offset(s: &mut Src, at: usize, len: usize, align: usize) -> usize {
    match s.weighted(&[8, 2, 2, 1, 1]) {
        0 => at,
        1 => s.size(0, len + 2),
        2 => len.saturating_sub(s.size(0, align)),
        3 => usize::MAX - s.size(0, 80),
        _ => (usize::MAX / 2 + 1).wrapping_sub(s.size(0, 80)) << s.upto(1),
    }
}

struct Placed {
    bytes: Vec<u8>,
    at: usize,
    slack: usize,
}

/// Values somewhere in a buffer, which mostly are aligned.
fn placed<T: Z>(s: &mut Src, n: usize) -> Placed {
    let mut bytes = garbage(s, 20);
    let at = bytes.len();
    bytes.extend(nearly::<T>(s, n));
    if s.chance(1, 3) {
        bytes.extend(garbage(s, 20));
    }
    if s.chance(1, 10) && !bytes.is_empty() {
        let n = s.size(1, 3.min(bytes.len()));
        bytes.truncate(bytes.len() - n);
    }
    // The buffer ends at a page, so the slack makes up for what aligns the
    // values.
    let a = align_of::<T>().max(16);
    let slack = match s.weighted(&[5, 2, 1]) {
        0 => (at as isize - bytes.len() as isize).rem_euclid(a as isize) as usize,
        1 => s.size(0, a),
        _ => 0,
    };
    Placed { bytes, at, slack }
}

fn one<T: Z>(b: &[u8], off: usize) -> Option<&[u8]> {
    b.get(off..off.checked_add(size_of::<T>())?).filter(|b| T::valid(b))
}

struct Typed<'a> {
    s: &'a mut Src,
    c: &'a mut Case,
}

impl Visitor for Typed<'_> {
    type Out = Res;

    fn visit<T: Z>(self, name: &'static str) -> Res {
        let Typed { s, c } = self;
        let Placed { bytes, at, slack } = placed::<T>(s, 1);
        let off = offset(s, at, bytes.len(), align_of::<T>());
        let how = s.upto(7);
        c.desc(|| format!("{name} at {off} of {} ({how})", hex(&bytes)));
        let (out, clean) = guarded(&bytes, slack, |b| load_one::<T>(b, &bytes, off, how, c));
        ensure!(clean, "{name}: bytes around the buffer were written");
        out.map_err(|e| format!("{name} at {off} of {} ({how}): {e}", hex(&bytes)))
    }
}

fn load_one<T: Z>(b: &mut [u8], bytes: &[u8], off: usize, how: u64, c: &mut Case) -> Res {
    let start = b.as_ptr() as usize;
    let fit = one::<T>(bytes, off);
    let aligned = start.wrapping_add(off) % align_of::<T>() == 0;
    let expect = fit.filter(|_| how == 2 || aligned);
    let name = std::any::type_name::<T>();
    if expect.is_some() {
        c.nontrivial(&(name, 1, bytes, off, how));
        c.label("value");
    } else if off <= bytes.len() {
        c.nontrivial(&(name, 0, bytes, off, how));
        c.label(if fit.is_some() {
            "misaligned"
        } else if off.saturating_add(size_of::<T>()) <= bytes.len() {
            "invalid"
        } else {
            "out of range"
        });
    }
    // The value is at the same place, for those which are references.
    let check = |v: Result<&T, String>, by_ref: bool| -> Res {
        match (v, expect) {
            (Ok(v), Some(e)) => {
                ensure!(!by_ref || std::ptr::from_ref(v) as usize == start + off, "another place");
                ensure_eq!(v.image(), reimage::<T>(e), "value");
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (Ok(v), None) => Err(format!("loaded {v:?} which is not there")),
            (Err(e), Some(_)) => Err(format!("failed: {e}")),
        }
    };
    match how {
        0 => check(Buf::new(b).load_at::<T>(off).map_err(|e| e.to_string()), true)?,
        1 => check(Buf::new_mut(b).load_at_mut::<T>(off).map(|v| &*v).map_err(|e| e.to_string()), true)?,
        2 => {
            let v = Buf::new(b).load_at_unaligned::<T>(off);
            let v = v.as_ref().map_err(|e| e.to_string());
            check(v, false)?;
        }
        3 => {
            if let Some(b) = b.get(off..) {
                check(T::from_bytes(b).map_err(|e| e.to_string()), true)?;
            }
        }
        4 => {
            if let Some(b) = b.get_mut(off..) {
                check(T::from_bytes_mut(b).map(|v| &*v).map_err(|e| e.to_string()), true)?;
            }
        }
        5 => {
            if let Ok(off) = u32::try_from(off) {
                let r = Ref::<T, Big>::new(off);
                check(Buf::new(b).load(r).map_err(|e| e.to_string()), true)?;
            }
        }
        6 => {
            let r = Ref::<T, Little, usize>::new(off);
            check(Buf::new_mut(b).load_mut(r).map(|v| &*v).map_err(|e| e.to_string()), true)?;
        }
        _ => {
            let r = Ref::<T, Big, usize>::new(off);
            check(Buf::new(b).load(r).map_err(|e| e.to_string()), true)?;
            ensure_eq!(
                Buf::new(b).is_compatible_with::<T>(),
                start % align_of::<T>() == 0 && b.len() >= size_of::<T>(),
                "is_compatible_with"
            );
            ensure_eq!(Buf::new(b).ensure_compatible_with::<T>().is_ok(), Buf::new(b).is_compatible_with::<T>(), "ensure_compatible_with");
            ensure_eq!(Buf::new(b).is_aligned::<T>(), start % align_of::<T>() == 0, "is_aligned");
            let _ = Buf::new(b).alignment();
        }
    }
    ensure!(b == bytes, "loading wrote to the buffer");
    Ok(())
}

fn typed(s: &mut Src, c: &mut Case) -> Res {
    with_type(s.index(TYPES), Typed { s, c })
}

// Slices.

struct Slices<'a> {
    s: &'a mut Src,
    c: &'a mut Case,
}

impl Visitor for Slices<'_> {
    type Out = Res;

    fn visit<T: Z>(self, name: &'static str) -> Res {
        let Slices { s, c } = self;
        let n = s.size(0, 5);
        let Placed { bytes, at, slack } = placed::<T>(s, n);
        let off = offset(s, at, bytes.len(), align_of::<T>());
        let size = size_of::<T>();
        let len = match s.weighted(&[8, 3, 2, 2]) {
            0 => n,
            1 => s.size(0, n + 2),
            2 => usize::MAX - s.size(0, 20),
            _ => (usize::MAX / size.max(1)).wrapping_add(s.size(0, 3)).wrapping_sub(1),
        };
        let how = s.upto(8);
        c.desc(|| format!("[{name}; {len}] at {off} of {} ({how})", hex(&bytes)));
        let (out, clean) = guarded(&bytes, slack, |b| load_slice::<T>(b, &bytes, off, len, how, c));
        ensure!(clean, "[{name}]: bytes around the buffer were written");
        out.map_err(|e| format!("[{name}; {len}] at {off} of {} ({how}): {e}", hex(&bytes)))
    }
}

fn many<T: Z>(b: &[u8], off: usize, len: usize) -> Option<&[u8]> {
    let size = size_of::<T>();
    let b = b.get(off..off.checked_add(len.checked_mul(size)?)?)?;
    (size == 0 || b.chunks(size).all(T::valid)).then_some(b)
}

fn load_slice<T: Z>(b: &mut [u8], bytes: &[u8], off: usize, len: usize, how: u64, c: &mut Case) -> Res {
    let start = b.as_ptr() as usize;
    let fit = many::<T>(bytes, off, len);
    let expect = fit.filter(|_| start.wrapping_add(off) % align_of::<T>() == 0);
    let name = std::any::type_name::<T>();
    if expect.is_some_and(|b| !b.is_empty()) {
        c.nontrivial(&(name, 1, bytes, off, len, how));
        c.label("value");
    } else if off <= bytes.len() && expect.is_none() {
        c.nontrivial(&(name, 0, bytes, off, len, how));
        c.label(if fit.is_some() {
            "misaligned"
        } else if len.checked_mul(size_of::<T>()).is_some_and(|n| n <= bytes.len() - off) {
            "invalid"
        } else {
            "out of range"
        });
    }
    let check = |v: Result<&[T], String>| -> Res {
        match (v, expect) {
            (Ok(v), Some(e)) => {
                ensure!(v.as_ptr() as usize == start + off, "another place");
                ensure_eq!(v.len(), len, "length");
                if size_of::<T>() > 0 {
                    for (v, e) in v.iter().zip(e.chunks(size_of::<T>())) {
                        ensure_eq!(v.image(), reimage::<T>(e), "element");
                    }
                }
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (Ok(v), None) => Err(format!("loaded {} elements at {:?} which are not there", v.len(), v.as_ptr())),
            (Err(e), Some(_)) => Err(format!("failed: {e}")),
        }
    };
    macro_rules! load {
        ($ty:ty) => {
            if let Ok(r) = <$ty>::try_with_metadata(off, len) {
                ensure_eq!((r.offset(), r.len()), (off, len), "reference");
                check(Buf::new(b).load(r).map_err(|e| e.to_string()))?
            }
        };
    }
    macro_rules! load_mut {
        ($ty:ty) => {
            if let Ok(r) = <$ty>::try_with_metadata(off, len) {
                check(Buf::new_mut(b).load_mut(r).map(|v| &*v).map_err(|e| e.to_string()))?
            }
        };
    }
    match how {
        0 => load!(Ref<[T]>),
        1 => load_mut!(Ref<[T]>),
        2 => load!(Ref<[T], Big, u16>),
        3 => load_mut!(Ref<[T], Big, usize>),
        4 => load!(Ref<[T], Little, u64>),
        5 => load!(Ref<[T], Native, u8>),
        6 => load!(Packed<[T], u8, u16>),
        7 => load!(Packed<[T], usize, usize, Big>),
        _ => load_mut!(Ref<[T], Little, usize>),
    }
    ensure!(b == bytes, "loading wrote to the buffer");
    Ok(())
}

fn slices(s: &mut Src, c: &mut Case) -> Res {
    with_type(s.index(TYPES), Slices { s, c })
}

/// Strings.
fn strings(s: &mut Src, c: &mut Case) -> Res {
    let mut bytes = garbage(s, 6);
    let at = bytes.len();
    let text = s.string(20);
    bytes.extend(text.as_bytes());
    let mut n = text.len();
    if s.chance(1, 2) {
        for _ in 0..s.size(1, 3) {
            let b = *s.pick(&[0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 0xff, 0x41]);
            let i = at + s.size(0, n);
            if s.bool() && i < bytes.len() {
                bytes[i] = b;
            } else {
                bytes.insert(i, b);
                n += 1;
            }
        }
    }
    bytes.extend(garbage(s, 6));
    let off = offset(s, at, bytes.len(), 1);
    let len = match s.weighted(&[8, 3, 2]) {
        0 => n,
        1 => s.size(0, n + 8),
        _ => usize::MAX - s.size(0, 20),
    };
    let how = s.upto(6);
    c.desc(|| format!("str of {len} at {off} of {} ({how})", hex(&bytes)));
    let expect = off.checked_add(len).and_then(|end| bytes.get(off..end)).and_then(|b| std::str::from_utf8(b).ok());
    if expect.is_some_and(|s| !s.is_empty()) || (expect.is_none() && off < bytes.len()) {
        c.nontrivial(&(&bytes, off, len, how));
        c.label(if expect.is_some() { "string" } else { "refused" });
    }
    let slack = s.size(0, 2);
    let (out, clean) = guarded(&bytes, slack, |b| -> Res {
        let start = b.as_ptr() as usize;
        let check = |v: Result<&str, String>| -> Res {
            ensure_eq!(v.as_ref().ok().copied(), expect, "string ({:?})", v);
            ensure!(v.is_err() || v.is_ok_and(|v| v.as_ptr() as usize == start + off), "another place");
            Ok(())
        };
        macro_rules! load {
            ($ty:ty) => {
                if let Ok(r) = <$ty>::try_with_metadata(off, len) {
                    ensure_eq!((r.offset(), r.len(), r.is_empty()), (off, len, len == 0), "reference");
                    check(Buf::new(b).load(r).map_err(|e| e.to_string()))?
                }
            };
        }
        match how {
            0 => load!(Ref<str>),
            1 => load!(Ref<str, Big, u16>),
            2 => load!(Ref<str, Big, usize>),
            3 => load!(Ref<str, Little, u64>),
            4 => load!(Ref<str, Big, u8>),
            5 => {
                let r = Ref::<str, Big, u64>::with_metadata(off, len);
                check(Buf::new_mut(b).load_mut(r).map(|v| &*v).map_err(|e| e.to_string()))?
            }
            _ => {
                // Bytes which are a string after all.
                let r = Ref::<[u8], Big, usize>::with_metadata(off, len).coerce::<str>();
                check(Buf::new(b).load(r).map_err(|e| e.to_string()))?
            }
        }
        ensure!(b == bytes, "loading wrote to the buffer");
        Ok(())
    });
    ensure!(clean, "str: bytes around the buffer were written");
    out.map_err(|e| format!("str of {len} at {off} of {} ({how}): {e}", hex(&bytes)))
}

// References within bytes.

#[derive(Debug, Clone, Copy, ZeroCopy)]
#[repr(C)]
struct Node {
    tag: Kind,
    next: Ref<Node, Big, u16>,
    text: Ref<str, Little, u8>,
    many: Ref<[Leaf], Big, u16>,
    nested: Ref<[Ref<[u8], Little, u8>], Little, u16>,
}

#[derive(Debug, Clone, Copy, PartialEq, ZeroCopy)]
#[repr(u8)]
enum Kind {
    A = 1,
    B = 2,
}

#[derive(Debug, Clone, Copy, PartialEq, ZeroCopy)]
#[repr(C)]
struct Leaf {
    ok: bool,
    flags: u8,
    at: Ref<u16, Native, u16>,
}

/// The layout of `Node`, as documented for C structs.
const NODE: usize = 14;

fn le(b: &[u8], at: usize) -> usize {
    b[at] as usize | (b[at + 1] as usize) << 8
}

fn be(b: &[u8], at: usize) -> usize {
    (b[at] as usize) << 8 | b[at + 1] as usize
}

/// What is found by following references, in order; or why not.
fn model(b: &[u8], start: usize, at: usize, depth: usize, out: &mut Vec<String>) -> Option<()> {
    let range = |at: usize, n: usize, align: usize| b.get(at..at + n).filter(|_| (start + at) % align == 0);
    let n = range(at, NODE, 2)?;
    if !matches!(n[0], 1 | 2) {
        return None;
    }
    out.push(format!("node {}", n[0]));
    // text: u8 offset at 4, length at 5
    match range(n[4] as usize, n[5] as usize, 1).and_then(|b| std::str::from_utf8(b).ok()) {
        Some(t) => out.push(format!("text {t:?}")),
        None => out.push("no text".to_owned()),
    }
    let (o, l) = (be(n, 6), be(n, 8));
    match range(o, l * 4, 2).filter(|b| b.chunks(4).all(|b| b[0] < 2)) {
        Some(leaves) => {
            for leaf in leaves.chunks(4) {
                let at = le(leaf, 2);
                match range(at, 2, 2) {
                    Some(v) => out.push(format!("leaf {} {} {}", leaf[0], leaf[1], le(v, 0))),
                    None => out.push(format!("leaf {} {}", leaf[0], leaf[1])),
                }
            }
        }
        None => out.push("no leaves".to_owned()),
    }
    let (o, l) = (le(n, 10), le(n, 12));
    match range(o, l * 2, 1) {
        Some(refs) => {
            for r in refs.chunks(2) {
                match range(r[0] as usize, r[1] as usize, 1) {
                    Some(v) => out.push(format!("nested {}", hex(v))),
                    None => out.push("no nested".to_owned()),
                }
            }
        }
        None => out.push("no refs".to_owned()),
    }
    if depth < 6 {
        let at = be(n, 2);
        if model(b, start, at, depth + 1, out).is_none() {
            out.push("no next".to_owned());
        }
    }
    Some(())
}

fn follow(buf: &Buf, r: Ref<Node, Big, u16>, depth: usize, out: &mut Vec<String>) -> Option<()> {
    let n = buf.load(r).ok()?;
    out.push(format!("node {}", n.tag as u8));
    match buf.load(n.text) {
        Ok(t) => out.push(format!("text {t:?}")),
        Err(_) => out.push("no text".to_owned()),
    }
    match buf.load(n.many) {
        Ok(leaves) => {
            for leaf in leaves {
                match buf.load(leaf.at) {
                    Ok(v) => out.push(format!("leaf {} {} {}", leaf.ok as u8, leaf.flags, v)),
                    Err(_) => out.push(format!("leaf {} {}", leaf.ok as u8, leaf.flags)),
                }
            }
        }
        Err(_) => out.push("no leaves".to_owned()),
    }
    match buf.load(n.nested) {
        Ok(refs) => {
            for r in refs {
                match buf.load(*r) {
                    Ok(v) => out.push(format!("nested {}", hex(v))),
                    Err(_) => out.push("no nested".to_owned()),
                }
            }
        }
        Err(_) => out.push("no refs".to_owned()),
    }
    if depth < 6 && follow(buf, n.next, depth + 1, out).is_none() {
        out.push("no next".to_owned());
    }
    Some(())
}

fn linked(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(NODE, 80);
    let mut b: Vec<u8> = (0..n)
        .map(|_| match s.upto(9) {
            0..=4 => *s.pick(&[0u8, 0, 1, 2]),
            5..=7 => s.size(0, 40) as u8,
            8 => n as u8,
            _ => s.upto(255) as u8,
        })
        .collect();
    // Some which are nearly right.
    for _ in 0..s.size(0, 3) {
        let at = 2 * s.index((n - NODE) / 2 + 1);
        b[at] = s.range(1, 2) as u8;
        b[at + 2] = 0;
        b[at + 6] = 0;
        b[at + 8] = 0;
        b[at + 9] = s.size(0, 3) as u8;
        b[at + 12] = s.size(0, 3) as u8;
        b[at + 13] = 0;
        b[at + 11] = 0;
    }
    let slack = s.size(0, 2);
    let at = if s.chance(3, 4) { 0 } else { s.size(0, n) };
    c.desc(|| format!("at {at} of {}", hex(&b)));
    let (out, clean) = guarded(&b, slack, |g| -> Res {
        let start = g.as_ptr() as usize;
        let mut want = Vec::new();
        if model(&b, start, at, 0, &mut want).is_none() {
            want.push("nothing".to_owned());
        }
        if want.len() > 6 {
            c.nontrivial(&(&b, at, slack));
            c.label("graph");
        }
        let mut got = Vec::new();
        if follow(Buf::new(g), Ref::new(at), 0, &mut got).is_none() {
            got.push("nothing".to_owned());
        }
        ensure_eq!(got, want, "at {at} of {}", hex(&b));
        ensure!(g == b, "loading wrote to the buffer");
        Ok(())
    });
    ensure!(clean, "bytes around the buffer were written");
    out
}

// References which are not where they say.

macro_rules! orders {
    ($s:expr, $f:ident::<$t:ty>($($a:expr),*)) => {
        match $s.upto(7) {
            0 => $f::<$t, Native, u32>($($a),*),
            1 => $f::<$t, Big, u16>($($a),*),
            2 => $f::<$t, Little, usize>($($a),*),
            3 => $f::<$t, Big, usize>($($a),*),
            4 => $f::<$t, Big, u32>($($a),*),
            5 => $f::<$t, Native, u8>($($a),*),
            6 => $f::<$t, Little, u16>($($a),*),
            _ => $f::<$t, Big, u64>($($a),*),
        }
    };
}

fn elements(s: &mut Src, c: &mut Case) -> Res {
    match s.upto(4) {
        0 => orders!(s, elements_of::<u8>(s, c)),
        1 => orders!(s, elements_of::<u32>(s, c)),
        2 => orders!(s, elements_of::<Padded>(s, c)),
        3 => orders!(s, elements_of::<u128>(s, c)),
        _ => orders!(s, elements_of::<()>(s, c)),
    }
}

fn hostile<O: Sz>(s: &mut Src) -> usize {
    let max = size_max::<O>() as usize;
    match s.upto(3) {
        0 => s.size(0, 24).min(max),
        1 => max - s.size(0, 24).min(max),
        2 => s.unsigned(O::BITS) as usize,
        _ => max / 2 + s.size(0, 4),
    }
}

fn elements_of<T: Z, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let bytes: Vec<u8> = (0..s.size(0, 100)).map(|n| n as u8).collect();
    let (off, len) = (hostile::<O>(s), hostile::<O>(s));
    let i = match s.upto(3) {
        0 => s.size(0, 24),
        1 => len,
        2 => len.saturating_sub(s.size(1, 5)),
        _ => s.unsigned(64) as usize,
    };
    let size = size_of::<T>();
    let how = s.upto(2);
    let name = format!("Ref<[{}], {}, {}> to {len} at {off}, of {} bytes", std::any::type_name::<T>(), std::any::type_name::<E>(), std::any::type_name::<O>(), bytes.len());
    c.desc(|| format!("{name}: {i} ({how})"));
    c.nontrivial(&(&name, i, how));
    let slack = (0isize - bytes.len() as isize).rem_euclid(16) as usize;
    let (out, clean) = guarded(&bytes, slack, |b| -> Res {
        let buf = Buf::new(b);
        let r = Ref::<[T], E, O>::with_metadata(off, len);
        match how {
            0 => {
                let item = r.get(i);
                ensure!(i < len || item.is_none(), "element {i} exists");
                let at = size.checked_mul(i).and_then(|n| n.checked_add(off)).filter(|n| *n as u128 <= size_max::<O>());
                match item {
                    Some(r) => {
                        ensure_eq!(Some(r.offset()), at, "element {i}");
                        let want = one::<T>(&bytes, r.offset()).filter(|_| (b.as_ptr() as usize + r.offset()) % align_of::<T>() == 0);
                        let got = buf.load(r).ok();
                        ensure_eq!(got.map(|v| v.image()), want.map(reimage::<T>), "element {i}");
                        if got.is_some() {
                            c.label("element");
                        }
                    }
                    None => ensure!(i >= len || at.is_none(), "no element {i}"),
                }
            }
            1 => {
                // Elements are looked at until one is not there.
                let mut seen = 0;
                let limit = s.size(0, 5);
                let all = s.bool();
                let out = binary_search_by(buf, r, |_| {
                    seen += 1;
                    Ok(if all || seen > limit { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less })
                });
                match out {
                    Ok(BinarySearch::Found(n)) => return Err(format!("found {n}")),
                    Ok(BinarySearch::Missing(n)) => ensure!(n <= len, "missing at {n}"),
                    Err(_) => c.label("search refused"),
                }
            }
            _ => {
                let p = Packed::<[T], O, O, E>::from_raw_parts(off, len);
                let out = binary_search_by(buf, p, |_| Ok(std::cmp::Ordering::Less));
                match out {
                    Ok(BinarySearch::Found(n)) => return Err(format!("found {n}")),
                    Ok(BinarySearch::Missing(n)) => ensure_eq!(n, len, "missing"),
                    Err(_) => c.label("search refused"),
                }
                let item = Slice::get(p, i);
                ensure!(i < len || item.is_none(), "element {i} exists");
                if let Some(r) = item {
                    let want = one::<T>(&bytes, r.offset()).filter(|_| (b.as_ptr() as usize + r.offset()) % align_of::<T>() == 0);
                    ensure_eq!(buf.load(r).ok().map(|v| v.image()), want.map(reimage::<T>), "element {i}");
                }
            }
        }
        Ok(())
    });
    ensure!(clean, "bytes around the buffer were written");
    out.map_err(|e| format!("{name}: {e}"))
}

/// Swapping two values.
fn swaps(s: &mut Src, c: &mut Case) -> Res {
    match s.upto(3) {
        0 => orders!(s, swap_of::<u8>(s, c)),
        1 => orders!(s, swap_of::<u32>(s, c)),
        2 => orders!(s, swap_of::<Padded>(s, c)),
        _ => orders!(s, swap_of::<()>(s, c)),
    }
}

fn swap_of<T: Z, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let bytes: Vec<u8> = (0..s.size(0, 60)).map(|n| n as u8).collect();
    let size = size_of::<T>();
    let place = |s: &mut Src| match s.upto(3) {
        0..=1 => (s.size(0, bytes.len() / size.max(1)) * size).min(size_max::<O>() as usize),
        2 => s.size(0, bytes.len() + 1).min(size_max::<O>() as usize),
        _ => hostile::<O>(s),
    };
    let (a, b) = (place(s), place(s));
    let name = format!("swap<{}, {}, {}> of {a} and {b} in {} bytes", std::any::type_name::<T>(), std::any::type_name::<E>(), std::any::type_name::<O>(), bytes.len());
    c.desc(|| name.clone());
    c.nontrivial(&name);
    let fits = |at: usize| at.checked_add(size).is_some_and(|e| e <= bytes.len());
    let (out, clean) = guarded(&bytes, 0, |g| -> Res {
        let out = Buf::new_mut(g).swap(Ref::<T, E, O>::new(a), Ref::<T, E, O>::new(b));
        if out.is_err() {
            ensure!(!(fits(a) && fits(b)), "failed: {}", out.unwrap_err());
            ensure!(g == bytes, "a failure changed the buffer");
            return Ok(());
        }
        c.label("swapped");
        ensure!(a == b || (fits(a) && fits(b)), "swapped what is not there");
        let overlap = a.abs_diff(b) < size && a != b;
        if !overlap && a != b {
            let mut want = bytes.clone();
            want[a..a + size].copy_from_slice(&bytes[b..b + size]);
            want[b..b + size].copy_from_slice(&bytes[a..a + size]);
            ensure!(*g == want, "got {}, expected {}", hex(g), hex(&want));
        }
        Ok(())
    });
    ensure!(clean, "bytes around the buffer were written");
    out.map_err(|e| format!("{name}: {e}"))
}

/// Searches in bytes with values which are not valid.
fn searches(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(0, 12);
    let b: Vec<u8> = (0..n).map(|_| s.weighted(&[3, 3, 1]) as u8).collect();
    let x = s.bool();
    c.desc(|| format!("{x} in {}", hex(&b)));
    c.nontrivial(&(&b, x));
    let (out, _) = guarded(&b, 0, |g| {
        let r = Ref::<[bool]>::with_metadata(0u32, n);
        binary_search(Buf::new(g), r, &&x)
    });
    match out {
        Ok(BinarySearch::Found(at)) => ensure_eq!(b[at], x as u8, "found at {at} in {}", hex(&b)),
        Ok(BinarySearch::Missing(at)) => ensure!(at <= n, "missing at {at} in {}", hex(&b)),
        Err(_) => ensure!(b.contains(&2), "failed in {}", hex(&b)),
    }
    Ok(())
}

fn property() -> Property {
    Property {
        id: "Z02",
        rule: "the load is in range, or refused for a reason other than its offset",
        assumptions: &[],
        families: vec![
            Family::new("typed", 3_000_000, typed).thorough(100_000_000),
            Family::new("slices", 2_000_000, slices).thorough(50_000_000),
            Family::new("strings", 600_000, strings).thorough(10_000_000),
            Family::new("linked", 600_000, linked).thorough(20_000_000),
            Family::new("elements", 800_000, elements).thorough(10_000_000),
            Family::new("swap", 300_000, swaps).thorough(5_000_000),
            Family::new("search", 200_000, searches).thorough(2_000_000),
        ],
        findings: vec![],
    }
}

fn main() {
    pbt::main(vec![property()])
}

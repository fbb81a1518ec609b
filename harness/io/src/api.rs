//! Histories of operations on writers, readers and fixed buffers.
use musli::alloc::System;
use musli::context::{self, DefaultContext};
use musli::de::UnsizedVisitor;
use musli::reader::{Reader, SliceReader};
use musli::writer::{BufWriter, IntoWriter, Writer};
use musli::{Context, FixedBytes};
use pbt::{ensure, ensure_eq, hex, short, Case, Res, Src};
use std::fmt;

use crate::sink::Sink;

#[derive(Debug, Clone)]
enum Put {
    Bytes(Vec<u8>),
    Byte(u8),
    Extend(Vec<u8>),
}

impl Put {
    fn gen(s: &mut Src) -> (Put, bool) {
        let p = match s.index(3) {
            0 => Put::Bytes(s.bytes(20)),
            1 => Put::Byte(s.upto(255) as u8),
            _ => Put::Extend(s.bytes(20)),
        };
        (p, s.bool())
    }

    fn bytes(&self) -> &[u8] {
        match self {
            Put::Bytes(b) | Put::Extend(b) => b,
            Put::Byte(b) => std::slice::from_ref(b),
        }
    }

    fn run<W: Writer, C: Context>(&self, cx: C, w: &mut W) -> Result<(), C::Error> {
        match self {
            Put::Bytes(b) => w.write_bytes(cx, b),
            Put::Byte(b) => w.write_byte(cx, *b),
            Put::Extend(b) => {
                let mut v = musli::alloc::Vec::new_in(cx.alloc());
                assert!(v.extend_from_slice(b).is_ok());
                w.extend(cx, v)
            }
        }
    }
}

/// What fits is written and what does not leaves the writer as it was.
fn drive<W: Writer>(w: &mut W, puts: &[(Put, bool)], cap: usize) -> Result<(Vec<u8>, W::Ok), String> {
    let cx = context::new().with_error::<String>();
    let cx = &cx;
    let mut want = Vec::new();
    for (i, (p, nested)) in puts.iter().enumerate() {
        let r = if *nested {
            let mut w = w.borrow_mut();
            let mut w = &mut w;
            p.run(cx, &mut w)
        } else {
            p.run(cx, w)
        };
        let b = p.bytes();
        let fits = b.len() <= cap - want.len();
        match r {
            Ok(()) => {
                ensure!(fits, "write {i}: {} bytes went into {}", b.len(), cap - want.len());
                want.extend_from_slice(b);
            }
            Err(e) => ensure!(!fits, "write {i}: failed with enough room: {e}"),
        }
    }
    let ok = w.finish(cx).map_err(|e| format!("finish failed: {e}"))?;
    Ok((want, ok))
}

pub fn writers(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(0, 12);
    let puts: Vec<_> = (0..n).map(|_| Put::gen(s)).collect();
    let total: usize = puts.iter().map(|p| p.0.bytes().len()).sum();
    if n > 1 {
        c.nontrivial(&format!("{puts:?}"));
    }
    let which = s.index(6);
    c.label(["vector", "slice", "fixed", "stream", "buffer", "small slice"][which]);
    c.desc(|| short(format!("{puts:?}")));
    let (got, want) = match which {
        0 => {
            let mut w = Vec::new();
            let (want, ()) = drive(&mut w, &puts, usize::MAX)?;
            (w, want)
        }
        1 | 5 => {
            let cap = if which == 1 { total + s.size(0, 4) } else { s.size(0, total) };
            let ((r, b), clean) = zc::guard::guarded(&vec![0; cap], s.size(0, 8), |b| {
                let r = drive(&mut (&mut *b).into_writer(), &puts, cap);
                (r, b.to_vec())
            });
            let (want, left) = r?;
            ensure!(clean, "wrote outside of the slice");
            ensure_eq!(left, cap - want.len(), "what is left of {cap} bytes");
            (b[..want.len()].to_vec(), want)
        }
        2 => {
            let mut w = FixedBytes::<40>::new();
            let (want, ()) = drive(&mut w, &puts, 40)?;
            (w.as_slice().to_vec(), want)
        }
        3 => {
            let mut sink = Sink::gen(s);
            let (want, ()) = drive(&mut musli::wrap::wrap(&mut sink), &puts, usize::MAX)?;
            (sink.out, want)
        }
        _ => {
            let mut w = BufWriter::new(System::new());
            let (want, ()) = drive(&mut w, &puts, usize::MAX)?;
            (w.into_inner().as_slice().to_vec(), want)
        }
    };
    ensure!(got == want, "wrote {} and not {}", hex(&got), hex(&want));
    Ok(())
}

struct Bytes<'a>(&'a mut Vec<u8>, bool);

#[musli::de::unsized_visitor]
impl<'de, C> UnsizedVisitor<'de, C, [u8]> for Bytes<'_>
where
    C: Context,
{
    type Ok = ();

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "bytes")
    }

    fn visit_ref(self, cx: C, b: &[u8]) -> Result<(), C::Error> {
        if self.1 {
            return Err(cx.message("refused"));
        }
        self.0.extend_from_slice(b);
        Ok(())
    }
}

#[derive(Debug, Clone)]
enum Get {
    Read(usize),
    Bytes(usize),
    Refuse(usize),
    Uninit(usize),
    Byte,
    Array(usize),
    Skip(usize),
    Peek,
    Eof,
    /// On a copy.
    Cloned(Vec<Get>),
    /// Up to a limit.
    Limited(usize, Vec<Get>),
    /// Through another reference.
    Nested(Vec<Get>),
}

impl Get {
    fn gen(s: &mut Src, depth: usize) -> Get {
        let n = |s: &mut Src| if s.weighted(&[30, 1]) == 0 { s.size(0, 20) } else { *s.pick(&[usize::MAX, usize::MAX / 2, 1000]) };
        match s.index(if depth == 0 { 9 } else { 12 }) {
            0 => Get::Read(s.size(0, 20)),
            1 => Get::Bytes(n(s)),
            2 => Get::Refuse(s.size(0, 9)),
            3 => Get::Uninit(s.size(0, 20)),
            4 => Get::Byte,
            5 => Get::Array(*s.pick(&[0, 1, 4, 9])),
            6 => Get::Skip(n(s)),
            7 => Get::Peek,
            8 => Get::Eof,
            k => {
                let m = s.size(0, 4);
                let limit = n(s);
                let ops = (0..m).map(|_| Get::gen(s, depth - 1)).collect();
                match k {
                    9 => Get::Cloned(ops),
                    10 => Get::Limited(limit, ops),
                    _ => Get::Nested(ops),
                }
            }
        }
    }
}

type Cx = DefaultContext<System, musli::context::NoTrace, musli::context::Emit<String>>;

/// Nested readers have nested types, so how deep they are is a parameter.
trait Deeper {
    fn go<'de, R: Reader<'de>>(cx: &Cx, r: &mut R, b: &[u8], ops: &[Get]) -> Result<Option<usize>, String>;
}
struct L0;
struct L1;
struct L2;
impl Deeper for L0 {
    fn go<'de, R: Reader<'de>>(_: &Cx, _: &mut R, _: &[u8], _: &[Get]) -> Result<Option<usize>, String> {
        unreachable!("not generated")
    }
}
impl Deeper for L1 {
    fn go<'de, R: Reader<'de>>(cx: &Cx, r: &mut R, b: &[u8], ops: &[Get]) -> Result<Option<usize>, String> {
        get::<L0, R>(cx, r, b, ops)
    }
}
impl Deeper for L2 {
    fn go<'de, R: Reader<'de>>(cx: &Cx, r: &mut R, b: &[u8], ops: &[Get]) -> Result<Option<usize>, String> {
        get::<L1, R>(cx, r, b, ops)
    }
}

/// The reader has just these bytes. Gives how many of them were used, or
/// nothing if there was an error, after which nothing is known.
fn get<'de, D: Deeper, R: Reader<'de>>(cx: &Cx, r: &mut R, b: &[u8], ops: &[Get]) -> Result<Option<usize>, String> {
    let mut at = 0;
    for op in ops {
        let rest = &b[at..];
        let mut check = |name: &str, n: usize, got: Result<Vec<u8>, String>| match (got, rest.get(..n)) {
            (Ok(got), Some(want)) => {
                ensure!(got == want, "{name}({n}) gave {} and not {}", hex(&got), hex(want));
                at += n;
                Ok(true)
            }
            (Ok(got), None) => Err(format!("{name}({n}) gave {} with {} bytes left", hex(&got), rest.len())),
            (Err(e), Some(_)) => Err(format!("{name}({n}) failed with {} bytes left: {e}", rest.len())),
            (Err(_), None) => Ok(false),
        };
        let fine = match op {
            Get::Read(n) => {
                let mut out = vec![0xee; *n];
                let r = r.read(cx, &mut out);
                check("read", *n, r.map(|()| out))?
            }
            Get::Bytes(n) => {
                let mut out = Vec::new();
                let r = r.read_bytes(cx, *n, Bytes(&mut out, false));
                check("read_bytes", *n, r.map(|()| out))?
            }
            Get::Refuse(n) => {
                ensure!(r.read_bytes(cx, *n, Bytes(&mut Vec::new(), true)).is_err(), "read_bytes({n}) lost the error of the visitor");
                false
            }
            Get::Uninit(n) => {
                let mut out = vec![0xee; *n];
                // SAFETY: there is this much memory
                let r = unsafe { r.read_bytes_uninit(cx, out.as_mut_ptr(), *n) };
                check("read_bytes_uninit", *n, r.map(|()| out))?
            }
            Get::Byte => check("read_byte", 1, r.read_byte(cx).map(|b| vec![b]))?,
            Get::Array(n) => {
                let got = match n {
                    0 => r.read_array::<_, 0>(cx).map(Vec::from),
                    1 => r.read_array::<_, 1>(cx).map(Vec::from),
                    4 => r.read_array::<_, 4>(cx).map(Vec::from),
                    _ => r.read_array::<_, 9>(cx).map(Vec::from),
                };
                check("read_array", *n, got)?
            }
            Get::Skip(n) => {
                let want = rest.get(..*n).map(<[u8]>::to_vec).unwrap_or_default();
                check("skip", *n, r.skip(cx, *n).map(|()| want))?
            }
            Get::Peek => {
                ensure_eq!(r.peek(), rest.first().copied(), "peek");
                true
            }
            Get::Eof => {
                ensure_eq!(r.is_eof(), rest.is_empty(), "is_eof with {} bytes left", rest.len());
                true
            }
            Get::Cloned(ops) => {
                let mut r = r.try_clone().ok_or("a reader was not cloned")?;
                D::go(cx, &mut r, rest, ops)?;
                true
            }
            Get::Limited(n, ops) => {
                let mut l = r.borrow_mut().limit(*n);
                let m = rest.len().min(*n);
                match D::go(cx, &mut l, &rest[..m], ops)? {
                    Some(used) => {
                        ensure_eq!(l.remaining(), n - used, "what remains of a limit of {n}");
                        at += used;
                        true
                    }
                    None => false,
                }
            }
            Get::Nested(ops) => match D::go(cx, &mut r.borrow_mut(), rest, ops)? {
                Some(used) => {
                    at += used;
                    true
                }
                None => false,
            },
        };
        if !fine {
            // Whatever it is, this does nothing bad.
            let _ = r.peek();
            let _ = r.is_eof();
            return Ok(None);
        }
    }
    Ok(Some(at))
}

pub fn readers(s: &mut Src, c: &mut Case) -> Res {
    let b = s.bytes(60);
    let n = s.size(0, 10);
    let ops: Vec<_> = (0..n).map(|_| Get::gen(s, 2)).collect();
    if n > 1 {
        c.nontrivial(&format!("{b:?}{ops:?}"));
    }
    c.desc(|| short(format!("{} {ops:?}", hex(&b))));
    let cx = context::new().with_error::<String>();
    let limit = s.size(0, b.len() + 2);
    let m = limit.min(b.len());
    let (res, clean) = zc::guard::guarded(&b, 0, |b| -> Res {
        let b = &*b;
        let done = |r: Result<Option<usize>, String>, name: &str| r.map_err(|e| format!("{name}: {e}"));
        {
            let mut r = b;
            let used = done(get::<L2, _>(&cx, &mut r, b, &ops), "a slice")?;
            ensure!(used.is_none_or(|n| r == &b[n..]), "a slice: {} is left", hex(r));
            if used.is_some() {
                c.label("to the end");
            }
        }
        {
            let mut r = SliceReader::new(b);
            let used = done(get::<L2, _>(&cx, &mut r, b, &ops), "a slice reader")?;
            ensure!(used.is_none_or(|n| r.as_slice() == &b[n..]), "a slice reader: {} is left", hex(r.as_slice()));
        }
        {
            let mut r = SliceReader::new(b).limit(limit);
            let used = done(get::<L2, _>(&cx, &mut r, &b[..m], &ops), "a limited slice reader")?;
            ensure!(used.is_none_or(|n| r.remaining() == limit - n), "a limited slice reader: {} remain", r.remaining());
        }
        {
            let mut inner = b;
            let mut r = (&mut inner).limit(limit + 3).limit(limit);
            let used = done(get::<L1, _>(&cx, &mut r, &b[..m], &drop_deep(&ops, 1)), "a twice limited slice")?;
            let left = r.remaining();
            ensure!(used.is_none_or(|n| left == limit - n), "a twice limited slice: {left} remain");
            ensure!(b.len() - inner.len() <= limit, "a twice limited slice: more was used");
        }
        Ok(())
    });
    res?;
    ensure!(clean, "memory was written to");
    Ok(())
}

/// Without what is nested deeper.
fn drop_deep(ops: &[Get], depth: usize) -> Vec<Get> {
    ops.iter()
        .filter(|g| depth > 0 || !matches!(g, Get::Cloned(..) | Get::Limited(..) | Get::Nested(..)))
        .map(|g| match g {
            Get::Cloned(o) => Get::Cloned(drop_deep(o, depth - 1)),
            Get::Limited(n, o) => Get::Limited(*n, drop_deep(o, depth - 1)),
            Get::Nested(o) => Get::Nested(drop_deep(o, depth - 1)),
            g => g.clone(),
        })
        .collect()
}

/// A fixed buffer is a vector which does not grow.
pub fn fixed(s: &mut Src, c: &mut Case) -> Res {
    match s.index(4) {
        0 => fixed_n::<0>(s, c),
        1 => fixed_n::<1>(s, c),
        2 => fixed_n::<8>(s, c),
        _ => fixed_n::<33>(s, c),
    }
}

fn fixed_n<const N: usize>(s: &mut Src, c: &mut Case) -> Res {
    let mut b = if s.bool() { FixedBytes::<N>::new() } else { FixedBytes::<N>::with_capacity(s.size(0, N)) };
    let mut m: Vec<u8> = Vec::new();
    let cx = context::new().with_error::<String>();
    let n = s.size(0, 12);
    let mut log = vec![format!("{N}")];
    for i in 0..n {
        match s.index(5) {
            0 => {
                let v = s.upto(255) as u8;
                log.push(format!("push {v}"));
                let fits = m.len() < N;
                ensure_eq!(b.push(v), fits, "push {i} with {} of {N}", m.len());
                if fits {
                    m.push(v);
                }
            }
            1 => {
                let v = s.bytes(N + 2);
                log.push(format!("extend {}", hex(&v)));
                let fits = v.len() <= N - m.len();
                ensure_eq!(b.extend_from_slice(&v), fits, "extend {i} by {} with {} of {N}", v.len(), m.len());
                if fits {
                    m.extend_from_slice(&v);
                }
            }
            2 => {
                let v = s.bytes(N + 2);
                log.push(format!("write {}", hex(&v)));
                let fits = v.len() <= N - m.len();
                ensure_eq!(b.write_bytes(&cx, &v).is_ok(), fits, "write {i} of {} with {} of {N}", v.len(), m.len());
                if fits {
                    m.extend_from_slice(&v);
                }
            }
            3 => {
                if s.weighted(&[3, 1]) == 1 {
                    log.push(String::from("clear"));
                    b.clear();
                    m.clear();
                }
            }
            _ => {
                if !m.is_empty() {
                    let at = s.index(m.len());
                    log.push(format!("change {at}"));
                    b.as_mut_slice()[at] ^= 0x11;
                    m[at] ^= 0x11;
                    b[at] ^= 0x40;
                    m[at] ^= 0x40;
                }
            }
        }
        ensure!(b.as_slice() == m && *b == *m && b.len() == m.len() && b.is_empty() == m.is_empty(), "after {i}: holds {} and not {}", hex(&b), hex(&m));
        ensure_eq!(b.remaining(), N - m.len(), "after {i}: what remains");
    }
    if n > 2 {
        c.nontrivial(&log);
    }
    c.desc(|| short(log.join(", ")));
    let full = m.len() == N;
    match b.into_bytes() {
        Some(b) => ensure!(full && b[..] == m[..], "into_bytes gave {} and not {}", hex(&b), hex(&m)),
        None => ensure!(!full, "into_bytes gave nothing with all of {N} bytes"),
    }
    Ok(())
}

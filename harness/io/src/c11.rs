use iod::Io;
use pbt::{ensure, ensure_eq, hex, short, Case, Family, Property, Res, Src};

use dynv::*;

use crate::ios;
use crate::sink::{Fail, Sink};

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "a case is a random shape and value with the targets, capacities, faults, sources or contexts it is put through, or a history of operations on a writer or reader",
        assumptions: &["streams follow the contract of std::io::Write"],
        families: vec![
            Family::new("targets", 500_000, targets).thorough(60_000_000),
            Family::new("faults", 400_000, faults).thorough(40_000_000),
            Family::new("sources", 400_000, sources).thorough(60_000_000),
            Family::new("altered", 400_000, altered).thorough(60_000_000),
            Family::new("derived", 200_000, crate::derived::derived).thorough(20_000_000),
            Family::new("writers", 500_000, crate::api::writers).thorough(20_000_000),
            Family::new("readers", 500_000, crate::api::readers).thorough(20_000_000),
            Family::new("fixed", 250_000, crate::api::fixed).thorough(10_000_000),
        ],
        findings: vec![],
    }
}

/// A format, a shape and a value of it.
fn input(s: &mut Src, c: &mut Case) -> (&'static Io, u64, Ty, Val) {
    let io = s.pick(ios());
    let st = s.upto(u32::MAX as u64);
    let mut g = Gen::new(io.caps);
    let d = s.size(0, 4);
    let ty = g.ty(s, d);
    let v = g.val(s, &ty);
    c.desc(|| short(format!("{} {:?} {:?}", io.name, ty, v)));
    if v.size() > 1 {
        c.nontrivial(&(io.name, &v));
    }
    (io, st, ty, v)
}

fn same(name: &str, got: R<Vec<u8>>, want: &[u8]) -> Res {
    match got {
        Ok(b) if b == want => Ok(()),
        Ok(b) => Err(format!("{name} has {} and not {}", hex(&b), hex(want))),
        Err(e) => Err(format!("{name} failed: {e}")),
    }
}

fn targets(s: &mut Src, c: &mut Case) -> Res {
    let (io, st, _, v) = input(s, c);
    let run = |f: &dyn Fn() -> R<Vec<u8>>| {
        set_style(st);
        f()
    };
    let want = match run(&|| (io.to_vec)(&v)) {
        Ok(want) => want,
        Err(e) => return Err(format!("{}: encoding failed: {e}", io.name)),
    };
    // Appended to what is there.
    let pre = s.bytes(4);
    same("a vector with a prefix", run(&|| {
        let mut out = pre.clone();
        (io.append)(&v, &mut out)?;
        ensure!(out.starts_with(&pre), "a vector with a prefix: lost it");
        Ok(out[pre.len()..].to_vec())
    }), &want)?;
    // Slices which have enough room.
    let extra = s.size(0, 9);
    let mut room = vec![0xa5; want.len() + extra];
    let (got, clean) = zc::guard::guarded(&room, s.size(0, 16), |b| {
        set_style(st);
        (io.to_slice)(&v, b).map(|n| b[..n].to_vec())
    });
    same("to_slice", got, &want)?;
    ensure!(clean, "to_slice: wrote outside of the slice");
    same("a slice", run(&|| {
        let mut b = room.clone();
        let left = (io.in_slice)(&v, &mut b)?;
        ensure_eq!(left, extra, "a slice: what is left of it");
        Ok(b[..b.len() - left].to_vec())
    }), &want)?;
    room.clear();
    // Fixed buffers.
    for (n, f) in &io.fixed {
        let got = run(&|| f(&v));
        if *n >= want.len() {
            same("to_fixed_bytes", got, &want)?;
            c.label("fits a fixed buffer");
        } else {
            ensure!(got.is_err(), "to_fixed_bytes: {} bytes went into {n}", want.len());
            c.label("does not fit a fixed buffer");
        }
    }
    let pre = s.bytes(48);
    set_style(st);
    let (r, out) = (io.fixed_append)(&v, &pre);
    ensure!(out.starts_with(&pre), "a fixed buffer with a prefix: lost it");
    let got = &out[pre.len()..];
    if want.len() + pre.len() <= 48 {
        same("a fixed buffer with a prefix", r.map(|()| got.to_vec()), &want)?;
    } else {
        ensure!(r.is_err(), "a fixed buffer with a prefix: too much went into it");
        ensure!(want.starts_with(got), "a fixed buffer with a prefix: has {} which is not a part of {}", hex(got), hex(&want));
    }
    // Streams.
    let sink = Sink::gen(s);
    for (name, f) in [("to_writer", io.to_writer), ("a wrapped stream", io.wrapped)] {
        same(name, run(&|| {
            let mut w = sink.clone();
            f(&v, &mut w)?;
            Ok(w.out)
        }), &want)?;
    }
    // Contexts.
    for (name, f) in &io.enc_cx {
        same(name, run(&|| f(&v)), &want)?;
    }
    Ok(())
}

fn faults(s: &mut Src, c: &mut Case) -> Res {
    let (io, st, _, v) = input(s, c);
    set_style(st);
    let want = (io.to_vec)(&v).map_err(|e| format!("{}: encoding failed: {e}", io.name))?;
    if want.is_empty() {
        return Ok(());
    }
    // All of the capacities and positions if there are few, and some of them
    // otherwise.
    let at: Vec<usize> = match want.len() {
        n @ ..=24 => (0..n).collect(),
        n => {
            let mut at = vec![0, 1, n - 1, n / 2];
            at.extend((0..8).map(|_| s.index(n)));
            at
        }
    };
    c.label(if want.len() <= 24 { "every position" } else { "some positions" });
    let slack = s.size(0, 16);
    for &n in &at {
        for (name, f) in [("to_slice", io.to_slice), ("a slice", io.in_slice)] {
            let ((r, b), clean) = zc::guard::guarded(&vec![0; n], slack, |b| {
                set_style(st);
                (f(&v, b), b.to_vec())
            });
            ensure!(r.is_err(), "{name}: {} bytes went into {n}", want.len());
            ensure!(clean, "{name}: wrote outside of the {n} bytes");
            // Only a prefix is ever written.
            let m = b.iter().zip(&want).take_while(|(a, b)| a == b).count();
            ensure!(b[m..].iter().all(|b| *b == 0), "{name}: {n} bytes hold {} which is not a part of {}", hex(&b), hex(&want));
        }
    }
    let mut sink = Sink::gen(s);
    let how = if s.bool() { Fail::Error } else { Fail::Zero };
    for &n in &at {
        sink.fail = Some((n, how.clone()));
        for (name, f) in [("to_writer", io.to_writer), ("a wrapped stream", io.wrapped)] {
            let mut w = sink.clone();
            set_style(st);
            let r = f(&v, &mut w);
            ensure!(r.is_err(), "{name}: the stream failed after {n} of {} bytes and this succeeded", want.len());
            ensure!(w.failed, "{name}: failed before the stream did: {r:?}");
            ensure!(w.out == want[..n], "{name}: wrote {} which is not a part of {}", hex(&w.out), hex(&want));
            ensure_eq!(w.after, 0, "{name}: bytes written after the stream failed");
        }
    }
    Ok(())
}

fn tail(s: &mut Src, io: &Io) -> Vec<u8> {
    if io.kind == Kind::Json {
        s.pick(&[&b""[..], b",", b"]", b"}", b" ", b"\n1", b"\"", b":"])
            .to_vec()
    } else {
        s.bytes(12)
    }
}

fn sources(s: &mut Src, c: &mut Case) -> Res {
    let (io, st, ty, v) = input(s, c);
    set_style(st);
    let b = (io.to_vec)(&v).map_err(|e| format!("{}: encoding failed: {e}", io.name))?;
    let mut long = b.clone();
    long.extend(tail(s, io));
    let st = st.rotate_left(7);
    let more = s.size(0, long.len() - b.len());
    for (name, limited, f) in &io.dec {
        for n in [b.len(), b.len() + more, long.len()] {
            set_style(st);
            let (out, used) = f(&ty, if *limited { &long } else { &long[..n] }, n).map_err(|e| format!("{name}: decoding failed with {n} of {} bytes: {e}", long.len()))?;
            ensure!(out == v, "{name}: decoded {} instead of {}", short(format!("{out:?}")), short(format!("{v:?}")));
            if let Some(used) = used {
                ensure_eq!(used, b.len(), "{name}: bytes used of {n}");
            }
        }
    }
    for (name, f) in &io.dec_cx {
        set_style(st);
        let out = f(&ty, &long).map_err(|e| format!("{name}: decoding failed: {e}"))?;
        ensure!(out == v, "{name}: decoded {} instead of {}", short(format!("{out:?}")), short(format!("{v:?}")));
    }
    Ok(())
}

/// Whatever the input is, every source gives the same.
fn altered(s: &mut Src, c: &mut Case) -> Res {
    let (io, st, ty, v) = input(s, c);
    set_style(st);
    let mut b = (io.to_vec)(&v).map_err(|e| format!("{}: encoding failed: {e}", io.name))?;
    b.extend(tail(s, io));
    let full = b.len();
    for _ in 0..s.size(0, 3) {
        if b.is_empty() {
            break;
        }
        let i = s.index(b.len());
        match s.index(4) {
            0 => b[i] = s.upto(255) as u8,
            1 => b[i] ^= 1 << s.index(8),
            2 => {
                b.remove(i);
            }
            _ => b.insert(i, *s.pick(&[0, 1, b'"', b'{', 0xff, b' ', b'\\', 0x80])),
        }
    }
    if io.kind == Kind::Json && std::str::from_utf8(&b).is_err() {
        // Only some of the sources can have it.
        b = String::from_utf8_lossy(&b).into_owned().into_bytes();
    }
    let mut n = if s.bool() { b.len() } else { s.size(0, b.len()) };
    while io.kind == Kind::Json && std::str::from_utf8(&b[..n]).is_err() {
        n -= 1;
    }
    let ty = if s.weighted(&[4, 1]) == 0 {
        ty
    } else {
        c.label("another shape");
        let d = s.size(0, 3);
        Gen::new(io.caps).ty(s, d)
    };
    if zero_width(&ty) {
        // Announcing many of those is a listed finding of C05.
        c.label("elements which take no bytes");
        return Ok(());
    }
    c.desc(|| format!("{} as {}", hex(&b[..n]), short(format!("{ty:?}"))));
    c.label(if n < full { "cut short" } else { "whole" });
    let st = st.rotate_left(7);
    let mut first: Option<(R<Val>, &str)> = None;
    let mut place: Option<(usize, &str)> = None;
    for (name, limited, f) in &io.dec {
        set_style(st);
        let got = f(&ty, if *limited { &b } else { &b[..n] }, n);
        if let Ok((_, Some(used))) = &got {
            match &place {
                None => place = Some((*used, name)),
                Some((u, n)) => ensure_eq!(used, u, "{name} used another number of bytes than {n}"),
            }
        }
        agree(&mut first, got.map(|v| v.0), name)?;
    }
    for (name, f) in &io.dec_cx {
        set_style(st);
        agree(&mut first, f(&ty, &b[..n]), name)?;
    }
    c.label(match first {
        Some((Ok(_), _)) => "decoded",
        _ => "an error",
    });
    Ok(())
}

fn agree<'a>(first: &mut Option<(R<Val>, &'a str)>, got: R<Val>, name: &'a str) -> Res {
    if let Err(e) = &got {
        ensure!(!e.starts_with("NOTHING"), "{name}: failed without an error");
    }
    match (&*first, &got) {
        (None, _) => *first = Some((got, name)),
        (Some((Err(_), _)), Err(_)) => {}
        (Some((Ok(a), _)), Ok(b)) if a == b => {}
        (Some((a, n)), b) => return Err(format!("{name} gives {} where {n} gives {}", short(format!("{b:?}")), short(format!("{a:?}")))),
    }
    Ok(())
}

use pbt::{ensure, hex, short, Case, Family, Property, Res, Src};

use dynv::*;

use crate::formats::formats;

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "a case is a random shape with a random value of it",
        assumptions: &[],
        families: vec![Family::new("dynamic", 6_000_000, dynamic).thorough(72_000_000)],
        findings: vec![],
    }
}

/// Does every pointer-sized number and length fit in the given width?
pub fn fits(v: &Val, fmt: &Fmt) -> bool {
    let max: u128 = match fmt.opts.ptr {
        1 => u8::MAX as u128,
        2 => u16::MAX as u128,
        4 => u32::MAX as u128,
        _ => return true,
    };
    if fmt.kind == Kind::Json || fmt.kind == Kind::Value {
        return true;
    }
    walk(v, &mut |v| match v {
        Val::Int(Int::Usize, n) => n.u() <= max,
        Val::Int(Int::Isize, n) => (n.i() as isize as usize as u128) <= max,
        Val::Str(s) => s.len() as u128 <= max,
        Val::Bytes(s) | Val::Arr(s) => s.len() as u128 <= max,
        Val::Seq(v) | Val::Tuple(v) | Val::Seqv(_, v) => v.len() as u128 <= max,
        Val::Slice(_, v) => v.len() as u128 <= max,
        Val::Map(v) | Val::Struct(v) | Val::Mapv(_, v) => v.len() as u128 * 2 <= max,
        // The length of a pack in bytes is announced, except where all is packed.
        Val::Pack(_) if matches!(fmt.kind, Kind::Wire | Kind::Descriptive) => packed_bound(v) <= max,
        _ => true,
    })
}

/// An upper bound for the size of something in a pack.
pub fn packed_bound(v: &Val) -> u128 {
    let many = |v: &[Val]| v.iter().map(packed_bound).sum::<u128>();
    let pairs = |v: &[(Val, Val)]| v.iter().map(|(k, v)| packed_bound(k) + packed_bound(v)).sum::<u128>();
    20 + match v {
        Val::Str(s) => s.len() as u128,
        Val::Bytes(s) | Val::Arr(s) => s.len() as u128,
        Val::Slice(_, v) => 20 * v.len() as u128,
        Val::Some(v) | Val::Unitv(v) => packed_bound(v),
        Val::Seq(v) | Val::Tuple(v) | Val::Pack(v) => many(v),
        Val::Map(v) | Val::Struct(v) => pairs(v),
        Val::Datav(t, v) => packed_bound(t) + packed_bound(v),
        Val::Seqv(t, v) => packed_bound(t) + many(v),
        Val::Mapv(t, v) => packed_bound(t) + pairs(v),
        _ => 0,
    }
}

pub fn walk(v: &Val, f: &mut impl FnMut(&Val) -> bool) -> bool {
    f(v) && match v {
        Val::Some(v) | Val::Unitv(v) => walk(v, f),
        Val::Seq(v) | Val::Tuple(v) | Val::Pack(v) => v.iter().all(|v| walk(v, f)),
        Val::Map(v) | Val::Struct(v) => v.iter().all(|(k, v)| walk(k, f) && walk(v, f)),
        Val::Datav(t, v) => walk(t, f) && walk(v, f),
        Val::Seqv(t, v) => walk(t, f) && v.iter().all(|v| walk(v, f)),
        Val::Mapv(t, v) => walk(t, f) && v.iter().all(|(k, v)| walk(k, f) && walk(v, f)),
        _ => true,
    }
}

fn dynamic(s: &mut Src, c: &mut Case) -> Res {
    let fmt = &formats()[s.index(formats().len())];
    let st = s.upto(u32::MAX as u64);
    let mut g = Gen::new(fmt.caps);
    let d = s.size(0, 4);
    let ty = g.ty(s, d);
    let v = g.val(s, &ty);
    c.desc(|| format!("{} {:?} {:?}", fmt.name, ty, v));
    set_style(st);
    let bytes = match (fmt.enc)(&v) {
        Ok(b) => b,
        Err(e) => {
            ensure!(!fits(&v, fmt), "{}: encoding failed: {e}", fmt.name);
            c.label("does not fit the pointer width");
            return Ok(());
        }
    };
    if v.size() > 1 {
        c.nontrivial(&(fmt.name, &v));
    }
    c.desc(|| format!("bytes {}", hex(&bytes)));
    set_style(st.rotate_left(7));
    let out = (fmt.dec)(&ty, &bytes).map_err(|e| format!("{}: decoding failed: {e}", fmt.name))?;
    ensure!(out == v, "{}: decoded {} instead of {}", fmt.name, short(format!("{out:?}")), short(format!("{v:?}")));
    // followed by something else
    let mut more = bytes.clone();
    let tail: &[u8] = if fmt.kind == Kind::Json { b"," } else { &[0xff, 0, 1] };
    more.extend_from_slice(tail);
    let (out, n) = (fmt.dec_rest)(&ty, &more).map_err(|e| format!("{}: decoding with a tail failed: {e}", fmt.name))?;
    ensure!(out == v, "{}: with a tail decoded {:?}", fmt.name, out);
    ensure!(n == bytes.len(), "{}: consumed {n} of {}", fmt.name, bytes.len());
    Ok(())
}

use pbt::{ensure, hex, short, Case, Family, Finding, Property, Res, Src};

use dynv::*;

use crate::formats::throughs;
use crate::js::Js;

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "the value has more than one node",
        assumptions: &[],
        families: vec![
            Family::new("document", 1_500_000, document).thorough(18_000_000),
            Family::new("model", 1_500_000, model).thorough(18_000_000),
            Family::new("buffer", 1_500_000, buffer).thorough(18_000_000),
            Family::new("json-document", 1_000_000, json_document).thorough(12_000_000),
        ],
        findings: vec![Finding { id: "C03-json-buffered-pack", probe: json_buffered_pack }],
    }
}

/// A pack is a sequence in JSON, which a buffered value does not decode as a
/// pack.
fn json_buffered_pack() -> Option<String> {
    let t = throughs().iter().find(|t| t.kind == Kind::Json)?;
    let ty = Ty::Pack(vec![Ty::Int(Int::U8)]);
    let v = Val::Pack(vec![Val::Int(Int::U8, Num::U(1))]);
    let b = (t.enc)(&v).ok()?;
    (t.buffered)(&ty, &b).err()
}

/// What each of these can carry through a dynamic value.
fn caps(t: &Through) -> Caps {
    if t.kind == Kind::Json { JSON } else { BINARY }
}

fn gen(s: &mut Src, t: &Through) -> (Ty, Val) {
    let mut g = Gen::new(caps(t));
    // Lengths have to fit the pointer width.
    if t.opts.ptr == 1 {
        g.str_max = 100;
    }
    let d = s.size(0, 4);
    let ty = g.ty(s, d);
    let v = g.val(s, &ty);
    (ty, v)
}

fn pick<'a>(s: &mut Src) -> &'a Through {
    &throughs()[s.index(throughs().len())]
}

/// Bytes to a value and back to bytes stand for the same data.
fn document(s: &mut Src, c: &mut Case) -> Res {
    let t = pick(s);
    let (ty, v) = gen(s, t);
    c.desc(|| format!("{} {:?} {:?}", t.name, ty, v));
    let Ok(b) = (t.enc)(&v) else { return Ok(()) };
    if v.size() > 1 {
        c.nontrivial(&(t.name, &v));
    }
    let b2 = (t.redo)(&b).map_err(|e| format!("{}: going through a value failed: {e}", t.name))?;
    c.desc(|| format!("bytes {} and {}", hex(&b), hex(&b2)));
    let v2 = (t.dec)(&ty, &b2).map_err(|e| format!("{}: decoding what a value encodes failed: {e}", t.name))?;
    ensure!(v2 == v, "{}: through a value {} became {}", t.name, short(format!("{v:?}")), short(format!("{v2:?}")));
    Ok(())
}

/// A model becomes a value and the other way around, as it becomes bytes.
fn model(s: &mut Src, c: &mut Case) -> Res {
    let t = pick(s);
    let (ty, v) = gen(s, t);
    c.desc(|| format!("{} {:?} {:?}", t.name, ty, v));
    if v.size() > 1 {
        c.nontrivial(&(t.name, &v));
    }
    let Ok(direct) = (t.enc)(&v) else { return Ok(()) };
    // The bytes of a pack may not have a length which fits.
    if t.opts.ptr == 1 && crate::c02::has_pack(&ty) {
        return Ok(());
    }
    let b = (t.from_value)(&v).map_err(|e| format!("{}: encoding the value of a model failed: {e}", t.name))?;
    // Packs are opaque bytes, laid out by the options of the value.
    if t.kind == Kind::Descriptive && !crate::c02::has_pack(&ty) {
        ensure!(b == direct, "{}: the value of a model is encoded as {} and the model as {}", t.name, hex(&b), hex(&direct));
    }
    if t.kind == Kind::Json && !crate::c02::has_pack(&ty) {
        let x = Js::parse(&b)?;
        let y = Js::parse(&direct)?;
        ensure!(x == y, "{}: the value of a model is encoded as {} and the model as {}", t.name, short(format!("{x:?}")), short(format!("{y:?}")));
    }
    if !crate::c02::has_pack(&ty) {
        let v2 = (t.dec)(&ty, &b).map_err(|e| format!("{}: decoding what the value of a model encodes failed: {e}", t.name))?;
        ensure!(v2 == v, "{}: through a value {} became {}", t.name, short(format!("{v:?}")), short(format!("{v2:?}")));
    }
    if t.kind == Kind::Descriptive && !crate::c02::has_pack(&ty) {
        let v2 = (t.to_value)(&ty, &direct).map_err(|e| format!("{}: decoding a model from the value of its bytes failed: {e}", t.name))?;
        ensure!(v2 == v, "{}: from a value {} became {}", t.name, short(format!("{v:?}")), short(format!("{v2:?}")));
    }
    Ok(())
}

/// Decoding through a buffer is the same as decoding.
fn buffer(s: &mut Src, c: &mut Case) -> Res {
    let t = pick(s);
    let (ty, v) = gen(s, t);
    if t.kind == Kind::Json && crate::c02::has_pack(&ty) {
        return Ok(());
    }
    c.desc(|| format!("{} {:?} {:?}", t.name, ty, v));
    let Ok(b) = (t.enc)(&v) else { return Ok(()) };
    if v.size() > 1 {
        c.nontrivial(&(t.name, &v));
    }
    c.desc(|| format!("bytes {}", hex(&b)));
    let direct = (t.dec)(&ty, &b).map_err(|e| format!("{}: decoding failed: {e}", t.name))?;
    let (x, y) = (t.buffered)(&ty, &b).map_err(|e| format!("{}: decoding from a buffer failed: {e}", t.name))?;
    ensure!(x == direct, "{}: buffered {} became {}", t.name, short(format!("{direct:?}")), short(format!("{x:?}")));
    ensure!(y == direct, "{}: buffered a second time {} became {}", t.name, short(format!("{direct:?}")), short(format!("{y:?}")));
    Ok(())
}

/// Any JSON document keeps its data.
fn json_document(s: &mut Src, c: &mut Case) -> Res {
    let js = Js::gen(s, 4, &mut 40);
    let text = js.render(s);
    c.desc(|| short(&text));
    if !matches!(js, Js::Null | Js::Bool(_)) {
        c.nontrivial(&text);
    }
    let t = throughs().iter().find(|t| t.kind == Kind::Json).unwrap();
    let b = (t.redo)(text.as_bytes()).map_err(|e| format!("going through a value failed: {e}"))?;
    let out = Js::parse(&b)?;
    ensure!(js.near(&out), "became {}", short(String::from_utf8_lossy(&b)));
    Ok(())
}

//! The bridge to serde against native documents, against serde_json, and over
//! derived types.
mod fixed;
mod model;

use dti::{Pair, COMBOS, TABLE};
use dynv::{Num, Val};
use model::{has_unit_variant, with_ty, Bridge, De, Doc, Dyn, Gen, Ser, Ty};
use pbt::{ensure, ensure_eq, hex, short, Case, Family, Property, Res, Src};
use serde::de::DeserializeSeed;

#[macro_export]
macro_rules! each {
    ($combo:expr, $enc:ident => $body:expr) => {
        match $combo {
            0 => { let $enc = dti::encoding!(0); $body }
            1 => { let $enc = dti::encoding!(1); $body }
            2 => { let $enc = dti::encoding!(2); $body }
            3 => { let $enc = dti::encoding!(3); $body }
            4 => { let $enc = dti::encoding!(4); $body }
            5 => { let $enc = dti::encoding!(5); $body }
            6 => { let $enc = dti::encoding!(6); $body }
            _ => { let $enc = dti::encoding!(7); $body }
        }
    };
}

fn bridge_enc(combo: usize, t: &Ty, v: &Val, end: u8) -> Result<Vec<u8>, String> {
    let p = Pair(Bridge(Ser::<0>(t, v)), end);
    each!(combo, e => e.to_vec(&p).map_err(|e| e.to_string()))
}

fn bridge_dec(combo: usize, t: &Ty, b: &[u8]) -> Result<(Val, u8), String> {
    with_ty(t, || {
        let p = each!(combo, e => e.from_slice::<Pair<Bridge<Dyn>>>(b).map_err(|e| e.to_string()))?;
        Ok((p.0 .0 .0, p.1))
    })
}

pub fn show(json: bool, b: &[u8]) -> String {
    if json {
        short(String::from_utf8_lossy(b))
    } else {
        hex(b)
    }
}

fn gen(s: &mut Src, json: bool, any: bool) -> (Ty, Val) {
    let mut g = Gen { json, any, budget: 30 };
    let t = g.ty(s, 4);
    g.budget = 60;
    let v = g.val(s, &t);
    (t, v)
}

fn doc<'a>(s: &'a mut Src, combo: usize) -> Doc<'a> {
    Doc { s, human: TABLE[combo].mode == 1, skip: TABLE[combo].skip, alter: false, spoil: false, spoiled: None, changes: 0 }
}

fn encode(s: &mut Src, c: &mut Case) -> Res {
    let combo = s.index(COMBOS);
    let t = &TABLE[combo];
    let (ty, v) = gen(s, t.json, false);
    let end = s.upto(255) as u8;
    c.desc(|| format!("{} {ty:?} {v:?}", t.name));
    if v.size() > 3 {
        c.nontrivial(&(combo, &v));
    }
    let (d, _) = doc(s, combo).of(&ty, &v);
    let want = dti::encode_doc(combo, &d, end).map_err(|e| format!("HARNESS: {e}"))?;
    let got = bridge_enc(combo, &ty, &v, end).map_err(|e| format!("ENCODING through the bridge in {} failed: {e}", t.name))?;
    ensure!(
        got == want,
        "REPRESENTATION through the bridge in {} differs: {} instead of {}",
        t.name, show(t.json, &got), show(t.json, &want)
    );
    let (back, n) = bridge_dec(combo, &ty, &got).map_err(|e| format!("ROUND trip in {} failed: {e}", t.name))?;
    ensure_eq!(back, v, "ROUND trip in {} changed the value", t.name);
    ensure_eq!(n, end, "ROUND trip in {} did not end in the right place", t.name);
    Ok(())
}

fn decode(s: &mut Src, c: &mut Case) -> Res {
    let combo = s.index(COMBOS);
    let t = &TABLE[combo];
    let (ty, v) = gen(s, t.json, false);
    let end = s.upto(255) as u8;
    let kind = s.weighted(&[1, 5, 1]);
    let mut x = doc(s, combo);
    x.alter = kind == 1;
    x.spoil = kind == 2;
    let (d, want) = x.of(&ty, &v);
    let (spoiled, changes) = (x.spoiled, x.changes);
    c.desc(|| format!("{} {ty:?} {d:?}", t.name));
    if v.size() > 3 {
        c.nontrivial(&(combo, &d));
    }
    let b = dti::encode_doc(combo, &d, end).map_err(|e| format!("HARNESS: {e}"))?;
    match (spoiled, bridge_dec(combo, &ty, &b)) {
        (Some(why), Ok((got, _))) => {
            Err(format!("ACCEPTED {} in {} despite {why}: {}", show(t.json, &b), t.name, short(format!("{got:?}"))))
        }
        (Some(why), Err(e)) => {
            c.label("refused");
            let what = if why.starts_with("missing") { "missing field" } else { "unknown variant" };
            ensure!(e.contains(what), "LOST what the type reported, {what}: {e}");
            Ok(())
        }
        (None, Err(e)) => Err(format!("REFUSED {} in {}: {e}", show(t.json, &b), t.name)),
        (None, Ok((got, n))) => {
            if changes > 0 {
                c.label("changed");
            }
            ensure_eq!(got, want, "DECODED {} in {} as something else", show(t.json, &b), t.name);
            ensure_eq!(n, end, "CONSUMED too much or too little of {} in {}", show(t.json, &b), t.name);
            Ok(())
        }
    }
}

fn value(s: &mut Src, c: &mut Case) -> Res {
    let (ty, v) = gen(s, false, false);
    c.desc(|| format!("{ty:?} {v:?}"));
    if v.size() > 3 {
        c.nontrivial(&v);
    }
    let (d, _) = Doc { s, human: false, skip: true, alter: false, spoil: false, spoiled: None, changes: 0 }.of(&ty, &v);
    let native = musli::value::encode(dynv::En::<0>(&d)).map_err(|e| format!("HARNESS: {e}"))?;
    let through = musli::value::encode(Bridge(Ser::<0>(&ty, &v))).map_err(|e| format!("ENCODING to a value failed: {e}"))?;
    ensure!(format!("{native:?}") == format!("{through:?}"), "VALUE {through:?} instead of {native:?}");
    let got = with_ty(&ty, || musli::value::decode::<Bridge<Dyn>>(&through)).map_err(|e| format!("DECODING a value failed: {e}"))?;
    ensure_eq!(got.0 .0, v, "DECODED a value as something else");
    Ok(())
}

/// What can be told apart by those who do not know the type.
fn norm(v: &Val, json: bool) -> Val {
    let n = |v: &Val| norm(v, json);
    match v {
        Val::Int(_, Num::U(u)) => Val::Int(dynv::Int::U128, Num::U(*u)),
        Val::Int(_, Num::I(i)) if *i >= 0 => Val::Int(dynv::Int::U128, Num::U(*i as u128)),
        Val::Int(_, i) => Val::Int(dynv::Int::I128, *i),
        Val::F64(b) if json => {
            let f = f64::from_bits(*b);
            // whole numbers, with as many digits as it takes
            let text = if f == 0.0 { "0".to_string() } else { f.to_string() };
            match (text.parse(), text.parse()) {
                (Ok(u), _) => Val::Int(dynv::Int::U128, Num::U(u)),
                (_, Ok(i)) => Val::Int(dynv::Int::I128, Num::I(i)),
                _ => v.clone(),
            }
        }
        Val::None if json => Val::Unit,
        Val::Some(v) if json => n(v),
        Val::Some(v) => Val::Some(Box::new(n(v))),
        Val::Char(c) if json => Val::Str(c.to_string()),
        Val::Bytes(b) if json => {
            Val::Seq(b.iter().map(|b| Val::Int(dynv::Int::U128, Num::U(*b as u128))).collect())
        }
        Val::Seq(v) => Val::Seq(v.iter().map(n).collect()),
        Val::Map(m) => Val::Map(
            m.iter()
                .map(|(k, v)| {
                    let k = match n(k) {
                        Val::Int(_, Num::U(u)) if json => Val::Str(u.to_string()),
                        Val::Int(_, Num::I(u)) if json => Val::Str(u.to_string()),
                        k => k,
                    };
                    (k, n(v))
                })
                .collect(),
        ),
        _ => v.clone(),
    }
}

fn any(s: &mut Src, c: &mut Case) -> Res {
    let combo = s.index(5);
    let json = combo < 2;
    let (ty, v) = gen(s, json, true);
    c.desc(|| format!("{combo} {v:?}"));
    if v.size() > 3 {
        c.nontrivial(&(combo, &v));
    }
    let end = s.upto(255) as u8;
    let (d, _) = doc(s, if combo == 4 { 0 } else { combo }).of(&ty, &v);
    let got = if combo == 4 {
        let native = musli::value::encode(dynv::En::<0>(&d)).map_err(|e| format!("HARNESS: {e}"))?;
        with_ty(&Ty::Any, || musli::value::decode::<Bridge<Dyn>>(&native)).map_err(|e| format!("ANY value {native:?} failed: {e}"))?.0 .0
    } else {
        let b = dti::encode_doc(combo, &d, end).map_err(|e| format!("HARNESS: {e}"))?;
        let (v, n) = bridge_dec(combo, &Ty::Any, &b).map_err(|e| format!("ANY in {} failed for {}: {e}", TABLE[combo].name, show(json, &b)))?;
        ensure_eq!(n, end, "ANY in {} ended in the wrong place", TABLE[combo].name);
        v
    };
    ensure_eq!(norm(&got, json), norm(&d, json), "ANY read something else");
    Ok(())
}

/// Compares what documents of JSON denote.
fn same(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as V;
    match (a, b) {
        (V::Number(a), V::Number(b)) => a == b || a.as_f64() == b.as_f64(),
        (V::Array(a), V::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Object(a), V::Object(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((ka, a), (kb, b))| ka == kb && same(a, b))
        }
        _ => a == b,
    }
}

pub fn to_json<T: serde::Serialize>(v: &T, human: bool) -> Result<Vec<u8>, String> {
    if human {
        musli::json::Encoding::new().with_mode::<musli::mode::Text>().to_vec(&Bridge(v)).map_err(|e| e.to_string())
    } else {
        musli::json::Encoding::new().with_mode::<musli::mode::Binary>().to_vec(&Bridge(v)).map_err(|e| e.to_string())
    }
}

fn json(s: &mut Src, c: &mut Case) -> Res {
    let (ty, v) = gen(s, true, false);
    c.desc(|| format!("{ty:?} {v:?}"));
    if v.size() > 3 {
        c.nontrivial(&v);
    }
    let ours = to_json(&Ser::<0>(&ty, &v), true).map_err(|e| format!("ENCODING through the bridge failed: {e}"))?;
    let theirs = serde_json::to_vec(&Ser::<0>(&ty, &v)).map_err(|e| format!("HARNESS: {e}"))?;
    let mut d = serde_json::Deserializer::from_slice(&ours);
    let got = De(&ty).deserialize(&mut d).map_err(|e| format!("SERDE_JSON does not read {}: {e}", show(true, &ours)))?;
    d.end().map_err(|e| format!("SERDE_JSON finds more after {}: {e}", show(true, &ours)))?;
    ensure_eq!(got, v, "SERDE_JSON reads something else from {}", show(true, &ours));
    if !has_unit_variant(&v) {
        let (a, b): (serde_json::Value, serde_json::Value) =
            (serde_json::from_slice(&ours).map_err(|e| format!("SERDE_JSON: {e}"))?, serde_json::from_slice(&theirs).unwrap());
        ensure!(same(&a, &b), "DENOTES something else: {} for {}", show(true, &ours), show(true, &theirs));
        let got = with_ty(&ty, || {
            musli::json::Encoding::new().with_mode::<musli::mode::Text>().from_slice::<Bridge<Dyn>>(&theirs)
        })
        .map_err(|e| format!("REFUSED what serde_json wrote, {}: {e}", show(true, &theirs)))?;
        ensure_eq!(got.0 .0, v, "DECODED what serde_json wrote as something else: {}", show(true, &theirs));
    } else {
        c.label("unit variants");
    }
    Ok(())
}

fn main() {
    pbt::main(vec![Property {
        id: "C09",
        rule: "a case is a shape of the data model of serde with a value of more than three parts, or a value of a derived type, and a format",
        assumptions: &[
            "maps have known lengths, as the bridge documents",
            "unit variants are objects in musli's JSON, which serde_json reads, but does not write itself",
            "values of any type are only read from self-descriptive formats, and are not variants",
        ],
        families: vec![
            Family::new("encode", 300_000 * 4, encode).thorough(60_000_000),
            Family::new("decode", 300_000 * 4, decode).thorough(60_000_000),
            Family::new("value", 100_000 * 4, value).thorough(20_000_000),
            Family::new("any", 200_000 * 4, any).thorough(40_000_000),
            Family::new("json", 200_000 * 4, json).thorough(40_000_000),
            Family::new("derived", 200_000 * 4, fixed::derived).thorough(40_000_000),
            Family::new("derived-json", 150_000 * 4, fixed::json).thorough(30_000_000),
            Family::new("twins", 100_000 * 4, fixed::twins).thorough(20_000_000),
        ],
        findings: vec![],
    }])
}

use pbt::{ensure, short, Case, Family, Property, Res, Src};

use dynv::*;

use crate::formats::formats;
use crate::js::{space, string, Js};

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "the document has more than one node, or the string has an escape, a character outside of ASCII or an invalid byte",
        assumptions: &[],
        families: vec![
            Family::new("output", 1_000_000, output).thorough(20_000_000),
            Family::new("input", 1_250_000, input).thorough(20_000_000),
            Family::new("unknown", 500_000, unknown).thorough(10_000_000),
            Family::new("strings", 2_500_000, strings).thorough(50_000_000),
        ],
        findings: vec![],
    }
}

fn json() -> &'static Fmt {
    formats().iter().find(|f| f.kind == Kind::Json).unwrap()
}

/// What is written is JSON for the data.
fn output(s: &mut Src, c: &mut Case) -> Res {
    let f = json();
    let mut g = Gen::new(JSON);
    let d = s.size(0, 4);
    let ty = g.ty(s, d);
    let v = g.val(s, &ty);
    set_style(s.upto(u32::MAX as u64));
    c.desc(|| format!("{v:?}"));
    let b = (f.enc)(&v).map_err(|e| format!("encoding failed: {e}"))?;
    c.desc(|| short(String::from_utf8_lossy(&b)));
    if v.size() > 1 {
        c.nontrivial(&v);
    }
    let out = Js::parse(&b).map_err(|e| format!("{e}: {}", short(String::from_utf8_lossy(&b))))?;
    ensure!(out.is(&v), "{v:?} was written as {}", short(String::from_utf8_lossy(&b)));
    let other: serde_json::Value =
        serde_json::from_slice(&b).map_err(|e| format!("serde_json refuses {}: {e}", short(String::from_utf8_lossy(&b))))?;
    ensure!(out.same(&other), "serde_json reads {other} from {}", short(String::from_utf8_lossy(&b)));
    Ok(())
}

/// A document for a value with the keys of structs in any order and other keys
/// in between.
fn doc(s: &mut Src, v: &Val) -> Option<Js> {
    let fields = |s: &mut Src, v: &[(Val, Val)]| -> Option<Js> {
        let mut out: Vec<(String, Js)> = Vec::new();
        let strings = v.first().is_none_or(|(k, _)| matches!(k, Val::Str(_)));
        for (k, v) in v {
            let Js::Obj(mut one) = Js::of(&Val::Map(vec![(k.clone(), Val::Unit)]))? else { return None };
            out.push((one.remove(0).0, doc(s, v)?));
        }
        if strings && s.chance(1, 3) {
            for _ in 0..s.size(1, 2) {
                let k = s.string(20);
                if out.iter().all(|(o, _)| *o != k) {
                    out.push((k, Js::gen(s, 3, &mut 10)));
                }
            }
        }
        if s.bool() {
            for i in (1..out.len()).rev() {
                let j = s.size(0, i);
                out.swap(i, j);
            }
        }
        Some(Js::Obj(out))
    };
    let many = |s: &mut Src, v: &[Val]| -> Option<Js> { Some(Js::Arr(v.iter().map(|v| doc(s, v)).collect::<Option<_>>()?)) };
    let key = |k: &Val| -> Option<String> {
        let Js::Obj(mut one) = Js::of(&Val::Map(vec![(k.clone(), Val::Unit)]))? else { return None };
        Some(one.remove(0).0)
    };
    Some(match v {
        Val::Some(v) => doc(s, v)?,
        Val::Seq(v) | Val::Tuple(v) | Val::Pack(v) => many(s, v)?,
        Val::Struct(v) => fields(s, v)?,
        Val::Map(v) => {
            let mut out = Vec::new();
            for (k, v) in v {
                out.push((key(k)?, doc(s, v)?));
            }
            Js::Obj(out)
        }
        Val::Datav(t, v) => Js::Obj(vec![(key(t)?, doc(s, v)?)]),
        Val::Seqv(t, v) => Js::Obj(vec![(key(t)?, many(s, v)?)]),
        Val::Mapv(t, v) => Js::Obj(vec![(key(t)?, fields(s, v)?)]),
        v => Js::of(v)?,
    })
}

/// Any spelling of a document, from any source.
fn input(s: &mut Src, c: &mut Case) -> Res {
    let mut g = Gen::new(JSON);
    let d = s.size(0, 4);
    let ty = g.ty(s, d);
    let v = g.val(s, &ty);
    set_style(s.upto(u32::MAX as u64));
    let js = doc(s, &v).ok_or("no JSON")?;
    // The end of the value is exactly the end of the text.
    let mut text = String::new();
    space(s, &mut text);
    js.render_into(s, &mut text, false);
    c.desc(|| format!("{ty:?} {}", short(&text)));
    if v.size() > 1 {
        c.nontrivial(&text);
    }
    from_all(s, &ty, &v, &text)
}

fn from_all(s: &mut Src, ty: &Ty, v: &Val, text: &str) -> Res {
    let end = text.len();
    let tail = *s.pick(&["", " ", "\n\t", ",", "]", "}", " 1", "\"", ":", "é", " null"]);
    let text = &format!("{text}{tail}");
    let plain = if tail.trim().is_empty() { &text[..] } else { &text[..end] };
    let check = |how: &str, out: R<Val>| -> Res {
        match out {
            Err(e) => Err(format!("{how}: refused {}: {e}", short(text))),
            Ok(out) if out != *v => Err(format!("{how}: read {} from {}", short(format!("{out:?}")), short(text))),
            Ok(_) => Ok(()),
        }
    };
    check("slice", (json().dec)(ty, plain.as_bytes()))?;
    check("string", fmt_jsonsrc::from_str(ty, plain))?;
    let mut used = 0;
    check("moving slice", fmt_jsonsrc::from_moving_slice(ty, text.as_bytes()).map(|(v, n)| {
        used = n;
        v
    }))?;
    ensure!(used == end, "moving slice: used {used} of {end} bytes of {}", short(text));
    check("moving string", fmt_jsonsrc::from_moving_str(ty, text).map(|(v, n)| {
        used = n;
        v
    }))?;
    ensure!(used == end, "moving string: used {used} of {end} bytes of {}", short(text));
    Ok(())
}

/// Any document can be skipped.
fn unknown(s: &mut Src, c: &mut Case) -> Res {
    let js = Js::gen(s, 5, &mut 40);
    let mut text = String::new();
    space(s, &mut text);
    js.render_into(s, &mut text, true);
    if !matches!(js, Js::Null | Js::Bool(_)) {
        c.nontrivial(&text);
    }
    set_style(s.upto(u32::MAX as u64));
    let (ty, v) = if s.bool() {
        (Ty::Skip, Val::Absent)
    } else {
        let n = s.unsigned(32);
        text = format!("[{text} ,{n}]");
        (Ty::Tuple(vec![Ty::Skip, Ty::Int(Int::U32)]), Val::Tuple(vec![Val::Absent, Val::Int(Int::U32, Num::U(n))]))
    };
    c.desc(|| short(&text));
    from_all(s, &ty, &v, &text)
}

/// The raw body of a string, valid or not.
fn strings(s: &mut Src, c: &mut Case) -> Res {
    let mut b = vec![b'"'];
    let mut odd = false;
    let n = s.size(0, 6);
    for _ in 0..n {
        match s.weighted(&[4, 4, 3, 2, 2, 2, 1, 1]) {
            0 => {
                let t = s.string(10);
                let mut out = String::new();
                string(s, &t, &mut out);
                b.extend(out[1..out.len() - 1].bytes());
            }
            1 => {
                // a code unit, with or without its other half
                let u = match s.upto(3) {
                    0 => s.range(0xd800, 0xdbff),
                    1 => s.range(0xdc00, 0xdfff),
                    2 => s.upto(0xffff),
                    _ => *s.pick(&[0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0, 0x22, 0x5c, 0xffff]),
                };
                b.extend(format!("\\u{u:04x}").bytes());
                odd = true;
            }
            2 => {
                b.extend(*s.pick(&[
                    &b"\\"[..], b"\\u", b"\\u1", b"\\u12", b"\\u123", b"\\uD83D", b"\\uD83D\\", b"\\uD83D\\n",
                    b"\\uD83Dx", b"\\uD83D\\u", b"\\u00g0", b"\\x41", b"\\a", b"\\0", b"\\'", b"\\U0041", b"\\u+123",
                    b"\\u-123", b"\\u 12", b"\\\n", b"\\\x80", b"\\\xc3\xa9",
                ]));
                odd = true;
            }
            3 => {
                b.push(s.upto(0x1f) as u8);
                odd = true;
            }
            4 => {
                b.push(s.range(0x80, 0xff) as u8);
                odd = true;
            }
            5 => {
                b.extend(*s.pick(&[
                    &b"\xc0\x80"[..], b"\xc1\xbf", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80",
                    b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3", b"\xff", b"\xfe",
                    b"\xf4\x8f\xbf\xbf", b"\xef\xbf\xbf",
                ]));
                odd = true;
            }
            6 => b.extend("é€😀".bytes()),
            _ => b.extend((0..s.size(1, 40)).map(|_| b'a')),
        }
    }
    // Sometimes it never ends.
    if !s.chance(1, 10) {
        b.push(b'"');
    }
    if odd {
        c.nontrivial(&b);
    }
    c.desc(|| b.escape_ascii().to_string());
    let wrap = s.upto(3);
    let (ty, text) = match wrap {
        0 | 1 => (Ty::Str, b.clone()),
        2 => (Ty::Map(Box::new(Ty::Str), Box::new(Ty::Bool)), [&b"{"[..], &b[..], b":true}"].concat()),
        _ => (Ty::Char, b.clone()),
    };
    let want = Js::parse(&b).ok();
    let want = want.map(|w| match w {
        Js::Str(w) => w,
        _ => unreachable!(),
    });
    let check = |how: &str, out: R<Val>| -> Res {
        let out = match out {
            Ok(out) => out,
            Err(e) => {
                ensure!(!e.starts_with("INVALID"), "{how}: {e}");
                let refuse = match ty {
                    Ty::Char => want.as_ref().is_none_or(|w| w.chars().count() != 1),
                    _ => want.is_none(),
                };
                ensure!(refuse, "{how}: refused {}: {e}", b.escape_ascii());
                return Ok(());
            }
        };
        let out = match out {
            Val::Str(s) => s,
            Val::Map(mut m) if m.len() == 1 => match m.remove(0).0 {
                Val::Str(s) => s,
                v => return Err(format!("read {v:?}")),
            },
            Val::Char(c) => {
                ensure!(char::from_u32(c as u32).is_some(), "an invalid character");
                c.to_string()
            }
            v => return Err(format!("read {v:?}")),
        };
        ensure!(std::str::from_utf8(out.as_bytes()).is_ok(), "{how}: {} became {}", b.escape_ascii(), out.as_bytes().escape_ascii());
        if let Some(w) = &want {
            ensure!(*w == out, "{how}: {} became {out:?}", b.escape_ascii());
        }
        Ok(())
    };
    c.label(if want.is_some() { "valid" } else { "invalid" });
    check("slice", (json().dec)(&ty, &text))?;
    check("moving slice", fmt_jsonsrc::from_moving_slice(&ty, &text).map(|v| v.0))?;
    if let Ok(t) = std::str::from_utf8(&text) {
        check("string", fmt_jsonsrc::from_str(&ty, t))?;
        check("moving string", fmt_jsonsrc::from_moving_str(&ty, t).map(|v| v.0))?;
    }
    // As part of what is skipped, and as anything.
    if want.is_some() {
        let out = (json().dec)(&Ty::Skip, &b).map_err(|e| format!("skipping {} failed: {e}", b.escape_ascii()))?;
        ensure!(out == Val::Absent, "skipped {out:?}");
    }
    Ok(())
}


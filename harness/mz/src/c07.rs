use pbt::{ensure, short, Case, Family, Finding, Property, Res, Src};

use dynv::*;
use musli::json;

use crate::js::Dec;

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "the number has a fraction, an exponent or more than five digits",
        assumptions: &["Rust's own str::parse::<f32/f64> is correctly rounded"],
        families: vec![
            Family::new("floats", 3_000_000, floats).thorough(100_000_000),
            Family::new("printed", 2_000_000, printed).thorough(100_000_000),
            Family::new("integers", 3_000_000, integers).thorough(100_000_000),
        ],
        findings: vec![Finding { id: "C07-wide-digits", probe: wide_digits }],
    }
}

/// An integer is refused if the digits in front of the point, or those after
/// it, do not fit the type of the number by themselves.
fn wide_digits() -> Option<String> {
    json::from_str::<u8>("260e-1").err().map(|e| format!("260e-1 is 26, reading it as u8: {e}"))
}

/// The sum of two decimals of the same sign, halved.
fn middle(a: f64, b: f64) -> Dec {
    let (neg, a, b) = (a.is_sign_negative(), a.abs(), b.abs());
    let digits = |f: f64| {
        let t = format!("{f:.1080}");
        let (i, f) = t.split_once('.').unwrap();
        let mut d: Vec<u8> = format!("{i:0>330}{f}0").bytes().map(|b| b - b'0').collect();
        d.reverse();
        d
    };
    let (a, b) = (digits(a), digits(b));
    let mut sum = Vec::new();
    let mut carry = 0;
    for (a, b) in a.iter().zip(&b) {
        let n = a + b + carry;
        sum.push(n % 10);
        carry = n / 10;
    }
    sum.push(carry);
    let mut rem = 0;
    let mut out = String::new();
    for d in sum.iter().rev() {
        let n = rem * 10 + d;
        out.push((b'0' + n / 2) as char);
        rem = n % 2;
    }
    let t = out.trim_start_matches('0');
    Dec::parse(&format!("{}{}e-1081", if neg { "-" } else { "" }, if t.is_empty() { "0" } else { t })).unwrap()
}

/// A number next to one, which differs in a digit far behind.
fn nudge(s: &mut Src, d: Dec) -> Dec {
    if d.digits.is_empty() {
        return d;
    }
    let mut digits = d.digits.clone().into_bytes();
    let mut exp = d.exp;
    match s.upto(3) {
        0 => {}
        1 => {
            // A little more.
            let n = s.size(0, 30);
            digits.extend(std::iter::repeat_n(b'0', n));
            digits.push(b'1' + s.upto(8) as u8);
            exp -= n as i64 + 1;
        }
        2 => {
            // A little less.
            let n = s.size(1, 30);
            *digits.last_mut().unwrap() -= 1;
            digits.extend(std::iter::repeat_n(b'9', n));
            exp -= n as i64;
        }
        _ => {
            // Cut off.
            let n = s.size(1, digits.len().min(800));
            exp += (digits.len() - n) as i64;
            digits.truncate(n);
        }
    }
    let t = String::from_utf8(digits).unwrap();
    let t = t.trim_start_matches('0');
    let t = if t.is_empty() { "0" } else { t };
    Dec::parse(&format!("{}{t}e{exp}", if d.neg { "-" } else { "" })).unwrap()
}

fn gen_float(s: &mut Src, single: bool) -> Dec {
    let fin = |b: u64| {
        let f = f64::from_bits(b);
        if f.is_finite() { f } else { f64::from_bits(b & 0x800f_ffff_ffff_ffff) }
    };
    let fin32 = |b: u32| {
        let f = f32::from_bits(b);
        if f.is_finite() { f } else { f32::from_bits(b & 0x807f_ffff) }
    };
    match s.weighted(&[3, 4, 3, 2, 2, 2]) {
        // The shortest decimal of a float.
        0 if single => Dec::parse(&format!("{:e}", fin32(s.f32_bits()))).unwrap(),
        0 => Dec::parse(&format!("{:e}", fin(s.f64_bits()))).unwrap(),
        // In the middle of two floats, or next to that.
        1 => {
            let d = if single {
                let f = fin32(s.f32_bits());
                let g = f32::from_bits(f.to_bits() + 1);
                middle(f as f64, if g.is_finite() { g as f64 } else { 2f64.powi(128).copysign(f as f64) })
            } else {
                let f = fin(s.f64_bits());
                let g = f64::from_bits(f.to_bits() + 1);
                if !g.is_finite() {
                    Dec::parse(&format!("{f:e}")).unwrap()
                } else {
                    middle(f, g)
                }
            };
            nudge(s, d)
        }
        // Some digits.
        2 => {
            let n = s.size(1, 25);
            let t: String = (0..n).map(|_| (b'0' + s.upto(9) as u8) as char).collect();
            let e = if s.bool() { s.range(0, 60) as i64 - 30 } else { s.range(0, 700) as i64 - 370 };
            let t = t.trim_start_matches('0');
            Dec::parse(&format!("{}{}e{e}", if s.bool() { "-" } else { "" }, if t.is_empty() { "0" } else { t })).unwrap()
        }
        // Many digits.
        3 => {
            let n = s.size(1, 900);
            let d = s.upto(9) as u8;
            let t: String = (0..n).map(|_| (b'0' + if s.chance(1, 8) { s.upto(9) as u8 } else { d }) as char).collect();
            let e = s.range(0, 1200) as i64 - 900;
            Dec::parse(&format!("1{t}e{e}")).unwrap()
        }
        4 => {
            let f = fin(s.f64_bits());
            let d = Dec::parse(&format!("{f:.*}", s.size(0, 30))).unwrap();
            nudge(s, d)
        }
        _ => {
            // Powers of ten times a small number, and integers of 53 bits.
            if s.bool() {
                Dec::parse(&format!("{}e{}", s.range(1, 1 << 20), s.range(0, 60) as i64 - 30)).unwrap()
            } else {
                Dec::parse(&format!("{}e{}", s.unsigned(70), s.range(0, 60) as i64 - 30)).unwrap()
            }
        }
    }
}

/// Numbers read as floats, in every position and from every source.
fn floats(s: &mut Src, c: &mut Case) -> Res {
    let single = s.bool();
    let d = gen_float(s, single);
    let t = d.render(s, true);
    let wrap = s.upto(3);
    c.desc(|| format!("{} {}", if single { "f32" } else { "f64" }, short(&t)));
    if t.len() > 5 {
        c.nontrivial(&(single, &t));
    }
    let inside = match wrap {
        1 => format!("[{t},1]"),
        2 => format!("{{\"x\": {t} }}"),
        _ => t.clone(),
    };
    macro_rules! go {
        ($ty:ty) => {{
            let want: $ty = t.parse().map_err(|_| "not a float".to_string())?;
            let out: Result<$ty, String> = match wrap {
                1 => json::from_str::<($ty, u8)>(&inside).map(|v| v.0).map_err(|e| e.to_string()),
                2 => json::from_slice::<std::collections::BTreeMap<String, $ty>>(inside.as_bytes()).map(|v| v["x"]).map_err(|e| e.to_string()),
                3 => {
                    let text = format!("{t},");
                    let mut r = text.as_bytes();
                    let out = json::Encoding::new().decode::<_, $ty>(&mut r).map_err(|e| e.to_string());
                    ensure!(out.is_err() || r == b",", "{} was read leaving {:?}", short(&t), r.escape_ascii().to_string());
                    out
                }
                _ => json::from_str::<$ty>(&inside).map_err(|e| e.to_string()),
            };
            match out {
                Ok(out) => ensure!(out.to_bits() == want.to_bits(), "{} was read as {out:e}, the nearest is {want:e}", short(&inside)),
                Err(e) => ensure!(want.is_infinite(), "{} was refused: {e}", short(&inside)),
            }
        }};
    }
    if single {
        go!(f32);
    } else {
        go!(f64);
        // The same from a number whose type is not known.
        if d.int().is_none() {
            let v = json::from_str::<musli::value::Value<musli::alloc::System>>(&t).map_err(|e| e.to_string())?;
            let out = musli::value::decode::<f64>(&v).map_err(|e| e.to_string())?;
            let want: f64 = t.parse().unwrap();
            ensure!(out.to_bits() == want.to_bits(), "{} was buffered as {out:e}, the nearest is {want:e}", short(&t));
        }
    }
    Ok(())
}

/// Floats which are printed are read as what they were.
fn printed(s: &mut Src, c: &mut Case) -> Res {
    if s.bool() {
        let f = f64::from_bits(s.f64_bits());
        if !f.is_finite() {
            return Ok(());
        }
        let t = json::to_string(&f).map_err(|e| e.to_string())?;
        c.desc(|| format!("{f:e} {t}"));
        c.nontrivial(&t);
        ensure!(Dec::parse(&t).is_some(), "{t} is no JSON number");
        let want: f64 = t.parse().map_err(|_| format!("{t} is no number"))?;
        ensure!(want.to_bits() == f.to_bits(), "{f:e} was printed as {t}");
        let out: f64 = json::from_str(&t).map_err(|e| e.to_string())?;
        ensure!(out.to_bits() == f.to_bits(), "{f:e} was printed as {t} and read as {out:e}");
    } else {
        let f = f32::from_bits(s.f32_bits());
        if !f.is_finite() {
            return Ok(());
        }
        let t = json::to_string(&f).map_err(|e| e.to_string())?;
        c.desc(|| format!("{f:e} {t}"));
        c.nontrivial(&t);
        ensure!(Dec::parse(&t).is_some(), "{t} is no JSON number");
        let want: f32 = t.parse().map_err(|_| format!("{t} is no number"))?;
        ensure!(want.to_bits() == f.to_bits(), "{f:e} was printed as {t}");
        let out: f32 = json::from_str(&t).map_err(|e| e.to_string())?;
        ensure!(out.to_bits() == f.to_bits(), "{f:e} was printed as {t} and read as {out:e}");
    }
    Ok(())
}

/// Do the digits in front of the point and the ones behind it fit by
/// themselves?
fn narrow(t: &str, ty: Int) -> bool {
    let t = t.trim_start_matches('-');
    let (m, e) = t.split_once(['e', 'E']).unwrap_or((t, "0"));
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let f = f.trim_end_matches('0').trim_start_matches('0');
    let max = u128::MAX >> (128 - ty.bits());
    let fits = |d: &str| d.is_empty() || d.parse::<u128>().is_ok_and(|v| v <= max);
    fits(i) && fits(f) && e.parse::<i32>().is_ok()
}

/// Numbers read as integers.
fn integers(s: &mut Src, c: &mut Case) -> Res {
    let ty = *s.pick(&INTS);
    let d = match s.weighted(&[4, 4, 3, 2]) {
        0 => match Num::gen(s, ty) {
            Num::U(v) => Dec::from_u(v),
            Num::I(v) => Dec::from_i(v),
        },
        // Around the limits.
        1 => {
            let min = s.bool();
            let off = s.range(0, 20) as i128 - 10;
            let max = if ty.signed() { i128::MAX >> (128 - ty.bits()) } else { 0 };
            if ty.signed() {
                let (neg, base) = if min { (true, max as u128 + 1) } else { (false, max as u128) };
                let m = base.wrapping_add_signed(off);
                Dec::parse(&format!("{}{m}", if neg { "-" } else { "" })).unwrap()
            } else if min {
                Dec::from_i(off)
            } else {
                let m = u128::MAX >> (128 - ty.bits());
                match m.checked_add_signed(off) {
                    Some(m) => Dec::from_u(m),
                    None => Dec::parse(&format!("3402823669209384634633746074317682114{}", 55 + off)).unwrap(),
                }
            }
        }
        // The digits of an integer somewhere else.
        2 => {
            let mut d = Dec::from_u(s.unsigned(ty.bits()));
            d.exp += s.range(0, 12) as i64 - 6;
            d.neg = s.chance(1, 4);
            d
        }
        _ => gen_float(s, true),
    };
    let wild = s.chance(1, 4);
    let t = if s.chance(1, 4) && d.exp >= 0 && d.exp < 40 && !d.digits.is_empty() {
        let z = "0".repeat(d.exp as usize);
        format!("{}{}{z}", if d.neg { "-" } else { "" }, d.digits)
    } else {
        d.render(s, wild)
    };
    let wrap = s.upto(4);
    c.desc(|| format!("{ty:?} {} {wrap}", short(&t)));
    if t.len() > 5 {
        c.nontrivial(&(ty, &t));
    }
    let number = d.int().and_then(|n| n.convert(ty));
    // There is no negative zero, and a sign in front of an unsigned number is
    // an error.
    let signed_zero = d.digits.is_empty() && t.starts_with('-');
    let int = Box::new(Ty::Int(ty));
    let (shape, text) = match wrap {
        1 => (Ty::Seq(int), format!("[{t}]")),
        2 => (Ty::Tuple(vec![Ty::Int(ty), Ty::Int(Int::U8)]), format!("[{t} , 7]")),
        3 => (Ty::Map(int, Box::new(Ty::Bool)), format!("{{\"{t}\":true}}")),
        _ => (Ty::Int(ty), t.clone()),
    };
    let want = number.map(|n| {
        let v = Val::Int(ty, n);
        match wrap {
            1 => Val::Seq(vec![v]),
            2 => Val::Tuple(vec![v, Val::Int(Int::U8, Num::U(7))]),
            3 => Val::Map(vec![(v, Val::Bool(true))]),
            _ => v,
        }
    });
    let mut check = |how: &str, out: R<Val>| -> Res {
        match (&want, out) {
            (Some(want), Ok(out)) => {
                c.label("read");
                ensure!(out == *want, "{how}: {} was read as {out:?}", short(&text));
            }
            (None, Err(_)) => c.label("refused"),
            (None, Ok(out)) => return Err(format!("{how}: {} was read as {out:?}", short(&text))),
            (Some(_), Err(e)) => {
                ensure!(signed_zero || !narrow(&t, ty), "{how}: {} was refused: {e}", short(&text));
                c.label("wide");
            }
        }
        Ok(())
    };
    check("string", fmt_jsonsrc::from_str(&shape, &text))?;
    check("moving slice", fmt_jsonsrc::from_moving_slice(&shape, text.as_bytes()).map(|v| v.0))?;
    // A number of unknown type is the same number.
    if wrap == 0 && !signed_zero {
        if let Some(n) = d.int() {
            let v = json::from_str::<V>(&t).map_err(|e| format!("buffering {} failed: {e}", short(&t)))?;
            let out = with_ty(&shape, || musli::value::decode::<De>(&v)).map(|d| d.0).map_err(|e| e.to_string());
            match (n.convert(ty), out) {
                (Some(n), Ok(out)) => ensure!(out == Val::Int(ty, n), "{} was buffered as {out:?}", short(&t)),
                (None, Ok(out)) => return Err(format!("{} was buffered as {out:?}", short(&t))),
                (Some(_), Err(e)) => return Err(format!("{} was not read from a buffer: {e}", short(&t))),
                (None, Err(_)) => {}
            }
        }
    }
    Ok(())
}

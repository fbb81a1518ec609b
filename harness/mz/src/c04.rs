use pbt::{ensure, hex, Case, Family, Property, Res, Src};

use dynv::*;

use crate::formats::formats;

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "the type read differs from the type written, or the bytes are not those of a plain value",
        assumptions: &[],
        families: vec![
            Family::new("integers", 12_000_000, integers).thorough(144_000_000),
            Family::new("kinds", 6_000_000, kinds).thorough(72_000_000),
        ],
        findings: vec![],
    }
}

fn same_layout(fmt: &Fmt, a: Int, b: Int) -> bool {
    // Without a description only numbers laid out alike can be read as each
    // other: variable width ones of the same signedness.
    if fmt.opts.fixed || a.signed() != b.signed() {
        return false;
    }
    let raw = |t: Int| match fmt.kind {
        Kind::Wire => t == Int::I8,
        _ => t.bits() == 8,
    };
    let ptr = |t: Int| matches!(t, Int::Usize | Int::Isize);
    if raw(a) || raw(b) || a == Int::Isize || b == Int::Isize {
        return false;
    }
    !(ptr(a) || ptr(b)) || fmt.opts.ptr == 0
}

/// Every integer as every other type of integer, in every position.
fn integers(s: &mut Src, c: &mut Case) -> Res {
    let fmt = &formats()[s.index(formats().len())];
    let st = s.upto(u32::MAX as u64);
    let a = *s.pick(&INTS);
    let mut b = *s.pick(&INTS);
    let described = matches!(fmt.kind, Kind::Descriptive | Kind::Json | Kind::Value);
    if !described && !same_layout(fmt, a, b) {
        b = a;
    }
    // Mostly numbers around the limits of the type which is read.
    let n = if s.bool() {
        let lim = if b.signed() {
            let max = i128::MAX >> (128 - b.bits());
            Num::I(if s.bool() { max } else { -max - 1 })
        } else {
            Num::U(if s.bool() { u128::MAX >> (128 - b.bits()) } else { 0 })
        };
        let d = s.signed(3);
        let v = match lim {
            Num::U(v) => v.checked_add_signed(d).map(Num::U).unwrap_or(Num::I(d)),
            Num::I(v) => v.checked_add(d).map(Num::I).unwrap_or(lim),
        };
        v.convert(a).unwrap_or_else(|| Num::gen(s, a))
    } else {
        Num::gen(s, a)
    };
    let v = Val::Int(a, n);
    let wrap = s.upto(4);
    let simple = fmt.kind == Kind::Packed;
    let bx = Box::<Ty>::new;
    let mk = |t: Ty| match wrap {
        1 => Ty::Seq(bx(t)),
        2 => Ty::Map(bx(t), bx(Ty::Bool)),
        3 => Ty::Struct(vec![(Val::Str("x".into()), Ty::Bool), (Val::Str("n".into()), t)]),
        4 if !simple => Ty::Opt(bx(t)),
        _ => t,
    };
    let mkv = |v: Val| match wrap {
        1 => Val::Seq(vec![v.clone(), v]),
        2 => Val::Map(vec![(v, Val::Bool(true))]),
        3 => Val::Struct(vec![(Val::Str("x".into()), Val::Bool(true)), (Val::Str("n".into()), v)]),
        4 if !simple => Val::Some(Box::new(v)),
        _ => v,
    };
    let ty = mk(Ty::Int(b));
    let src = mkv(v.clone());
    c.desc(|| format!("{} {src:?} read as {ty:?}", fmt.name));
    if a != b {
        c.nontrivial(&(fmt.name, &src, format!("{ty:?}")));
    }
    set_style(st);
    let Ok(bytes) = (fmt.enc)(&src) else { return Ok(()) };
    set_style(st.rotate_right(3));
    let out = (fmt.dec)(&ty, &bytes);
    match (n.convert(b), out) {
        (Some(want), Ok(out)) => {
            c.label("fits");
            let want = mkv(Val::Int(b, want));
            ensure!(out == want, "{}: {src:?} was read as {out:?}", fmt.name);
        }
        (None, Err(_)) => c.label("does not fit"),
        (Some(want), Err(e)) => return Err(format!("{}: {n:?} fits as {want:?} but was refused: {e}", fmt.name)),
        (None, Ok(out)) => return Err(format!("{}: {n:?} does not fit and was read as {out:?}", fmt.name)),
    }
    Ok(())
}

/// Scalars of any kind read from scalars of any other: never an invalid value,
/// and numbers only ever as what they are.
fn kinds(s: &mut Src, c: &mut Case) -> Res {
    let fmts: Vec<&Fmt> = formats().iter().filter(|f| matches!(f.kind, Kind::Descriptive | Kind::Json | Kind::Value)).collect();
    let fmt = fmts[s.index(fmts.len())];
    let mut g = Gen::new(fmt.caps);
    let ty = g.ty(s, 0);
    let v = g.val(s, &ty);
    let rty = g.ty(s, 0);
    c.desc(|| format!("{} {v:?} read as {rty:?}", fmt.name));
    let Ok(bytes) = (fmt.enc)(&v) else { return Ok(()) };
    if ty != rty {
        c.nontrivial(&(fmt.name, &v, format!("{rty:?}")));
    }
    c.desc(|| hex(&bytes));
    let Ok(out) = (fmt.dec)(&rty, &bytes) else {
        c.label("refused");
        return Ok(());
    };
    c.label("read");
    let int = |v: &Val| match v {
        Val::Int(_, n) => Some(*n),
        _ => None,
    };
    let float = |v: &Val| match v {
        Val::F32(b) => Some(f32::from_bits(*b) as f64),
        Val::F64(b) => Some(f64::from_bits(*b)),
        _ => None,
    };
    // Equal as numbers.
    let eq = |n: Num, f: f64| f.is_finite() && f.fract() == 0.0 && {
        match n {
            Num::U(v) => f >= 0.0 && f < 340282366920938463463374607431768211456.0 && f as u128 == v,
            Num::I(v) => f >= -170141183460469231731687303715884105728.0 && f < 170141183460469231731687303715884105728.0 && f as i128 == v,
        }
    };
    let ok = match (&v, &out) {
        (a, b) if int(a).is_some() && int(b).is_some() => {
            let (Val::Int(_, a), Val::Int(t, b)) = (a, b) else { unreachable!() };
            a.convert(*t) == Some(*b)
        }
        // A float becomes an integer only if it is that integer. An integer
        // becomes the nearest float.
        (Val::F32(a), Val::Int(_, n)) if fmt.kind == Kind::Json => {
            // JSON has the shortest decimal of the float.
            let near = match n { Num::U(n) => *n as f32, Num::I(n) => *n as f32 };
            near == f32::from_bits(*a)
        }
        (Val::F64(a), Val::Int(_, n)) if fmt.kind == Kind::Json => {
            let near = match n { Num::U(n) => *n as f64, Num::I(n) => *n as f64 };
            near == f64::from_bits(*a)
        }
        (a, Val::Int(_, n)) if float(a).is_some() => eq(*n, float(a).unwrap()),
        (Val::Int(_, n), Val::F64(f)) => {
            let near = match n { Num::U(n) => *n as f64, Num::I(n) => *n as f64 };
            near.to_bits() == *f || (near == 0.0 && f64::from_bits(*f) == 0.0)
        }
        (Val::Int(_, n), Val::F32(f)) => {
            let near = match n { Num::U(n) => *n as f32, Num::I(n) => *n as f32 };
            near.to_bits() == *f || (near == 0.0 && f32::from_bits(*f) == 0.0)
        }
        (Val::F32(a), Val::F64(b)) => {
            // JSON has one kind of number, spelled in decimal.
            let (a, b) = (f32::from_bits(*a), f64::from_bits(*b));
            (a as f64).to_bits() == b.to_bits() || b as f32 == a || a.is_nan() && b.is_nan()
        }
        (Val::F64(a), Val::F32(b)) => {
            let (a, b) = (f64::from_bits(*a), f32::from_bits(*b));
            a as f32 == b || a.is_nan() && b.is_nan()
        }
        (Val::Char(a), Val::Str(b)) => fmt.kind == Kind::Json && *b == a.to_string(),
        (Val::Str(a), Val::Char(b)) => fmt.kind == Kind::Json && *a == b.to_string(),
        (Val::Bytes(a) | Val::Arr(a), Val::Bytes(b) | Val::Arr(b)) => a == b,
        (a, b) => a == b,
    };
    ensure!(ok, "{}: {v:?} was read as {out:?}", fmt.name);
    Ok(())
}

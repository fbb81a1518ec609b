//! Derived implementations against the documented meaning of their attributes.
use dti::{Def, Dx, Needs, COMBOS, TABLE};
use pbt::{ensure, ensure_eq, hex, short, Case, Family, Property, Res, Src};

fn defs() -> impl Iterator<Item = &'static Def> {
    [dtf_a::DEFS, dtf_b::DEFS, dtf_c::DEFS, dtf_d::DEFS, dtf_e::DEFS, dtf_f::DEFS].into_iter().flatten().copied()
}

fn pick(s: &mut Src, c: &mut Case) -> &'static Def {
    thread_local!(static ALL: Vec<&'static Def> = defs().collect());
    let d = ALL.with(|all| *s.pick(all));
    c.desc(|| d.source.trim().replace('\n', " "));
    d
}

fn claims(d: &Def, combo: usize, dir: usize) -> bool {
    let t = &TABLE[combo];
    let mut n = Needs::default();
    dti::needs(d, t.mode, dir, false, &mut n);
    if t.json && n.byte_names {
        return false;
    }
    dir == 0 || (t.buffer || !n.self_descriptive) && !n.pack_in_buffer
}

fn encode(s: &mut Src, c: &mut Case) -> Res {
    let d = pick(s, c);
    let combo = s.index(COMBOS);
    let t = &TABLE[combo];
    let v = dti::gen_def(s, d);
    let end = s.upto(255) as u8;
    c.desc(|| format!("{} {v:?}", t.name));
    if !claims(d, combo, 0) {
        c.label("not claimed");
        return Ok(());
    }
    if v.size() > 3 {
        c.nontrivial(&(d.name, d.source, combo, &v));
    }
    let (doc, _) = Dx::new(s, t.mode, 0).rec(d, &v);
    let want = dti::encode_doc(combo, &doc, end).map_err(|e| format!("HARNESS: {e}"))?;
    let got = (d.enc[combo])(&v, end).map_err(|e| format!("ENCODING of {} in {} failed: {e}", d.name, t.name))?;
    ensure!(
        got == want,
        "REPRESENTATION of {} in {} differs: {} instead of {}, which is {}",
        d.name, t.name, show(t.json, &got), show(t.json, &want), short(format!("{doc:?}"))
    );
    Ok(())
}

fn show(json: bool, b: &[u8]) -> String {
    if json {
        short(String::from_utf8_lossy(b))
    } else {
        hex(b)
    }
}

fn decode(s: &mut Src, c: &mut Case) -> Res {
    let d = pick(s, c);
    let combo = s.index(COMBOS);
    let t = &TABLE[combo];
    let v = dti::gen_def(s, d);
    let end = s.upto(255) as u8;
    if !claims(d, combo, 1) {
        c.label("not claimed");
        return Ok(());
    }
    let kind = s.weighted(&[2, 4, 1]);
    let mut x = Dx::new(s, t.mode, 1);
    x.skip = t.skip;
    x.alter = kind == 1;
    x.spoil = kind == 2;
    let (doc, want) = x.rec(d, &v);
    let (spoiled, changes) = (x.spoiled, x.changes);
    c.desc(|| format!("{} {doc:?}", t.name));
    if v.size() > 3 {
        c.nontrivial(&(d.name, d.source, combo, &doc));
    }
    let b = dti::encode_doc(combo, &doc, end).map_err(|e| format!("HARNESS: {e}"))?;
    let got = (d.dec[combo])(&b);
    match (spoiled, got) {
        (Some(why), Ok((got, _))) => {
            Err(format!("ACCEPTED {} as {} in {} despite {why}: {}", show(t.json, &b), d.name, t.name, short(format!("{got:?}"))))
        }
        (Some(_), Err(_)) => {
            c.label("refused");
            Ok(())
        }
        (None, Err(e)) => Err(format!("REFUSED {} as {} in {}: {e}", show(t.json, &b), d.name, t.name)),
        (None, Ok((got, n))) => {
            if changes > 0 {
                c.label("changed");
            }
            ensure_eq!(got, want, "DECODED {} as {} in {} as something else", show(t.json, &b), d.name, t.name);
            ensure_eq!(n, end, "CONSUMED too much or too little of {} as {} in {}", show(t.json, &b), d.name, t.name);
            Ok(())
        }
    }
}

fn main() {
    pbt::main(vec![Property {
        id: "C08",
        rule: "a case is a generated type with attributes, a value of it which is not just a number, and a format and mode",
        assumptions: &[
            "types are those of the generated table",
            "enums with a tag inside are only decoded from formats which can be buffered",
        ],
        families: vec![
            Family::new("encode", 700_000, encode).thorough(80_000_000),
            Family::new("decode", 900_000, decode).thorough(80_000_000),
        ],
        findings: vec![],
    }])
}

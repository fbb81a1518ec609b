use pbt::{ensure, hex, short, Case, Family, Property, Res, Src};

use dynv::*;

use crate::c01::fits;
use crate::formats::formats;

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "the reader's model differs from the writer's in at least one place",
        assumptions: &[],
        families: vec![Family::new("versions", 4_500_000, versions).thorough(54_000_000)],
        findings: vec![],
    }
}

struct Reader {
    /// Changes made.
    changes: usize,
    /// The format has to skip something.
    skips: bool,
    /// Nothing but what every format tolerates.
    tame: bool,
}

impl Reader {
    fn fields(&mut self, s: &mut Src, g: &mut Gen, fs: &[(Val, Ty)]) -> Vec<(Val, Ty)> {
        let mut out = Vec::new();
        for (k, t) in fs {
            if !self.tame && s.chance(1, 4) {
                self.skips = true;
                self.changes += 1;
                continue;
            }
            out.push((k.clone(), self.ty(s, g, t)));
        }
        // new fields which are missing in the data
        if !fs.is_empty() {
            let kty = key_type(fs.first().map(|(k, _)| k));
            for _ in 0..s.upto(2) {
                let k = g.val(s, &kty);
                if fs.iter().chain(&out).all(|(o, _)| *o != k) {
                    let t = g.ty(s, 1);
                    out.push((k, t));
                    self.changes += 1;
                }
            }
        }
        if s.chance(2, 3) {
            for i in (1..out.len()).rev() {
                let j = s.index(i + 1);
                if i != j {
                    self.changes += 1;
                }
                out.swap(i, j);
            }
        }
        out
    }

    fn ty(&mut self, s: &mut Src, g: &mut Gen, t: &Ty) -> Ty {
        if !self.tame && s.chance(1, 12) {
            self.changes += 1;
            self.skips = true;
            return Ty::Skip;
        }
        match t {
            Ty::Opt(t) => Ty::Opt(Box::new(self.ty(s, g, t))),
            Ty::Seq(t) => {
                let inner = Ty::Seq(Box::new(self.ty(s, g, t)));
                self.first(s, inner)
            }
            Ty::Map(k, t) => {
                let inner = Ty::Map(k.clone(), Box::new(self.ty(s, g, t)));
                self.first(s, inner)
            }
            Ty::Tuple(ts) => Ty::Tuple(self.many(s, g, ts)),
            Ty::Pack(ts) => {
                let mut n = ts.len();
                if !self.tame && n > 0 && s.chance(1, 4) {
                    n = s.index(n);
                    self.changes += 1;
                    self.skips = true;
                }
                Ty::Pack(ts[..n].to_vec())
            }
            Ty::Struct(fs) => Ty::Struct(self.fields(s, g, fs)),
            Ty::Enum(vs) => Ty::Enum(
                vs.iter()
                    .map(|(k, v)| {
                        let v = match v {
                            VTy::Unit => VTy::Unit,
                            VTy::Data(t) => VTy::Data(self.ty(s, g, t)),
                            VTy::Seq(ts) => VTy::Seq(self.many(s, g, ts)),
                            VTy::Map(fs) => VTy::Map(self.fields(s, g, fs)),
                        };
                        (k.clone(), v)
                    })
                    .collect(),
            ),
            t => t.clone(),
        }
    }

    fn first(&mut self, s: &mut Src, t: Ty) -> Ty {
        if !self.tame && s.chance(1, 4) {
            self.changes += 1;
            self.skips = true;
            Ty::First(s.size(0, 4), Box::new(t))
        } else {
            t
        }
    }

    fn many(&mut self, s: &mut Src, g: &mut Gen, ts: &[Ty]) -> Vec<Ty> {
        let mut n = ts.len();
        if !self.tame && n > 0 && s.chance(1, 4) {
            n = s.index(n);
            self.changes += 1;
            self.skips = true;
        }
        ts[..n].iter().map(|t| self.ty(s, g, t)).collect()
    }
}

/// What a reader of shape `t` has to see in `v`.
pub fn project(t: &Ty, v: &Val) -> Val {
    let fields = |fs: &[(Val, Ty)], v: &[(Val, Val)]| -> Vec<(Val, Val)> {
        fs.iter()
            .map(|(k, t)| {
                let v = v.iter().find(|(o, _)| o == k).map(|(_, v)| project(t, v)).unwrap_or(Val::Absent);
                (k.clone(), v)
            })
            .collect()
    };
    let many = |ts: &[Ty], v: &[Val]| -> Vec<Val> { ts.iter().zip(v).map(|(t, v)| project(t, v)).collect() };
    match (t, v) {
        (Ty::Skip, _) => Val::Absent,
        (Ty::Opt(t), Val::Some(v)) => Val::Some(Box::new(project(t, v))),
        (Ty::Seq(t), Val::Seq(v)) => Val::Seq(v.iter().map(|v| project(t, v)).collect()),
        (Ty::Map(_, t), Val::Map(v)) => Val::Map(v.iter().map(|(k, v)| (k.clone(), project(t, v))).collect()),
        (Ty::First(n, t), v) => match project(t, v) {
            Val::Seq(mut v) => {
                v.truncate(*n);
                Val::Seq(v)
            }
            Val::Map(mut v) => {
                v.truncate(*n);
                Val::Map(v)
            }
            v => v,
        },
        (Ty::Tuple(ts), Val::Tuple(v)) => Val::Tuple(many(ts, v)),
        (Ty::Pack(ts), Val::Pack(v)) => Val::Pack(many(ts, v)),
        (Ty::Struct(fs), Val::Struct(v)) => Val::Struct(fields(fs, v)),
        (Ty::Enum(vs), v) => {
            let tag = match v {
                Val::Unitv(t) | Val::Datav(t, _) | Val::Seqv(t, _) | Val::Mapv(t, _) => t,
                v => return v.clone(),
            };
            let t = vs.iter().find(|(k, _)| *k == **tag).map(|(_, t)| t);
            match (t, v) {
                (Some(VTy::Data(t)), Val::Datav(tag, v)) => Val::Datav(tag.clone(), Box::new(project(t, v))),
                (Some(VTy::Seq(ts)), Val::Seqv(tag, v)) => Val::Seqv(tag.clone(), many(ts, v)),
                (Some(VTy::Map(fs)), Val::Mapv(tag, v)) => Val::Mapv(tag.clone(), fields(fs, v)),
                _ => v.clone(),
            }
        }
        (_, v) => v.clone(),
    }
}

fn versions(s: &mut Src, c: &mut Case) -> Res {
    let fmt = &formats()[s.index(formats().len())];
    let st = s.upto(u32::MAX as u64);
    let mut g = Gen::new(fmt.caps);
    let d = s.size(0, 4);
    let ty = match s.upto(2) {
        0 => Ty::Struct(g.fields(s, d, false)),
        _ => g.ty(s, d),
    };
    let v = g.val(s, &ty);
    let stable = !matches!(fmt.kind, Kind::Packed | Kind::Storage);
    // The formats which cannot skip are mostly given what they tolerate.
    let mut r = Reader { changes: 0, skips: false, tame: !stable && s.chance(2, 3) };
    let rty = r.ty(s, &mut g, &ty);
    c.desc(|| format!("{} written {:?} read as {:?} value {:?}", fmt.name, ty, rty, v));
    if r.changes > 0 {
        c.nontrivial(&(fmt.name, &v, format!("{rty:?}")));
    }
    set_style(st);
    let bytes = match (fmt.enc)(&v) {
        Ok(b) => b,
        Err(e) => {
            ensure!(!fits(&v, fmt), "{}: encoding failed: {e}", fmt.name);
            return Ok(());
        }
    };
    c.desc(|| format!("bytes {}", hex(&bytes)));
    // Packs have no frame in these formats, so nothing can notice a short one.
    if !stable && r.skips && has_pack(&ty) {
        return Ok(());
    }
    let want = project(&rty, &v);
    LAX_TAIL.with(|t| t.set(true));
    set_style(st.rotate_left(7));
    let out = (fmt.dec)(&rty, &bytes);
    let mut more = bytes.clone();
    more.extend_from_slice(if fmt.kind == Kind::Json { b"," } else { &[0xff, 0, 1] });
    let rest = (fmt.dec_rest)(&rty, &more);
    LAX_TAIL.with(|t| t.set(false));
    if r.skips && !stable {
        // An error, or else the truth.
        if let Ok(out) = out {
            ensure!(out == want, "{}: decoded {} instead of {}", fmt.name, short(format!("{out:?}")), short(format!("{want:?}")));
        } else {
            c.label("refused by a format which cannot skip");
        }
        if let Ok((out, n)) = rest {
            ensure!(out == want, "{}: decoded {} instead of {}", fmt.name, short(format!("{out:?}")), short(format!("{want:?}")));
            ensure!(n == bytes.len(), "{}: {n} of {} bytes used", fmt.name, bytes.len());
        }
        return Ok(());
    }
    c.label(if r.skips { "skipped something" } else { "reordered or added" });
    let out = out.map_err(|e| format!("{}: decoding failed: {e}", fmt.name))?;
    ensure!(out == want, "{}: decoded {} instead of {}", fmt.name, short(format!("{out:?}")), short(format!("{want:?}")));
    let (out, n) = rest.map_err(|e| format!("{}: decoding with a tail failed: {e}", fmt.name))?;
    ensure!(out == want, "{}: with a tail decoded {} instead of {}", fmt.name, short(format!("{out:?}")), short(format!("{want:?}")));
    ensure!(n == bytes.len(), "{}: {n} of {} bytes used", fmt.name, bytes.len());
    Ok(())
}

pub fn has_pack(t: &Ty) -> bool {
    match t {
        Ty::Pack(_) => true,
        Ty::Opt(t) | Ty::Seq(t) | Ty::First(_, t) | Ty::Map(_, t) => has_pack(t),
        Ty::Tuple(t) => t.iter().any(has_pack),
        Ty::Struct(f) => f.iter().any(|(_, t)| has_pack(t)),
        Ty::Enum(v) => v.iter().any(|(_, v)| match v {
            VTy::Unit => false,
            VTy::Data(t) => has_pack(t),
            VTy::Seq(t) => t.iter().any(has_pack),
            VTy::Map(f) => f.iter().any(|(_, t)| has_pack(t)),
        }),
        _ => false,
    }
}

use pbt::{ensure, hex, short, Case, Family, Property, Res, Src};

use dynv::*;

use crate::formats::binary;

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "layout: a value of more than one node; decode: bytes which are not a plain encoding",
        assumptions: &[],
        families: vec![
            Family::new("layout", 3_600_000, layout).thorough(43_200_000),
            Family::new("decode", 9_000_000, decode).thorough(108_000_000),
        ],
        findings: vec![],
    }
}

/// The bytes are those of the independent encoder, and are read by the decoder.
fn layout(s: &mut Src, c: &mut Case) -> Res {
    let fmts = binary();
    let fmt = fmts[s.index(fmts.len())];
    let st = s.upto(u32::MAX as u64);
    let mut g = Gen::new(fmt.caps);
    let d = s.size(0, 4);
    let ty = g.ty(s, d);
    let v = g.val(s, &ty);
    c.desc(|| format!("{} {:?} {:?}", fmt.name, ty, v));
    if v.size() > 1 {
        c.nontrivial(&(fmt.name, &v));
    }
    let want = refm::encode(fmt.kind, fmt.opts, &v);
    set_style(st);
    let got = (fmt.enc)(&v);
    let Some(want) = want else {
        ensure!(got.is_err(), "{}: a length which does not fit is encoded as {}", fmt.name, hex(&got.unwrap()));
        c.label("does not fit the pointer width");
        return Ok(());
    };
    let got = got.map_err(|e| format!("{}: encoding failed: {e}", fmt.name))?;
    ensure!(got == want, "{}: encoded as {} and not as {}", fmt.name, hex(&got), hex(&want));
    set_style(st.rotate_left(9));
    let (out, n) = (fmt.dec_rest)(&ty, &want).map_err(|e| format!("{}: decoding {} failed: {e}", fmt.name, hex(&want)))?;
    ensure!(out == v, "{}: decoded {} instead of {}", fmt.name, short(format!("{out:?}")), short(format!("{v:?}")));
    ensure!(n == want.len(), "{}: {n} of {} bytes used", fmt.name, want.len());
    Ok(())
}

/// Change encoded bytes in a few places.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.size(1, 3) {
        let n = b.len();
        match s.upto(6) {
            0 if n > 0 => {
                let i = s.index(n);
                b[i] ^= 1 << s.upto(7)
            }
            1 if n > 0 => {
                let i = s.index(n);
                b[i] = *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x3f, 0x1f, 0xdf, 0x9f, 0xbf, 0x40, 0xc0])
            }
            2 => {
                let i = s.size(0, n);
                let x = s.upto(255) as u8;
                b.insert(i, x)
            }
            3 if n > 0 => {
                let i = s.index(n);
                b.remove(i);
            }
            4 => b.truncate(s.size(0, n)),
            5 if n > 0 => {
                // repeat a part
                let i = s.index(n);
                let j = s.size(i, n.min(i + 8));
                let part = b[i..j].to_vec();
                let at = s.size(0, n);
                b.splice(at..at, part);
            }
            _ if n > 0 => {
                let i = s.index(n);
                b[i] = b[i].wrapping_add(*s.pick(&[1, 255, 8, 16, 64]))
            }
            _ => {}
        }
    }
}

/// Whatever the bytes are, the decoder agrees with the independent one about
/// what they stand for, if anything.
fn decode(s: &mut Src, c: &mut Case) -> Res {
    let fmts = binary();
    let fmt = fmts[s.index(fmts.len())];
    let st = s.upto(u32::MAX as u64);
    let mut g = Gen::new(fmt.caps);
    g.budget = 12;
    g.str_max = 80;
    let d = s.size(0, 2);
    let mut ty = g.ty(s, d);
    if !refm::decodable(&ty) {
        ty = g.ty(s, 0);
    }
    // bytes of the same or of another shape, changed in a few places
    let mut b = match s.upto(7) {
        0 => s.bytes(24),
        1 => {
            let other = g.ty(s, 1);
            let v = g.val(s, &other);
            refm::encode(fmt.kind, fmt.opts, &v).unwrap_or_default()
        }
        // another number
        2 => {
            let t = *s.pick(&INTS);
            let v = g.val(s, &Ty::Int(t));
            refm::encode(fmt.kind, fmt.opts, &v).unwrap_or_default()
        }
        _ => {
            let v = g.val(s, &ty);
            refm::encode(fmt.kind, fmt.opts, &v).unwrap_or_default()
        }
    };
    mutate(s, &mut b);
    if matches!(fmt.kind, Kind::Wire | Kind::Descriptive) && s.chance(1, 6) {
        ty = Ty::Skip;
    }
    c.desc(|| format!("{} {:?} {}", fmt.name, ty, hex(&b)));
    c.nontrivial(&(fmt.name, &b, format!("{ty:?}")));
    if zero_width(&ty) {
        return Ok(());
    }
    let want = refm::decode(fmt.kind, fmt.opts, &ty, &b);
    set_style(st);
    let got = (fmt.dec_rest)(&ty, &b);
    match (want, got) {
        (None, Err(_)) => {
            c.label("rejected");
            Ok(())
        }
        (Some(w), Ok(g)) => {
            c.label("accepted");
            ensure!(w == g, "{}: decoded {:?} instead of {:?}", fmt.name, g, w);
            Ok(())
        }
        (None, Ok(g)) => Err(format!("{}: decoded {:?} from bytes which stand for nothing", fmt.name, g)),
        (Some(w), Err(e)) => Err(format!("{}: rejected bytes which stand for {:?}: {e}", fmt.name, w)),
    }
}

pub use dynv::zero_width;

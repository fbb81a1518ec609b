mod model;
mod table;

use std::collections::VecDeque;
use std::num::Wrapping;

use model::*;
use musli::mode::Binary;
use musli::options::{self, ByteOrder, Options};
use musli::reader::{Reader, SliceReader};
use pbt::{ensure, ensure_eq, hex, short, Case, Family, Finding, Property, Res, Src};

const NATIVE: Options = options::new().fixed().native_byte_order().build();
const SWAPPED: Options = options::new().fixed().byte_order(if cfg!(target_endian = "little") { ByteOrder::Big } else { ByteOrder::Little }).build();

macro_rules! native {
    () => {
        musli::storage::Encoding::new().with_options::<NATIVE>().with_mode::<Binary>()
    };
}

/// A type with what can be done with it.
pub struct Type {
    name: &'static str,
    containers: fn(&mut Src, &mut Case) -> Res,
    formats: fn(&mut Src, &mut Case) -> Res,
    bytes: fn(&mut Src, &mut Case) -> Res,
    chunks: fn(&mut Src, &mut Case) -> Res,
}

impl Type {
    pub const fn new<T: Model>(name: &'static str) -> Self {
        Type { name, containers: containers::<T>, formats: formats::<T>, bytes: bytes::<T>, chunks: chunks::<T> }
    }
}

fn some<T: Model>(s: &mut Src, max: usize) -> Vec<T> {
    let n = s.size(0, max);
    (0..n).map(|_| T::gen(s)).collect()
}

fn bits<'a, T: Model + 'a>(it: impl IntoIterator<Item = &'a T>) -> Vec<Vec<u8>> {
    it.into_iter().map(|v| v.bits()).collect()
}

fn e<E: std::fmt::Display>(e: E) -> String {
    format!("FAILED: {e}")
}

type All<T> = (T, Vec<T>, VecDeque<T>, Box<[T]>, Option<T>, Vec<Vec<T>>, (T, Wrapping<u8>), Vec<Box<T>>, Box<[T]>, u8);

/// Everything a type can be in, against its bytes and against its twin.
fn containers<T: Model>(s: &mut Src, c: &mut Case) -> Res {
    let list = |s: &mut Src| some::<T>(s, 4);
    let mut turned: VecDeque<T> = list(s).into();
    let turns = s.index(4);
    for _ in 0..turns {
        // Moves the start so that it ends up in two slices.
        if let Some(v) = turned.pop_front() {
            turned.push_back(v);
        }
    }
    if s.bool() {
        turned.push_front(T::gen(s));
    }
    let n = s.size(0, 3);
    let v: All<T> = (
        T::gen(s),
        list(s),
        turned,
        list(s).into(),
        s.bool().then(|| T::gen(s)),
        (0..n).map(|_| list(s)).collect(),
        (T::gen(s), Wrapping(9)),
        list(s).into_iter().map(Box::new).collect(),
        list(s).into(),
        7,
    );
    c.desc(|| short(format!("{v:?}")));
    let mut want = Vec::new();
    put_len(10, &mut want);
    nest(&v.0, &mut want);
    put_all(&v.1, &mut want);
    put_len(v.2.len(), &mut want);
    v.2.iter().for_each(|v| nest(v, &mut want));
    put_all(&v.3, &mut want);
    want.push(v.4.is_some() as u8);
    if let Some(v) = &v.4 {
        nest(v, &mut want);
    }
    put_len(v.5.len(), &mut want);
    v.5.iter().for_each(|v| put_all(v, &mut want));
    put_len(2, &mut want);
    nest(&v.6.0, &mut want);
    want.push(9);
    put_len(v.7.len(), &mut want);
    v.7.iter().for_each(|v| nest(&**v, &mut want));
    put_all(&v.8, &mut want);
    want.push(7);
    c.nontrivial(&want);
    let got = native!().to_vec(&v).map_err(e)?;
    ensure!(got == want, "BYTES {}, expected {}", hex(&got), hex(&want));

    // At the top, and as a field, which are coded as what they are.
    let mut alone = Vec::new();
    v.0.put(&mut alone);
    let got_alone = native!().to_vec(&v.0).map_err(e)?;
    ensure!(got_alone == alone, "BYTES by itself {}, expected {}", hex(&got_alone), hex(&alone));
    let back: T = native!().from_slice(&got_alone).map_err(e)?;
    ensure_eq!(back.bits(), v.0.bits(), "by itself");

    let refs: (&T, &[T]) = (&v.0, &v.1);
    let mut want_refs = Vec::new();
    put_len(2, &mut want_refs);
    nest(&v.0, &mut want_refs);
    put_all(&v.1, &mut want_refs);
    let got_refs = native!().to_vec(&refs).map_err(e)?;
    ensure!(got_refs == want_refs, "BYTES of references {}, expected {}", hex(&got_refs), hex(&want_refs));

    let back: All<T> = native!().from_slice(&got).map_err(e)?;
    let parts = |v: &All<T>| {
        (
            [v.0.bits(), v.6.0.bits(), vec![v.6.1.0]],
            [bits(&v.1), bits(&v.2), bits(&v.3[..]), bits(&v.4), bits(v.7.iter().map(|b| &**b)), bits(&v.8[..])],
            v.5.iter().map(bits).collect::<Vec<_>>(),
            v.9,
        )
    };
    ensure!(parts(&back) == parts(&v), "DECODED {} from {}", short(format!("{back:?}")), short(format!("{v:?}")));

    if T::SIMPLE {
        let twins = |v: &mut dyn Iterator<Item = &T>| v.map(T::twin).collect::<Vec<_>>();
        let t: (T::Twin, Vec<T::Twin>, VecDeque<T::Twin>, Box<[T::Twin]>, Option<T::Twin>) = (
            v.0.twin(),
            twins(&mut v.1.iter()),
            twins(&mut v.2.iter()).into(),
            twins(&mut v.3.iter()).into(),
            v.4.as_ref().map(|v| v.twin()),
        );
        let mine = (&v.0, &v.1, &v.2, &v.3, &v.4);
        let a = native!().to_vec(&mine).map_err(e)?;
        let b = native!().to_vec(&t).map_err(e)?;
        ensure!(a == b, "IN BULK {}, one by one {}", hex(&a), hex(&b));
        type Twins<T> = (<T as Model>::Twin, Vec<<T as Model>::Twin>, VecDeque<<T as Model>::Twin>, Box<[<T as Model>::Twin]>, Option<<T as Model>::Twin>);
        let t: Twins<T> = native!().from_slice(&a).map_err(e)?;
        ensure_eq!(T::of(t.0).bits(), v.0.bits(), "one by one from BULK");
        let of = |l: Vec<T::Twin>| l.into_iter().map(|t| T::of(t).bits()).collect::<Vec<_>>();
        ensure!(of(t.1) == bits(&v.1) && of(t.2.into()) == bits(&v.2) && of(t.3.into()) == bits(&v.3[..]), "one by one from BULK gives something else than {}", short(format!("{v:?}")));
    }
    Ok(())
}

/// Sequences in every other format and under other options.
fn formats<T: Model>(s: &mut Src, c: &mut Case) -> Res {
    let v = some::<T>(s, 5);
    let twins: Vec<_> = v.iter().map(T::twin).collect();
    c.desc(|| short(format!("{v:?}")));
    if !v.is_empty() {
        c.nontrivial(&bits(&v));
    }
    macro_rules! with {
        ($name:expr, $simple:expr, $enc:expr) => {{
            let a = ($enc).to_vec(&v).map_err(|x| format!("{}: {}", $name, e(x)))?;
            let back: Vec<T> = ($enc).from_slice(&a).map_err(|x| format!("{}: {}", $name, e(x)))?;
            ensure!(bits(&back) == bits(&v), "{}: DECODED {} from {}", $name, short(format!("{back:?}")), short(format!("{v:?}")));
            if T::SIMPLE || !$simple {
                let b = ($enc).to_vec(&twins).map_err(|x| format!("{}: {}", $name, e(x)))?;
                ensure!(a == b, "{}: IN BULK {}, one by one {}", $name, hex(&a), hex(&b));
                let back: Vec<T::Twin> = ($enc).from_slice(&a).map_err(|x| format!("{}: {}", $name, e(x)))?;
                ensure!(back.into_iter().map(|t| T::of(t).bits()).collect::<Vec<_>>() == bits(&v), "{}: one by one from BULK", $name);
            }
        }};
    }
    match s.index(6) {
        0 => with!("storage, swapped", false, musli::storage::Encoding::new().with_options::<SWAPPED>()),
        1 => with!("storage", false, musli::storage::Encoding::new()),
        2 => with!("packed", true, musli::packed::Encoding::new()),
        3 => with!("packed, swapped", false, musli::packed::Encoding::new().with_options::<SWAPPED>()),
        4 => with!("wire", true, musli::wire::Encoding::new().with_options::<NATIVE>()),
        _ => with!("descriptive", false, musli::descriptive::Encoding::new()),
    }
    Ok(())
}

/// Bytes which might not be values decode like their elements do.
fn bytes<T: Model>(s: &mut Src, c: &mut Case) -> Res {
    let v = some::<T>(s, 4);
    let mut b = Vec::new();
    put_all(&v, &mut b);
    if s.bool() {
        let n = s.size(0, v.len() + 1);
        b[..size_of::<usize>()].copy_from_slice(&n.to_ne_bytes());
    }
    for _ in 0..s.index(4) {
        if b.len() > size_of::<usize>() {
            let i = size_of::<usize>() + s.index(b.len() - size_of::<usize>());
            b[i] = *s.pick(&[0, 1, 2, 0x80, 0xff, 0xd8]);
        }
    }
    match s.index(4) {
        0 => b.truncate(s.size(0, b.len())),
        1 => b.extend(s.bytes(9)),
        _ => {}
    }
    c.desc(|| hex(&b));
    c.nontrivial(&b);
    let mut left = &b[..];
    let want = take_len(&mut left).and_then(|n| {
        let mut out = Vec::new();
        for _ in 0..n {
            out.push(take_nested::<T>(&mut left)?);
        }
        Some(out)
    });
    c.label(if want.is_some() { "values" } else { "not values" });
    let mut r = SliceReader::new(&b);
    let check = |n: &str, got: Result<Vec<T>, String>| -> Res {
        match (&got, &want) {
            (Ok(a), Some(w)) => ensure!(bits(a) == bits(w), "{n}: DECODED {} and not {}", short(format!("{a:?}")), short(format!("{w:?}"))),
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("{n}: DECODED bytes which are no values")),
            (Err(x), Some(w)) => return Err(format!("{n}: {x}, expected {}", short(format!("{w:?}")))),
        }
        Ok(())
    };
    check("vector", native!().decode(&mut r).map_err(e))?;
    if want.is_some() {
        ensure_eq!(r.remaining(), left.len(), "bytes left");
    }
    let d: Result<VecDeque<T>, _> = native!().from_slice(&b);
    check("deque", d.map(Into::into).map_err(e))?;
    let d: Result<Box<[T]>, _> = native!().from_slice(&b);
    check("slice", d.map(Into::into).map_err(e))?;
    if T::SIMPLE {
        let d: Result<Vec<T::Twin>, _> = native!().from_slice(&b);
        check("one by one", d.map(|v| v.into_iter().map(T::of).collect()).map_err(e))?;
    }
    // By itself.
    let mut left = &b[..];
    let mut r = SliceReader::new(&b);
    let got = native!().decode::<_, (u8, T)>(&mut r);
    let want = (take_len(&mut left) == Some(2)).then_some(()).and_then(|()| Some((u8::take(&mut left)?, take_nested::<T>(&mut left)?)));
    match (got, want) {
        (Ok(a), Some(w)) => {
            ensure_eq!(a.1.bits(), w.1.bits(), "a single one");
            ensure_eq!(r.remaining(), left.len(), "bytes left after a single one");
        }
        (Err(_), None) => {}
        (Ok(_), None) => return Err("DECODED a single one from bytes which are not one".into()),
        (Err(x), Some(_)) => return Err(format!("a single one {}", e(x))),
    }
    Ok(())
}

/// Long sequences, which are read in chunks.
fn chunks<T: Model>(s: &mut Src, c: &mut Case) -> Res {
    let mut one = Vec::new();
    let few: Vec<Vec<u8>> = (0..3).map(|_| T::gen(s).bits()).collect();
    let z = few[0].len();
    // Around where chunks end.
    let per = 65536usize.div_ceil(z.max(1));
    let n = match s.index(5) {
        0 => per,
        1 => per + 1,
        2 => per - 1,
        3 => per * s.size(1, 3) + s.index(5),
        _ => s.size(0, 3 * per),
    };
    let n = if z == 0 { n % 1000 } else { n };
    c.desc(|| format!("{n} elements of {z} bytes"));
    c.nontrivial(&(n, &few));
    // No two elements at the same distance of a chunk are the same.
    put_len(n, &mut one);
    for i in 0..n {
        let at = one.len();
        one.extend_from_slice(&few[i % 3]);
        if T::ANY && z >= 3 {
            one[at..at + 3].copy_from_slice(&(i as u32).to_le_bytes()[..3]);
        } else if T::ANY && z > 0 {
            one[at] = (i % 251) as u8;
        }
    }
    let whole = one.len();
    let cut = if s.bool() && z > 0 { s.size(0, whole - 1) } else { whole };
    one.extend_from_slice(&[9; 5]);
    let b = &one[..];
    let header = size_of::<usize>();
    let check = |n: &str, got: Result<Vec<T>, String>, used: Option<usize>| -> Res {
        if cut < whole && n != "from a slice" {
            ensure!(got.is_err(), "{n}: DECODED what is cut short");
            return Ok(());
        }
        let got = got.map_err(|e| format!("{n}: {e}"))?;
        let mut out = Vec::new();
        put_len(got.len(), &mut out);
        got.iter().for_each(|v| v.raw(&mut out));
        ensure_eq!(out.len(), whole, "{n}: the LENGTH");
        if let Some(i) = (header..whole).find(|&i| out[i] != b[i]) {
            return Err(format!("{n}: DIFFERENT at byte {} of element {}", (i - header) % z, (i - header) / z));
        }
        ensure!(used.is_none_or(|u| u == whole), "{n}: USED {used:?} of {whole}");
        Ok(())
    };
    let mut r = SliceReader::new(b);
    let got = native!().decode(&mut r).map_err(e);
    check("from a slice", got, Some(b.len() - r.remaining()))?;
    let mut r = SliceReader::new(b).limit(cut);
    let got = native!().decode(&mut r).map_err(e);
    check("from a limited slice", got, None)?;
    let got = native!().from_slice::<Box<[T]>>(&b[..cut]).map(Into::into).map_err(e);
    check("a box", got, None)?;
    let got = native!().from_slice::<VecDeque<T>>(&b[..cut]).map(Into::into).map_err(e);
    check("a deque", got, None)?;
    if cut == whole {
        let v: Vec<T> = native!().from_slice(b).map_err(e)?;
        let out = native!().to_vec(&v).map_err(e)?;
        ensure!(out == b[..whole], "ENCODED something else");
        let mut d: VecDeque<T> = v.into();
        if let Some(v) = d.pop_back() {
            d.push_front(v);
        }
        let mid = n.min(3);
        for _ in 0..mid {
            let v = d.pop_front().expect("an element");
            d.push_back(v);
        }
        let mut want = Vec::new();
        put_len(d.len(), &mut want);
        d.iter().for_each(|v| v.raw(&mut want));
        let out = native!().to_vec(&d).map_err(e)?;
        ensure!(out == want, "ENCODED a deque as something else");
    }
    Ok(())
}

fn pick<'a>(s: &mut Src, c: &mut Case, all: &'a [Type]) -> &'a Type {
    let t = s.pick(all);
    c.desc(|| t.name.into());
    t
}

fn named(t: &Type, r: Res) -> Res {
    r.map_err(|e| format!("{}: {e}", t.name))
}

fn validated() -> Option<String> {
    let v = vec![[true, false]];
    let back: Result<Vec<[bool; 2]>, _> = native!().from_slice(&native!().to_vec(&v).expect("encoding"));
    (back.ok() != Some(v)).then(|| "a vector of arrays of booleans in native storage".into())
}

fn main() {
    pbt::main(vec![Property {
        id: "C14",
        rule: "a case is a type of the table with random values of it in containers, in a format, as altered bytes or as a sequence which spans chunks",
        assumptions: &["arrays and units of elements which have to be validated are not put inside of containers"],
        families: vec![
            Family::new("containers", 500_000, |s, c| {
                let t = pick(s, c, table::TYPES);
                named(t, (t.containers)(s, c))
            })
            .thorough(60_000_000),
            Family::new("formats", 500_000, |s, c| {
                let t = pick(s, c, table::TYPES);
                named(t, (t.formats)(s, c))
            })
            .thorough(60_000_000),
            Family::new("bytes", 500_000, |s, c| {
                let t = pick(s, c, table::TYPES);
                named(t, (t.bytes)(s, c))
            })
            .thorough(60_000_000),
            Family::new("chunks", 1_500, |s, c| {
                let t = pick(s, c, table::LARGE);
                named(t, (t.chunks)(s, c))
            })
            .thorough(300_000),
        ],
        findings: vec![Finding { id: "C14-validated-arrays", probe: validated }],
    }])
}

//! Z03: tables which are built from distinct keys.
use std::collections::HashMap;
use std::fmt::Debug;

use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::{phf, swiss, Buf, ByteOrder, Error, OwnedBuf, Ref};
use pbt::{ensure, ensure_eq, Case, Res, Src};
use zc::guard::guarded;
use zc::types::Sz;

use crate::kinds::*;

/// How many entries a table has: often where tables grow.
pub fn count(s: &mut Src, large: usize) -> usize {
    match s.weighted(&[6, 3, 1]) {
        0 => s.size(0, 20.min(large)),
        1 => {
            let at = *s.pick(&[3, 4, 7, 8, 14, 28, 56, 112, 224, 448]);
            (at + s.upto(2) as usize).saturating_sub(1).min(large)
        }
        _ => s.size(0, large),
    }
}

pub struct Input<K: Kind> {
    pub entries: Vec<(K::M, u32)>,
    pub absent: Vec<K::M>,
}

pub fn input<K: Kind>(s: &mut Src, large: usize) -> Input<K> {
    let n = count(s, large).min(K::MANY);
    let mut seen = HashMap::new();
    let mut entries = vec![];
    let mut last = None;
    for _ in 0..n * 2 {
        if entries.len() == n {
            break;
        }
        let k = match &last {
            Some(k) if s.chance(1, 3) => K::near(s, k),
            _ => K::gen(s),
        };
        last = Some(k.clone());
        let v = entries.len() as u32 * 3 + 1;
        if seen.insert(k.clone(), v).is_none() {
            entries.push((k, v));
        } else {
            seen.insert(k.clone(), entries.iter().find(|(o, _)| *o == k).unwrap().1);
        }
    }
    let mut absent = vec![];
    for _ in 0..s.size(0, 20) {
        let k = match s.upto(2) {
            0 if !entries.is_empty() => {
                let at = s.index(entries.len());
                K::near(s, &entries[at].0)
            }
            _ => K::gen(s),
        };
        if !seen.contains_key(&k) {
            absent.push(k);
        }
    }
    Input { entries, absent }
}

pub fn describe<K: Kind, E: 'static, O: 'static>(what: &str, i: &Input<K>) -> String {
    let name = |n: &'static str| n.rsplit("::").next().unwrap_or(n);
    format!(
        "{what} of {} in {} {}: {} entries {:?}, absent {:?}",
        K::NAME,
        name(std::any::type_name::<E>()),
        name(std::any::type_name::<O>()),
        i.entries.len(),
        i.entries,
        i.absent
    )
}

/// What a table answers.
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Answers {
    pub found: Vec<Option<u32>>,
    pub contains: Vec<bool>,
    pub len: Option<usize>,
    pub empty: Option<bool>,
}

type R<T> = Result<T, Error>;

/// The same question in all ways.
fn agree<T: PartialEq + Debug>(what: &str, all: Vec<R<T>>) -> Result<T, String> {
    let mut out: Option<T> = None;
    for (n, r) in all.into_iter().enumerate() {
        let r = r.map_err(|e| format!("{what} ({n}): {e}"))?;
        match &out {
            Some(o) => ensure_eq!(r, *o, "{what}: another answer ({n})"),
            None => out = Some(r),
        }
    }
    Ok(out.unwrap())
}

macro_rules! ask_map {
    ($buf:expr, $map:expr, $keys:expr, $K:ty, $E:ty, $O:ty, $stored:expr, $rest:expr) => {{
        let (buf, map) = ($buf, $map);
        let bound = buf.bind(map).map_err(|e| format!("bind: {e}"))?;
        let mut a = Answers::default();
        for (n, k) in $keys.iter().enumerate() {
            let t = <$K>::target(k);
            let mut all = vec![bound.get(&t).map(|v| v.copied()), map.get(buf, &t).map(|v| v.copied())];
            let mut has = vec![bound.contains_key(&t), map.contains_key(buf, &t)];
            if let Some(k) = $stored.get(n) {
                let k: &<$K as Kind>::K<$E, $O> = k;
                all.push(bound.get(k).map(|v| v.copied()));
                all.push(map.get(buf, k).map(|v| v.copied()));
                has.push(bound.contains_key(k));
                has.push(map.contains_key(buf, k));
            }
            a.found.push(agree(&format!("get {k:?}"), all)?);
            a.contains.push(agree(&format!("contains {k:?}"), has)?);
        }
        #[allow(clippy::redundant_closure_call)]
        ($rest)(&bound, &mut a);
        a
    }};
}

macro_rules! ask_set {
    ($buf:expr, $set:expr, $keys:expr, $K:ty, $E:ty, $O:ty, $stored:expr) => {{
        let (buf, set) = ($buf, &$set);
        let bound = buf.bind($set).map_err(|e| format!("bind: {e}"))?;
        let mut a = Answers::default();
        for (n, k) in $keys.iter().enumerate() {
            let t = <$K>::target(k);
            let mut has = vec![bound.contains(&t), set.contains(buf, &t)];
            if let Some(k) = $stored.get(n) {
                let k: &<$K as Kind>::K<$E, $O> = k;
                has.push(bound.contains(k));
                has.push(set.contains(buf, k));
            }
            a.contains.push(agree(&format!("contains {k:?}"), has)?);
        }
        a
    }};
}

fn setup<E: ByteOrder, O: Sz, K: Kind>(s: &mut Src, i: &Input<K>) -> (OwnedBuf<E, O>, Vec<K::K<E, O>>) {
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    // Tables are stored after something else, mostly.
    for _ in 0..s.size(0, 3) {
        buf.store(&(s.upto(255) as u8));
    }
    let keys = i.entries.iter().map(|(k, _)| K::store(&mut buf, k)).collect();
    (buf, keys)
}

/// The bytes with the table at an aligned address, at the end of what can be
/// read.
fn elsewhere<T>(bytes: &[u8], f: impl FnOnce(&Buf) -> T) -> Result<T, String> {
    let slack = (0isize - bytes.len() as isize).rem_euclid(16) as usize;
    let (out, clean) = guarded(bytes, slack, |b| f(Buf::new(b)));
    ensure!(clean, "bytes around the buffer were written");
    Ok(out)
}

macro_rules! check {
    ($input:expr, $answers:expr, $map:expr, $len:expr) => {{
        let n = $input.entries.len();
        let a: &Answers = $answers;
        for (m, (k, v)) in $input.entries.iter().enumerate() {
            if $map {
                ensure_eq!(a.found[m], Some(*v), "value of {k:?}");
            }
            ensure!(a.contains[m], "{k:?} is not there");
        }
        for (m, k) in $input.absent.iter().enumerate() {
            if $map {
                ensure_eq!(a.found[n + m], None, "value of {k:?}");
            }
            ensure!(!a.contains[n + m], "{k:?} is there");
        }
        if $len {
            ensure_eq!(a.len, Some(n), "length");
            ensure_eq!(a.empty, Some(n == 0), "empty");
        }
    }};
}

fn keys<K: Kind>(i: &Input<K>) -> Vec<K::M> {
    i.entries.iter().map(|e| e.0.clone()).chain(i.absent.iter().cloned()).collect()
}

/// The sizes of tables which a narrow pointer cannot reach.
fn narrow<O: Sz>(large: usize) -> usize {
    if std::mem::size_of::<O>() <= 2 {
        large.min(448)
    } else {
        large
    }
}

fn swiss_map<K: Kind, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let i = input::<K>(s, narrow::<O>(1000));
    let text = || describe::<K, E, O>("swiss map", &i);
    c.desc(text);
    let (mut buf, stored) = setup::<E, O, K>(s, &i);
    let entries: Vec<_> = stored.iter().copied().zip(i.entries.iter().map(|e| e.1)).collect();
    let map = swiss::store_map(&mut buf, entries).map_err(|e| format!("{e}"))?;
    let root = buf.store(&map);
    buf.align_in_place();
    let keys = keys(&i);
    let go = |buf: &Buf, root: Ref<_, E, O>| -> Result<Answers, String> {
        let map: swiss::MapRef<K::K<E, O>, u32, E, O> = *buf.load(root).map_err(|e| format!("root: {e}"))?;
        let len = map.len();
        ensure_eq!(map.is_empty(), len == 0, "empty");
        let a = ask_map!(buf, map, keys, K, E, O, stored, |b: &swiss::Map<'_, _, _>, a: &mut Answers| {
            a.len = Some(b.len());
            a.empty = Some(b.is_empty());
        });
        ensure_eq!(a.len, Some(len), "bound length");
        Ok(a)
    };
    let a = go(&buf, root).map_err(|e| format!("{e}"))?;
    check!(i, &a, true, true);
    let b = elsewhere(buf.as_slice(), |b| go(b, root))?.map_err(|e| format!("loaded again: {e}"))?;
    ensure_eq!(a, b, "loaded again");
    label(c, &i);
    Ok(())
}

pub fn label<K: Kind>(c: &mut Case, i: &Input<K>) {
    let n = i.entries.len();
    if n > 1 {
        c.nontrivial(&(K::NAME, format!("{:?} {:?}", i.entries, i.absent)));
    }
    c.label(match n {
        0 => "empty",
        1..=7 => "1-7 entries",
        8..=28 => "8-28 entries",
        29..=224 => "29-224 entries",
        _ => "over 224 entries",
    });
}

fn swiss_set<K: Kind, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let i = input::<K>(s, narrow::<O>(1000));
    let text = || describe::<K, E, O>("swiss set", &i);
    c.desc(text);
    let (mut buf, stored) = setup::<E, O, K>(s, &i);
    let set = swiss::store_set(&mut buf, stored.iter().copied()).map_err(|e| format!("{e}"))?;
    let root = buf.store(&set);
    buf.align_in_place();
    let keys = keys(&i);
    let go = |buf: &Buf, root: Ref<_, E, O>| -> Result<Answers, String> {
        buf.load::<Ref<swiss::SetRef<K::K<E, O>, E, O>, E, O>>(root).map_err(|e| format!("root: {e}"))?;
        let set = || buf.load_at_unaligned::<swiss::SetRef<K::K<E, O>, E, O>>(root.offset()).unwrap();
        Ok(ask_set!(buf, set(), keys, K, E, O, stored))
    };
    let a = go(&buf, root).map_err(|e| format!("{e}"))?;
    check!(i, &a, false, false);
    let b = elsewhere(buf.as_slice(), |b| go(b, root))?.map_err(|e| format!("loaded again: {e}"))?;
    ensure_eq!(a, b, "loaded again");
    label(c, &i);
    Ok(())
}

fn phf_map<K: Kind, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let i = input::<K>(s, 300);
    let text = || describe::<K, E, O>("phf map", &i);
    c.desc(text);
    let (mut buf, stored) = setup::<E, O, K>(s, &i);
    let entries: Vec<_> = stored.iter().copied().zip(i.entries.iter().map(|e| e.1)).collect();
    let map = phf::store_map(&mut buf, entries).map_err(|e| format!("{e}"))?;
    let root = buf.store(&map);
    buf.align_in_place();
    let keys = keys(&i);
    let go = |buf: &Buf, root: Ref<_, E, O>| -> Result<Answers, String> {
        let map: phf::MapRef<K::K<E, O>, u32, E, O> = *buf.load(root).map_err(|e| format!("root: {e}"))?;
        let a = ask_map!(buf, map, keys, K, E, O, stored, |_: &phf::Map<'_, _, _>, _: &mut Answers| {});
        let bound = buf.bind(map).map_err(|e| e.to_string())?;
        for (k, v) in keys.iter().zip(&a.found) {
            for e in [
                bound.get_entry(&K::target(k)).map(|e| e.map(|(a, b)| (*a, *b))),
                map.get_entry(buf, &K::target(k)).map(|e| e.map(|(a, b)| (*a, *b))),
            ] {
                let e = e.map_err(|e| e.to_string())?;
                ensure_eq!(e.as_ref().map(|e| e.1), *v, "entry of {k:?}");
                if let Some((found, _)) = e {
                    use musli_zerocopy::buf::Visit;
                    let same = found.visit(buf, |f| f == K::target(k)).map_err(|e| e.to_string())?;
                    ensure!(same, "entry of {k:?} has another key");
                }
            }
        }
        Ok(a)
    };
    let a = go(&buf, root).map_err(|e| format!("{e}"))?;
    check!(i, &a, true, false);
    let b = elsewhere(buf.as_slice(), |b| go(b, root))?.map_err(|e| format!("loaded again: {e}"))?;
    ensure_eq!(a, b, "loaded again");
    label(c, &i);
    Ok(())
}

fn phf_set<K: Kind, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let i = input::<K>(s, 300);
    let text = || describe::<K, E, O>("phf set", &i);
    c.desc(text);
    let (mut buf, stored) = setup::<E, O, K>(s, &i);
    let set = phf::store_set(&mut buf, stored.iter().copied()).map_err(|e| format!("{e}"))?;
    let root = buf.store(&set);
    buf.align_in_place();
    let keys = keys(&i);
    let go = |buf: &Buf, root: Ref<_, E, O>| -> Result<Answers, String> {
        buf.load::<Ref<phf::SetRef<K::K<E, O>, E, O>, E, O>>(root).map_err(|e| format!("root: {e}"))?;
        let set = || buf.load_at_unaligned::<phf::SetRef<K::K<E, O>, E, O>>(root.offset()).unwrap();
        Ok(ask_set!(buf, set(), keys, K, E, O, stored))
    };
    let a = go(&buf, root).map_err(|e| format!("{e}"))?;
    check!(i, &a, false, false);
    let b = elsewhere(buf.as_slice(), |b| go(b, root))?.map_err(|e| format!("loaded again: {e}"))?;
    ensure_eq!(a, b, "loaded again");
    label(c, &i);
    Ok(())
}

pub fn swiss_maps(s: &mut Src, c: &mut Case) -> Res {
    any!(s, swiss_map, s, c)
}

pub fn swiss_sets(s: &mut Src, c: &mut Case) -> Res {
    any!(s, swiss_set, s, c)
}

pub fn phf_maps(s: &mut Src, c: &mut Case) -> Res {
    any!(s, phf_map, s, c)
}

pub fn phf_sets(s: &mut Src, c: &mut Case) -> Res {
    any!(s, phf_set, s, c)
}

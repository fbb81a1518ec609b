//! Z03: tables whose bytes have been altered.
use std::mem::{align_of, size_of};

use musli_zerocopy::endian::{Big, Native};
use musli_zerocopy::{phf, swiss, Buf, ByteOrder, OwnedBuf, Ref, ZeroCopy};
use pbt::{ensure, hex, Case, Res, Src};
use zc::guard::guarded;
use zc::types::Sz;

use crate::kinds::*;
use crate::tables::{input, Input};

fn word(s: &mut Src, len: usize) -> u64 {
    match s.upto(5) {
        0 => s.upto(40),
        1 => (1u64 << s.upto(63)).wrapping_sub(s.upto(1)),
        2 => u64::MAX - s.upto(40),
        3 => s.upto(len as u64 + 4),
        4 => (1 << 63) | s.upto(3),
        _ => s.unsigned(64) as u64,
    }
}

/// Alter the root, or any other bytes.
fn alter<O>(s: &mut Src, bytes: &mut [u8], root: usize, size: usize) -> usize {
    let n = s.size(0, 3);
    for _ in 0..n {
        let len = bytes.len();
        match s.weighted(&[4, 3, 2]) {
            0 => {
                // A word of the root.
                let w = if s.bool() { 8 } else { size_of::<O>() };
                let at = root + s.index(size / w) * w;
                let word = word(s, len);
                let word = if s.bool() { word.to_le_bytes() } else { (word << (64 - w * 8)).to_be_bytes() };
                bytes[at..at + w].copy_from_slice(&word[..w]);
            }
            1 => {
                let at = s.index(len);
                bytes[at] = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
            }
            _ => {
                // What marks used buckets.
                let at = s.index(len);
                let n = s.size(1, 60);
                let b = *s.pick(&[0u8, 0x11, 0x80, 0xff]);
                for b1 in bytes[at..].iter_mut().take(n) {
                    *b1 = b;
                }
            }
        }
    }
    n
}

struct Made<K: Kind> {
    bytes: Vec<u8>,
    root: usize,
    align: usize,
    altered: usize,
    queries: Vec<K::M>,
    present: usize,
}

fn made<K: Kind, R: ZeroCopy, E: ByteOrder, O: Sz>(
    s: &mut Src,
    c: &mut Case,
    what: &'static str,
    store: impl FnOnce(&mut OwnedBuf<E, O>, Vec<K::K<E, O>>) -> R,
) -> Made<K> {
    let i: Input<K> = input(s, 60);
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let keys = i.entries.iter().map(|(k, _)| K::store(&mut buf, k)).collect();
    let r = store(&mut buf, keys);
    let root = buf.store(&r).offset();
    buf.align_in_place();
    let mut bytes = buf.as_slice().to_vec();
    let altered = alter::<O>(s, &mut bytes, root, size_of::<R>());
    let present = i.entries.len();
    let queries: Vec<_> = i.entries.into_iter().map(|e| e.0).take(20).chain(i.absent.into_iter().take(4)).collect();
    c.desc(|| format!("{what} of {} at {root} of {}, queries {queries:?}", K::NAME, hex(&bytes)));
    if altered > 0 {
        c.nontrivial(&(what, K::NAME, &bytes));
    }
    Made { bytes, root, align: align_of::<R>().max(16), altered, queries, present }
}

fn run<K: Kind>(m: &Made<K>, c: &mut Case, f: impl FnOnce(&Buf, &mut Case) -> Result<usize, String>) -> Res {
    let slack = (0isize - m.bytes.len() as isize).rem_euclid(m.align as isize) as usize;
    let (out, clean) = guarded(&m.bytes, slack, |b| f(Buf::new(b), c));
    ensure!(clean, "bytes around the buffer were written");
    let found = out?;
    if m.altered == 0 {
        ensure!(found == 2 * m.present.min(20), "nothing found in an unaltered table");
    }
    Ok(())
}

fn valid(c: &char) -> bool {
    // SAFETY: as large.
    let bits: u32 = unsafe { std::ptr::read(std::ptr::from_ref(c).cast()) };
    char::from_u32(bits).is_some()
}

macro_rules! go {
    ($name:ident, $what:expr, $store:path, $map:ident :: $Map:ident) => {
        fn $name<K: Kind, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
            type Root<K, E, O> = $map::$Map<<K as Kind>::K<E, O>, char, E, O>;
            let m = made::<K, Root<K, E, O>, E, O>(s, c, $what, |buf, keys| {
                let entries: Vec<_> = keys.into_iter().map(|k| (k, 'x')).collect();
                $store(buf, entries).unwrap()
            });
            run(&m, c, |buf, c| {
                let root: Root<K, E, O> = match buf.load(Ref::<Root<K, E, O>, E, O>::with_metadata(m.root, ())) {
                    Ok(root) => *root,
                    Err(_) => return Ok(0),
                };
                let mut found = 0;
                let mut seen = |v: Result<Option<&char>, musli_zerocopy::Error>| -> Res {
                    match v {
                        Ok(Some(v)) => {
                            found += 1;
                            ensure!(valid(v), "an invalid value was found");
                            c.label("found");
                        }
                        Ok(None) => c.label("not found"),
                        Err(_) => c.label("error"),
                    }
                    Ok(())
                };
                for q in &m.queries {
                    seen(root.get(buf, &K::target(q)))?;
                    let _ = root.contains_key(buf, &K::target(q));
                }
                if let Ok(map) = buf.bind(root) {
                    for q in &m.queries {
                        seen(map.get(&K::target(q)))?;
                        let _ = map.contains_key(&K::target(q));
                    }
                }
                Ok(found)
            })
        }
    };
}

go!(swiss_map, "swiss map", swiss::store_map, swiss::MapRef);
go!(phf_map, "phf map", phf::store_map, phf::MapRef);

macro_rules! go_set {
    ($name:ident, $what:expr, $store:path, $map:ident) => {
        fn $name<K: Kind, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
            type Root<K, E, O> = $map::SetRef<<K as Kind>::K<E, O>, E, O>;
            let m = made::<K, Root<K, E, O>, E, O>(s, c, $what, |buf, keys| $store(buf, keys).unwrap());
            run(&m, c, |buf, c| {
                let Ok(root) = buf.load_at_unaligned::<Root<K, E, O>>(m.root) else { return Ok(0) };
                let mut found = 0;
                let mut seen = |v: Result<bool, musli_zerocopy::Error>| match v {
                    Ok(true) => {
                        found += 1;
                        c.label("found");
                    }
                    Ok(false) => c.label("not found"),
                    Err(_) => c.label("error"),
                };
                for q in &m.queries {
                    seen(root.contains(buf, &K::target(q)));
                }
                if let Ok(set) = buf.bind(root) {
                    for q in &m.queries {
                        seen(set.contains(&K::target(q)));
                    }
                }
                Ok(found)
            })
        }
    };
}

go_set!(swiss_set, "swiss set", swiss::store_set, swiss);
go_set!(phf_set, "phf set", phf::store_set, phf);

macro_rules! of {
    ($s:expr, $f:ident, $c:expr) => {
        match $s.upto(4) {
            0 => $f::<U32, Native, u32>($s, $c),
            1 => $f::<Str, Native, u32>($s, $c),
            2 => $f::<Struct, Native, u64>($s, $c),
            3 => $f::<Str, Big, u16>($s, $c),
            _ => $f::<Refs, Big, u64>($s, $c),
        }
    };
}

pub fn swiss_altered(s: &mut Src, c: &mut Case) -> Res {
    if s.bool() {
        of!(s, swiss_map, c)
    } else {
        of!(s, swiss_set, c)
    }
}

pub fn phf_altered(s: &mut Src, c: &mut Case) -> Res {
    if s.bool() {
        of!(s, phf_map, c)
    } else {
        of!(s, phf_set, c)
    }
}

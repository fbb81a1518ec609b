//! Z03: tables with values of all types.
use std::collections::BTreeMap;

use musli_zerocopy::{phf, swiss, Buf, OwnedBuf, SliceMut};
use pbt::{ensure, ensure_eq, Case, Res, Src};
use zc::guard::guarded;
use zc::types::*;

use crate::kinds::*;
use crate::tables::{input, label};

struct Of<'a>(&'a mut Src, &'a mut Case);

impl Visitor for Of<'_> {
    type Out = Res;

    fn visit<T: Z>(self, name: &'static str) -> Res {
        let Of(s, c) = self;
        let n = s.size(0, 40);
        let mut entries = BTreeMap::new();
        for _ in 0..n {
            entries.insert(s.unsigned(16) as u16, T::gen(s));
        }
        let swiss = s.bool();
        c.desc(|| format!("u16 => {name}, swiss={swiss}: {entries:?}"));
        let mut buf = OwnedBuf::new();
        for _ in 0..s.size(0, 3) {
            buf.store(&1u8);
        }
        let list: Vec<_> = entries.iter().map(|(k, v)| (*k, v.clone())).collect();
        let image = |v: Result<Option<&T>, musli_zerocopy::Error>, aligned: bool| -> Result<Option<Image>, String> {
            let v = v.map_err(|e| e.to_string())?;
            Ok(match v {
                Some(v) => {
                    let at = std::ptr::from_ref(v) as usize;
                    ensure!(!aligned || at % align_of::<T>() == 0, "misaligned value");
                    Some(v.image())
                }
                None => None,
            })
        };

        let slack = |len: usize| (0isize - len as isize).rem_euclid(align_of::<T>().max(16) as isize) as usize;
        macro_rules! all {
            ($map:expr) => {{
                let map = $map;
                buf.align_in_place();
                let ask = |buf: &Buf| -> Res {
                    let bound = buf.bind(map).map_err(|e| format!("bind: {e}"))?;
                    for k in entries.keys().copied().chain([0, 1, 0xffff]) {
                        let expect = entries.get(&k).map(|v| v.image());
                        ensure_eq!(image(map.get(buf, &k), true)?, expect, "get {k}");
                        ensure_eq!(image(bound.get(&k), true)?, expect, "bound get {k}");
                        ensure_eq!(bound.contains_key(&k).map_err(|e| e.to_string())?, expect.is_some(), "contains {k}");
                    }
                    Ok(())
                };
                ask(&buf)?;
                let bytes = buf.as_slice().to_vec();
                let (out, _) = guarded(&bytes, slack(bytes.len()), |b| ask(Buf::new(b)));
                out.map_err(|e| format!("loaded again: {e}"))?;
            }};
        }
        if swiss {
            all!(swiss::store_map(&mut buf, list).map_err(|e| e.to_string())?)
        } else {
            all!(phf::store_map(&mut buf, list).map_err(|e| e.to_string())?)
        }
        if entries.len() > 1 {
            c.nontrivial(&(name, swiss, format!("{entries:?}")));
        }
        Ok(())
    }
}

pub fn values(s: &mut Src, c: &mut Case) -> Res {
    with_type(s.index(TYPES), Of(s, c))
}

/// Sets which are stored in borrowed memory.
pub fn borrowed(s: &mut Src, c: &mut Case) -> Res {
    macro_rules! of {
        ($k:ty) => {{
            let i = input::<$k>(s, 120);
            let swiss = s.bool();
            let before = s.size(0, 3);
            c.desc(|| format!("swiss={swiss} set of {} after {before}: {:?}", <$k>::NAME, i.entries));
            label::<$k>(c, &i);
            let zeros = vec![0xaa; 20_000];
            let (out, clean) = guarded(&zeros, 0, |b| -> Res {
                let mut buf = SliceMut::new(b);
                for _ in 0..before {
                    buf.store(&1u8);
                }
                let keys: Vec<_> = i.entries.iter().map(|e| e.0).collect();
                macro_rules! all {
                    ($store:path) => {{
                        let set = $store(&mut buf, keys.iter().copied()).map_err(|e| e.to_string())?;
                        let bytes = buf.as_slice().to_vec();
                        // At an aligned address.
                        let mut copy = OwnedBuf::new();
                        copy.extend_from_slice(&bytes);
                        copy.request_align::<u128>();
                        copy.align_in_place();
                        for (k, there) in i.entries.iter().map(|e| (&e.0, true)).chain(i.absent.iter().map(|k| (k, false))) {
                            let got = set.contains(&copy, &<$k>::target(k)).map_err(|e| e.to_string())?;
                            ensure_eq!(got, there, "contains {k:?}");
                        }
                        let bound = copy.bind(set).map_err(|e| e.to_string())?;
                        for (k, there) in i.entries.iter().map(|e| (&e.0, true)).chain(i.absent.iter().map(|k| (k, false))) {
                            let got = bound.contains(&<$k>::target(k)).map_err(|e| e.to_string())?;
                            ensure_eq!(got, there, "bound contains {k:?}");
                        }
                    }};
                }
                if swiss {
                    all!(swiss::store_set)
                } else {
                    all!(phf::store_set)
                }
                Ok(())
            });
            ensure!(clean, "bytes around the buffer were written");
            out
        }};
    }
    match s.upto(3) {
        0 => of!(U32),
        1 => of!(Char),
        2 => of!(Struct),
        _ => of!(U128),
    }
}

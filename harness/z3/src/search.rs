//! Z04: binary searches over stored slices.
use std::cmp::Ordering;

use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::{binary_search, binary_search_by, BinarySearch, Packed, Slice};
use musli_zerocopy::{Buf, ByteOrder, OwnedBuf, Ref};
use pbt::{ensure, ensure_eq, Case, Res, Src};
use zc::types::Sz;

fn same<T: Ord>(sorted: &[T], at: BinarySearch, q: &T) -> Res {
    match at {
        BinarySearch::Found(n) => {
            ensure!(sorted.get(n) == Some(q), "found at {n}, which is another");
        }
        BinarySearch::Missing(n) => {
            ensure_eq!(sorted.binary_search(q).err(), Some(n), "missing");
        }
    }
    Ok(())
}

fn numbers<S: Slice<Item = u32>>(s: &mut Src, c: &mut Case, make: impl FnOnce(Ref<[u32], Native, usize>) -> S) -> Res {
    let n = s.size(0, 40);
    let wide = s.bool();
    let mut list: Vec<u32> = (0..n).map(|_| if wide { s.unsigned(32) as u32 } else { s.upto(60) as u32 }).collect();
    list.sort();
    if s.bool() {
        list.dedup();
    }
    c.desc(|| format!("{list:?}"));
    if list.len() > 1 {
        c.nontrivial(&(std::any::type_name::<S>(), &list));
    }
    let mut buf = OwnedBuf::new().with_size::<usize>();
    buf.store(&7u8);
    let slice = make(buf.store_slice(&list));
    buf.align_in_place();
    let buf: &Buf = &buf;
    let mut queries: Vec<u32> = list.clone();
    queries.extend([0, u32::MAX]);
    queries.extend(list.iter().flat_map(|n| [n.wrapping_add(1), n.wrapping_sub(1)]));
    for q in queries {
        let at = binary_search(buf, slice, &q).map_err(|e| format!("{q}: {e}"))?;
        same(&list, at, &q).map_err(|e| format!("{q}: {e}"))?;
        // Any other way to be sorted.
        let at = binary_search_by(buf, slice, |v| Ok((v / 4).cmp(&(q / 4)))).map_err(|e| format!("{q}/4: {e}"))?;
        let by: Vec<u32> = list.iter().map(|v| v / 4).collect();
        same(&by, at, &(q / 4)).map_err(|e| format!("{q}/4: {e}"))?;
        // Nothing is equal: where one would be.
        let at = binary_search_by(buf, slice, |v| Ok(if *v < q { Ordering::Less } else { Ordering::Greater })).map_err(|e| format!("{q}: {e}"))?;
        ensure!(at == BinarySearch::Missing(list.partition_point(|v| *v < q)), "{q}: partition at {at:?}");
        let at = binary_search_by(buf, slice, |v| Ok(if *v <= q { Ordering::Less } else { Ordering::Greater })).map_err(|e| format!("{q}: {e}"))?;
        ensure!(at == BinarySearch::Missing(list.partition_point(|v| *v <= q)), "{q}: partition after {at:?}");
        // Any answers at all end with one.
        let mut bits = s.unsigned(64) as u64;
        let mut asked = 0;
        let at = binary_search_by(buf, slice, |_| {
            asked += 1;
            bits = bits.rotate_left(3);
            Ok(if bits & 1 == 0 { Ordering::Less } else { Ordering::Greater })
        });
        match at {
            Ok(BinarySearch::Missing(n)) => ensure!(n <= list.len(), "any answer: {n}"),
            at => return Err(format!("any answer: {at:?}")),
        }
        ensure!(asked <= 64, "asked {asked} times");
    }
    Ok(())
}

fn strings<E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let mut list: Vec<String> = (0..s.size(0, 20)).map(|_| s.string(3)).collect();
    list.sort();
    c.desc(|| format!("{list:?}"));
    if list.len() > 1 {
        c.nontrivial(&(std::any::type_name::<(E, O)>(), &list));
    }
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let refs: Vec<_> = list.iter().map(|t| buf.store_unsized(t.as_str())).collect();
    let slice = buf.store_slice(&refs);
    buf.align_in_place();
    let buf: &Buf = &buf;
    let mut queries = list.clone();
    queries.extend((0..4).map(|_| s.string(3)));
    for q in queries {
        let at = binary_search_by(buf, slice, |v| Ok(buf.load(*v)?.cmp(q.as_str()))).map_err(|e| format!("{q:?}: {e}"))?;
        same(&list, at, &q).map_err(|e| format!("{q:?}: {e}"))?;
    }
    // Errors are passed on.
    let bad = Ref::<str, E, O>::with_metadata(buf.len(), 1);
    if !list.is_empty() {
        ensure!(binary_search_by(buf, slice, |_| Ok(buf.load(bad)?.cmp("a"))).is_err(), "an error was lost");
    }
    Ok(())
}

pub fn search(s: &mut Src, c: &mut Case) -> Res {
    match s.upto(5) {
        0 => numbers(s, c, |r| r),
        1 => numbers(s, c, Ref::<[u32], Big, u16>::from_ref),
        2 => numbers(s, c, Packed::<[u32], u32, u8>::from_ref),
        3 => numbers(s, c, Packed::<[u32], u16, u16, Big>::from_ref),
        4 => strings::<Native, u32>(s, c),
        _ => strings::<Little, u16>(s, c),
    }
}

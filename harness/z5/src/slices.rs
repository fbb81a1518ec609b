use crate::*;
use crate::sized::compare;

fn slice_ref<T: Z, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let (at, len) = (near::<O>(s), near::<O>(s));
    let (at2, len2) = (if s.bool() { at } else { near::<O>(s) }, if s.bool() { len } else { near::<O>(s) });
    let text = format!("Ref<[{}], {}, {}> to {len} at {at}, {len2} at {at2}", name::<T>(), name::<E>(), name::<O>());
    c.desc(|| text.clone());
    let fit = fits::<O>(at) && fits::<O>(len);
    c.nontrivial(&text);
    let picks: Vec<usize> = (0..3).map(|n| if n == 0 { s.size(0, 40) } else { len.wrapping_sub(s.size(0, 3)) }).collect();
    let mut run = || -> Res {
        let r = Ref::<[T], E, O>::try_with_metadata(at, len);
        ensure_eq!(r.is_ok(), fit, "try_with_metadata");
        let out = catch_unwind(|| Ref::<[T], E, O>::with_metadata(at, len));
        ensure_eq!(out.is_ok(), fit, "with_metadata");
        let text_ref = catch_unwind(|| Ref::<str, E, O>::with_metadata(at, len));
        ensure_eq!(text_ref.is_ok(), fit, "with_metadata of a string");
        ensure_eq!(Ref::<str, E, O>::try_with_metadata(at, len).is_ok(), fit, "try_with_metadata of a string");
        let packed = Packed::<[T], O, u16, E>::try_from_raw_parts(at, len);
        ensure_eq!(packed.is_ok(), fits::<O>(at) && fits::<u16>(len), "try_from_raw_parts");
        let out2 = catch_unwind(|| Packed::<[T], O, u16, E>::from_raw_parts(at, len));
        ensure_eq!(packed.is_ok(), out2.is_ok(), "from_raw_parts");
        if let (Ok(a), Ok(b)) = (packed, out2) {
            let mut bytes = number::<E, O>(at);
            bytes.extend(number::<E, u16>(len));
            for p in [a, b, Slice::with_metadata(at, len)] {
                ensure_eq!((p.offset(), p.len(), p.is_empty()), (at, len, len == 0), "packed");
                ensure_eq!(stored(&p), bytes, "bytes of packed");
                parts(p, at, len, &picks).map_err(|e| format!("packed: {e}"))?;
            }
        }
        let (Ok(r), Ok(r2)) = (r, out) else { return Ok(()) };
        c.label("representable");
        let mut bytes = number::<E, O>(at);
        bytes.extend(number::<E, O>(len));
        for r in [r, r2, Slice::with_metadata(at, len)] {
            ensure_eq!((r.offset(), r.len(), r.is_empty()), (at, len, len == 0), "parts");
            ensure_eq!(stored(&r), bytes, "bytes");
            orders(r, |o, m| {
                ensure_eq!((o, m), (at, Some(len)), "parts");
                Ok(())
            }, native)?;
            ensure_eq!((r.to_be().len(), r.to_le().len(), r.to_ne().len()), (len, len, len), "lengths");
            parts(r, at, len, &picks)?;
        }
        // The same reference in another size and order, where it fits.
        macro_rules! other {
            ($($ty:ty: $l:ty, $o:ty, $e:ty;)*) => { $({
                let p = <$ty as Slice>::try_from_ref(r);
                ensure_eq!(p.is_ok(), fits::<$o>(at) && fits::<$l>(len), "try_from_ref to {}", name::<$ty>());
                let p2 = catch_unwind(AssertUnwindSafe(|| <$ty as Slice>::from_ref(r)));
                ensure_eq!(p.is_ok(), p2.is_ok(), "from_ref to {}", name::<$ty>());
                if let (Ok(p), Ok(p2)) = (p, p2) {
                    ensure_eq!((p.offset(), p.len()), (at, len), "try_from_ref to {}", name::<$ty>());
                    ensure_eq!((p2.offset(), p2.len()), (at, len), "from_ref to {}", name::<$ty>());
                    let mut bytes = number::<$e, $o>(at);
                    bytes.extend(number::<$e, $l>(len));
                    ensure_eq!(stored(&p), bytes, "bytes of {}", name::<$ty>());
                    ensure_eq!(stored(&p2), bytes, "bytes of {}", name::<$ty>());
                }
            })* };
        }
        other!(
            Ref<[T], Big, u16>: u16, u16, Big;
            Ref<[T], Little, u64>: u64, u64, Little;
            Packed<[T], u16, u8, Big>: u8, u16, Big;
            Packed<[T], u32, u16, Little>: u16, u32, Little;
            Packed<[T], usize, u32, Big>: u32, usize, Big;
        );
        let t = text_ref.unwrap();
        ensure_eq!((t.offset(), t.len(), t.is_empty()), (at, len, len == 0), "string");
        ensure_eq!(stored(&t), bytes, "bytes of a string");
        orders(t, |o, m| {
            ensure_eq!((o, m), (at, Some(len)), "string");
            Ok(())
        }, native)?;
        let Ok(other) = Ref::<[T], E, O>::try_with_metadata(at2, len2) else { return Ok(()) };
        compare(&r, &other, (at, len).cmp(&(at2, len2)))
    };
    run().map_err(|e| format!("{text}: {e}"))
}

trait At {
    fn at(&self) -> usize;
}

impl<T: Z, E: ByteOrder, O: Sz> At for Ref<T, E, O> {
    fn at(&self) -> usize {
        self.offset()
    }
}

trait Half: Slice {
    /// The largest offset and length.
    fn most() -> (u128, u128);
    /// The largest offset of an element.
    fn item() -> u128;
}

impl<T: Z, E: ByteOrder, O: Sz> Half for Ref<[T], E, O> {
    fn most() -> (u128, u128) {
        (size_max::<O>(), size_max::<O>())
    }
    fn item() -> u128 {
        size_max::<O>()
    }
}

impl<T: Z, O: Sz, L: Sz, E: ByteOrder> Half for Packed<[T], O, L, E> {
    fn most() -> (u128, u128) {
        (size_max::<O>(), size_max::<L>())
    }
    fn item() -> u128 {
        size_max::<usize>()
    }
}

/// Elements and halves.
fn parts<S: Half>(r: S, at: usize, len: usize, picks: &[usize]) -> Res
where
    S::ItemRef: At,
{
    let size = size_of::<S::Item>();
    for &i in picks {
        let place = (size as u128 * i as u128) + at as u128;
        let item = r.get(i);
        if i < len && place <= S::item() {
            ensure_eq!(item.map(|r| r.at() as u128), Some(place), "element {i}");
            ensure_eq!(r.get_unchecked(i).at() as u128, place, "element {i} unchecked");
        } else {
            ensure!(item.is_none(), "element {i} exists");
        }
        let out = catch_unwind(AssertUnwindSafe(|| r.split_at(i)));
        if i <= len && place <= S::most().0 {
            let Ok((a, b)) = out else { return Err(format!("split at {i} panicked")) };
            ensure_eq!((a.offset(), a.len()), (at, i), "first half at {i}");
            ensure_eq!((b.offset() as u128, b.len()), (place, len - i), "second half at {i}");
        } else {
            ensure!(out.is_err() || i <= len, "split at {i}");
            if let Ok((a, b)) = out {
                // Only when nothing is there to be referred to.
                ensure_eq!((a.offset(), a.len()), (at, i), "first half at {i}");
                ensure!(b.len() == 0, "second half at {i}");
            }
        }
    }
    Ok(())
}

typed!(all, slice_ref, Slices);

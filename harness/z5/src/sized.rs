use crate::*;

fn sized<T: Z, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let at = near::<O>(s);
    let at2 = if s.chance(1, 4) { at } else { near::<O>(s) };
    let text = format!("Ref<{}, {}, {}> to {at} and {at2}", name::<T>(), name::<E>(), name::<O>());
    c.desc(|| text.clone());
    c.nontrivial(&text);
    let mut run = || -> Res {
        let r = Ref::<T, E, O>::try_with_metadata(at, ());
        ensure_eq!(r.is_ok(), fits::<O>(at), "try_with_metadata");
        let out = catch_unwind(|| (Ref::<T, E, O>::new(at), Ref::<T, E, O>::with_metadata(at, ())));
        ensure_eq!(out.is_ok(), fits::<O>(at), "new");
        let (Ok(r), Ok((a, b))) = (r, out) else { return Ok(()) };
        c.label("representable");
        for r in [r, a, b] {
            ensure_eq!(r.offset(), at, "offset");
            ensure_eq!(stored(&r), number::<E, O>(at), "bytes");
            orders(r, |o, m| {
                ensure_eq!((o, m), (at, None), "offset");
                Ok(())
            }, native)?;
        }
        ensure_eq!(Ref::<T, E, O>::zero().offset(), 0, "zero");
        let Ok(other) = Ref::<T, E, O>::try_with_metadata(at2, ()) else { return Ok(()) };
        compare(&r, &other, at.cmp(&at2))
    };
    run().map_err(|e| format!("{text}: {e}"))
}

pub fn compare<R: Ord + Hash>(a: &R, b: &R, want: Ordering) -> Res {
    ensure_eq!(a.cmp(b), want, "cmp");
    ensure_eq!(a.partial_cmp(b), Some(want), "partial_cmp");
    ensure_eq!(b.cmp(a), want.reverse(), "cmp");
    ensure_eq!(a == b, want == Ordering::Equal, "eq");
    ensure!(a != b || hash(a) == hash(b), "hash of equal references");
    Ok(())
}

typed!(all, sized, Sized_);

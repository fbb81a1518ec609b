use crate::*;

/// What is stored is what the reference leads to.
fn contents<T: Z, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(0, 9);
    let v: Vec<T> = (0..n).map(|_| T::gen(s)).collect();
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let lead = s.size(0, 20);
    buf.extend_from_slice(&vec![7; lead]);
    let text = format!("{} {}: {lead}, {v:?}", name::<E>(), name::<O>());
    c.desc(|| text.clone());
    if n > 1 && size_of::<T>() > 0 {
        c.nontrivial(&(name::<(E, O)>(), lead, v.iter().map(T::image).collect::<Vec<_>>()));
    }
    let total = lead + 128 + (n + 2) * size_of::<T>();
    if !fits::<O>(total) {
        return Ok(());
    }
    let mut run = || -> Res {
        let r = buf.store_slice(&v);
        let array = [v.first().cloned().unwrap_or_else(|| T::gen(s)), v.last().cloned().unwrap_or_else(|| T::gen(s))];
        let a = buf.store(&array);
        buf.align_in_place();
        let images = |v: &[T]| v.iter().map(T::image).collect::<Vec<_>>();
        macro_rules! same {
            ($r:expr, $want:expr, $what:expr) => {{
                let got = buf.load($r).map_err(|e| format!("{}: {e}", $what))?;
                ensure_eq!(images(got), images($want), "{}", $what);
            }};
        }
        same!(r, &v, "load");
        same!(r.to_be(), &v, "to_be");
        same!(r.to_le(), &v, "to_le");
        same!(r.to_ne(), &v, "to_ne");
        same!(a.array_into_slice(), &array, "array_into_slice");
        ensure_eq!(a.array_into_slice().len(), 2, "array_into_slice");
        let p = Packed::<[T], u16, u8, E>::from_ref(r);
        same!(p, &v, "packed");
        let stored_ref = buf.store(&r);
        let stored_packed = buf.store(&p);
        buf.align_in_place();
        let r2 = *buf.load(stored_ref).map_err(|e| format!("stored reference: {e}"))?;
        same!(r2, &v, "stored reference");
        let p2 = *buf.load(stored_packed).map_err(|e| format!("stored packed: {e}"))?;
        same!(p2, &v, "stored packed");
        let mut all = vec![];
        for (i, e) in r.iter().enumerate() {
            all.push(buf.load(e).map_err(|e| format!("element {i}: {e}"))?.image());
        }
        ensure_eq!(all, images(&v), "iter");
        let mut back = vec![];
        for e in r.iter().rev() {
            back.push(buf.load(e).map_err(|e| format!("element: {e}"))?.image());
        }
        back.reverse();
        ensure_eq!(back, images(&v), "rev");
        for i in 0..n + 2 {
            let e = r.get(i);
            let got = e.map(|e| buf.load(e).map(|v| v.image()).map_err(|e| e.to_string()));
            ensure_eq!(got, v.get(i).map(|v| Ok(v.image())), "get {i}");
            let e = p2.get(i).map(|e| e.load(&buf).map(|v: &T| v.image()).map_err(|e| e.to_string()));
            ensure_eq!(e, v.get(i).map(|v| Ok(v.image())), "packed get {i}");
            if i < n {
                ensure_eq!(buf.load(r.get_unchecked(i)).unwrap().image(), v[i].image(), "get_unchecked {i}");
                ensure_eq!(p2.get_unchecked(i).load(&buf).unwrap().image(), v[i].image(), "packed get_unchecked {i}");
            }
            if i <= n {
                let (a, b) = r.split_at(i);
                same!(a, &v[..i], format!("first half at {i}"));
                same!(b, &v[i..], format!("second half at {i}"));
                let (a, b) = p2.split_at(i);
                same!(a, &v[..i], format!("first packed half at {i}"));
                same!(b, &v[i..], format!("second packed half at {i}"));
            }
        }
        Ok(())
    };
    run().map_err(|e| format!("{text}: {e}"))
}

typed!(all, contents, Contents);

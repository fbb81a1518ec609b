use crate::*;

table!(SWAPS, with_swap, u32, u8, u16, Padded, u64, u128, usize, i16, i32, i64, i128, isize, i8, f32, f64, bool,
    NonZeroU16, NonZeroI32, NonZeroU64, NonZeroU128, Option<NonZeroU32>, Option<NonZeroI16>, Option<NonZeroU8>, Option<NonZeroUsize>, NonZeroIsize,
    Wrapping<u32>, Wrapping<Padded2>, (), PhantomData<u64>, [u16; 3], [Padded; 2], [[u16; 2]; 2], [u8; 5], [u64; 0],
    Plain, Padded2, Outer, Aligned, AlignedMore, Empty, Through, Arrays, Wide, Pair<u8, u64>, Pair<u32, [u16; 3]>,
    Packed1, Packed2, Packed4, PackedInner, Inner, Ignored, IgnoredAligned, Swap, Swap2,
    Ref<u32>, Ref<[u16], Big, u16>, Endian<u64, Big>, Pair<Endian<u32, Big>, u32>, Pair<u16, Ref<str, Big, u16>>,
);

struct Wrapped<'a>(&'a mut Src, &'a mut Case);

fn endian_of<T: Z, E: ByteOrder>(v: &T, pad: u8) -> Res {
    let want = if is_native::<E>() { v.image() } else { v.swapped().unwrap() };
    let e = Endian::<T, E>::new(v.clone());
    ensure_eq!(e.clone().to_raw().image(), want, "to_raw");
    ensure_eq!(e.clone().to_ne().image(), v.image(), "to_ne");
    ensure!(size_of::<Endian<T, E>>() == size_of::<T>(), "size");
    let mut buf = OwnedBuf::new();
    buf.extend_from_slice(&[1; 3]);
    let r = buf.store(&e);
    let bytes = &buf[r.offset()..r.offset() + size_of::<T>()];
    for (n, b) in want.iter().enumerate() {
        ensure!(bytes[n] == b.unwrap_or(0), "byte {n} of {} is not that of {want:?}", hex(bytes));
    }
    buf.align_in_place();
    let l = buf.load(r).map_err(|e| format!("load: {e}"))?;
    ensure_eq!(l.clone().to_ne().image(), v.image(), "stored and loaded");
    // Bytes someone else has written in the order.
    let mut other = vec![pad; size_of::<T>()];
    for (n, b) in want.iter().enumerate() {
        other[n] = b.unwrap_or(pad);
    }
    let (out, _) = guarded(&other, 0, |b| match Buf::new(b).load_at::<Endian<T, E>>(0) {
        Ok(e) => {
            ensure_eq!(e.clone().to_ne().image(), v.image(), "loaded");
            Ok(())
        }
        Err(e) => Err(format!("load_at: {e}")),
    });
    out
}

impl Visitor for Wrapped<'_> {
    type Out = Res;
    fn visit<T: Z>(self, type_: &'static str) -> Res {
        let Wrapped(s, c) = self;
        let v = T::gen(s);
        let pad = s.upto(255) as u8;
        c.desc(|| format!("Endian<{type_}>: {v:?}, {pad}"));
        let image = v.image();
        if v.swapped().unwrap() != image {
            c.nontrivial(&(type_, &image));
        }
        for_swap::<T>(&v, pad)
    }
}

fn for_swap<T: Z>(v: &T, pad: u8) -> Res {
    endian_of::<T, Big>(v, pad).map_err(|e| format!("Big {v:?}: {e}"))?;
    endian_of::<T, Little>(v, pad).map_err(|e| format!("Little {v:?}: {e}"))?;
    ensure_eq!(Endian::be(v.clone()).to_raw().image(), Endian::<T, Big>::new(v.clone()).to_raw().image(), "be");
    ensure_eq!(Endian::le(v.clone()).to_raw().image(), Endian::<T, Little>::new(v.clone()).to_raw().image(), "le");
    let mut e = Endian::<T, Native>::new(v.clone());
    ensure_eq!((*e).image(), v.image(), "deref");
    *e = v.clone();
    ensure_eq!(e.to_ne().image(), v.image(), "deref_mut");
    Ok(())
}

pub fn wrapped(s: &mut Src, c: &mut Case) -> Res {
    let n = s.index(SWAPS);
    with_swap(n, Wrapped(s, c))
}

use crate::*;

// Values.

struct Values<'a>(&'a mut Src, &'a mut Case);

fn swap_to<T: Z, E: ByteOrder>(v: &T) -> Res {
    let swapped = v.swapped();
    ensure!(!T::CAN_SWAP_BYTES || swapped.is_some(), "can not swap {v:?}");
    ensure!(T::CAN_SWAP_BYTES || swapped.is_none() || size_of::<T>() == 0, "can swap {v:?}");
    let Some(swapped) = swapped.filter(|_| T::CAN_SWAP_BYTES) else { return Ok(()) };
    let want = if is_native::<E>() { v.image() } else { swapped };
    let once = v.clone().swap_bytes::<E>();
    ensure_eq!(once.image(), want, "swap_bytes::<{}> of {v:?}", name::<E>());
    let twice = once.clone().swap_bytes::<E>();
    ensure_eq!(twice.image(), v.image(), "swap_bytes::<{}> of {v:?} twice", name::<E>());
    // To the order, and from it.
    ensure_eq!(endian::from_endian::<T, E>(once).image(), v.image(), "from_endian::<{}> of {v:?}", name::<E>());
    Ok(())
}

impl Visitor for Values<'_> {
    type Out = Res;
    fn visit<T: Z>(self, type_: &'static str) -> Res {
        let Values(s, c) = self;
        let v = T::gen(s);
        let image = v.image();
        c.desc(|| format!("{type_}: {v:?}"));
        if T::CAN_SWAP_BYTES && v.swapped() != Some(image.clone()) {
            c.nontrivial(&(type_, &image));
        }
        swap_to::<T, Big>(&v)?;
        swap_to::<T, Little>(&v)?;
        if T::CAN_SWAP_BYTES {
            ensure_eq!(endian::from_be(v.clone().swap_bytes::<Big>()).image(), image, "from_be of {v:?}");
            ensure_eq!(endian::from_le(v.clone().swap_bytes::<Little>()).image(), image, "from_le of {v:?}");
            ensure_eq!(v.clone().swap_bytes::<Native>().image(), image, "swap_bytes::<Native> of {v:?}");
            ensure_eq!(Some(v.clone().swap_bytes::<Other>().image()), v.swapped(), "swap_bytes::<Other> of {v:?}");
        }
        Ok(())
    }
}

pub fn values(s: &mut Src, c: &mut Case) -> Res {
    let n = s.index(TYPES);
    with_type(n, Values(s, c))
}

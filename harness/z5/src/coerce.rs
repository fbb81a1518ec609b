use crate::*;

// Coercions.

fn factor<T, U>() -> usize {
    assert_eq!(size_of::<T>() % size_of::<U>(), 0);
    size_of::<T>() / size_of::<U>()
}

/// From a reference to as many bytes.
fn slices_of<T: ZeroCopy, U: ZeroCopy, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res
where
    [T]: CoerceSlice<[U]>,
{
    let f = factor::<T, U>();
    let max = size_max::<O>() as usize;
    let at = near::<O>(s) & max;
    let len = match s.upto(2) {
        0 => (max / f).saturating_add(s.size(0, 3)).saturating_sub(s.size(0, 3)) & max,
        _ => near::<O>(s) & max,
    };
    let text = format!("Ref<[{}], {}, {}> to {len} at {at} as {}", name::<T>(), name::<E>(), name::<O>(), name::<U>());
    c.desc(|| text.clone());
    c.nontrivial(&text);
    let r = Ref::<[T], E, O>::with_metadata(at, len);
    let want = len.checked_mul(f).filter(|n| fits::<O>(*n));
    let mut run = || -> Res {
        let got = r.try_coerce::<[U]>();
        ensure_eq!(got.map(|r| (r.offset(), r.len())), want.map(|n| (at, n)), "try_coerce");
        if let Some(want) = want {
            c.label("coerced");
            let got = r.coerce::<[U]>();
            ensure_eq!((got.offset(), got.len()), (at, want), "coerce");
        }
        let one = Ref::<T, E, O>::new(at);
        let got = one.coerce::<[U]>();
        ensure_eq!((got.offset(), got.len()), (at, f), "coerce of one");
        let got = one.try_coerce::<[U]>();
        ensure_eq!(got.map(|r| (r.offset(), r.len())), Some((at, f)), "try_coerce of one");
        Ok(())
    };
    run().map_err(|e| format!("{text}: {e}"))
}

fn array_of<T: ZeroCopy, U: ZeroCopy, const N: usize, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res
where
    [T]: CoerceSlice<[U]>,
{
    let f = factor::<T, U>();
    let at = near::<O>(s) & size_max::<O>() as usize;
    let text = format!("Ref<[{}; {N}], {}, {}> at {at} as {}", name::<T>(), name::<E>(), name::<O>(), name::<U>());
    c.desc(|| text.clone());
    c.nontrivial(&text);
    let r = Ref::<[T; N], E, O>::new(at);
    let want = Some(N * f).filter(|n| fits::<O>(*n));
    let mut run = || -> Res {
        ensure_eq!(r.try_coerce::<[U]>().map(|r| (r.offset(), r.len())), want.map(|n| (at, n)), "try_coerce");
        if let Some(want) = want {
            c.label("coerced");
            let got = r.coerce::<[U]>();
            ensure_eq!((got.offset(), got.len()), (at, want), "coerce");
        }
        if fits::<O>(N) {
            let got = r.array_into_slice();
            ensure_eq!((got.offset(), got.len()), (at, N), "array_into_slice");
        }
        Ok(())
    };
    run().map_err(|e| format!("{text}: {e}"))
}

fn same_size<T, U, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res
where
    T: ZeroCopy + Coerce<U> + Pointee<Metadata = (), Stored<O> = ()>,
    U: ZeroCopy + Pointee<Metadata = (), Stored<O> = ()>,
{
    assert_eq!(size_of::<T>(), size_of::<U>());
    let at = near::<O>(s) & size_max::<O>() as usize;
    let text = format!("Ref<{}, {}, {}> at {at} as {}", name::<T>(), name::<E>(), name::<O>(), name::<U>());
    c.desc(|| text.clone());
    c.nontrivial(&text);
    let r = Ref::<T, E, O>::new(at);
    ensure_eq!(r.coerce::<U>().offset(), at, "{text}: coerce");
    ensure_eq!(r.try_coerce::<U>().map(|r| r.offset()), Some(at), "{text}: try_coerce");
    Ok(())
}

fn strings<E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let max = size_max::<O>() as usize;
    let (at, len) = (near::<O>(s) & max, near::<O>(s) & max);
    let text = format!("Ref<str, {}, {}> to {len} at {at}", name::<E>(), name::<O>());
    c.desc(|| text.clone());
    c.nontrivial(&text);
    macro_rules! check {
        ($r:expr, $f:expr, $u:ty, $what:literal) => {{
            let r = $r;
            let want = len.checked_mul($f).filter(|n| fits::<O>(*n));
            ensure_eq!(r.try_coerce::<$u>().map(|r| (r.offset(), r.len())), want.map(|n| (at, n)), "{text}: {}", $what);
            if let Some(want) = want {
                ensure_eq!((r.coerce::<$u>().offset(), r.coerce::<$u>().len()), (at, want), "{text}: {}", $what);
            }
        }};
    }
    check!(Ref::<str, E, O>::with_metadata(at, len), 1, [u8], "str to [u8]");
    check!(Ref::<str, E, O>::with_metadata(at, len), 1, [i8], "str to [i8]");
    check!(Ref::<[u8], E, O>::with_metadata(at, len), 1, str, "[u8] to str");
    check!(Ref::<[i8], E, O>::with_metadata(at, len), 1, str, "[i8] to str");
    check!(Ref::<[u16], E, O>::with_metadata(at, len), 2, str, "[u16] to str");
    check!(Ref::<[u32], E, O>::with_metadata(at, len), 4, str, "[u32] to str");
    check!(Ref::<[i64], E, O>::with_metadata(at, len), 8, str, "[i64] to str");
    check!(Ref::<[u128], E, O>::with_metadata(at, len), 16, str, "[u128] to str");
    Ok(())
}

/// What every coercion leads to.
fn coerced_contents<E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(0, 3);
    let v: Vec<u128> = (0..n).map(|_| s.unsigned(128)).collect();
    let bytes: Vec<u8> = v.iter().flat_map(|v| v.to_ne_bytes()).collect();
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let lead = s.size(0, 40);
    buf.extend_from_slice(&vec![1; lead]);
    let text = format!("{} {}: {v:?} after {lead}", name::<E>(), name::<O>());
    c.desc(|| text.clone());
    if n > 0 {
        c.nontrivial(&(name::<(E, O)>(), lead, &v));
    }
    let r = buf.store_slice(&v);
    let one = buf.store(&[0x0102030405060708u64, 9]);
    buf.align_in_place();
    macro_rules! check {
        ($($u:ty),*) => { $({
            let got = r.try_coerce::<[$u]>().ok_or_else(|| format!("{text}: {}", stringify!($u)))?;
            let got = buf.load(got).map_err(|e| format!("{text}: {}: {e}", stringify!($u)))?;
            let got: Vec<u8> = got.iter().flat_map(|v| v.image()).map(|b| b.unwrap()).collect();
            ensure_eq!(got, bytes, "{text}: {}", stringify!($u));
        })* };
    }
    check!(u128, i128, u64, i64, u32, i32, u16, i16, u8, i8, [u64; 2], [u32; 4], [i16; 8], [u8; 16], [u32; 2], [i8; 8], [u16; 2], [u8; 2]);
    let got = buf.load(one.coerce::<[u32]>()).map_err(|e| format!("{text}: array: {e}"))?;
    let want: Vec<u32> = [0x0102030405060708u64, 9].iter().flat_map(|v| { let b = v.to_ne_bytes(); [u32::from_ne_bytes(b[..4].try_into().unwrap()), u32::from_ne_bytes(b[4..].try_into().unwrap())] }).collect();
    ensure_eq!(got, want, "{text}: array");
    let ascii: String = (0..n * 5).map(|n| (b'a' + n as u8) as char).collect();
    let t = buf.store_unsized(ascii.as_str());
    ensure_eq!(buf.load(t.coerce::<[u8]>()).ok(), Some(ascii.as_bytes()), "{text}: string to bytes");
    ensure_eq!(buf.load(t.coerce::<[u8]>().coerce::<str>()).ok(), Some(ascii.as_str()), "{text}: bytes to string");
    Ok(())
}

macro_rules! list {
    ($s:ident, $c:ident, $n:ident; $($body:expr;)*) => {{
        let count = [$(stringify!($body)),*].len();
        let mut at = $s.index(count);
        let $n = $s.upto(9);
        $(
            if at == 0 {
                return $body;
            }
            at = at.wrapping_sub(1);
        )*
        let _ = at;
        unreachable!()
    }};
}

// Every declared coercion, in one or another order.
macro_rules! pairs {
    ($s:ident, $c:ident; $({$($t:ty),*} => {$($u:ty),*};)*) => {{
        let mut all: Vec<fn(&mut Src, &mut Case) -> Res> = vec![];
        $(pairs!(@ all, [$($t),*], $($u),*);)*
        let n = $s.index(all.len());
        all[n]($s, $c)
    }};
    (@ $all:ident, $ts:tt, $($u:ty),*) => { $(pairs!(@@ $all, $ts, $u);)* };
    (@@ $all:ident, [$($t:ty),*], $u:ty) => { $(
        $all.push(|s, c| if s.bool() { slices_of::<$t, $u, Big, u16>(s, c) } else { slices_of::<$t, $u, Little, u8>(s, c) });
    )* };
}

pub fn coerce(s: &mut Src, c: &mut Case) -> Res {
    match s.weighted(&[4, 3, 3, 2, 1, 2]) {
        0 => pairs!(s, c;
            {u8, i8} => {u8, i8};
            {u16, i16} => {u8, i8, u16, i16, [u8; 2], [i8; 2]};
            {u32, i32} => {u8, i8, u16, i16, [u8; 2], [i8; 2], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4]};
            {u64, i64} => {u8, i8, u16, i16, [u8; 2], [i8; 2], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4],
                u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8]};
            {u128, i128} => {u8, i8, u16, i16, [u8; 2], [i8; 2], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4],
                u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8],
                u128, i128, [u64; 2], [i64; 2], [u32; 4], [i32; 4], [u16; 8], [i16; 8], [u8; 16], [i8; 16]};
        ),
        1 => list!(s, c, n;
            every_order!(n, slices_of, [u32, u8], s, c);
            every_order!(n, slices_of, [u16, u8], s, c);
            every_order!(n, slices_of, [u64, u8], s, c);
            every_order!(n, slices_of, [u128, u8], s, c);
            every_order!(n, slices_of, [u8, i8], s, c);
            every_order!(n, slices_of, [i64, u32], s, c);
            every_order!(n, slices_of, [u128, [u16; 4]], s, c);
        ),
        2 => list!(s, c, n;
            every_array::<u32, u16, 3>(n, s, c);
            every_array::<u8, u8, 0>(n, s, c);
            every_array::<u128, u8, 16>(n, s, c);
            every_array::<u16, i16, 5>(n, s, c);
            every_array::<u8, i8, 256>(n, s, c);
            every_array::<u64, u32, 128>(n, s, c);
            every_array::<u16, u8, 40000>(n, s, c);
            every_array::<u8, u8, 70000>(n, s, c);
        ),
        3 => list!(s, c, n;
            every_order!(n, same_size, [u32, i32], s, c);
            every_order!(n, same_size, [u64, [u16; 4]], s, c);
            every_order!(n, same_size, [i128, [u8; 16]], s, c);
            every_order!(n, same_size, [NonZeroU16, i16], s, c);
            every_order!(n, same_size, [NonZeroI64, u64], s, c);
            every_order!(n, same_size, [Wrapping<u128>, [u32; 4]], s, c);
            every_order!(n, same_size, [Wrapping<i16>, u16], s, c);
        ),
        4 => {
            let n = s.upto(9);
            every_order!(n, strings, [], s, c)
        }
        _ => {
            let n = s.upto(9);
            every_order!(n, coerced_contents, [], s, c)
        }
    }
}

fn every_array<T: ZeroCopy, U: ZeroCopy, const N: usize>(n: u64, s: &mut Src, c: &mut Case) -> Res
where
    [T]: CoerceSlice<[U]>,
{
    match n {
        0 => array_of::<T, U, N, Native, u32>(s, c),
        1 | 2 => array_of::<T, U, N, Big, u8>(s, c),
        3 | 4 => array_of::<T, U, N, Big, u16>(s, c),
        5 => array_of::<T, U, N, Big, u32>(s, c),
        6 => array_of::<T, U, N, Big, u64>(s, c),
        7 => array_of::<T, U, N, Little, u8>(s, c),
        8 => array_of::<T, U, N, Little, u16>(s, c),
        _ => array_of::<T, U, N, Big, usize>(s, c),
    }
}

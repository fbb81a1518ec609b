//! Z01: histories of what is stored in a buffer.
use std::borrow::Cow;
use std::io::Write;
use std::mem::{align_of, size_of};
use std::panic::{catch_unwind, AssertUnwindSafe};

use musli_zerocopy::buf::{aligned_buf, StoreBuf};
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::{Buf, ByteOrder, OwnedBuf, Ref, SliceMut};
use pbt::{ensure, ensure_eq, hex, Case, Family, Property, Res, Src};

use zc::guard::guarded;
use zc::types::*;

/// What both kinds of buffers do.
trait Buff: Sized {
    type E: ByteOrder;
    type O: Sz;
    const OWNED: bool;
    fn store<T: Z>(&mut self, v: &T) -> Ref<T, Self::E, Self::O>;
    fn store_next<T: Z>(&mut self, v: &T) -> Ref<T, Self::E, Self::O>;
    fn store_slice<T: Z>(&mut self, v: &[T]) -> Ref<[T], Self::E, Self::O>;
    fn store_unsized<T: Z>(&mut self, v: &[T]) -> Ref<[T], Self::E, Self::O>;
    fn store_str(&mut self, v: &str) -> Ref<str, Self::E, Self::O>;
    fn store_uninit<T: Z>(&mut self) -> Ref<MaybeUninit<T>, Self::E, Self::O>;
    fn write_uninit<T: Z>(&mut self, r: Ref<MaybeUninit<T>, Self::E, Self::O>, v: &T) -> Ref<T, Self::E, Self::O>;
    fn extend(&mut self, b: &[u8]);
    fn reserve(&mut self, n: usize);
    fn request_align<T: Z>(&mut self);
    fn next_offset<T: Z>(&mut self) -> usize;
    fn align_in_place(&mut self);
    fn clear(&mut self);
    fn buf(&self) -> &Buf;
    fn buf_mut(&mut self) -> &mut Buf;
    fn sizes(&self) -> (usize, usize, usize, bool);
    fn bytes(&self) -> &[u8];
    /// Go on with a copy, if there are any.
    fn copied(self, how: u64) -> Self;
    /// Go on as something else, which has the same bytes.
    fn finish(self, want: &[u8], requested: usize) -> Res;
}

macro_rules! common {
    () => {
        type E = E;
        type O = O;

        fn store<T: Z>(&mut self, v: &T) -> Ref<T, E, O> {
            self.store(v)
        }
        fn store_next<T: Z>(&mut self, v: &T) -> Ref<T, E, O> {
            let at = self.next_offset::<T>();
            assert_eq!(at, self.len());
            // SAFETY: as documented, the buffer has been prepared.
            unsafe { self.store_unchecked(v) }
        }
        fn store_slice<T: Z>(&mut self, v: &[T]) -> Ref<[T], E, O> {
            self.store_slice(v)
        }
        fn store_unsized<T: Z>(&mut self, v: &[T]) -> Ref<[T], E, O> {
            self.store_unsized(v)
        }
        fn store_str(&mut self, v: &str) -> Ref<str, E, O> {
            self.store_unsized(v)
        }
        fn store_uninit<T: Z>(&mut self) -> Ref<MaybeUninit<T>, E, O> {
            self.store_uninit::<T>()
        }
        fn write_uninit<T: Z>(&mut self, r: Ref<MaybeUninit<T>, E, O>, v: &T) -> Ref<T, E, O> {
            self.load_uninit_mut(r).write(v);
            r.assume_init()
        }
        fn extend(&mut self, b: &[u8]) {
            self.extend_from_slice(b)
        }
        fn reserve(&mut self, n: usize) {
            self.reserve(n)
        }
        fn request_align<T: Z>(&mut self) {
            self.request_align::<T>()
        }
        fn next_offset<T: Z>(&mut self) -> usize {
            self.next_offset::<T>()
        }
        fn align_in_place(&mut self) {
            StoreBuf::align_in_place(self)
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn buf(&self) -> &Buf {
            self
        }
        fn buf_mut(&mut self) -> &mut Buf {
            self
        }
        fn sizes(&self) -> (usize, usize, usize, bool) {
            (self.len(), self.capacity(), self.requested(), self.is_empty())
        }
        fn bytes(&self) -> &[u8] {
            self.as_slice()
        }
    };
}

impl<E: ByteOrder, O: Sz> Buff for OwnedBuf<E, O> {
    const OWNED: bool = true;
    common!();

    fn copied(self, how: u64) -> Self {
        match how {
            0 => self.clone(),
            1 => {
                let c = self.clone();
                drop(self);
                c
            }
            2 => self.with_byte_order::<Big>().with_byte_order::<E>(),
            _ => self.with_size::<u8>().with_size::<O>(),
        }
    }

    fn finish(self, want: &[u8], requested: usize) -> Res {
        let mut other = self.with_byte_order::<Big>().with_size::<u64>();
        ensure!(other.as_slice() == want, "changed by with_size");
        ensure_eq!(other.requested(), requested, "requested");
        let r = other.store(&0x01020304u32);
        ensure_eq!(other.load(r).ok().copied(), other.is_aligned_with(4).then_some(0x01020304), "more");
        ensure!(other.as_slice()[..want.len()] == *want, "changed by more");
        Ok(())
    }
}

impl<E: ByteOrder, O: Sz> Buff for SliceMut<'_, E, O> {
    const OWNED: bool = false;
    common!();

    fn copied(self, how: u64) -> Self {
        match how {
            0..=1 => self,
            2 => self.with_byte_order::<Big>().with_byte_order::<E>(),
            _ => self.with_size::<u8>().with_size::<O>(),
        }
    }

    fn finish(self, want: &[u8], requested: usize) -> Res {
        let c = self.to_requested();
        ensure!(c[..] == *want, "changed by to_requested");
        ensure!(c.is_aligned_with(requested), "to_requested is not aligned");
        Ok(())
    }
}

trait Bytes {
    fn raw(&self) -> &[u8];
}

impl Bytes for Buf {
    fn raw(&self) -> &[u8] {
        &self[..]
    }
}

/// Something that was stored.
trait Item<B> {
    fn check(&self, buf: &Buf, want: &[u8], force: bool) -> Res;
    /// Store another value in the same place.
    fn update(&self, s: &mut Src, buf: &mut Buf, want: &mut [u8]) -> Res;
    fn place(&self) -> std::ops::Range<usize>;
}

struct One<T: Z, E: ByteOrder, O: Sz>(Ref<T, E, O>);
struct Many<T: Z, E: ByteOrder, O: Sz>(Ref<[T], E, O>, usize);
struct Text<E: ByteOrder, O: Sz>(Ref<str, E, O>, usize);

fn aligned<T>(buf: &Buf, at: usize) -> bool {
    (buf.raw().as_ptr() as usize + at) % align_of::<T>() == 0
}

impl<B, T: Z, E: ByteOrder, O: Sz> Item<B> for One<T, E, O> {
    fn check(&self, buf: &Buf, want: &[u8], force: bool) -> Res {
        let at = self.0.offset();
        let want = reimage::<T>(&want[at..at + size_of::<T>()]);
        let v = buf.load_at_unaligned::<T>(at).map_err(|e| format!("load_at_unaligned: {e}"))?;
        ensure_eq!(v.image(), want, "load_at_unaligned");
        match buf.load(self.0) {
            Ok(v) => ensure_eq!(v.image(), want, "load"),
            Err(e) => ensure!(!force && !aligned::<T>(buf, at), "load: {e}"),
        }
        Ok(())
    }

    fn update(&self, s: &mut Src, buf: &mut Buf, want: &mut [u8]) -> Res {
        let at = self.0.offset();
        let new = T::gen(s);
        let before = buf.raw()[..].to_vec();
        let is = aligned::<T>(buf, at);
        match buf.load_mut(self.0) {
            Ok(v) => *v = new.clone(),
            Err(e) => {
                ensure!(!is, "load_mut: {e}");
                return Ok(());
            }
        }
        // The padding of a value which is assigned is not determined.
        let mut image = new.image();
        for (n, b) in image.iter_mut().enumerate() {
            if b.is_none() {
                *b = Some(before[at + n]);
            }
        }
        for (n, b) in image.iter().enumerate() {
            want[at + n] = b.unwrap();
        }
        let p = &mut buf[at..at + size_of::<T>()];
        for (n, b) in new.image().iter().enumerate() {
            if b.is_none() {
                p[n] = before[at + n];
            }
        }
        Ok(())
    }

    fn place(&self) -> std::ops::Range<usize> {
        self.0.offset()..self.0.offset() + size_of::<T>()
    }
}

impl<B, T: Z, E: ByteOrder, O: Sz> Item<B> for Many<T, E, O> {
    fn check(&self, buf: &Buf, want: &[u8], force: bool) -> Res {
        let at = self.0.offset();
        let size = size_of::<T>();
        ensure_eq!(self.0.len(), self.1, "length of the reference");
        let image = |n: usize| reimage::<T>(&want[at + n * size..at + (n + 1) * size]);
        match buf.load(self.0) {
            Ok(v) => {
                ensure_eq!(v.len(), self.1, "length");
                for (n, v) in v.iter().enumerate() {
                    ensure_eq!(v.image(), image(n), "element {n}");
                }
            }
            Err(e) => ensure!(!force && !aligned::<T>(buf, at), "load: {e}"),
        }
        if self.1 > 0 && (at + (self.1 - 1) * size) as u128 <= size_max::<O>() {
            let r = self.0.get(self.1 - 1).ok_or("no last element")?;
            match buf.load(r) {
                Ok(v) => ensure_eq!(v.image(), image(self.1 - 1), "last element"),
                Err(e) => ensure!(!force && !aligned::<T>(buf, at), "load last: {e}"),
            }
        }
        Ok(())
    }

    fn update(&self, s: &mut Src, buf: &mut Buf, want: &mut [u8]) -> Res {
        if self.1 == 0 {
            return Ok(());
        }
        let n = s.index(self.1);
        if (self.0.offset() + n * size_of::<T>()) as u128 > size_max::<O>() {
            return Ok(());
        }
        let r = self.0.get(n).ok_or_else(|| format!("no element {n}"))?;
        Item::<B>::update(&One(r), s, buf, want)
    }

    fn place(&self) -> std::ops::Range<usize> {
        self.0.offset()..self.0.offset() + size_of::<T>() * self.1
    }
}

impl<B, E: ByteOrder, O: Sz> Item<B> for Text<E, O> {
    fn check(&self, buf: &Buf, want: &[u8], _: bool) -> Res {
        let at = self.0.offset();
        ensure_eq!(self.0.len(), self.1, "length of the reference");
        let t = buf.load(self.0).map_err(|e| format!("load: {e}"))?;
        ensure_eq!(t.as_bytes(), &want[at..at + self.1], "string");
        Ok(())
    }

    fn update(&self, _: &mut Src, buf: &mut Buf, want: &mut [u8]) -> Res {
        let at = self.0.offset();
        buf.load_mut(self.0).map_err(|e| format!("load_mut: {e}"))?.make_ascii_uppercase();
        want[at..at + self.1].make_ascii_uppercase();
        Ok(())
    }

    fn place(&self) -> std::ops::Range<usize> {
        self.0.offset()..self.0.offset() + self.1
    }
}

type Items<B> = Vec<Box<dyn Item<B>>>;

struct State<B> {
    b: Option<B>,
    want: Vec<u8>,
    items: Items<B>,
    /// The largest alignment asked for.
    align: usize,
    log: Vec<String>,
    /// Kinds of what happened.
    seen: u32,
    over: bool,
}

/// What an operation needs, and what it may refuse to be without.
struct Need {
    len: usize,
    may: usize,
    /// The largest number in the reference.
    number: usize,
}

impl<B: Buff> State<B> {
    /// Do something which may have to fail.
    fn attempt<R>(&mut self, need: Need, align: usize, f: impl FnOnce(&mut B) -> R) -> Result<Option<R>, String> {
        let b = self.b.as_mut().unwrap();
        let old = b.bytes().to_vec();
        let capacity = b.sizes().1;
        let out = catch_unwind(AssertUnwindSafe(|| f(b)));
        let align = self.align.max(align);
        let unrepresentable = need.number as u128 > size_max::<B::O>();
        let must = unrepresentable || (!B::OWNED && need.len > capacity);
        let may = must || (!B::OWNED && need.may.max(align) > capacity);
        ensure!(b.bytes().len() >= old.len() && b.bytes()[..old.len()] == old[..], "changed what was stored");
        match out {
            Ok(out) => {
                ensure!(!must, "did not fail, needing {} bytes of {capacity} and the number {}", need.len, need.number);
                self.align = align;
                Ok(Some(out))
            }
            Err(_) => {
                ensure!(may, "panicked, needing {} bytes of {capacity} and the number {}", need.len, need.number);
                self.over = true;
                self.seen |= 1 << 20;
                for i in &self.items {
                    i.check(b.buf(), &self.want, false)?;
                }
                Ok(None)
            }
        }
    }

    /// Something new is at the end.
    fn stored(&mut self, at: usize, align: usize, bytes: &[u8]) -> Res {
        let now = self.b.as_ref().unwrap().bytes();
        let old = self.want.len();
        ensure!(at >= old, "stored at {at} in {old} bytes");
        ensure!(at % align == 0, "{at} is not aligned by {align}");
        ensure_eq!(now.len(), at + bytes.len(), "length");
        ensure!(now[old..at].iter().all(|b| *b == 0), "padding of {}", hex(&now[old..at]));
        ensure!(now[at..] == *bytes, "stored {}, expected {}", hex(&now[at..]), hex(bytes));
        self.want.resize(at, 0);
        self.want.extend(bytes);
        Ok(())
    }

    fn aligned(&self, align: usize) -> usize {
        self.want.len().next_multiple_of(align)
    }
}

struct Op<'a, B> {
    s: &'a mut Src,
    st: &'a mut State<B>,
    kind: u64,
}

impl<B: Buff> Visitor for Op<'_, B> {
    type Out = Res;

    fn visit<T: Z>(self, name: &'static str) -> Res {
        let Op { s, st, kind } = self;
        let (size, align) = (size_of::<T>(), align_of::<T>());
        let at = st.aligned(align);
        let fill = *s.pick(&[0xffu8, 0, 1, 0x80]);
        match kind {
            0..=2 => {
                let v = T::gen(s);
                let p = Poisoned::new(&v, fill);
                st.log.push(format!("store{kind} {name} {v:?}"));
                let need = Need { len: at + size, may: at + size, number: at };
                let r = st.attempt(need, align, |b| match kind {
                    0 => b.store(p.get()),
                    1 => b.store_next(p.get()),
                    _ => {
                        let r = b.store_uninit::<T>();
                        let at = b.sizes().0 - size;
                        assert!(b.bytes()[at..].iter().all(|b| *b == 0), "store_uninit is not zeroed");
                        b.write_uninit(r, p.get())
                    }
                })?;
                if let Some(r) = r {
                    st.stored(r.offset(), align, &zeroed(&v.image()))?;
                    st.items.push(Box::new(One(r)));
                }
            }
            3..=4 => {
                let n = s.size(0, if size < 4 { 9 } else { 4 });
                let v: Vec<T> = (0..n).map(|_| T::gen(s)).collect();
                let p = PoisonedSlice::new(&v, fill);
                st.log.push(format!("slice{kind} {name} {v:?}"));
                let need = Need { len: at + size * n, may: at + size * n, number: at.max(n) };
                let r = st.attempt(need, align, |b| if kind == 3 { b.store_slice(p.get()) } else { b.store_unsized(p.get()) })?;
                if let Some(r) = r {
                    let bytes: Vec<u8> = v.iter().flat_map(|v| zeroed(&v.image())).collect();
                    st.stored(r.offset(), align, &bytes)?;
                    st.items.push(Box::new(Many(r, n)));
                }
            }
            5 => {
                st.log.push(format!("request_align {name}"));
                let need = Need { len: at, may: at + size, number: 0 };
                if st.attempt(need, align, |b| b.request_align::<T>())?.is_some() {
                    let at = st.b.as_ref().unwrap().sizes().0;
                    st.stored(at, align, &[])?;
                }
            }
            _ => {
                st.log.push(format!("next_offset {name}"));
                let need = Need { len: at, may: at + size, number: 0 };
                if let Some(at) = st.attempt(need, align, |b| b.next_offset::<T>())? {
                    st.stored(at, align, &[])?;
                }
            }
        }
        Ok(())
    }
}

/// Which types are used.
trait Table {
    fn with<B: Buff>(s: &mut Src, st: &mut State<B>, kind: u64) -> Res;
}

struct All;
struct Few;

impl Table for All {
    fn with<B: Buff>(s: &mut Src, st: &mut State<B>, kind: u64) -> Res {
        let n = s.index(TYPES);
        with_type(n, Op { s, st, kind })
    }
}

impl Table for Few {
    fn with<B: Buff>(s: &mut Src, st: &mut State<B>, kind: u64) -> Res {
        let n = s.index(FEW);
        with_few(n, Op { s, st, kind })
    }
}

fn history<B: Buff, T: Table>(s: &mut Src, c: &mut Case, b: B) -> Res {
    let align = b.sizes().2;
    let mut st = State { b: Some(b), want: vec![], items: vec![], align, log: vec![], seen: 0, over: false };
    let out = steps::<B, T>(s, &mut st);
    c.desc(|| st.log.join(", "));
    let kinds = st.seen.count_ones();
    if st.items.len() > 1 && kinds > 1 {
        c.nontrivial(&(&st.log, std::any::type_name::<B>()));
    }
    if st.over {
        c.label("refused");
    }
    if st.seen & 1 << 21 != 0 {
        c.label("moved");
    }
    out.map_err(|e| format!("{}: {}: {e}", std::any::type_name::<B>(), st.log.join(", ")))
}

fn steps<B: Buff, T: Table>(s: &mut Src, st: &mut State<B>) -> Res {
    let n = s.size(1, 16);
    for _ in 0..n {
        let before = st.b.as_ref().unwrap().bytes().as_ptr();
        let op = s.weighted(&[30, 6, 4, 3, 4, 3, 8, 3, 1, 4, 3]);
        st.seen |= 1 << op;
        match op {
            0 => {
                let kind = s.weighted(&[6, 2, 3, 5, 1, 2, 2]) as u64;
                T::with(s, st, kind)?;
            }
            1 => {
                let v = s.string(12);
                st.log.push(format!("str {v:?}"));
                let at = st.want.len();
                let need = Need { len: at + v.len(), may: at + v.len(), number: at.max(v.len()) };
                if let Some(r) = st.attempt(need, 1, |b| b.store_str(&v))? {
                    st.stored(r.offset(), 1, v.as_bytes())?;
                    st.items.push(Box::new(Text(r, v.len())));
                }
            }
            2 => {
                let n = if s.chance(1, 12) { s.size(200, 70_000) } else { s.size(0, 40) };
                let byte = s.upto(255) as u8;
                let v = vec![byte; n];
                st.log.push(format!("extend {n} bytes {byte}"));
                let at = st.want.len();
                let need = Need { len: at + n, may: at + n, number: 0 };
                if st.attempt(need, 1, |b| b.extend(&v))?.is_some() {
                    st.stored(at, 1, &v)?;
                }
            }
            3 => {
                let n = s.size(0, 300);
                st.log.push(format!("reserve {n}"));
                let at = st.want.len();
                let need = Need { len: at + n, may: at + n, number: 0 };
                if st.attempt(need, 1, |b| b.reserve(n))?.is_some() {
                    st.stored(at, 1, &[])?;
                    let (len, capacity, ..) = st.b.as_ref().unwrap().sizes();
                    ensure!(capacity - len >= n, "reserved {} bytes", capacity - len);
                }
            }
            4 => {
                st.log.push("align_in_place".to_owned());
                let b = st.b.as_mut().unwrap();
                let was = b.buf().is_aligned_with(b.sizes().2);
                let out = catch_unwind(AssertUnwindSafe(|| b.align_in_place()));
                ensure!(out.is_ok() || (!B::OWNED && !was), "align_in_place panicked");
                if out.is_ok() {
                    ensure!(b.buf().is_aligned_with(st.align), "not aligned by {}", st.align);
                    for i in &st.items {
                        i.check(b.buf(), &st.want, true)?;
                    }
                }
            }
            5 => {
                let how = s.upto(3);
                st.log.push(format!("copy{how}"));
                let b = st.b.take().unwrap();
                let was = b.sizes();
                let loads = b.buf().is_aligned_with(st.align);
                let b = b.copied(how);
                let is = b.sizes();
                ensure_eq!((is.0, is.2), (was.0, was.2), "length and alignment");
                if loads {
                    for i in &st.items {
                        i.check(b.buf(), &st.want, true)?;
                    }
                }
                st.b = Some(b);
            }
            6 => {
                if !st.items.is_empty() {
                    let i = s.index(st.items.len());
                    st.log.push(format!("update {i}"));
                    let b = st.b.as_mut().unwrap();
                    st.items[i].update(s, b.buf_mut(), &mut st.want)?;
                }
            }
            7 => {
                // Some of what was stored changes places.
                let b = st.b.as_mut().unwrap();
                let at = |s: &mut Src| Ref::<u8, Big, usize>::new(s.index(st.want.len().max(1)));
                let (x, y) = (at(s), at(s));
                if !st.want.is_empty() {
                    st.log.push(format!("swap {} {}", x.offset(), y.offset()));
                    b.buf_mut().swap(x, y).map_err(|e| format!("swap: {e}"))?;
                    ensure_eq!((b.bytes()[x.offset()], b.bytes()[y.offset()]), (st.want[y.offset()], st.want[x.offset()]), "swap");
                    b.buf_mut().swap(y, x).map_err(|e| format!("swap: {e}"))?;
                }
            }
            8 => {
                st.log.push("clear".to_owned());
                st.b.as_mut().unwrap().clear();
                st.items.clear();
                st.want.clear();
            }
            9 => {
                let how = s.upto(2);
                st.log.push(format!("other{how}"));
                let buf = st.b.as_ref().unwrap().buf();
                let loads = buf.is_aligned_with(st.align);
                let align = 1usize << s.upto(7);
                let c: Cow<Buf> = match how {
                    0 => Cow::Owned(buf.to_owned()),
                    1 => buf.to_aligned_with(align),
                    _ => buf.to_aligned::<u128>(),
                };
                ensure!(how != 1 || c.is_aligned_with(align), "to_aligned_with");
                ensure!(how != 2 || c.is_aligned_with(align_of::<u128>()), "to_aligned");
                ensure!(c[..] == st.want[..], "copied {}", hex(&c[..]));
                for i in &st.items {
                    i.check(&c, &st.want, (loads && how == 0) || c.is_aligned_with(st.align))?;
                }
            }
            _ => {
                // From elsewhere.
                st.log.push("elsewhere".to_owned());
                let align = st.align;
                let slack = s.size(0, 8);
                let items = &st.items;
                let want = &st.want;
                let (out, _) = elsewhere(want, align, slack, |b| {
                    items.iter().try_for_each(|i| i.check(Buf::new(b), want, slack % align == 0))
                });
                out?;
            }
        }
        if st.over {
            return Ok(());
        }
        let b = st.b.as_ref().unwrap();
        if b.bytes().as_ptr() != before && !st.items.is_empty() {
            st.seen |= 1 << 21;
        }
        let (len, capacity, requested, empty) = b.sizes();
        ensure!(b.bytes() == st.want, "contents {}, expected {}", hex(b.bytes()), hex(&st.want));
        ensure_eq!((len, empty), (st.want.len(), st.want.is_empty()), "length");
        ensure!(capacity >= len, "capacity {capacity} for {len}");
        ensure_eq!(requested, st.align, "requested alignment");
        for i in &st.items {
            i.check(b.buf(), &st.want, false)?;
        }
    }
    // Nothing which was stored shares memory.
    let mut places: Vec<_> = st.items.iter().map(|i| i.place()).filter(|p| !p.is_empty()).collect();
    places.sort_by_key(|p| p.start);
    ensure!(places.windows(2).all(|p| p[0].end <= p[1].start), "places {places:?}");
    let b = st.b.take().unwrap();
    b.finish(&st.want, st.align)
}

/// A copy of bytes which is aligned and then some.
fn elsewhere<T>(b: &[u8], align: usize, slack: usize, f: impl FnOnce(&[u8]) -> T) -> (T, ()) {
    let mut mem = vec![0u8; b.len() + align + slack + 1];
    let at = mem.as_ptr().align_offset(align) + slack;
    mem[at..at + b.len()].copy_from_slice(b);
    (f(&mem[at..at + b.len()]), ())
}

fn owned_of<E: ByteOrder, O: Sz, T: Table>(s: &mut Src, c: &mut Case) -> Res {
    let capacity = match s.upto(3) {
        0 => 0,
        1 => s.size(1, 64),
        2 => s.size(1, 1000),
        _ => 128,
    };
    let b = match s.upto(6) {
        0 => OwnedBuf::new(),
        1 => OwnedBuf::with_capacity(capacity),
        2 => OwnedBuf::with_alignment::<u8>(),
        3 => OwnedBuf::with_capacity_and_alignment::<u8>(capacity),
        4 => OwnedBuf::with_capacity_and_alignment::<u128>(capacity),
        5 => OwnedBuf::with_capacity_and_alignment::<Aligned>(capacity),
        _ => OwnedBuf::default(),
    };
    c.desc(|| format!("capacity {} align {}", b.capacity(), b.requested()));
    history::<_, T>(s, c, b.with_byte_order::<E>().with_size::<O>())
}

fn owned(s: &mut Src, c: &mut Case) -> Res {
    match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => owned_of::<Native, u32, All>(s, c),
        1 => owned_of::<Big, u16, Few>(s, c),
        2 => owned_of::<Little, usize, Few>(s, c),
        3 => owned_of::<Big, usize, Few>(s, c),
        4 => owned_of::<Big, u32, Few>(s, c),
        _ => owned_of::<Native, u8, Few>(s, c),
    }
}

fn borrowed_of<E: ByteOrder, O: Sz, T: Table>(s: &mut Src, c: &mut Case) -> Res {
    let capacity = match s.upto(3) {
        0 => s.size(0, 40),
        1 => s.size(0, 256),
        2 => 1024,
        _ => 66_000,
    };
    let mem = vec![*s.pick(&[0xa5u8, 0, 0xff]); capacity];
    let slack = if s.bool() { (0isize - capacity as isize).rem_euclid(128) as usize } else { s.size(0, 17) };
    let how = s.upto(3);
    c.desc(|| format!("capacity {capacity} slack {slack}"));
    let (out, clean) = guarded(&mem, slack, |b| {
        let b = match how {
            0..=1 => SliceMut::new(b),
            2 => SliceMut::with_alignment::<u8>(b),
            _ => SliceMut::with_alignment::<u128>(b),
        };
        history::<_, T>(s, c, b.with_byte_order::<E>().with_size::<O>())
    });
    out?;
    ensure!(clean, "memory around the slice was written");
    Ok(())
}

fn borrowed(s: &mut Src, c: &mut Case) -> Res {
    match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => borrowed_of::<Native, u32, All>(s, c),
        1 => borrowed_of::<Big, u16, Few>(s, c),
        2 => borrowed_of::<Little, usize, Few>(s, c),
        3 => borrowed_of::<Big, usize, Few>(s, c),
        4 => borrowed_of::<Little, u32, Few>(s, c),
        _ => borrowed_of::<Native, u8, Few>(s, c),
    }
}

/// Values as bytes.
struct AsBytes<'a> {
    s: &'a mut Src,
    c: &'a mut Case,
}

impl Visitor for AsBytes<'_> {
    type Out = Res;

    fn visit<T: Z>(self, name: &'static str) -> Res {
        let AsBytes { s, c } = self;
        let v = T::gen(s);
        let fill = *s.pick(&[0xffu8, 1]);
        c.desc(|| format!("{name} {v:?}"));
        let image = v.image();
        if image.iter().any(|b| b.is_none()) {
            c.label("padded");
        }
        c.nontrivial(&(name, format!("{v:?}")));
        let want = zeroed(&image);
        let mut p = Poisoned::new(&v, fill);
        // SAFETY: the value is not used as such once it has been written.
        let b = p.get_mut().to_bytes();
        ensure!(b == want, "{name} {v:?}: to_bytes {}, expected {}", hex(b), hex(&want));
        let buf = aligned_buf::<T>(&want);
        let back = T::from_bytes(&buf[..]).map_err(|e| format!("{name} {v:?}: from_bytes: {e}"))?;
        ensure_eq!(back.image(), image, "{name}: from_bytes");
        let mut p = Poisoned::new(&v, fill);
        p.get_mut().initialize_padding();
        // SAFETY: padding has been written.
        let b = unsafe { p.get().to_bytes_unchecked() };
        ensure!(b == want, "{name} {v:?}: initialize_padding {}, expected {}", hex(b), hex(&want));
        ensure!(T::PADDED || image.iter().all(|b| b.is_some()), "{name} has padding");
        Ok(())
    }
}

fn as_bytes(s: &mut Src, c: &mut Case) -> Res {
    with_type(s.index(TYPES), AsBytes { s, c })
}

/// A buffer as a writer.
fn writer(s: &mut Src, c: &mut Case) -> Res {
    let mut b = OwnedBuf::with_capacity_and_alignment::<u8>(s.size(0, 30));
    let mut want = Vec::new();
    for _ in 0..s.size(1, 6) {
        let n = s.size(0, 20);
        let bytes = s.bytes(n);
        b.write_all(&bytes).map_err(|e| e.to_string())?;
        b.flush().map_err(|e| e.to_string())?;
        want.extend(bytes);
    }
    c.desc(|| hex(&want));
    c.nontrivial(&want);
    ensure!(b.as_slice() == want, "got {}, expected {}", hex(b.as_slice()), hex(&want));
    ensure!(b.as_mut_slice() == want, "as_mut_slice");
    ensure!(b[..] == want[..], "index");
    Ok(())
}

fn property() -> Property {
    Property {
        id: "Z01",
        rule: "at least two values are stored and two kinds of operations done",
        assumptions: &[],
        families: vec![
            Family::new("owned", 600_000, owned).thorough(20_000_000),
            Family::new("borrowed", 500_000, borrowed).thorough(20_000_000),
            Family::new("bytes", 600_000, as_bytes).thorough(10_000_000),
            Family::new("writer", 50_000, writer).thorough(500_000),
        ],
        findings: vec![],
    }
}

fn main() {
    pbt::main(vec![property()])
}

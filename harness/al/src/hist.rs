//! Histories of operations on containers which are alive at the same time.
use std::fmt::Write as _;
use std::mem::{align_of, size_of, MaybeUninit};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use musli::alloc::{
    Allocator, ArrayBuffer, Box as MBox, DefaultAllocator, Slice, SliceBuffer, String as MString, System, Vec as MVec,
};
use pbt::{ensure, ensure_eq, short, Case, Res, Src};

use crate::elem::*;

/// What is known about a history.
pub struct World {
    log: Vec<String>,
    next: u64,
    /// How much was asked for in total, at most.
    spent: usize,
    /// How much there is.
    size: usize,
    /// Where allocations are found.
    bounds: Option<(usize, usize)>,
    peak: usize,
    grown: bool,
    live: usize,
}

impl World {
    fn new(size: usize, bounds: Option<(usize, usize)>) -> Self {
        World { log: vec![], next: 0, spent: 0, size, bounds, peak: 0, grown: false, live: 0 }
    }

    fn number(&mut self) -> u64 {
        self.next += 1;
        // Neighbours differ in every byte.
        self.next.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 3
    }

    /// An allocation of so many bytes might happen.
    fn spend(&mut self, bytes: usize) {
        self.grown |= self.live > 1 && bytes > 0;
        self.spent = self.spent.saturating_add(bytes).saturating_add(128);
    }

    fn failed(&self, what: &str) -> Res {
        ensure!(
            self.spent > self.size,
            "an allocation fails although there is room: {what}, after asking for at most {} of {} bytes",
            self.spent,
            self.size
        );
        Ok(())
    }
}

/// Memory which belongs to something which is alive.
struct Held {
    at: usize,
    len: usize,
    what: &'static str,
}

struct Seen {
    held: Vec<Held>,
    owned: usize,
    tokens: i64,
    regions: usize,
}

impl Seen {
    fn hold<T>(&mut self, at: *const T, n: usize, what: &'static str) -> Res {
        ensure!(at as usize % align_of::<T>() == 0, "memory of {what} at {at:p} is not aligned");
        if size_of::<T>() > 0 && n > 0 {
            let len = n.checked_mul(size_of::<T>());
            ensure!(len.is_some(), "capacity of {what} is {n}");
            self.held.push(Held { at: at as usize, len: len.unwrap(), what });
        }
        Ok(())
    }

    fn counted<T: El>(&mut self, n: usize) {
        if T::NAME == Owned::NAME {
            self.owned += n;
        }
        if T::NAME == Token::NAME {
            self.tokens += n as i64;
        }
    }
}

trait Obj {
    fn step(&mut self, s: &mut Src, w: &mut World) -> Res;
    fn look(&self, seen: &mut Seen) -> Res;
}

/// Allocators, and what they can take from the standard library.
pub trait Kind: Allocator {
    fn adopt<T>(v: Vec<T>) -> Result<MVec<T, Self>, Vec<T>> {
        Err(v)
    }
}

impl Kind for System {
    fn adopt<T>(v: Vec<T>) -> Result<MVec<T, Self>, Vec<T>> {
        Ok(MVec::from(v))
    }
}

impl Kind for &Slice<'_> {}
impl<const N: usize> Kind for &DefaultAllocator<'_, N> {}

struct VO<T: El, A: Kind> {
    v: Option<MVec<T, A>>,
    m: Vec<u64>,
    alloc: A,
}

fn many(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 1]) {
        0 => s.size(0, 4),
        1 => s.size(0, 20),
        _ => s.size(0, 100),
    }
}

const HUGE: [usize; 7] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX / 2,
    usize::MAX / 2 + 1,
    usize::MAX / 3,
    usize::MAX / 16 + 1,
    1 << 50,
];

impl<T: El, A: Kind> VO<T, A> {
    fn new(s: &mut Src, w: &mut World, alloc: A) -> Result<Option<Self>, String> {
        if s.chance(1, 4) {
            let n = many(s);
            w.log.push(format!("with_capacity {n} of {}", T::NAME));
            w.spend(n * size_of::<T>());
            let Ok(v) = MVec::with_capacity_in(n, alloc) else {
                w.failed("with_capacity_in")?;
                return Ok(None);
            };
            ensure!(v.capacity() >= n, "capacity {} after with_capacity_in({n})", v.capacity());
            return Ok(Some(VO { v: Some(v), m: vec![], alloc }));
        }
        w.log.push(format!("new of {}", T::NAME));
        w.spend(0);
        Ok(Some(VO { v: Some(MVec::new_in(alloc)), m: vec![], alloc }))
    }

    fn merge(&mut self, other: Self, w: &mut World) -> Res {
        w.log.push(format!("append {} to {} of {}", other.m.len(), self.m.len(), T::NAME));
        w.spend((self.m.len() + other.m.len()) * size_of::<T>());
        let v = self.v.as_mut().unwrap();
        match T::merge(v, other.v.unwrap()) {
            Ok(Ok(())) => self.m.extend(other.m),
            Ok(Err(..)) => w.failed("extend")?,
            Err(..) => {}
        }
        Ok(())
    }

    fn grow(&mut self, items: &[u64], one: bool, w: &mut World) -> Res {
        let v = self.v.as_mut().unwrap();
        w.spend((self.m.len() + items.len()) * size_of::<T>());
        let (cap, at) = (v.capacity(), v.as_slice().as_ptr());
        let done = if one {
            let mut done = 0;
            for n in items {
                if size_of::<T>() > 0 {
                    w.spend((self.m.len() + done + 1) * size_of::<T>());
                }
                if v.push(T::make(*n)).is_err() {
                    break;
                }
                done += 1;
            }
            done
        } else {
            T::extend(v, items).unwrap_or(0)
        };
        let fits = self.m.len() + items.len() <= cap;
        self.m.extend(items[..done].iter().map(|n| T::key(*n)));
        if done < items.len() {
            ensure!(!fits, "growing to {} within a capacity of {cap} of {} fails", self.m.len() + items.len(), T::NAME);
            w.failed("extend_from_slice")?;
        } else if fits && size_of::<T>() > 0 && !items.is_empty() {
            ensure_eq!(v.as_slice().as_ptr(), at, "where a container of {} is after growing within its capacity", T::NAME);
        }
        Ok(())
    }
}

impl<T: El, A: Kind> Obj for VO<T, A> {
    fn step(&mut self, s: &mut Src, w: &mut World) -> Res {
        match s.weighted(&[8, 6, 3, 1, 3, 1, 2, 1, 1, 1]) {
            op @ 0..=1 => {
                let n = if op == 0 { s.size(1, 3) } else { many(s) };
                let items: Vec<u64> = (0..n).map(|_| w.number()).collect();
                w.log.push(format!("{} {n} to {} of {}", if op == 0 { "push" } else { "extend" }, self.m.len(), T::NAME));
                self.grow(&items, op == 0, w)?;
            }
            2 => {
                w.log.push(format!("pop of {} of {}", self.m.len(), T::NAME));
                let got = self.v.as_mut().unwrap().pop();
                ensure_eq!(got.as_ref().map(T::told), self.m.pop(), "pop");
            }
            3 => {
                w.log.push(format!("clear {} of {}", self.m.len(), T::NAME));
                let v = self.v.as_mut().unwrap();
                v.clear();
                self.m.clear();
                ensure!(v.is_empty(), "not empty after clear");
            }
            4 => {
                let n = many(s);
                w.log.push(format!("reserve {n} more than {} of {}", self.m.len(), T::NAME));
                w.spend((self.m.len() + n) * size_of::<T>());
                let v = self.v.as_mut().unwrap();
                match v.reserve(n) {
                    Ok(()) => ensure!(
                        v.capacity() >= self.m.len() + n,
                        "capacity {} of {} after reserving {n} more than {}",
                        v.capacity(),
                        T::NAME,
                        self.m.len()
                    ),
                    Err(..) => w.failed("reserve")?,
                }
            }
            5 => {
                let n = match s.pick(&HUGE) {
                    &n if s.bool() => n - self.m.len(),
                    n => *n,
                };
                w.log.push(format!("reserve {n:#x} more than {} of {}", self.m.len(), T::NAME));
                let v = self.v.as_mut().unwrap();
                let done = v.reserve(n).is_ok();
                ensure_eq!(done, size_of::<T>() == 0, "whether {n:#x} more than {} of {} can be reserved", self.m.len(), T::NAME);
                let new = MVec::<T, A>::with_capacity_in(n, self.alloc).is_ok();
                ensure_eq!(new, size_of::<T>() == 0, "whether {n:#x} of {} can be reserved", T::NAME);
            }
            6 if !self.m.is_empty() => {
                let (a, b) = (s.index(self.m.len()), s.index(self.m.len()));
                let n = w.number();
                w.log.push(format!("swap {a} and {b}, replace {b} of {}", T::NAME));
                let v = self.v.as_mut().unwrap();
                v.swap(a, b);
                v.as_slice_mut()[b] = T::make(n);
                self.m.swap(a, b);
                self.m[b] = T::key(n);
            }
            7 => {
                w.log.push(format!("take apart {} of {}", self.m.len(), T::NAME));
                let (raw, len) = self.v.take().unwrap().into_raw_parts();
                ensure_eq!(len, self.m.len(), "length");
                self.v = Some(MVec::from_raw_parts(raw, len));
            }
            8 => {
                w.log.push(format!("into_std of {} of {}", self.m.len(), T::NAME));
                match self.v.take().unwrap().into_std() {
                    Ok(mut std) => {
                        ensure!(A::IS_SYSTEM, "memory of a slice became a standard container");
                        if s.bool() {
                            std.extend((0..3).map(|n| T::make(n)));
                            self.m.extend((0..3).map(T::key));
                        }
                        let told: Vec<u64> = std.iter().map(T::told).collect();
                        ensure_eq!(told, self.m, "what into_std holds");
                        if s.bool() {
                            std.shrink_to_fit();
                        }
                        self.v = Some(match A::adopt(std) {
                            Ok(v) => v,
                            Err(std) => {
                                let mut v = MVec::new_in(self.alloc);
                                for x in std {
                                    ensure!(v.push(x).is_ok(), "push fails");
                                }
                                v
                            }
                        });
                    }
                    Err(v) => {
                        ensure!(!A::IS_SYSTEM, "into_std fails with the system allocator");
                        self.v = Some(v);
                    }
                }
            }
            _ => {
                w.log.push(format!("copy {} of {}", self.m.len(), T::NAME));
                w.spend(self.m.len() * size_of::<T>() * 2);
                let copy = self.m.clone();
                let mut v = MVec::new_in(self.alloc);
                let done = T::extend(&mut v, &copy).unwrap_or(0);
                if done < copy.len() {
                    w.failed("extend_from_slice")?;
                } else {
                    let told: Vec<u64> = v.iter().map(T::told).collect();
                    ensure_eq!(told.len(), self.m.len(), "length of a copy");
                }
                // Which one is dropped?
                if s.bool() && done == copy.len() {
                    self.m = copy.into_iter().map(T::key).collect();
                    self.v = Some(v);
                }
            }
        }
        Ok(())
    }

    fn look(&self, seen: &mut Seen) -> Res {
        let v = self.v.as_ref().unwrap();
        ensure_eq!(v.len(), self.m.len(), "length of a container of {}", T::NAME);
        ensure_eq!(v.is_empty(), self.m.is_empty(), "whether a container of {} is empty", T::NAME);
        ensure!(v.capacity() >= v.len(), "capacity {} of {} elements", v.capacity(), v.len());
        let cap = if size_of::<T>() == 0 { 0 } else { v.capacity() };
        seen.hold(v.as_slice().as_ptr(), cap, T::NAME)?;
        seen.counted::<T>(v.len());
        seen.regions += usize::from(size_of::<T>() > 0);
        for (i, (x, n)) in v.iter().zip(&self.m).enumerate() {
            ensure!(x.told() == *n, "contents of a container of {} changed: element {i} is {:#x} instead of {n:#x}", T::NAME, x.told());
        }
        Ok(())
    }
}

struct SO<A: Kind> {
    v: Option<MString<A>>,
    m: String,
    alloc: A,
}

impl<A: Kind> SO<A> {
    fn new(s: &mut Src, w: &mut World, alloc: A) -> Result<Option<Self>, String> {
        if s.chance(1, 4) {
            let n = many(s);
            w.log.push(format!("with_capacity {n} of a string"));
            w.spend(n);
            let Ok(v) = MString::with_capacity_in(n, alloc) else {
                w.failed("with_capacity_in")?;
                return Ok(None);
            };
            ensure!(v.capacity() >= n, "capacity {} after with_capacity_in({n})", v.capacity());
            return Ok(Some(SO { v: Some(v), m: String::new(), alloc }));
        }
        w.log.push("new string".into());
        w.spend(0);
        Ok(Some(SO { v: Some(MString::new_in(alloc)), m: String::new(), alloc }))
    }

    fn merge(&mut self, other: Self, w: &mut World) -> Res {
        w.log.push(format!("append a string of {} to one of {}", other.m.len(), self.m.len()));
        w.spend(self.m.len() + other.m.len());
        // Through the bytes, which are appended as a whole.
        let mut v = self.v.take().unwrap().into_bytes();
        match v.extend(other.v.unwrap().into_bytes()) {
            Ok(()) => self.m.push_str(&other.m),
            Err(..) => w.failed("extend")?,
        }
        match MString::from_utf8(v) {
            Ok(v) => self.v = Some(v),
            Err(e) => return Err(format!("appended strings are not a string: {e}, {:?}", e.as_bytes())),
        }
        Ok(())
    }
}

impl<A: Kind> Obj for SO<A> {
    fn step(&mut self, s: &mut Src, w: &mut World) -> Res {
        let v = self.v.as_mut().unwrap();
        match s.weighted(&[4, 4, 3, 2, 1]) {
            0 => {
                let c = s.char();
                w.log.push(format!("push {c:?} to a string of {}", self.m.len()));
                w.spend(self.m.len() + c.len_utf8());
                match v.push(c) {
                    Ok(()) => self.m.push(c),
                    Err(..) => w.failed("push")?,
                }
            }
            1 => {
                let t = s.string(30);
                w.log.push(format!("push_str {t:?} to a string of {}", self.m.len()));
                w.spend(self.m.len() + t.len());
                match v.push_str(&t) {
                    Ok(()) => self.m.push_str(&t),
                    Err(..) => w.failed("push_str")?,
                }
            }
            2 => {
                let n = w.number() as u32;
                w.log.push(format!("write {n} to a string of {}", self.m.len()));
                w.spend(self.m.len() + 20);
                match write!(v, "<{n}>") {
                    Ok(()) => write!(self.m, "<{n}>").unwrap(),
                    Err(..) => {
                        w.failed("write")?;
                        // As much of it as fits was written.
                        let whole = format!("{}<{n}>", self.m);
                        ensure!(v.as_str().starts_with(&self.m) && whole.starts_with(v.as_str()), "a string became {:?}", v.as_str());
                        self.m = v.as_str().to_owned();
                    }
                }
            }
            3 => {
                w.log.push(format!("take apart a string of {}", self.m.len()));
                let mut v = self.v.take().unwrap().into_bytes();
                if s.bool() && !self.m.is_empty() {
                    let at = s.index(self.m.len());
                    let old = v[at];
                    v.as_slice_mut()[at] = s.upto(255) as u8;
                    let std = std::string::String::from_utf8(v.as_slice().to_vec());
                    match (MString::from_utf8(v), std) {
                        (Ok(got), Ok(want)) => {
                            self.m = want;
                            self.v = Some(got);
                            return Ok(());
                        }
                        (Err(e), Err(want)) => {
                            ensure_eq!(e.utf8_error(), want.utf8_error(), "why bytes are not a string");
                            ensure_eq!(e.as_bytes(), want.as_bytes(), "bytes which are not a string");
                            v = e.into_bytes();
                            v.as_slice_mut()[at] = old;
                        }
                        (got, want) => return Err(format!("from_utf8 of {want:?} is {:?}", got.map(|s| s.as_str().to_owned()))),
                    }
                }
                match MString::from_utf8(v) {
                    Ok(v) => self.v = Some(v),
                    Err(e) => return Err(format!("bytes of a string are not a string: {e}")),
                }
            }
            _ => {
                w.log.push(format!("into_std of a string of {}", self.m.len()));
                match self.v.take().unwrap().into_std() {
                    Ok(std) => {
                        ensure!(A::IS_SYSTEM, "memory of a slice became a standard string");
                        ensure_eq!(std, self.m, "what into_std holds");
                        let mut v = MString::new_in(self.alloc);
                        match A::adopt(std.into_bytes()) {
                            Ok(bytes) => v = MString::from_utf8(bytes).map_err(|e| e.to_string())?,
                            Err(..) => ensure!(v.push_str(&self.m).is_ok(), "push_str fails"),
                        }
                        self.v = Some(v);
                    }
                    Err(v) => self.v = Some(v),
                }
            }
        }
        Ok(())
    }

    fn look(&self, seen: &mut Seen) -> Res {
        let v = self.v.as_ref().unwrap();
        ensure!(
            v.as_str().as_bytes() == self.m.as_bytes(),
            "contents of a string changed: {} instead of {:?}",
            pbt::hex(v.as_str().as_bytes()),
            self.m
        );
        ensure_eq!(v.len(), self.m.len(), "length of a string");
        ensure_eq!(v.is_empty(), self.m.is_empty(), "whether a string is empty");
        ensure!(v.capacity() >= v.len(), "capacity {} of a string of {}", v.capacity(), v.len());
        seen.regions += 1;
        seen.hold(v.as_str().as_ptr(), v.capacity(), "a string")
    }
}

struct BO<T: El, A: Kind> {
    v: MBox<T, A>,
    m: u64,
}

impl<T: El, A: Kind> BO<T, A> {
    fn new(_: &mut Src, w: &mut World, alloc: A) -> Result<Option<Self>, String> {
        w.log.push(format!("box of {}", T::NAME));
        w.spend(size_of::<T>());
        let n = w.number();
        match MBox::new_in(T::make(n), alloc) {
            Ok(v) => Ok(Some(BO { v, m: T::key(n) })),
            Err(..) => {
                w.failed("Box::new_in")?;
                Ok(None)
            }
        }
    }

    fn merge(&mut self, mut other: Self, w: &mut World) -> Res {
        w.log.push(format!("swap boxes of {}", T::NAME));
        std::mem::swap(&mut *self.v, &mut *other.v);
        self.m = other.m;
        Ok(())
    }
}

impl<T: El, A: Kind> Obj for BO<T, A> {
    fn step(&mut self, _: &mut Src, w: &mut World) -> Res {
        let n = w.number();
        w.log.push(format!("replace what is in a box of {}", T::NAME));
        *self.v = T::make(n);
        self.m = T::key(n);
        Ok(())
    }

    fn look(&self, seen: &mut Seen) -> Res {
        ensure!(self.v.told() == self.m, "contents of a box of {} changed: {:#x} instead of {:#x}", T::NAME, self.v.told(), self.m);
        seen.counted::<T>(1);
        seen.regions += usize::from(size_of::<T>() > 0);
        seen.hold(&*self.v, 1, T::NAME)
    }
}

/// Containers in a container.
struct NO<A: Kind> {
    v: MVec<MVec<u16, A>, A>,
    m: Vec<Vec<u16>>,
    alloc: A,
}

impl<A: Kind> NO<A> {
    fn new(_: &mut Src, w: &mut World, alloc: A) -> Result<Option<Self>, String> {
        w.log.push("new of containers".into());
        w.spend(0);
        Ok(Some(NO { v: MVec::new_in(alloc), m: vec![], alloc }))
    }

    fn merge(&mut self, mut other: Self, w: &mut World) -> Res {
        w.log.push("move a container to another container".into());
        if let (Some(v), Some(m)) = (other.v.pop(), other.m.pop()) {
            w.spend((self.m.len() + 1) * size_of::<MVec<u16, A>>());
            match self.v.push(v) {
                Ok(()) => self.m.push(m),
                Err(..) => w.failed("push")?,
            }
        }
        Ok(())
    }
}

impl<A: Kind> Obj for NO<A> {
    fn step(&mut self, s: &mut Src, w: &mut World) -> Res {
        match s.weighted(&[3, 4, 1, 1]) {
            0 => {
                w.log.push(format!("push a container to {}", self.m.len()));
                w.spend(0);
                w.spend((self.m.len() + 1) * size_of::<MVec<u16, A>>());
                let new = MVec::new_in(self.alloc);
                match self.v.push(new) {
                    Ok(()) => self.m.push(vec![]),
                    Err(..) => w.failed("push")?,
                }
            }
            1 if !self.m.is_empty() => {
                let at = s.index(self.m.len());
                let n = s.size(1, 6);
                w.log.push(format!("push {n} to container {at} of {}", self.m.len()));
                let items: Vec<u16> = (0..n).map(|_| w.number() as u16).collect();
                w.spend((self.m[at].len() + n) * 2);
                match self.v.as_slice_mut()[at].extend_from_slice(&items) {
                    Ok(()) => self.m[at].extend(items),
                    Err(..) => w.failed("extend_from_slice")?,
                }
            }
            2 if !self.m.is_empty() => {
                let at = s.index(self.m.len());
                w.log.push(format!("remove container {at} of {}", self.m.len()));
                let last = self.m.len() - 1;
                self.v.swap(at, last);
                drop(self.v.pop());
                self.m.swap_remove(at);
            }
            _ => {
                w.log.push(format!("clear {} containers", self.m.len()));
                self.v.clear();
                self.m.clear();
            }
        }
        Ok(())
    }

    fn look(&self, seen: &mut Seen) -> Res {
        ensure_eq!(self.v.len(), self.m.len(), "length of a container of containers");
        seen.hold(self.v.as_slice().as_ptr(), self.v.capacity(), "containers")?;
        seen.regions += 1 + self.v.len();
        for (v, m) in self.v.iter().zip(&self.m) {
            ensure!(v.as_slice() == m.as_slice(), "contents of a container in a container changed: {:x?} instead of {m:x?}", v.as_slice());
            seen.hold(v.as_slice().as_ptr(), v.capacity(), "a container in a container")?;
        }
        Ok(())
    }
}

macro_rules! cells {
    ($($weight:literal $name:ident($ty:ty)),* $(,)?) => {
        enum Cell<A: Kind> {
            $($name($ty)),*
        }

        const KINDS: &[&str] = &[$(stringify!($name)),*];
        const WEIGHTS: &[u64] = &[$($weight),*];

        impl<A: Kind> Cell<A> {
            fn new(kind: &str, s: &mut Src, w: &mut World, alloc: A) -> Result<Option<Self>, String> {
                $(if kind == stringify!($name) {
                    return Ok(<$ty>::new(s, w, alloc)?.map(Cell::$name));
                })*
                unreachable!()
            }

            fn obj(&mut self) -> &mut (dyn Obj + '_) {
                match self {
                    $(Cell::$name(o) => o,)*
                }
            }

            fn kind(&self) -> &'static str {
                match self {
                    $(Cell::$name(..) => stringify!($name),)*
                }
            }

            fn merge(&mut self, other: Self, w: &mut World) -> Res {
                match (self, other) {
                    $((Cell::$name(a), Cell::$name(b)) => a.merge(b, w),)*
                    _ => Ok(()),
                }
            }
        }
    };
}

cells! {
    6 U8(VO<u8, A>),
    2 U16(VO<u16, A>),
    2 U32(VO<u32, A>),
    3 U64(VO<u64, A>),
    1 U128(VO<u128, A>),
    2 Three(VO<[u8; 3], A>),
    1 Wide(VO<Wide, A>),
    1 Unit(VO<(), A>),
    1 Owned(VO<Owned, A>),
    1 Token(VO<Token, A>),
    3 Str(SO<A>),
    1 BoxU8(BO<u8, A>),
    1 BoxU64(BO<u64, A>),
    1 BoxWide(BO<Wide, A>),
    1 BoxOwned(BO<Owned, A>),
    1 BoxToken(BO<Token, A>),
    2 Nested(NO<A>),
}

fn look<A: Kind>(cells: &mut [Cell<A>], w: &mut World) -> Res {
    let mut seen = Seen { held: vec![], owned: 0, tokens: 0, regions: 0 };
    for c in cells.iter_mut() {
        c.obj().look(&mut seen)?;
    }
    w.peak = w.peak.max(seen.regions);
    w.live = seen.regions;
    if let Some((lo, hi)) = w.bounds {
        for h in &seen.held {
            ensure!(
                h.at >= lo && h.at + h.len <= hi,
                "{} reaches outside of the buffer: {}..{} of {}",
                h.what,
                h.at as isize - lo as isize,
                h.at as isize - lo as isize + h.len as isize,
                hi - lo
            );
        }
    }
    seen.held.sort_by_key(|h| h.at);
    for p in seen.held.windows(2) {
        ensure!(
            p[0].at + p[0].len <= p[1].at,
            "{} of {} bytes overlaps with {} which follows {} bytes later",
            p[0].what,
            p[0].len,
            p[1].what,
            p[1].at - p[0].at
        );
    }
    let (owned, tokens, bad) = alive();
    if let Some(bad) = bad {
        return Err(bad);
    }
    ensure_eq!(owned, seen.owned, "how many dropped values are alive");
    ensure_eq!(tokens, seen.tokens, "how many dropped values without a size are alive");
    Ok(())
}

fn round<A: Kind>(s: &mut Src, alloc: A, w: &mut World, steps: usize, most: usize) -> Res {
    let mut cells: Vec<Cell<A>> = vec![];
    // Some histories only have a few kinds of containers.
    let few: Vec<&str> = if s.bool() { (0..2).map(|_| KINDS[s.weighted(WEIGHTS)]).collect() } else { vec![] };
    for _ in 0..steps {
        if cells.is_empty() || (cells.len() < most && s.chance(1, 4)) {
            let kind = if few.is_empty() { KINDS[s.weighted(WEIGHTS)] } else { *s.pick(&few) };
            w.live += 1;
            if let Some(c) = Cell::new(kind, s, w, alloc)? {
                cells.push(c);
            }
        } else {
            let at = s.index(cells.len());
            match s.weighted(&[10, 2, 1]) {
                0 => cells[at].obj().step(s, w)?,
                1 => {
                    w.log.push(format!("drop {}", cells[at].kind()));
                    let c = cells.swap_remove(at);
                    drop(c);
                }
                _ => {
                    let from = s.index(cells.len());
                    if from != at && cells[from].kind() == cells[at].kind() {
                        let last = cells.len() - 1;
                        let c = cells.swap_remove(from);
                        let at = if at == last { from } else { at };
                        cells[at].merge(c, w)?;
                    }
                }
            }
        }
        look(&mut cells, w)?;
    }
    while !cells.is_empty() {
        let at = s.index(cells.len());
        w.log.push(format!("drop {}", cells[at].kind()));
        drop(cells.swap_remove(at));
        look(&mut cells, w)?;
    }
    Ok(())
}

fn told(w: &mut World, case: &mut Case, f: impl FnOnce(&mut World) -> Res) -> Res {
    reset();
    let out = catch_unwind(AssertUnwindSafe(|| f(w)));
    if w.grown {
        case.nontrivial(&(&w.log, w.size));
    }
    case.desc(|| short(format!("{} bytes: {}", w.size, w.log.join("; "))));
    match out {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

/// Once everything is dropped, there is room for something large.
fn reuse(alloc: &Slice<'_>, len: usize, w: &mut World) -> Res {
    // Headers of what was alive at the same time are kept.
    let kept = 24 * (w.peak + 3) + 8;
    let Some(room) = len.checked_sub(kept) else {
        return Ok(());
    };
    w.log.push(format!("reserve {room}"));
    let mut v = MVec::<u8, _>::new_in(alloc);
    ensure!(
        v.reserve(room).is_ok(),
        "after everything was dropped, {room} bytes of {len} cannot be reserved, where at most {} allocations were alive",
        w.peak
    );
    for i in 0..room {
        ensure!(v.push(i as u8).is_ok(), "a push fails");
    }
    ensure!(v.iter().enumerate().all(|(i, b)| *b == i as u8), "contents changed");
    Ok(())
}

fn in_buffer<B>(s: &mut Src, buf: &mut B, size: usize, f: &mut dyn FnMut(&mut Src, &Slice<'_>, (usize, usize)) -> Res) -> Res
where
    B: ?Sized + SliceBuffer,
{
    let lo = (buf as *mut B).cast::<u8>() as usize;
    let alloc = Slice::new(buf);
    f(s, &alloc, (lo, lo + size))
}

fn typed<T>(s: &mut Src, b: &mut [u8], uninit: bool, f: &mut dyn FnMut(&mut Src, &Slice<'_>, (usize, usize)) -> Res) -> Res
where
    [T]: SliceBuffer,
    [MaybeUninit<T>]: SliceBuffer,
{
    // SAFETY: only used with integers.
    let (_, mid, _) = unsafe { b.align_to_mut::<T>() };
    let size = size_of_val(mid);
    if uninit {
        // SAFETY: is not turned back into integers.
        let mid = unsafe { &mut *(mid as *mut [T] as *mut [MaybeUninit<T>]) };
        return in_buffer(s, mid, size, f);
    }
    in_buffer(s, mid, size, f)
}

/// Run with a buffer of any kind.
pub fn buffer(s: &mut Src, len: usize, f: &mut dyn FnMut(&mut Src, &Slice<'_>, (usize, usize)) -> Res) -> Res {
    let kind = s.weighted(&[6, 4, 1, 1, 1, 1, 1, 1]);
    let slack = s.upto(32) as usize;
    let uninit = s.bool();
    let (out, clean) = zc::guard::guarded(&vec![0xa5; len], slack, |b| match kind {
        0 => typed::<u8>(s, b, uninit, f),
        1 => typed::<u64>(s, b, uninit, f),
        2 => typed::<u16>(s, b, uninit, f),
        3 => typed::<u32>(s, b, uninit, f),
        4 => typed::<u128>(s, b, uninit, f),
        5 => match slack % 4 {
            0 => in_buffer(s, &mut ArrayBuffer::<96>::with_size(), 96, f),
            1 => in_buffer(s, &mut ArrayBuffer::<1021>::with_size(), 1021, f),
            2 => in_buffer(s, &mut ArrayBuffer::<256>::with_size(), 256, f),
            _ => in_buffer(s, &mut ArrayBuffer::new(), 4096, f),
        },
        6 => match slack % 4 {
            0 => in_buffer(s, &mut [0u8; 333], 333, f),
            1 => in_buffer(s, &mut [0u16; 100], 200, f),
            2 => in_buffer(s, &mut [0u64; 64], 512, f),
            _ => in_buffer(s, &mut [0u128; 20], 320, f),
        },
        _ => match slack % 3 {
            0 => in_buffer(s, &mut [MaybeUninit::<u8>::uninit(); 200], 200, f),
            1 => in_buffer(s, &mut [MaybeUninit::<u32>::uninit(); 64], 256, f),
            _ => in_buffer(s, &mut [MaybeUninit::<u128>::uninit(); 64], 1024, f),
        },
    });
    out?;
    ensure!(clean, "memory around the buffer was written to");
    Ok(())
}

fn run(s: &mut Src, case: &mut Case, len: usize, rounds: usize, steps: usize, most: usize) -> Res {
    let mut w = World::new(0, None);
    told(&mut w, case, |w| {
        buffer(s, len, &mut |s, alloc, (lo, hi)| {
            w.size = hi - lo;
            w.bounds = Some((lo, hi));
            for _ in 0..rounds {
                round(s, alloc, w, steps, most)?;
            }
            reuse(alloc, hi - lo, w)
        })
    })
}

pub fn slice(s: &mut Src, case: &mut Case) -> Res {
    let len = *s.pick(&[512, 1000, 2048, 4096, 8192]);
    let steps = s.size(1, 40);
    let most = s.size(1, 6);
    run(s, case, len, 1, steps, most)
}

pub fn small(s: &mut Src, case: &mut Case) -> Res {
    let len = s.size(0, 300);
    let steps = s.size(1, 25);
    let most = s.size(1, 5);
    run(s, case, len, 1, steps, most)
}

pub fn release(s: &mut Src, case: &mut Case) -> Res {
    let len = *s.pick(&[256, 400, 1024, 2048]);
    let steps = s.size(1, 12);
    let most = s.size(1, 5);
    let rounds = s.size(1, 12);
    run(s, case, len, rounds, steps, most)
}

pub fn system(s: &mut Src, case: &mut Case) -> Res {
    let steps = s.size(1, 40);
    let most = s.size(1, 6);
    let default = s.bool();
    let mut w = World::new(usize::MAX, None);
    told(&mut w, case, |w| {
        if default {
            musli::alloc::default(|alloc| round(s, alloc, w, steps, most))
        } else {
            round(s, System::new(), w, steps, most)
        }
    })
}

//! The element types containers are filled with.
use std::cell::RefCell;
use std::collections::HashMap;

use musli::alloc::{AllocError, Allocator, Vec as MVec};

/// An element which is made from a number, and can tell it again.
pub trait El: Sized {
    const NAME: &'static str;
    /// What remains of the number.
    fn key(n: u64) -> u64;
    fn make(n: u64) -> Self;
    fn told(&self) -> u64;
    fn extend<A: Allocator>(v: &mut MVec<Self, A>, items: &[u64]) -> Result<usize, AllocError> {
        // As many as fit.
        for (i, n) in items.iter().enumerate() {
            if v.push(Self::make(*n)).is_err() {
                return Ok(i);
            }
        }
        Ok(items.len())
    }
    /// Whether containers can be appended to each other.
    fn merge<A: Allocator>(_: &mut MVec<Self, A>, other: MVec<Self, A>) -> Result<Result<(), AllocError>, MVec<Self, A>> {
        Err(other)
    }
}

macro_rules! copied {
    () => {
        fn extend<A: Allocator>(v: &mut MVec<Self, A>, items: &[u64]) -> Result<usize, AllocError> {
            let items: Vec<Self> = items.iter().map(|n| Self::make(*n)).collect();
            v.extend_from_slice(&items)?;
            Ok(items.len())
        }
        fn merge<A: Allocator>(v: &mut MVec<Self, A>, other: MVec<Self, A>) -> Result<Result<(), AllocError>, MVec<Self, A>> {
            Ok(v.extend(other))
        }
    };
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            fn key(n: u64) -> u64 {
                n as $t as u64
            }
            fn make(n: u64) -> Self {
                n as $t
            }
            fn told(&self) -> u64 {
                *self as u64
            }
            copied!();
        }
    )*};
}

int!(u8, u16, u32, u64);

impl El for u128 {
    const NAME: &'static str = "u128";
    fn key(n: u64) -> u64 {
        n
    }
    fn make(n: u64) -> Self {
        u128::from(n) << 64 | u128::from(!n)
    }
    fn told(&self) -> u64 {
        if *self as u64 == !((self >> 64) as u64) { (self >> 64) as u64 } else { u64::MAX }
    }
    copied!();
}

impl El for [u8; 3] {
    const NAME: &'static str = "[u8; 3]";
    fn key(n: u64) -> u64 {
        n & 0xff_ffff
    }
    fn make(n: u64) -> Self {
        [n as u8, (n >> 8) as u8, (n >> 16) as u8]
    }
    fn told(&self) -> u64 {
        u64::from(self[0]) | u64::from(self[1]) << 8 | u64::from(self[2]) << 16
    }
    copied!();
}

#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Wide(u64, u64);

impl El for Wide {
    const NAME: &'static str = "a struct of alignment 32";
    fn key(n: u64) -> u64 {
        n
    }
    fn make(n: u64) -> Self {
        Wide(n, !n)
    }
    fn told(&self) -> u64 {
        if self.1 == !self.0 { self.0 } else { u64::MAX }
    }
    copied!();
}

impl El for () {
    const NAME: &'static str = "()";
    fn key(_: u64) -> u64 {
        0
    }
    fn make(_: u64) -> Self {}
    fn told(&self) -> u64 {
        0
    }
    copied!();
}

#[derive(Default)]
struct Alive {
    next: u64,
    ids: HashMap<u64, u64>,
    empty: i64,
    bad: Option<String>,
}

thread_local! {
    static ALIVE: RefCell<Alive> = RefCell::new(Alive::default());
}

pub fn reset() {
    ALIVE.with(|a| *a.borrow_mut() = Alive::default());
}

/// How many values are alive, and what went wrong.
pub fn alive() -> (usize, i64, Option<String>) {
    ALIVE.with(|a| {
        let a = a.borrow();
        (a.ids.len(), a.empty, a.bad.clone())
    })
}

/// A value which must be dropped once.
pub struct Owned {
    id: u64,
    n: u64,
}

impl El for Owned {
    const NAME: &'static str = "a value which is dropped";
    fn key(n: u64) -> u64 {
        n
    }
    fn make(n: u64) -> Self {
        ALIVE.with(|a| {
            let mut a = a.borrow_mut();
            a.next += 1;
            let id = a.next;
            a.ids.insert(id, n);
            Owned { id, n }
        })
    }
    fn told(&self) -> u64 {
        ALIVE.with(|a| {
            let mut a = a.borrow_mut();
            if a.ids.get(&self.id) != Some(&self.n) {
                a.bad.get_or_insert(format!("a value {} which is not alive is in a container", self.n));
            }
        });
        self.n
    }
}

impl Drop for Owned {
    fn drop(&mut self) {
        ALIVE.with(|a| {
            let mut a = a.borrow_mut();
            if a.ids.remove(&self.id) != Some(self.n) {
                a.bad.get_or_insert(format!("a value {} which is not alive is dropped", self.n));
            }
        });
    }
}

/// A value without a size which must be dropped once.
pub struct Token(());

impl El for Token {
    const NAME: &'static str = "a value without a size which is dropped";
    fn key(_: u64) -> u64 {
        0
    }
    fn make(_: u64) -> Self {
        ALIVE.with(|a| a.borrow_mut().empty += 1);
        Token(())
    }
    fn told(&self) -> u64 {
        0
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        ALIVE.with(|a| a.borrow_mut().empty -= 1);
    }
}

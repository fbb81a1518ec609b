//! A small property-based testing core.
//!
//! * Every generated case is a sequence of bounded choices (`Src`). Shrinking
//!   works on the choices, so it applies to values, shapes, byte strings,
//!   programs and operation histories alike, and the choice sequence is the
//!   replay file.
//! * Cases run in child processes: an abort, a stack overflow, a runaway
//!   allocation or a hang is a reported (and shrunk) failure like any other.

pub mod alloc;
mod driver;
mod rng;
mod shrink;
mod src;

pub use driver::{main, Family, Finding, Property};
pub use rng::Rng;
pub use src::Src;

use std::hash::{Hash, Hasher};

/// Collects what a case was about.
pub struct Case {
    pub(crate) nontrivial: bool,
    pub(crate) hash: u64,
    pub(crate) want_desc: bool,
    pub(crate) desc: String,
    pub(crate) labels: Vec<&'static str>,
    pub(crate) evals: u64,
}

impl Case {
    pub(crate) fn new(want_desc: bool) -> Self {
        Self {
            nontrivial: false,
            hash: 0,
            want_desc,
            desc: String::new(),
            labels: Vec::new(),
            evals: 1,
        }
    }

    /// Mark the case as non-trivial, identified by the given key.
    pub fn nontrivial<K: Hash + ?Sized>(&mut self, key: &K) {
        self.nontrivial = true;
        let mut h = Fnv(0xcbf29ce484222325 ^ self.hash);
        key.hash(&mut h);
        self.hash = h.finish();
    }

    /// Attach a description, only computed when someone wants to see it.
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }

    /// Count a labelled event.
    pub fn label(&mut self, label: &'static str) {
        self.labels.push(label);
    }
}

struct Fnv(u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

/// Result of one case: `Err` is a violation.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($tt:tt)*) => {
        if !$cond {
            return Err(format!($($tt)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($tt:tt)*) => {{
        let a = &$a;
        let b = &$b;
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($tt)*), a, b));
        }
    }};
}

/// Abbreviate a debug string.
pub fn short(s: impl AsRef<str>) -> String {
    let s = s.as_ref();
    if s.len() <= 600 {
        return s.to_string();
    }
    let mut n = 600;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}… ({} bytes)", &s[..n], s.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 400 {
            s.push_str(&format!("…({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

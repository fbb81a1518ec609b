//! Static types with a model of what they are in the data model: standard
//! library types here, derived types in `dt`.
use std::any::Any;

pub use dynv;
pub use dynv::{En, Int, Kind, Num, Opts, Val, R};
pub use musli;
use pbt::Src;

pub mod list;
mod models;
pub use models::{tstr, Bound};

pub type Obj = Box<dyn Any>;

/// What the harness knows about a type.
pub trait Model: Sized + 'static {
    /// Copied as memory by formats with native fixed width numbers.
    const RAW: bool = false;
    fn gen(s: &mut Src) -> Self;
    /// The value in the data model, in binary or text mode.
    fn model(&self, text: bool) -> Val;
    fn same(&self, o: &Self) -> bool;
    /// Is this a value which safe code could have made?
    fn valid(&self) -> bool {
        true
    }
}

/// Parts of a raw value.
pub fn raw_parts(v: Val) -> Vec<Val> {
    match v {
        Val::Raw(v, _) => v,
        v => vec![v],
    }
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    /// Which formats it is for: p(acked) j(son) v(alue) d(escriptive)
    pub flags: &'static str,
    pub gen: fn(&mut Src) -> Obj,
    pub model: fn(&dyn Any, bool) -> Val,
    pub same: fn(&dyn Any, &dyn Any) -> bool,
    pub valid: fn(&dyn Any) -> bool,
    pub debug: fn(&dyn Any) -> String,
}

impl Entry {
    pub fn has(&self, c: char) -> bool {
        self.flags.contains(c)
    }
}

fn of<T: Model>(o: &dyn Any) -> &T {
    o.downcast_ref().expect("a value of the type of the entry")
}

pub const fn entry<T: Model>(name: &'static str, flags: &'static str) -> Entry {
    Entry {
        name,
        flags,
        gen: |s| Box::new(T::gen(s)),
        model: |o, text| of::<T>(o).model(text),
        same: |a, b| of::<T>(a).same(of::<T>(b)),
        valid: |a| of::<T>(a).valid(),
        debug: |a| format!("{:?}", of::<T>(a).model(false)),
    }
}

/// One format and option set for every type of a list.
pub struct Codec {
    pub name: &'static str,
    pub kind: Kind,
    pub opts: Opts,
    pub text: bool,
    pub fns: Vec<Fns>,
}

#[derive(Clone, Copy)]
pub struct Fns {
    pub enc: fn(&dyn Any) -> R<Vec<u8>>,
    /// The value and how much of the input was used.
    pub dec: fn(&[u8]) -> R<(Obj, usize)>,
}

impl Codec {
    /// Is the entry for this format?
    pub fn takes(&self, e: &Entry) -> bool {
        match self.kind {
            Kind::Packed => e.has('p'),
            Kind::Json => e.has('j'),
            Kind::Value => e.has('v'),
            Kind::Descriptive => e.has('d'),
            _ => true,
        }
    }
}

/// The functions of every type, with the `enc` and `dec` in scope.
#[macro_export]
macro_rules! fns_vec {
    ($($t:ty),* $(,)?) => { vec![$($crate::Fns { enc: enc::<$t>, dec: dec::<$t> }),*] };
}

/// Instantiate a format and option set for every type of a list.
#[macro_export]
macro_rules! codec {
    ($f:ident, $each:ident, $name:literal, $kind:ident, $mode:ident, $opts:expr, $e:expr) => {
        pub fn $f() -> $crate::Codec {
            #[allow(unused)]
            use $crate::dynv::*;
            use $crate::musli::mode::$mode as Mode;
            macro_rules! e {
                () => { $e.with_mode::<Mode>() };
            }
            fn enc<T: $crate::Model + $crate::musli::Encode<Mode>>(o: &dyn ::std::any::Any) -> $crate::R<Vec<u8>> {
                e!().to_vec(o.downcast_ref::<T>().unwrap()).map_err(|e| e.to_string())
            }
            fn dec<T: $crate::Model + for<'de> $crate::musli::Decode<'de, Mode, $crate::musli::alloc::System>>(
                b: &[u8],
            ) -> $crate::R<($crate::Obj, usize)> {
                let mut r = b;
                let v: T = e!().decode(&mut r).map_err(|e| e.to_string())?;
                Ok((Box::new(v), b.len() - r.len()))
            }
            $crate::Codec {
                name: $name,
                kind: $crate::Kind::$kind,
                opts: $opts,
                text: stringify!($mode).len() == 4,
                fns: { use $crate::{$each, fns_vec}; $each!(fns_vec) },
            }
        }
    };
}

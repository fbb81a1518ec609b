//! The table of formats and option sets.
use musli::options::{self, ByteOrder, Float, Integer, Options, Width};

use crate::dynv::{Caps, Ty, Val};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Packed,
    Storage,
    Wire,
    Descriptive,
    Json,
    Value,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Opts {
    pub fixed: bool,
    pub big: bool,
    /// Pointer width in bytes, 0 is variable.
    pub ptr: u8,
}

pub type R<T> = Result<T, String>;

pub struct Fmt {
    pub name: &'static str,
    pub kind: Kind,
    pub opts: Opts,
    pub caps: Caps,
    pub enc: fn(&Val) -> R<Vec<u8>>,
    /// Decode from a slice.
    pub dec: fn(&Ty, &[u8]) -> R<Val>,
    /// Decode from the front of a slice and return what remains.
    pub dec_rest: fn(&Ty, &[u8]) -> R<(Val, usize)>,
}

const fn mk(i: Integer, f: Float, b: ByteOrder, w: Width) -> Options {
    options::new().integer(i).float(f).byte_order(b).pointer(w).build()
}

use ByteOrder::{Big, Little};
use Integer::{Fixed, Variable};

pub const O0: Options = options::new().build();
pub const O1: Options = options::new().fixed().build();
pub const O2: Options = mk(Fixed, Float::Fixed, Big, Width::U64);
pub const O3: Options = mk(Variable, Float::Integer, Big, Width::U8);
pub const O4: Options = mk(Fixed, Float::Variable, Little, Width::Variable);
pub const O5: Options = mk(Variable, Float::Fixed, Little, Width::U16);
pub const O6: Options = mk(Fixed, Float::Variable, Big, Width::U32);
pub const O7: Options = mk(Variable, Float::Variable, Big, Width::Variable);
pub const O8: Options = mk(Fixed, Float::Integer, Little, Width::U16);
pub const O9: Options = mk(Fixed, Float::Fixed, Big, Width::U8);
pub const O10: Options = mk(Variable, Float::Integer, Little, Width::U32);
pub const O11: Options = options::new().variable().pointer(Width::U64).build();

pub const fn o(fixed: bool, big: bool, ptr: u8) -> Opts {
    Opts { fixed, big, ptr }
}


/// Instantiate the encoder and decoder of one format and option set. Crates of
/// their own do this, so that they compile in parallel.
#[macro_export]
macro_rules! fmt {
    ($out:ident, $name:literal, $kind:ident, $opts:expr, $caps:expr, $enc:expr) => {
        $out.push($crate::Fmt {
            name: $name,
            kind: $crate::Kind::$kind,
            opts: $opts,
            caps: $caps,
            enc: |v| $enc.to_vec(&$crate::En::<0>(v)).map_err(|e| e.to_string()),
            dec: |ty, b| $crate::with_ty(ty, || $enc.from_slice::<$crate::De>(b)).map(|d| d.0).map_err(|e| e.to_string()),
            dec_rest: |ty, b| {
                let mut r = b;
                let v = $crate::with_ty(ty, || $enc.decode::<_, $crate::De>(&mut r)).map_err(|e| e.to_string())?;
                Ok((v.0, b.len() - r.len()))
            },
        })
    };
}

#[macro_export]
macro_rules! formats {
    ($m:ident, $kind:ident, $caps:expr, $($name:literal $opt:ident $opts:expr),* $(,)?) => {
        pub fn formats(out: &mut Vec<$crate::Fmt>) {
            use $crate::*;
            $($crate::fmt!(out, $name, $kind, $opts, $caps,
                $crate::musli::$m::Encoding::new().with_options::<{ $opt }>().with_mode::<$crate::musli::mode::Binary>());)*
        }
    };
}

pub const OP: Options = musli::packed::OPTIONS;

/// A self-descriptive format and how it goes through the dynamic value.
pub struct Through {
    pub name: &'static str,
    pub kind: Kind,
    pub opts: Opts,
    /// Encode the shape.
    pub enc: fn(&Val) -> R<Vec<u8>>,
    pub dec: fn(&Ty, &[u8]) -> R<Val>,
    /// A document to a value and back.
    pub redo: fn(&[u8]) -> R<Vec<u8>>,
    /// Make a value and encode it.
    pub from_value: fn(&Val) -> R<Vec<u8>>,
    /// Decode a value, then decode that.
    pub to_value: fn(&Ty, &[u8]) -> R<Val>,
    /// The debug output of the value.
    pub debug: fn(&[u8]) -> R<String>,
    /// Decode through a buffer, in the middle of whatever the shape is.
    pub buffered: fn(&Ty, &[u8]) -> R<(Val, Val)>,
}

/// Buffers what it decodes and decodes it twice.
pub struct Buf(pub Val, pub Val);

impl<'de, M: 'static, A: musli::Allocator> musli::Decode<'de, M, A> for Buf {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        use musli::de::{AsDecoder, Decoder as _};
        let b = decoder.decode_buffer()?;
        let x = b.as_decoder()?.decode::<crate::De>()?;
        let y = b.as_decoder()?.decode::<crate::De>()?;
        Ok(Buf(x.0, y.0))
    }
}

#[macro_export]
macro_rules! through {
    ($out:ident, $name:expr, $kind:ident, $opts:expr, $enc:expr) => {
        $out.push($crate::Through {
            name: $name,
            kind: $crate::Kind::$kind,
            opts: $opts,
            enc: |v| $enc.to_vec(&$crate::En::<0>(v)).map_err(|e| e.to_string()),
            dec: |ty, b| $crate::with_ty(ty, || $enc.from_slice::<$crate::De>(b)).map(|d| d.0).map_err(|e| e.to_string()),
            redo: |b| {
                let v = $enc.from_slice::<$crate::V>(b).map_err(|e| e.to_string())?;
                $enc.to_vec(&v).map_err(|e| e.to_string())
            },
            from_value: |v| {
                let v = $crate::musli::value::encode($crate::En::<0>(v)).map_err(|e| e.to_string())?;
                $enc.to_vec(&v).map_err(|e| e.to_string())
            },
            to_value: |ty, b| {
                let v = $enc.from_slice::<$crate::V>(b).map_err(|e| e.to_string())?;
                $crate::with_ty(ty, || $crate::musli::value::decode::<$crate::De>(&v)).map(|d| d.0).map_err(|e| e.to_string())
            },
            debug: |b| {
                let v = $enc.from_slice::<$crate::V>(b).map_err(|e| e.to_string())?;
                Ok(format!("{v:?}"))
            },
            buffered: |ty, b| {
                $crate::with_ty(ty, || $enc.from_slice::<$crate::Buf>(b)).map(|d| (d.0, d.1)).map_err(|e| e.to_string())
            },
        })
    };
}

pub type V = musli::value::Value<musli::alloc::System>;

//! What documents are put through in one format.
use musli::alloc::{Slice, System};
use musli::context::{Capture, DefaultContext, Ignore, Trace};

use crate::model::Tree;

pub type Traced = DefaultContext<System, Trace, Ignore>;
pub type Captured = DefaultContext<System, Trace, Capture<String>>;
pub type Small<'a> = DefaultContext<&'a Slice<'a>, Trace, Ignore>;

pub struct Fmt {
    pub name: &'static str,
    pub json: bool,
    /// Enums which are not tagged on the outside are supported.
    pub tagged: bool,
    pub plain_encode: fn(&Tree) -> Option<Vec<u8>>,
    pub encode: fn(&Traced, &Tree) -> Option<Vec<u8>>,
    pub plain_decode: fn(&[u8]) -> Option<Tree>,
    pub decode: Vec<(&'static str, fn(&Traced, &[u8]) -> Option<Tree>)>,
    pub captured: fn(&Captured, &[u8]) -> Option<Tree>,
    pub small: fn(&Small<'_>, &[u8]) -> Option<Tree>,
}

#[macro_export]
macro_rules! fmt {
    ($name:expr, $json:expr, $tagged:expr, $enc:expr, [$(($source:expr, $id:ident, |$cx:ident, $b:ident| $decode:expr)),* $(,)?]) => {
        mod plain_encode {
            #[allow(unused_imports)]
            use $crate::{musli, model::Tree, run::*};
            pub fn f(t: &Tree) -> Option<Vec<u8>> { ($enc).to_vec(t).ok() }
        }
        mod encode {
            #[allow(unused_imports)]
            use $crate::{musli, model::Tree, run::*};
            pub fn f(cx: &Traced, t: &Tree) -> Option<Vec<u8>> { ($enc).to_vec_with(cx, t).ok() }
        }
        mod plain_decode {
            #[allow(unused_imports)]
            use $crate::{musli, model::Tree, run::*};
            pub fn f(b: &[u8]) -> Option<Tree> { ($enc).from_slice(b).ok() }
        }
        mod captured {
            #[allow(unused_imports)]
            use $crate::{musli, model::Tree, run::*};
            pub fn f(cx: &Captured, b: &[u8]) -> Option<Tree> { ($enc).from_slice_with(cx, b).ok() }
        }
        mod small {
            #[allow(unused_imports)]
            use $crate::{musli, model::Tree, run::*};
            pub fn f(cx: &Small<'_>, b: &[u8]) -> Option<Tree> { ($enc).from_slice_with(cx, b).ok() }
        }
        $(
            mod $id {
                #[allow(unused_imports)]
                use $crate::{musli, musli::reader::{Reader, SliceReader}, model::Tree, run::*};
                pub fn f($cx: &Traced, $b: &[u8]) -> Option<Tree> { $decode.ok() }
            }
        )*
        pub fn fmt() -> $crate::run::Fmt {
            $crate::run::Fmt {
                name: $name,
                json: $json,
                tagged: $tagged,
                plain_encode: plain_encode::f,
                encode: encode::f,
                plain_decode: plain_decode::f,
                decode: vec![$(($source, $id::f)),*],
                captured: captured::f,
                small: small::f,
            }
        }
    };
}

#[macro_export]
macro_rules! binary {
    ($name:expr, $tagged:expr, $enc:expr) => {
        $crate::fmt!($name, false, $tagged, $enc, [
            ("from_slice", slice, |cx, b| ($enc).from_slice_with(cx, b)),
            ("a slice reader", reader, |cx, b| ($enc).decode_with(cx, &mut SliceReader::new(b))),
            ("a limited reader", limited, |cx, b| ($enc).decode_with(cx, &mut SliceReader::new(b).limit(b.len()))),
        ]);
    };
}

#[macro_export]
macro_rules! json {
    ($name:expr, $enc:expr) => {
        $crate::fmt!($name, true, true, $enc, [
            ("from_slice", slice, |cx, b| ($enc).from_slice_with(cx, b)),
            ("from_str", string, |cx, b| match std::str::from_utf8(b) {
                Ok(s) => ($enc).from_str_with(cx, s).map_err(drop),
                Err(_) => ($enc).from_slice_with(cx, b).map_err(drop),
            }),
            ("a moving slice", moving, |cx, b| { let mut b = b; ($enc).decode_with(cx, &mut b) }),
        ]);
    };
}

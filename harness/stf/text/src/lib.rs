//! Static types in JSON, and in text mode.
mod a {
    st::codec!(codec, each_std, "json", Json, Text, o(false, false, 0), st::musli::json::Encoding::new());
}
mod b {
    st::codec!(codec, each_std, "storage/text", Storage, Text, o(false, false, 0), st::musli::storage::Encoding::new().with_options::<{ O0 }>());
}
mod v {
    use st::dynv::{o, V};
    use st::{musli, Codec, Kind, Model, Obj, R};
    use std::any::Any;
    use std::cell::RefCell;

    thread_local! {
        /// What was encoded last.
        static SLOT: RefCell<Option<V>> = const { RefCell::new(None) };
    }

    fn enc<T: Model + musli::Encode<musli::mode::Binary>>(v: &dyn Any) -> R<Vec<u8>> {
        let v = musli::value::encode(v.downcast_ref::<T>().unwrap()).map_err(|e| e.to_string())?;
        SLOT.with(|s| *s.borrow_mut() = Some(v));
        Ok(Vec::new())
    }

    fn dec<T: Model + for<'de> musli::Decode<'de, musli::mode::Binary, musli::alloc::System>>(_: &[u8]) -> R<(Obj, usize)> {
        SLOT.with(|s| {
            let s = s.borrow();
            let v: T = musli::value::decode(s.as_ref().expect("a value")).map_err(|e| e.to_string())?;
            Ok((Box::new(v) as Obj, 0))
        })
    }

    pub fn codec() -> Codec {
        Codec { name: "value", kind: Kind::Value, opts: o(false, false, 0), text: false, fns: { use st::{each_std, fns_vec}; each_std!(fns_vec) } }
    }
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
    out.push(v::codec());
}

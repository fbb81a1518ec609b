//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "storage/default", Storage, Binary, o(false, false, 0), st::musli::storage::Encoding::new().with_options::<{ O0 }>());
}
mod b {
    st::codec!(codec, each_std, "storage/fixed", Storage, Binary, o(true, false, 8), st::musli::storage::Encoding::new().with_options::<{ O1 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "storage/fixed-be-u64", Storage, Binary, o(true, true, 8), st::musli::storage::Encoding::new().with_options::<{ O2 }>());
}
mod b {
    st::codec!(codec, each_std, "storage/var-le-u16", Storage, Binary, o(false, false, 2), st::musli::storage::Encoding::new().with_options::<{ O5 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

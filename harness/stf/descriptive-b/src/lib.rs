//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "descriptive/fixed-be-u64", Descriptive, Binary, o(true, true, 8), st::musli::descriptive::Encoding::new().with_options::<{ O2 }>());
}
mod b {
    st::codec!(codec, each_std, "descriptive/var-le-u16", Descriptive, Binary, o(false, false, 2), st::musli::descriptive::Encoding::new().with_options::<{ O5 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

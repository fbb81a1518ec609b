//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "descriptive/default", Descriptive, Binary, o(false, false, 0), st::musli::descriptive::Encoding::new().with_options::<{ O0 }>());
}
mod b {
    st::codec!(codec, each_std, "descriptive/fixed", Descriptive, Binary, o(true, false, 8), st::musli::descriptive::Encoding::new().with_options::<{ O1 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

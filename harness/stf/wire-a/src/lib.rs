//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "wire/default", Wire, Binary, o(false, false, 0), st::musli::wire::Encoding::new().with_options::<{ O0 }>());
}
mod b {
    st::codec!(codec, each_std, "wire/fixed", Wire, Binary, o(true, false, 8), st::musli::wire::Encoding::new().with_options::<{ O1 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

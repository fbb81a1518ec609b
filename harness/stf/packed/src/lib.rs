//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "packed/default", Packed, Binary, o(true, false, 8), st::musli::packed::Encoding::new().with_options::<{ OP }>());
}
mod b {
    st::codec!(codec, each_std, "packed/var", Packed, Binary, o(false, false, 0), st::musli::packed::Encoding::new().with_options::<{ O0 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

//! Static types in one format.
mod a {
    st::codec!(codec, each_std, "wire/fixed-be-u64", Wire, Binary, o(true, true, 8), st::musli::wire::Encoding::new().with_options::<{ O2 }>());
}
mod b {
    st::codec!(codec, each_std, "wire/var-le-u16", Wire, Binary, o(false, false, 2), st::musli::wire::Encoding::new().with_options::<{ O5 }>());
}
pub fn codecs(out: &mut Vec<st::Codec>) {
    out.push(a::codec());
    out.push(b::codec());
}

dynv::formats! {
    descriptive, Descriptive, BINARY,
    "descriptive/default" O0 o(false, false, 0),
    "descriptive/fixed" O1 o(true, false, 8),
    "descriptive/fixed-be-u64" O2 o(true, true, 8),
    "descriptive/var-be-u8" O3 o(false, true, 1),
}

pub fn throughs(out: &mut Vec<dynv::Through>) {
    use dynv::*;
    dynv::through!(out, "descriptive/default", Descriptive, o(false, false, 0), dynv::musli::descriptive::Encoding::new().with_options::<{ O0 }>().with_mode::<dynv::musli::mode::Binary>());
    dynv::through!(out, "descriptive/fixed-be-u64", Descriptive, o(true, true, 8), dynv::musli::descriptive::Encoding::new().with_options::<{ O2 }>().with_mode::<dynv::musli::mode::Binary>());
}

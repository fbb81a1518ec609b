dynv::formats! {
    descriptive, Descriptive, BINARY,
    "descriptive/fixed-u16" O8 o(true, false, 2),
    "descriptive/fixed-be-u8" O9 o(true, true, 1),
    "descriptive/var-u32" O10 o(false, false, 4),
    "descriptive/var-u64" O11 o(false, false, 8),
}

pub fn throughs(out: &mut Vec<dynv::Through>) {
    use dynv::*;
    dynv::through!(out, "descriptive/fixed-be-u8", Descriptive, o(true, true, 1), dynv::musli::descriptive::Encoding::new().with_options::<{ O9 }>().with_mode::<dynv::musli::mode::Binary>());
    dynv::through!(out, "descriptive/var-u32", Descriptive, o(false, false, 4), dynv::musli::descriptive::Encoding::new().with_options::<{ O10 }>().with_mode::<dynv::musli::mode::Binary>());
}

dynv::formats! {
    descriptive, Descriptive, BINARY,
    "descriptive/fixed-varptr" O4 o(true, false, 0),
    "descriptive/var-u16" O5 o(false, false, 2),
    "descriptive/fixed-be-u32" O6 o(true, true, 4),
    "descriptive/var-be" O7 o(false, true, 0),
}

pub fn throughs(out: &mut Vec<dynv::Through>) {
    use dynv::*;
    dynv::through!(out, "descriptive/fixed-varptr", Descriptive, o(true, false, 0), dynv::musli::descriptive::Encoding::new().with_options::<{ O4 }>().with_mode::<dynv::musli::mode::Binary>());
    dynv::through!(out, "descriptive/var-u16", Descriptive, o(false, false, 2), dynv::musli::descriptive::Encoding::new().with_options::<{ O5 }>().with_mode::<dynv::musli::mode::Binary>());
}

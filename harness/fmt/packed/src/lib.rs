dynv::formats! {
    packed, Packed, PACKED,
    "packed/default" OP o(true, false, 8),
    "packed/default" O0 o(false, false, 0),
    "packed/fixed-be-u64" O2 o(true, true, 8),
    "packed/var-be-u8" O3 o(false, true, 1),
    "packed/fixed-be-u32" O6 o(true, true, 4),
    "packed/var-u16" O5 o(false, false, 2),
}

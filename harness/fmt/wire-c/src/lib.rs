dynv::formats! {
    wire, Wire, BINARY,
    "wire/fixed-u16" O8 o(true, false, 2),
    "wire/fixed-be-u8" O9 o(true, true, 1),
    "wire/var-u32" O10 o(false, false, 4),
    "wire/var-u64" O11 o(false, false, 8),
}

dynv::formats! {
    wire, Wire, BINARY,
    "wire/default" O0 o(false, false, 0),
    "wire/fixed" O1 o(true, false, 8),
    "wire/fixed-be-u64" O2 o(true, true, 8),
    "wire/var-be-u8" O3 o(false, true, 1),
}

dynv::formats! {
    wire, Wire, BINARY,
    "wire/fixed-varptr" O4 o(true, false, 0),
    "wire/var-u16" O5 o(false, false, 2),
    "wire/fixed-be-u32" O6 o(true, true, 4),
    "wire/var-be" O7 o(false, true, 0),
}

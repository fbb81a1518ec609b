dynv::formats! {
    storage, Storage, BINARY,
    "storage/fixed-varptr" O4 o(true, false, 0),
    "storage/var-u16" O5 o(false, false, 2),
    "storage/fixed-be-u32" O6 o(true, true, 4),
    "storage/var-be" O7 o(false, true, 0),
}

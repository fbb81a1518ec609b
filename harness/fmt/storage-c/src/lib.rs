dynv::formats! {
    storage, Storage, BINARY,
    "storage/fixed-u16" O8 o(true, false, 2),
    "storage/fixed-be-u8" O9 o(true, true, 1),
    "storage/var-u32" O10 o(false, false, 4),
    "storage/var-u64" O11 o(false, false, 8),
}

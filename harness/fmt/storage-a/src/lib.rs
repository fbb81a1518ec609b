dynv::formats! {
    storage, Storage, BINARY,
    "storage/default" O0 o(false, false, 0),
    "storage/fixed" O1 o(true, false, 8),
    "storage/fixed-be-u64" O2 o(true, true, 8),
    "storage/var-be-u8" O3 o(false, true, 1),
}

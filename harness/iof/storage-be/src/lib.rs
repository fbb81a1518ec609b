iod::binary!("storage/fixed-be-u64", Storage, o(true, true, 8), BINARY, musli::storage::Encoding::new().with_options::<{ O2 }>().with_mode::<musli::mode::Binary>());

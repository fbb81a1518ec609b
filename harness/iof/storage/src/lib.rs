iod::binary!("storage", Storage, o(false, false, 0), BINARY, musli::storage::Encoding::new().with_options::<{ O0 }>().with_mode::<musli::mode::Binary>());

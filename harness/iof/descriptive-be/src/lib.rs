iod::binary!("descriptive/fixed-be-u64", Descriptive, o(true, true, 8), BINARY, musli::descriptive::Encoding::new().with_options::<{ O2 }>().with_mode::<musli::mode::Binary>());

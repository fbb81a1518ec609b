iod::binary!("descriptive", Descriptive, o(false, false, 0), BINARY, musli::descriptive::Encoding::new().with_options::<{ O0 }>().with_mode::<musli::mode::Binary>());

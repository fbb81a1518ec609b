iod::binary!("wire/fixed", Wire, o(true, false, 8), BINARY, musli::wire::Encoding::new().with_options::<{ O1 }>().with_mode::<musli::mode::Binary>());

iod::binary!("wire", Wire, o(false, false, 0), BINARY, musli::wire::Encoding::new().with_options::<{ O0 }>().with_mode::<musli::mode::Binary>());

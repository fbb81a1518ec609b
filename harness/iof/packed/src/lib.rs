iod::binary!("packed", Packed, o(true, false, 8), PACKED, musli::packed::Encoding::new().with_options::<{ OP }>().with_mode::<musli::mode::Binary>());

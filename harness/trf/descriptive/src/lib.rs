tri::binary!("descriptive", true, musli::descriptive::Encoding::new());

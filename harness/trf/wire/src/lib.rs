tri::binary!("wire", false, musli::wire::Encoding::new());

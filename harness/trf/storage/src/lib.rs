tri::binary!("storage", false, musli::storage::Encoding::new());

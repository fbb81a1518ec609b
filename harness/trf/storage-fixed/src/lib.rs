tri::binary!("storage-fixed", false, musli::storage::Encoding::new().with_options::<{ musli::options::new().fixed().byte_order(musli::options::ByteOrder::Big).build() }>());

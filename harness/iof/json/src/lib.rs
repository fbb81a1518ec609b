iod::json!("json", musli::json::Encoding::new());

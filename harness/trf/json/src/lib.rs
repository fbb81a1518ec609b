tri::json!("json", musli::json::Encoding::new());

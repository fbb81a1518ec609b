//! Sources, targets and contexts.
mod api;
mod c11;
mod derived;
mod sink;

pub fn ios() -> &'static [iod::Io] {
    static ALL: std::sync::OnceLock<Vec<iod::Io>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        vec![
            iof_storage::io(),
            iof_storage_be::io(),
            iof_wire::io(),
            iof_wire_fixed::io(),
            iof_descriptive::io(),
            iof_descriptive_be::io(),
            iof_packed::io(),
            iof_json::io(),
        ]
    })
}

fn main() {
    pbt::main(vec![c11::property()])
}

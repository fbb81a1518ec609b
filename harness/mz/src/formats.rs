use std::sync::OnceLock;

use dynv::Fmt;

pub fn formats() -> &'static [Fmt] {
    static ALL: OnceLock<Vec<Fmt>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut out = Vec::new();
        fmt_storage_a::formats(&mut out);
        fmt_storage_b::formats(&mut out);
        fmt_storage_c::formats(&mut out);
        fmt_wire_a::formats(&mut out);
        fmt_wire_b::formats(&mut out);
        fmt_wire_c::formats(&mut out);
        fmt_descriptive_a::formats(&mut out);
        fmt_descriptive_b::formats(&mut out);
        fmt_descriptive_c::formats(&mut out);
        fmt_packed::formats(&mut out);
        fmt_text::formats(&mut out);
        out
    })
}

/// The binary formats.
pub fn binary() -> &'static [&'static Fmt] {
    static ALL: OnceLock<Vec<&'static Fmt>> = OnceLock::new();
    ALL.get_or_init(|| formats().iter().filter(|f| !matches!(f.kind, dynv::Kind::Json | dynv::Kind::Value)).collect())
}

/// The self-descriptive formats and their ways through the dynamic value.
pub fn throughs() -> &'static [dynv::Through] {
    static ALL: OnceLock<Vec<dynv::Through>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut out = Vec::new();
        fmt_descriptive_a::throughs(&mut out);
        fmt_descriptive_b::throughs(&mut out);
        fmt_descriptive_c::throughs(&mut out);
        fmt_text::throughs(&mut out);
        fmt_text::throughs(&mut out);
        out
    })
}

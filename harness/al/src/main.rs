//! C10: allocators and the containers which use them.
mod decode;
mod elem;
mod hist;

use pbt::{Family, Property};

fn main() {
    pbt::main(vec![Property {
        id: "C10",
        rule: "a history which grows a container while another one is alive, or a document which needs allocations",
        assumptions: &[],
        families: vec![
            Family::new("slice", 400_000, hist::slice).thorough(20_000_000),
            Family::new("small", 400_000, hist::small).thorough(20_000_000),
            Family::new("system", 60_000, hist::system).thorough(2_000_000),
            Family::new("release", 100_000, hist::release).thorough(4_000_000),
            Family::new("decode", 100_000, decode::decode).thorough(4_000_000),
        ],
        findings: vec![],
    }]);
}

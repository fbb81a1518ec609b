//! Z03 and Z04: tables and tries in zero-copy buffers.
mod corrupt;
mod kinds;
mod search;
mod tables;
mod trie;
mod values;

use pbt::{Family, Property};

fn main() {
    pbt::main(vec![Property {
        id: "Z03",
        rule: "a table of at least two entries",
        assumptions: &[],
        families: vec![
            Family::new("swiss-map", 20_000, tables::swiss_maps).thorough(400_000),
            Family::new("swiss-set", 20_000, tables::swiss_sets).thorough(400_000),
            Family::new("phf-map", 10_000, tables::phf_maps).thorough(200_000),
            Family::new("phf-set", 10_000, tables::phf_sets).thorough(200_000),
            Family::new("values", 40_000, values::values).thorough(1_000_000),
            Family::new("borrowed", 20_000, values::borrowed).thorough(400_000),
            Family::new("swiss-altered", 100_000, corrupt::swiss_altered).thorough(3_000_000),
            Family::new("phf-altered", 100_000, corrupt::phf_altered).thorough(3_000_000),
        ],
        findings: vec![],
    }, Property {
        id: "Z04",
        rule: "a trie of at least two keys, or a slice of at least two elements",
        assumptions: &["The order in which a trie is iterated is documented to be unspecified, so results are compared by key."],
        families: vec![
            Family::new("flavors", 120_000, trie::flavors).thorough(4_000_000),
            Family::new("store", 60_000, trie::store).thorough(2_000_000),
            Family::new("shared", 60_000, trie::shared).thorough(2_000_000),
            Family::new("altered", 200_000, trie::altered).thorough(6_000_000),
            Family::new("search", 60_000, search::search).thorough(6_000_000),
        ],
        findings: vec![],
    }]);
}

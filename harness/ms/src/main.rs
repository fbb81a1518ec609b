//! Properties which are decided over run time types and over static types.
use pbt::{Family, Finding, Property};

mod c05;
mod stat;

fn with(mut p: Property, families: Vec<Family>) -> Property {
    p.families.extend(families);
    p
}

fn found(mut p: Property, findings: Vec<Finding>) -> Property {
    p.findings.extend(findings);
    p
}

fn main() {
    if let Some(p) = std::env::var_os("MS_PROBE") {
        let p = p.into_string().unwrap_or_default();
        let run = std::thread::Builder::new().stack_size(8 << 20).spawn(move || c05::run_probe(&p));
        std::process::exit(run.map_or(1, |t| i32::from(t.join().is_err())));
    }
    pbt::main(vec![
        found(
            with(mz::c01::property(), vec![Family::new("static", 6_000_000, stat::round_trip).thorough(100_000_000)]),
            vec![Finding { id: "C01-validated-arrays", probe: stat::validated_arrays }],
        ),
        c05::property(),
        with(mz::c06::property(), vec![Family::new("static", 1_500_000, stat::document).thorough(10_000_000)]),
        with(mz::c13::property(), vec![Family::new("static", 4_000_000, stat::layout).thorough(100_000_000)]),
    ])
}

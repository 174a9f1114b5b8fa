//! vx: mechanical extraction of Rust functions from /repo into Verus input.
//! usage: vx REPO CONTRACT.vc OUT.rs REPORT [FILE::FN,...]
//! Functions listed last, and functions that cannot be lowered, are emitted as body-less
//! `external_body` items with their contract (reported as "assumed").
mod contract;
mod desugar;
mod emit;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 && a.len() != 6 {
        eprintln!("usage: vx REPO CONTRACT.vc OUT.rs REPORT.json [ASSUMED,FNS]");
        std::process::exit(2);
    }
    let c = match contract::parse(&a[2]) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("contract error: {e}");
            std::process::exit(2);
        }
    };
    let assume: Vec<String> = a.get(5).map(|s| s.split(',').map(String::from).collect()).unwrap_or_default();
    match std::panic::catch_unwind(|| emit::run(&a[1], &c, &assume)).unwrap_or_else(|_| Err("internal panic".into())) {
        Ok((text, report)) => {
            std::fs::write(&a[3], text).unwrap();
            std::fs::write(&a[4], report).unwrap();
        }
        Err(e) => {
            println!("EXTRACT-FAIL {e}");
            std::process::exit(3);
        }
    }
}

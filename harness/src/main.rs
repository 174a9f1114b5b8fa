//! vh PROPERTY [--seed N] [--cases N]: exercises the public API of the real crates against the
//! reference semantics of one property. Prints `OK cases=N` or `FAIL ...` (exit 1).
mod compat;
mod core;
mod folds;
mod graphs;
mod io;
mod ops;
mod params;
mod parse;
mod quant;
use crate::core::*;

pub struct Cfg { pub seed: u64, pub cases: u64 }
pub type Res = Result<u64, String>;

pub fn op_family(cfg: &Cfg, list: &[&str]) -> Res {
    let mut n = 0;
    for (k, op) in list.iter().enumerate() {
        for c in 0..cfg.cases {
            let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_003) ^ ((k as u64) << 40) ^ c);
            let p = ops::gen(op, &mut r);
            let w = ops::want(&p);
            if let Some(f) = check_prob(&p, &w) { return Err(format!("operator {op}, case {c}\n{}", f.what)); }
            n += 1;
        }
    }
    Ok(n)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d);
    let cfg = Cfg { seed: get("--seed", 1), cases: get("--cases", 4000) };
    let prop = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let r = match prop {
        "S01" => op_family(&cfg, &["Conv", "ConvTranspose", "MaxPool", "AveragePool", "GlobalAveragePool"]),
        "S02" => op_family(&cfg, &["Reshape", "Flatten", "Squeeze", "Unsqueeze", "Transpose"]),
        "S03" => op_family(&cfg, &["Add", "Sub", "Mul", "Div", "Pow", "And", "Equal", "Greater", "Less", "Max", "Min", "Where", "Expand"]),
        "S04" => op_family(&cfg, &["Gemm", "MatMul"]),
        "S05" => op_family(&cfg, &["Concat", "Split", "Pad", "Tile"]),
        "S06" => op_family(&cfg, &["Slice", "Gather", "GatherElements", "TopK", "GridSample"]),
        "S07" => op_family(&cfg, &["ReduceMean", "ReduceSum", "ReduceMax", "Resize", "Shape", "ConstantOfShape", "Range"]),
        "S08" => folds::run(&cfg),
        "S09" => graphs::s09(&cfg).and_then(|n| op_family(&Cfg { seed: cfg.seed, cases: cfg.cases / 20 + 1 }, ops::PASS).map(|k| n + k)),
        "G01" => graphs::g01(&cfg),
        "I01" => io::i01(&cfg),
        "I02" => io::i02(&cfg),
        "I03" => io::i03(&cfg),
        "I04" => io::i04(&cfg),
        "P01" => parse::p01(&cfg),
        "L01" => params::l01(&cfg),
        "K01" => compat::k01(&cfg),
        "Q01" => quant::q01(&cfg),
        "Q02" => quant::q02(&cfg),
        "PASS" => op_family(&cfg, ops::PASS),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2); }
    };
    match r {
        Ok(n) => println!("OK cases={n}"),
        Err(e) => { println!("FAIL property={prop} seed={}\n{e}", cfg.seed); std::process::exit(1); }
    }
}

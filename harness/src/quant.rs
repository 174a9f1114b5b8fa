//! Q01 (bit widths cover every value) and Q02 (the quantized model is the scaled model).
use crate::core::*;
use crate::{Cfg, Res};
use jstprove_onnx::graph::{LayerGraph, OpType};
use jstprove_onnx::parser::{AttrValue, ParsedModel, TensorData};
use jstprove_onnx::quantizer::*;
use std::collections::HashMap;

fn val(r: &mut Rng) -> f64 {
    match r.u(0, 9) { 0 => 0.0, 1 => r.i(-3, 3) as f64, 2 => r.i(-4000, 4000) as f64, 3 => r.i(-1000, 1000) as f64 * 1e-6, _ => r.i(-4000, 4000) as f64 / 1000.0 }
}
struct B { m: ParsedModel, n: usize, mag: HashMap<String, f64>, shp: HashMap<String, Option<Vec<usize>>>, vals: Vec<String>, per: Vec<(String, f64, bool)>, desc: Vec<String>, need: Vec<(String, f64)> }
impl B {
    fn new() -> B { B { m: ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![], outputs: vec![], opset_version: 17 }, n: 0, mag: HashMap::new(), shp: HashMap::new(), vals: vec![], per: vec![], desc: vec![], need: vec![] } }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn konst(&mut self, r: &mut Rng, dims: &[usize], v: &[f64]) -> String {
        let n = self.fresh("w");
        let d: Vec<i64> = dims.iter().map(|x| *x as i64).collect();
        let ints = r.p(15) && v.iter().all(|x| x.fract() == 0.0);
        let t = TensorData { name: n.clone(), dims: d, data_type: if ints { 7 } else { 1 }, float_data: if ints { vec![] } else { v.to_vec() }, int_data: if ints { v.iter().map(|x| *x as i64).collect() } else { vec![] } };
        self.desc.push(format!("  const {n} {dims:?} = {v:?}"));
        if r.p(25) { self.m.nodes.push(const_node(&n, t)); } else { self.m.initializers.insert(n.clone(), t); }
        n
    }
    /// adds the node; `mags` are the reference magnitudes of its outputs; `need`: value its own circuit range-checks
    fn op(&mut self, op: &str, ins: Vec<String>, at: Vec<(String, At)>, mag: f64, shape: Option<Vec<usize>>, nout: usize) -> String {
        let nm = self.fresh("n");
        let outs: Vec<String> = (0..nout).map(|k| format!("{nm}_o{k}")).collect();
        self.desc.push(format!("  {nm}: {op} {ins:?} {at:?} -> |.| can reach {mag:e}"));
        self.m.nodes.push(node(&nm, op, ins, outs.clone(), &at));
        self.need.push((nm.clone(), mag));
        self.per.push((nm, mag, NEED.contains(&op)));
        for (k, o) in outs.iter().enumerate() {
            if op == "TopK" && k == 1 { continue; }
            self.mag.insert(o.clone(), mag); self.shp.insert(o.clone(), shape.clone()); self.vals.push(o.clone());
        }
        outs[0].clone()
    }
}
/// layers whose circuits decompose values into n_bits
const NEED: &[&str] = &["Gemm", "Conv", "BatchNormalization", "Mul", "MatMul", "ConvTranspose", "Relu", "LeakyRelu", "MaxPool", "Max", "Min", "Clip", "Exp", "Softmax", "Sigmoid", "Gelu", "Resize", "GridSample", "TopK", "AveragePool", "Sqrt", "Tanh", "Erf", "Pow", "HardSwish", "GlobalAveragePool", "Sin", "Cos"];
const KEEP: &[&str] = &["Relu", "MaxPool", "AveragePool", "GlobalAveragePool", "Neg", "Identity", "Split", "Cast", "Squeeze", "Unsqueeze", "Flatten", "Tile", "Gather", "GatherElements", "Resize", "GridSample", "Transpose", "Slice", "TopK", "Expand", "ReduceMean", "ReduceMax"];
fn l1(v: impl Iterator<Item = f64>) -> f64 { v.map(f64::abs).sum() }
fn vals(r: &mut Rng, n: usize) -> Vec<f64> { (0..n).map(|_| val(r)).collect() }
fn maxa(v: &[f64]) -> f64 { v.iter().fold(0.0, |a, b| f64::max(a, b.abs())) }
fn grow(b: &mut B, r: &mut Rng) {
    let x = r.pick(&b.vals).clone();
    let m = b.mag[&x];
    let sh = b.shp[&x].clone();
    let s = |k: &str, v: At| (k.to_string(), v);
    if m > 1e60 { let i = if r.b() { x } else { r.pick(&b.vals).clone() }; b.op("Tanh", vec![i], vec![], 0.0, None, 1); return; }
    match r.u(0, 21) {
        0 | 1 => { // Conv
            let (oc, ic) = (r.u(1, 4), r.u(1, 3)); let k: Vec<usize> = (0..r.u(1, 3)).map(|_| r.u(1, 3)).collect();
            let mut d = vec![oc, ic]; d.extend(&k);
            let per: usize = d[1..].iter().product();
            let w = vals(r, oc * per); let wn = b.konst(r, &d, &w);
            let mut ins = vec![x, wn];
            let bias = if r.b() { let v = vals(r, oc); let n = b.konst(r, &[oc], &v); ins.push(n); v } else { vec![0.0; oc] };
            let mg = (0..oc).map(|o| l1(w[o * per..(o + 1) * per].iter().copied()) * m + bias[o].abs()).fold(0.0, f64::max);
            b.op("Conv", ins, vec![], mg, None, 1);
        }
        2 | 3 => { // Gemm
            let (k, n) = (r.u(1, 5), r.u(1, 5)); let tb = r.b();
            let w = vals(r, k * n); let d = if tb { [n, k] } else { [k, n] };
            let wn = b.konst(r, &d, &w);
            let mut ins = vec![x, wn];
            let bias = if r.b() { let v = vals(r, n); let c = b.konst(r, &[n], &v); ins.push(c); v } else { vec![0.0; n] };
            let mg = (0..n).map(|c| l1((0..k).map(|i| if tb { w[c * k + i] } else { w[i * n + c] })) * m + bias[c].abs()).fold(0.0, f64::max);
            let at = if tb { vec![s("transB", At::I(1))] } else if r.b() { vec![s("transB", At::I(0))] } else { vec![] };
            b.op("Gemm", ins, at, mg, None, 1);
        }
        4 => { // ConvTranspose [ci, co, k..]
            let (ci, co) = (r.u(1, 4), r.u(1, 4)); let k: Vec<usize> = (0..r.u(1, 2)).map(|_| r.u(1, 3)).collect();
            let ke: usize = k.iter().product(); let mut d = vec![ci, co]; d.extend(&k);
            let w = vals(r, ci * co * ke); let wn = b.konst(r, &d, &w);
            let mut ins = vec![x, wn];
            let bias = if r.b() { let v = vals(r, co); let c = b.konst(r, &[co], &v); ins.push(c); v } else { vec![0.0; co] };
            let mg = (0..co).map(|o| l1((0..ci).flat_map(|i| (0..ke).map(move |q| (i, q))).map(|(i, q)| w[(i * co + o) * ke + q])) * m + bias[o].abs()).fold(0.0, f64::max);
            b.op("ConvTranspose", ins, vec![], mg, None, 1);
        }
        5 | 6 => { // MatMul with a constant
            let (k, n) = (r.u(1, 5), r.u(1, 5)); let w = vals(r, k * n);
            match r.u(0, 3) {
                0 | 1 => { let wn = b.konst(r, &[k, n], &w); let mg = (0..n).map(|c| l1((0..k).map(|i| w[i * n + c])) * m).fold(0.0, f64::max); b.op("MatMul", vec![x, wn], vec![], mg, None, 1); }
                2 => { let wn = b.konst(r, &[k, n], &w); let mg = (0..k).map(|i| l1(w[i * n..(i + 1) * n].iter().copied()) * m).fold(0.0, f64::max); b.op("MatMul", vec![wn, x], vec![], mg, None, 1); }
                _ => { let wn = b.konst(r, &[k * n], &w); let mg = l1(w.iter().copied()) * m; let i = if r.b() { vec![x, wn] } else { vec![wn, x] }; b.op("MatMul", i, vec![], mg, None, 1); }
            }
        }
        7 => { // MatMul of two run-time tensors with known shapes
            if let Some(d) = &sh {
                if d.len() < 3 { return; }
                let (d, k) = (d.clone(), *d.last().unwrap());
                let y = b.vals.iter().find(|n| b.shp[*n].as_ref().map_or(false, |e| e.len() == d.len() && e[e.len() - 2] == k && e[..e.len() - 2] == d[..d.len() - 2])).cloned();
                if let Some(y) = y {
                    let e = b.shp[&y].clone().unwrap(); let my = b.mag[&y];
                    let mut o = d.clone(); let l = o.len(); o[l - 1] = e[l - 1];
                    b.op("MatMul", vec![x, y], vec![], m * my * k as f64, Some(o), 1);
                }
            }
        }
        8 => { // BatchNormalization, five parameters
            let c = r.u(1, 4); let eps = if r.b() { Some(r.i(1, 100) as f32 / 1e4) } else { None };
            let (g, be, mu, va) = (vals(r, c), vals(r, c), vals(r, c), (0..c).map(|_| r.i(0, 3000) as f64 / 1000.0).collect::<Vec<_>>());
            let names: Vec<String> = [&g, &be, &mu, &va].iter().map(|v| b.konst(r, &[c], v)).collect();
            let e = eps.unwrap_or(1e-5f32) as f64;
            let mg = (0..c).map(|i| { let q = g[i] / (va[i] + e).sqrt(); q.abs() * m + (be[i] - mu[i] * q).abs() }).fold(0.0, f64::max);
            let mut ins = vec![x]; ins.extend(names);
            b.op("BatchNormalization", ins, eps.map(|v| vec![s("epsilon", At::F(v))]).unwrap_or_default(), mg, sh, 1);
        }
        9 | 10 => { // two operands
            let (y, my) = if r.b() { let y = r.pick(&b.vals).clone(); let q = b.mag[&y]; (y, q) } else { let v = { let n = r.u(1, 4); vals(r, n) }; let n = b.konst(r, &[v.len()], &v); (n, maxa(&v)) };
            let op = *r.pick(&["Mul", "Add", "Sub", "Max", "Min", "Add"]);
            let mg = match op { "Mul" => m * my, "Add" | "Sub" => m + my, _ => m.max(my) };
            let ins = if r.b() { vec![x, y] } else { vec![y, x] };
            b.op(op, ins, vec![], mg, None, 1);
        }
        11 => { // Div by a constant
            let n = r.u(1, 4); let v: Vec<f64> = (0..n).map(|_| { let q = val(r); if q == 0.0 { 0.5 } else { q } }).collect();
            let mn = v.iter().fold(f64::INFINITY, |a, q| a.min(q.abs()));
            let c = b.konst(r, &[n], &v); b.op("Div", vec![x, c], vec![], m / mn, None, 1);
        }
        12 => { // Max / Min / Concat of several
            let op = *r.pick(&["Max", "Min", "Concat"]);
            let mut ins = vec![x]; let mut mg = m;
            for _ in 0..r.u(1, 3) {
                let y = r.pick(&b.vals).clone(); mg = mg.max(b.mag[&y]); ins.push(y);
                if r.p(20) { let v = vals(r, 2); mg = mg.max(maxa(&v)); let c = b.konst(r, &[2], &v); ins.push(c); }
            }
            if op == "Concat" && ins.iter().any(|n| b.shp.get(n).is_none()) { return; }
            b.op(op, ins, if op == "Concat" { vec![s("axis", At::I(-1))] } else { vec![] }, mg, None, 1);
        }
        13 => { // Clip
            let mut ins = vec![x]; let mut mg = m; let _ = &mut mg;
            let lo = if r.b() { let v = val(r).min(0.0); ins.push(b.konst(r, &[], &[v])); mg = mg.max(v.abs()); v } else { ins.push(String::new()); 0.0 };
            if r.b() { let v = lo.max(val(r).abs()); ins.push(b.konst(r, &[], &[v])); mg = mg.max(if lo > m { v.abs() } else { 0.0 }); }
            b.op("Clip", ins, vec![], m.min(mg), sh, 1);
        }
        14 => { // Pad with a value
            let p = b.konst(r, &[2], &[0.0, 1.0]); let v = val(r) * 3.0; let c = b.konst(r, &[], &[v]);
            b.op("Pad", vec![x, p, c], vec![], m.max(v.abs()), None, 1);
        }
        15 => { let y = r.pick(&b.vals).clone(); let z = r.pick(&b.vals).clone(); let mg = m.max(b.mag[&y]); b.op("Where", vec![z, x, y], vec![], mg, None, 1); }
        16 => { let a = val(r) as f32; b.op("LeakyRelu", vec![x], vec![s("alpha", At::F(a))], m.max(m * a.abs() as f64), sh, 1); }
        17 => match r.u(0, 5) {
            0 if m < 30.0 => { b.op("Exp", vec![x], vec![], m.exp(), sh, 1); }
            1 => { b.op("Sqrt", vec![x], vec![], m.sqrt(), sh, 1); }
            2 => { let e = *r.pick(&[2.0, 3.0, 0.5, 0.0, 1.5, 1.0, 0.25]); let c = b.konst(r, &[], &[e]); b.op("Pow", vec![x, c], vec![], m.powf(e), sh, 1); }
            3 => { b.op("Log", vec![x], vec![], 0.0, sh, 1); }
            4 => { b.op(*r.pick(&["Tanh", "Erf", "Softmax", "Sigmoid", "Sin", "Cos"]), vec![x], vec![], if m >= 2.0 { 0.85 } else { 0.0 }, sh, 1); }
            _ => { let op = *r.pick(&["Gelu", "HardSwish"]); let mg = if op == "HardSwish" { m * ((m + 3.0) / 6.0).min(1.0) } else if m > 3.0 { m * 0.99 } else { 0.8 * m }; b.op(op, vec![x], vec![], mg, sh, 1); }
        },
        18 => { // normalisation over many elements: one outlier among 65
            let c = r.u(1, 3); let g = vals(r, c); let be = vals(r, c);
            let gn = b.konst(r, &[c], &g); let bn = b.konst(r, &[c], &be);
            let op = *r.pick(&["LayerNormalization", "InstanceNormalization", "GroupNormalization"]);
            let k = 65.0; let e = 1e-5f32 as f64;
            let z = m * (1.0 - 1.0 / k) / (m * m * (1.0 / k) * (1.0 - 1.0 / k) + e).sqrt();
            let mg = (0..c).map(|i| g[i].abs() * z + be[i].abs()).fold(0.0, f64::max);
            b.op(op, vec![x, gn, bn], if op == "GroupNormalization" { vec![s("num_groups", At::I(1))] } else { vec![] }, mg, sh, 1);
        }
        19 => { // ReduceSum over the trailing axes or everything
            if let Some(d) = &sh {
                let d = d.clone(); let rank = d.len();
                let keep = r.b(); let mut at = vec![s("keepdims", At::I(keep as i64))];
                let all = r.p(30); let cnt = if all { rank } else { r.u(1, rank - 1) };
                let mut ax: Vec<i64> = (1..=cnt as i64).map(|k| -k).collect();
                let mut f: usize = d[rank - cnt..].iter().product();
                if !all && rank >= 3 && r.b() { // any axes, counted from either end
                    ax = vec![];
                    for k in 0..rank as i64 { if r.p(40) { ax.push(if r.p(70) { k } else { k - rank as i64 }); } }
                    if ax.is_empty() { ax.push(r.u(1, rank - 1) as i64); }
                    f = ax.iter().map(|a| d[if *a < 0 { *a + rank as i64 } else { *a } as usize]).product();
                }
                let cnt = ax.len();
                let mut ins = vec![x];
                if !all { if r.b() { at.push(s("axes", At::Is(ax))); } else { let v: Vec<f64> = ax.iter().map(|a| *a as f64).collect(); let n = b.fresh("w"); b.m.initializers.insert(n.clone(), TensorData { name: n.clone(), dims: vec![cnt as i64], data_type: 7, float_data: vec![], int_data: ax }); ins.push(n); let _ = v; } }
                b.op("ReduceSum", ins, at, m * f as f64, None, 1);
            }
        }
        20 => { let v = { let n = r.u(1, 3); vals(r, n) }; let d = v.len(); let u = b.konst(r, &[d], &v); let ix = b.konst(r, &[1], &[0.0]); b.op("ScatterND", vec![x, ix, u], vec![], m.max(maxa(&v)), None, 1); }
        _ => {
            let op = *r.pick(KEEP); let no = match op { "Split" | "TopK" => 2, _ => 1 };
            let same = ["Relu", "Neg", "Identity", "Cast"].contains(&op);
            let mut at = vec![];
            if op == "MaxPool" || op == "AveragePool" { at.push(s("kernel_shape", At::Is(vec![1, 1]))); }
            let ins = match op { "Gather" | "GatherElements" => vec![x.clone(), b.konst(r, &[1], &[0.0])], "TopK" => { let k = b.konst(r, &[1], &[1.0]); vec![x.clone(), k] } _ => vec![x.clone()] };
            b.op(op, ins, at, m, if same { sh } else { None }, no);
        }
    }
}
fn seed_model(r: &mut Rng) -> B {
    let mut b = B::new();
    for k in 0..r.u(1, 2) {
        let rank = r.u(2, 4); let mut d = vec![1usize]; for _ in 1..rank { d.push(r.u(1, 5)); }
        let n = format!("x{k}");
        b.m.inputs.push(io(&n, &d.iter().map(|v| *v as i64).collect::<Vec<_>>()));
        b.desc.push(format!("  input {n} {d:?} |.| <= 1"));
        b.mag.insert(n.clone(), 1.0); b.shp.insert(n.clone(), Some(d.clone())); b.vals.push(n);
        if rank >= 3 { // its transpose of the two last axes arrives as a second input, for run-time products
            let n = format!("t{k}"); let l = d.len(); d.swap(l - 1, l - 2);
            b.m.inputs.push(io(&n, &d.iter().map(|v| *v as i64).collect::<Vec<_>>()));
            b.mag.insert(n.clone(), 1.0); b.shp.insert(n.clone(), Some(d)); b.vals.push(n);
        }
    }
    b
}
fn dump(b: &B) -> String { b.desc.join("\n") }
/// one random layer over constant operands filled with ones, then the sum of everything it returns: the
/// accumulation counts the elements the layer really has
const EXT: &[&str] = &["Reshape", "Flatten", "Squeeze", "Unsqueeze", "Transpose", "Tile", "Concat", "Pad", "Split", "Where", "Expand", "Slice", "Gather", "GatherElements", "GridSample", "TopK", "ReduceMean", "ReduceSum", "ReduceMax", "Resize", "MaxPool", "AveragePool", "GlobalAveragePool", "Conv", "ConvTranspose", "Gemm", "MatMul", "Add", "Mul", "Max", "Min", "Sub", "Div", "Relu", "Identity", "Cast", "ScatterND", "Clip"];
fn extent(r: &mut Rng, seed: u64) -> Option<(String, ParsedModel, String, f64)> {
    let op = *r.pick(EXT);
    let mut p = crate::ops::gen(op, r);
    p.how = 0;
    let x = p.shape(0)?;
    if op == "ScatterND" { p.ins = vec![p.ins[0].clone()]; }
    let w = match crate::ops::want(&p) { Want::Shapes(w) => w, _ => return None };
    if p.ins.iter().any(|i| i.shape().map_or(false, |s| s.iter().product::<i128>() > 3000 || s.iter().any(|d| *d < 1))) { return None; }
    if w[0].iter().product::<i128>() > 1_000_000 || w[0].iter().any(|d| *d < 1) || matches!(p.ins[0], In::U | In::E) { return None; }
    let fill = |s: &[i128], v: f64| In::C(K { dims: s.iter().map(|d| *d as i64).collect(), ints: vec![], floats: vec![v; s.iter().product::<i128>() as usize], dt: 1 });
    let izero = |s: &[i128]| In::C(K { dims: s.iter().map(|d| *d as i64).collect(), ints: vec![0; s.iter().product::<i128>() as usize], floats: vec![], dt: 7 });
    // a model input keeps no batch axis: only batches of one, and not ranks one and two (see known-findings.txt)
    p.ins[0] = if x.len() >= 3 && x[0] == 1 && r.b() { In::A(x.iter().map(|d| *d as i64).collect()) } else { fill(&x, 1.0) };
    let mut each = 1.0;
    match op {
        "Conv" | "ConvTranspose" => { let s = p.shape(1)?; p.ins.truncate(2); p.ins[1] = fill(&s, 0.0); let c = w[0][1]; p.ins.push(fill(&[c], 1.0)); }
        "Gemm" => { if x.len() != 2 { return None; } let s = p.shape(1)?; p.ins.truncate(2); p.ins[1] = fill(&s, 1.0); each = if p.int("transA").unwrap_or(0) != 0 { x[0] } else { x[1] } as f64; }
        "MatMul" => { let s = p.shape(1)?; p.ins[1] = fill(&s, 1.0); each = *x.last()? as f64; }
        "Concat" => { for k in 1..p.ins.len() { let s = p.shape(k)?; p.ins[k] = fill(&s, 1.0); } }
        "Where" => { let s = p.shape(1)?; p.ins[1] = fill(&s, 1.0); let s = p.shape(2)?; p.ins[2] = fill(&s, 1.0); }
        "Gather" | "GatherElements" => { let s = p.shape(1)?; p.ins[1] = izero(&s); }
        "GridSample" => { let s = p.shape(1)?; p.ins[1] = fill(&s, 0.0); }
        "Pad" => { while p.ins.len() < 2 { p.ins.push(In::E); } p.ins.truncate(2); p.ins.push(fill(&[], 1.0)); }
        "Add" | "Sub" | "Mul" | "Div" | "Max" | "Min" => { if p.ins.len() > 1 { let s = p.shape(1)?; p.ins[1] = fill(&s, if op == "Sub" { -1.0 } else { 1.0 }); if op == "Add" || op == "Sub" { each = 2.0; } } }
        "ReduceSum" => { each = (x.iter().product::<i128>() / w[0].iter().product::<i128>()) as f64; }
        "ScatterND" => { p.ins.push(izero(&[1, x.len() as i128])); p.ins.push(fill(&[1], 1.0)); }
        "Clip" => { p.ins.truncate(1); }
        _ => {}
    }
    if p.ins[1..].iter().any(|i| matches!(i, In::A(_) | In::U)) { return None; }
    let mut m = build(&p);
    for n in m.nodes.iter_mut() { if n.op_type == op { n.name = "op".into(); } }
    let from = if p.nout > 1 && op == "Split" { r.u(0, p.nout - 1) } else { 0 };
    let s = &w[from];
    if s.contains(&0) { return None; }
    let cnt = s.iter().product::<i128>() as f64;
    // as constant nodes or initializers
    if r.b() { let mut ks: Vec<_> = m.initializers.drain().collect(); ks.sort_by(|a, b| a.0.cmp(&b.0)); for (k, t) in ks { if r.b() || k == "in0" { m.nodes.insert(0, const_node(&k, t)); } else { m.initializers.insert(k, t); } } }
    let mut at = vec![("keepdims".to_string(), At::I(r.i(0, 1)))];
    let mut total = each * cnt;
    if !s.is_empty() && r.p(40) { let a = r.u(0, s.len() - 1); total = each * s[a] as f64; at.push(("axes".into(), At::Is(vec![if r.b() { a as i64 } else { a as i64 - s.len() as i64 }]))); }
    m.nodes.push(node("sum", "ReduceSum", vec![format!("out{from}")], vec!["total".into()], &at));
    m.nodes.push(node("last", "Relu", vec!["total".into()], vec!["y".into()], &[]));
    let _ = seed;
    if r.p(30) { m.nodes.reverse(); }
    let show: Vec<String> = p.ins.iter().map(|i| match i { In::C(k) if k.floats.len() > 4 || k.ints.len() > 8 => format!("{:?} filled with {:?}{:?}", k.dims, &k.floats.first(), &k.ints.first()), i => format!("{i:?}") }).collect();
    Some((format!("{op} {:?} of {show:?} -> ReduceSum {at:?} of output {from}, really {s:?} -> Relu", p.at), m, "last".into(), total))
}
/// a shape computed from the input's own shape (Shape -> Gather -> Unsqueeze -> Concat), a Reshape to it, and the sum
/// over one axis: the accumulation counts that axis
fn computed(r: &mut Rng) -> (String, ParsedModel, String, f64) {
    let rank = r.u(3, 4); let mut d = vec![1usize]; for _ in 1..rank { d.push(r.u(2, 6)); }
    let total: usize = d.iter().product();
    let mut m = ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![io("x", &d.iter().map(|v| *v as i64).collect::<Vec<_>>())], outputs: vec![], opset_version: 17 };
    let s = |k: &str, v: At| (k.to_string(), v);
    let ks = |m: &mut ParsedModel, r: &mut Rng, n: &str, dims: Vec<i64>, v: Vec<i64>| { let t = TensorData { name: n.into(), dims, data_type: 7, float_data: vec![], int_data: v }; if r.b() { m.nodes.push(const_node(n, t)); } else { m.initializers.insert(n.into(), t); } };
    m.nodes.push(node("shape", "Shape", vec!["x".into()], vec!["s".into()], &[]));
    let k = r.u(1, rank - 1); let at = d[k];
    let one = r.b(); // gathered as a vector of one, or as a scalar that is unsqueezed
    ks(&mut m, r, "i", if one { vec![1] } else { vec![] }, vec![k as i64]);
    m.nodes.push(node("pick", "Gather", vec!["s".into(), "i".into()], vec!["g".into()], &[s("axis", At::I(0))]));
    let mut g = "g".to_string();
    if !one { ks(&mut m, r, "z", vec![1], vec![0]); m.nodes.push(node("wide", "Unsqueeze", vec!["g".into(), "z".into()], vec!["u".into()], &[])); g = "u".into(); }
    let rest = if r.b() { -1 } else { (total / at) as i64 };
    ks(&mut m, r, "c", vec![1], vec![rest]);
    let first = r.b();
    m.nodes.push(node("cat", "Concat", if first { vec![g, "c".into()] } else { vec!["c".into(), g] }, vec!["t".into()], &[s("axis", At::I(0))]));
    m.nodes.push(node("re", "Reshape", vec!["x".into(), "t".into()], vec!["o".into()], &[]));
    let ax = r.u(0, 1); let cnt = if (ax == 0) == first { at } else { total / at };
    m.nodes.push(node("sum", "ReduceSum", vec!["o".into()], vec!["total".into()], &[s("axes", At::Is(vec![ax as i64])), s("keepdims", At::I(r.i(0, 1)))]));
    m.nodes.push(node("last", "Relu", vec!["total".into()], vec!["y".into()], &[]));
    if r.p(30) { m.nodes.reverse(); }
    (format!("input x of shape {d:?} reshaped to {} computed from its own shape -> ReduceSum(axes=[{ax}]) -> Relu", if first { format!("[{at}, {rest}]") } else { format!("[{rest}, {at}]") }), m, "last".into(), cnt as f64)
}
fn extents(c: u64, r: &mut Rng, tried: &mut u64) -> Result<u64, String> {
    let (what, m, nm, need) = if r.p(20) { computed(r) } else { match extent(r, c) { Some(x) => x, None => return Ok(0) } };
    let cf = ScaleConfig::new(2, r.u(4, 18) as u32); let cc = cf.clone();
    *tried += 1;
    match guarded(|| { let g = LayerGraph::from_parsed(&m)?; quantize_model(g, &cc) }) {
        Got::Ok(q) => {
            let w = *q.n_bits_config.get(&nm).ok_or_else(|| format!("case {c}: {what}: no bit width"))?;
            let v = cf.alpha as f64 * need;
            if v > 2f64.powi(w as i32 - 1) * (1.0 + 1e-9) { return Err(format!("case {c}: the sum reaches {need:e} (scaled by 2^{}: {v:e}) but is given {w} bits\n{what}", cf.exponent)); }
            Ok(1)
        }
        Got::Err(_) => Ok(0),
        Got::Panic(e) => Err(format!("case {c}: quantize_model panics: {e}\n{what}")),
    }
}
pub fn q01(cfg: &Cfg) -> Res {
    let (mut n, mut accepted) = (0u64, 0u64);
    let (mut tried, mut sums) = (0u64, 0u64);
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(7_777_777) ^ c);
        sums += extents(c, &mut r, &mut tried)?;
        let mut b = seed_model(&mut r);
        for _ in 0..r.u(1, 6) { grow(&mut b, &mut r); }
        // expose every value through a layer that records a width
        for v in b.vals.clone() { if r.p(60) { let m = b.mag[&v]; b.op("Relu", vec![v], vec![], m, None, 1); } }
        if r.b() { b.m.nodes.reverse(); }
        // layers may share a name
        if r.p(10) && b.m.nodes.len() > 2 { let k = b.m.nodes.len(); let (i, j) = (r.u(0, k - 1), r.u(0, k - 1)); if b.m.nodes[i].op_type != "Constant" && b.m.nodes[j].op_type != "Constant" && !b.m.nodes[i].op_type.contains("BatchN") && !b.m.nodes[j].op_type.contains("BatchN") {
            let (from, to) = (b.m.nodes[i].name.clone(), b.m.nodes[j].name.clone());
            b.m.nodes[i].name = to.clone(); for p in b.per.iter_mut() { if p.0 == from { p.0 = to.clone(); } } } }
        let cf = ScaleConfig::new(2, r.u(4, 22) as u32);
        let m = &b.m; let cc = cf.clone();
        let q = match guarded(|| { let g = LayerGraph::from_parsed(m)?; quantize_model(g, &cc) }) { Got::Ok(q) => q, Got::Err(_) => { n += 1; continue; } Got::Panic(e) => return Err(format!("case {c}: quantize_model panics: {e}\n{}", dump(&b))) };
        accepted += 1;
        for (nm, mg, need) in &b.per {
            if !need { continue; }
            match q.n_bits_config.get(nm) {
                None => return Err(format!("case {c}: layer {nm} has no bit width\n{}", dump(&b))),
                Some(w) => {
                    let v = cf.alpha as f64 * mg;
                    if *w < 2 || v > 2f64.powi(*w as i32 - 1) * (1.0 + 1e-9) { return Err(format!("case {c}: layer {nm} can reach {mg:e} (scaled by 2^{}: {v:e}) but is given {w} bits\n{}", cf.exponent, dump(&b))); }
                    if !q.graph.layers.iter().any(|l| &l.name == nm && l.n_bits == Some(*w)) { return Err(format!("case {c}: layer {nm} does not carry its width {w}\n{}", dump(&b))); }
                }
            }
        }
        n += 1;
    }
    if cfg.cases >= 50 && accepted * 3 < cfg.cases { return Err(format!("only {accepted} of {} ordinary models were quantized at all", cfg.cases)); }
    if cfg.cases >= 50 && sums * 3 < tried { return Err(format!("only {sums} of {tried} ordinary one-layer models were quantized at all")); }
    Ok(n)
}
fn plan(op: OpType) -> Vec<(usize, u32)> {
    match op { OpType::Conv | OpType::Gemm | OpType::BatchNormalization | OpType::LayerNormalization | OpType::ConvTranspose => vec![(1, 1), (2, 2)], OpType::MatMul | OpType::GridSample => vec![(1, 1)], _ => vec![] }
}
fn same(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) }
fn configs(r: &mut Rng) -> Result<(), String> {
    let (d, nb) = (r.u(0, 12) as u32, r.u(0, 125) as u32);
    let mb = match r.u(0, 3) { 0 => 1.0, 1 => r.i(0, 1000) as f64 / 1000.0, 2 => 2f64.powi(r.u(0, 40) as i32), _ => r.i(1, 1_000_000) as f64 / 7.0 };
    let fits = |e: u32| e == 0 || 2f64.powi(2 * e as i32) * mb <= 2f64.powi(nb as i32 - 1) * (1.0 + 1e-9);
    let e = ScaleConfig::max_safe_exponent(nb, mb);
    if !fits(e) { return Err(format!("max_safe_exponent({nb}, {mb}) = {e}: the squared scale times the bound does not fit {nb} signed bits")); }
    let a = ScaleConfig::adaptive(nb, mb);
    if a.base != 2 || a.alpha as f64 != 2f64.powi(a.exponent as i32) || !fits(a.exponent) { return Err(format!("adaptive({nb}, {mb}) = {a:?}")); }
    if let Ok(c) = ScaleConfig::for_precision(d, nb, mb) {
        if c.base != 2 || c.alpha as f64 != 2f64.powi(c.exponent as i32) { return Err(format!("for_precision({d}, {nb}, {mb}) = {c:?}: inconsistent")); }
        if (c.alpha as f64) < 10f64.powi(d as i32) { return Err(format!("for_precision({d}, {nb}, {mb}): scale {} does not resolve {d} decimal digits", c.alpha)); }
        if !fits(c.exponent) { return Err(format!("for_precision({d}, {nb}, {mb}): scale {} does not fit", c.alpha)); }
    }
    Ok(())
}
/// one layer whose parameters fit: it must be quantized
fn acceptable(r: &mut Rng) -> (B, ScaleConfig) {
    let mut b = seed_model(r);
    let x = b.vals[0].clone(); let sh = b.shp[&x].clone();
    let mut cf = ScaleConfig::new(2, r.u(2, 18) as u32);
    if r.p(60) { // variance plus epsilon is positive, however small
        let c = r.u(1, 4); let eps = if r.b() { Some(*r.pick(&[1e-3f32, 1e-5, 0.0, 0.5, 2.0])) } else { None };
        let e = eps.unwrap_or(1e-5) as f64;
        let va: Vec<f64> = (0..c).map(|_| *r.pick(&[1e-7, 1e-5, 0.001, 0.02, 0.09, 0.5, 0.9, 1.0, 3.0, 1e6]) - if r.p(20) { 0.999 * e } else { 0.0 }).collect();
        let ps: Vec<Vec<f64>> = (0..4).map(|k| if k == 3 { va.clone() } else { vals(r, c) }).collect();
        // the largest scale at which the folded factor and offset still fit
        while cf.exponent > 0 && (0..c).any(|i| { let q = ps[0][i] / (va[i] + e).sqrt(); let a = cf.alpha as f64; (q * a).abs() > 9e18 || ((ps[1][i] - ps[2][i] * q) * a * a).abs() > 9e18 }) { cf = ScaleConfig::new(2, cf.exponent - 1); }
        let names: Vec<String> = ps.iter().map(|v| b.konst(r, &[c], v)).collect();
        let mut ins = vec![x]; ins.extend(names);
        b.op("BatchNormalization", ins, eps.map(|v| vec![("epsilon".to_string(), At::F(v))]).unwrap_or_default(), 1.0, sh, 1);
    } else { // weights that just fit 64 bits
        let al = cf.alpha as f64; let (k, m) = (sh.unwrap().last().copied().unwrap(), r.u(1, 3));
        let w: Vec<f64> = (0..k * m).map(|_| { let f = *r.pick(&[0.999, 0.6, 0.26, 1e-3, 1e-9, 0.0]); let q = f * 2f64.powi(63) / al; if r.b() { q } else { -q } }).collect();
        let wn = b.konst(r, &[k, m], &w); b.op("MatMul", vec![x, wn], vec![], 1.0, None, 1);
    }
    (b, cf)
}
pub fn q02(cfg: &Cfg) -> Res {
    let (mut n, mut accepted) = (0u64, 0u64);
    for c in 0..cfg.cases {
        if c % 12 == 5 {
            let mut r = Rng::new(cfg.seed.wrapping_mul(7_777_123) ^ c);
            let (b, cf) = acceptable(&mut r); let m = &b.m;
            match guarded(|| LayerGraph::from_parsed(m).and_then(|g| quantize_model(g, &cf).map(|_| ()))) { Got::Ok(_) => {} Got::Err(e) | Got::Panic(e) => return Err(format!("case {c}: refused at scale {cf:?} although every parameter fits: {e}\n{}", dump(&b))) }
        }
        let mut r = Rng::new(cfg.seed.wrapping_mul(5_555_557) ^ c);
        configs(&mut r).map_err(|e| format!("case {c}: {e}"))?;
        let mut b = seed_model(&mut r);
        for _ in 0..r.u(1, 4) { grow(&mut b, &mut r); }
        // an oversized weight must be refused, not clipped
        let huge = r.p(8);
        if huge { let x = b.vals[0].clone(); let w = b.konst(&mut r, &[1, 2], &[1.5, -3.5e18]); b.op("MatMul", vec![x, w], vec![], 3.5e18, None, 1); }
        let cf = ScaleConfig::new(2, r.u(4, 22) as u32);
        let m = &b.m; let cc = cf.clone();
        let digits = r.u(0, 4) as u32; let nb = r.u(20, 125) as u32; let by_digits = r.p(25);
        let g0 = match guarded(|| LayerGraph::from_parsed(m)) { Got::Ok(g) => g, e => return Err(format!("case {c}: from_parsed: {:?}", match e { Got::Err(s) | Got::Panic(s) => s, _ => String::new() })) };
        let g1 = g0.clone();
        let got = guarded(move || if by_digits { quantize_model_for_precision(g1, digits, nb) } else { quantize_model(g1, &cc) });
        let q = match got { Got::Ok(q) => q, Got::Err(_) => { n += 1; continue; } Got::Panic(e) => return Err(format!("case {c}: panic: {e}\n{}", dump(&b))) };
        accepted += 1;
        let al = q.scale_config.alpha;
        if !by_digits && (al != cf.alpha || q.scale_config.base != cf.base || q.scale_config.exponent != cf.exponent) { return Err(format!("case {c}: scale changed from {cf:?} to {:?}", q.scale_config)); }
        if by_digits {
            let sc = &q.scale_config;
            if sc.base != 2 || al as f64 != 2f64.powi(sc.exponent as i32) || (al as f64) < 10f64.powi(digits as i32) { return Err(format!("case {c}: scale {sc:?} for {digits} digits\n{}", dump(&b))); }
            let mut g2 = g0.clone();
            if let Got::Ok(mb) = guarded(move || compute_max_bound(&mut g2)) { if sc.exponent > 0 && 2f64.powi(2 * sc.exponent as i32) * mb > 2f64.powi(nb as i32 - 1) * (1.0 + 1e-9) { return Err(format!("case {c}: scale {sc:?} with bound {mb} does not fit {nb} bits\n{}", dump(&b))); } }
        }
        if huge && al > 4 { return Err(format!("case {c}: a weight of -3.5e18 scaled by {al} was accepted\n{}", dump(&b))); }
        if q.graph.layers.len() != g0.layers.len() || q.graph.topo_order != g0.topo_order || q.graph.input_names != g0.input_names || q.graph.output_names != g0.output_names { return Err(format!("case {c}: the graph changed\n{}", dump(&b))); }
        for (a, l) in g0.layers.iter().zip(&q.graph.layers) {
            let bad = |w: String| Err(format!("case {c}: layer {} ({:?}): {w}\n{}", a.name, a.op_type, dump(&b)));
            if a.name != l.name || a.outputs != l.outputs || a.needs_rescale != l.needs_rescale || format!("{:?}", sorted(&a.attributes)) != format!("{:?}", sorted(&l.attributes)) { return bad("name, outputs, attributes or rescaling changed".into()); }
            if l.n_bits != q.n_bits_config.get(&l.name).copied() { return bad(format!("n_bits {:?} differs from the table's {:?}", l.n_bits, q.n_bits_config.get(&l.name))); }
            // reference rewriting
            let mut want = a.clone();
            let f = |t: &TensorData| if t.float_data.is_empty() { t.int_data.iter().map(|v| *v as f64).collect::<Vec<_>>() } else { t.float_data.clone() };
            if a.op_type == OpType::BatchNormalization && a.inputs.len() >= 5 {
                let e = match a.attributes.get("epsilon") { Some(AttrValue::Float(v)) => *v, _ => 1e-5f32 } as f64;
                let p: Vec<Vec<f64>> = (1..5).map(|k| f(&a.weights[&a.inputs[k]])).collect();
                let mul: Vec<f64> = (0..p[0].len()).map(|i| p[0][i] / (p[3][i] + e).sqrt()).collect();
                let add: Vec<f64> = (0..p[0].len()).map(|i| p[1][i] - p[2][i] * mul[i]).collect();
                if l.inputs.len() != 3 || l.inputs[0] != a.inputs[0] || l.inputs[1] == l.inputs[2] { return bad(format!("folded inputs {:?}", l.inputs)); }
                want.inputs = l.inputs.clone();
                for k in 1..5 { want.weights.remove(&a.inputs[k]); }
                for (k, v) in [(1, mul), (2, add)] { want.weights.insert(l.inputs[k].clone(), TensorData { name: l.inputs[k].clone(), dims: vec![v.len() as i64], data_type: 1, float_data: v, int_data: vec![] }); }
            }
            if a.op_type == OpType::Pow && a.inputs.get(1).and_then(|k| a.weights.get(k)).map_or(false, |t| f(t) == [0.5]) {
                want.op_type = OpType::Sqrt; let k = want.inputs.pop().unwrap(); want.weights.remove(&k);
            }
            if want.op_type != l.op_type || want.inputs != l.inputs { return bad(format!("became {:?} {:?}", l.op_type, l.inputs)); }
            let mut kn: Vec<&String> = want.weights.keys().collect(); kn.sort(); let mut gn: Vec<&String> = l.weights.keys().collect(); gn.sort();
            if kn != gn { return bad(format!("weights {gn:?} instead of {kn:?}")); }
            for (k, t) in &want.weights {
                let g = &l.weights[k];
                if g.dims != t.dims { return bad(format!("extents of {k} changed")); }
                let sc = plan(want.op_type).into_iter().find(|(p, _)| want.inputs.get(*p) == Some(k));
                match sc {
                    Some((p, e)) if !t.float_data.is_empty() => {
                        let fac = (al as f64).powi(e as i32);
                        if !g.float_data.is_empty() || g.int_data.len() != t.float_data.len() { return bad(format!("operand {p} ({k}) was not converted to {} integers", t.float_data.len())); }
                        for (i, v) in t.float_data.iter().enumerate() {
                            let w = v * fac;
                            if (g.int_data[i] as f64 - w).abs() > 0.5 + 1e-9 * w.abs() { return bad(format!("operand {p} ({k})[{i}]: {v} times scale^{e} is {w} but {} is stored", g.int_data[i])); }
                        }
                    }
                    _ => if g.int_data != t.int_data || g.float_data.len() != t.float_data.len() || !g.float_data.iter().zip(&t.float_data).all(|(x, y)| same(*x, *y)) { return bad(format!("constant {k} changed")); },
                }
            }
        }
        // observed widths override
        let mut ov = HashMap::new();
        for l in &q.graph.layers { if r.p(40) { ov.insert(l.name.clone(), r.u(2, 90)); } }
        if r.b() { ov.insert("no_such_layer".into(), 3); }
        let mut p = q.clone(); p.apply_observed_n_bits(&ov);
        for (a, l) in q.graph.layers.iter().zip(&p.graph.layers) {
            let w = ov.get(&a.name).copied().or(a.n_bits); let t = ov.get(&a.name).or(q.n_bits_config.get(&a.name));
            if l.n_bits != w || p.n_bits_config.get(&a.name) != t || l.weights.len() != a.weights.len() { return Err(format!("case {c}: layer {}: width {:?} / {:?} after applying {:?} over {:?}", a.name, l.n_bits, p.n_bits_config.get(&a.name), ov.get(&a.name), a.n_bits)); }
        }
        n += 1;
    }
    if cfg.cases >= 50 && accepted * 3 < cfg.cases { return Err(format!("only {accepted} of {} ordinary models were quantized at all", cfg.cases)); }
    Ok(n)
}
fn sorted(m: &HashMap<String, AttrValue>) -> Vec<String> { let mut v: Vec<String> = m.iter().map(|(k, x)| format!("{k}={x:?}")).collect(); v.sort(); v }

//! L01: layer parameters describe the layer, or the layer is refused.
use crate::core::*;
use crate::{Cfg, Res};
use jstprove_onnx::graph::{LayerGraph, LayerNode};
use jstprove_onnx::layer_params::*;
use jstprove_onnx::parser::{ParsedModel, TensorData};
use std::collections::HashMap;

fn layer(op: &str, ins: &[String], at: &[(String, At)], ws: &[(String, Vec<i64>)]) -> anyhow::Result<LayerNode> {
    let mut m = ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![io("x", &[1, 4])], outputs: vec![io("y", &[1, 4])], opset_version: 17 };
    for (n, d) in ws { let k: i64 = d.iter().product(); m.initializers.insert(n.clone(), TensorData { name: n.clone(), dims: d.clone(), data_type: 1, float_data: vec![0.5; k as usize], int_data: vec![] }); }
    m.nodes.push(node("n0", op, ins.to_vec(), vec!["y".into()], at));
    let g = LayerGraph::from_parsed(&m)?;
    Ok(g.layers.into_iter().next().unwrap())
}
fn ints(at: &[(String, At)], n: &str) -> Option<Vec<i64>> { at.iter().find(|(k, _)| k == n).and_then(|(_, v)| if let At::Is(x) = v { Some(x.clone()) } else { None }) }
fn or(v: &Option<Vec<i64>>, i: usize, d: i64) -> i64 { v.as_ref().and_then(|x| x.get(i).copied()).unwrap_or(d) }
fn window_attrs(r: &mut Rng, at: &mut Vec<(String, At)>) -> bool {
    let mut plain = true;
    if r.p(30) { let d: Vec<i64> = (0..2).map(|_| if r.p(80) { 1 } else { 2 }).collect(); plain &= d.iter().all(|x| *x == 1); at.push(("dilations".into(), At::Is(d))); }
    if r.p(30) { let m = *r.pick(&["NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER", "NOTSET"]); plain &= !m.starts_with("SAME"); at.push(("auto_pad".into(), At::S(m.into()))); }
    if r.p(60) { at.push(("strides".into(), At::Is((0..2).map(|_| if r.p(4) { r.i(-1, 0) } else { r.i(1, 4) }).collect()))); }
    plain
}
fn one(r: &mut Rng) -> (String, Option<String>) {
    let mut at: Vec<(String, At)> = vec![];
    let mut ins: Vec<String> = vec!["x".into(), "w".into(), "b".into()];
    ins.truncate(if r.p(8) { r.u(0, 2) } else { r.u(2, 3) });
    let bias = ins.get(2).cloned();
    match r.u(0, 4) {
        0 => {
            if r.p(30) { at.push(("transA".into(), At::I(r.i(0, 1)))); }
            if r.b() { at.push(("transB".into(), At::I(r.i(0, 1)))); }
            for n in ["alpha", "beta"] { if r.p(30) { at.push((n.into(), At::F(*r.pick(&[1.0, 1.0, 1.0, 0.5, 2.0, 0.0])))); } }
            let d: Vec<i64> = (0..*r.pick(&[2, 2, 2, 2, 1, 3])).map(|_| r.i(1, 6)).collect();
            let i = |n: &str| at.iter().find(|(k, _)| k == n).map(|(_, v)| if let At::I(x) = v { *x } else { 0 }).unwrap_or(0);
            let f = |n: &str| at.iter().find(|(k, _)| k == n).map(|(_, v)| if let At::F(x) = v { *x } else { 0.0 }).unwrap_or(1.0);
            let ok = ins.len() >= 2 && i("transA") == 0 && f("alpha") == 1.0 && f("beta") == 1.0 && d.len() == 2;
            let what = format!("Gemm inputs {ins:?} attributes {at:?} weight {d:?}");
            let bad = match guarded(|| GemmParams::from_layer(&layer("Gemm", &ins, &at, &[("w".into(), d.clone())])?)) {
                Got::Panic(p) => Some(format!("panicked: {p}")),
                Got::Err(e) => if ok { Some(format!("refused: {e}")) } else { None },
                Got::Ok(p) => {
                    let (r_, c) = (d[0] as usize, *d.get(1).unwrap_or(&0) as usize);
                    let t = i("transB") != 0;
                    if !ok { Some("accepted although the parameters cannot describe it".into()) }
                    else if (p.input_name.as_str(), p.weight_tensor_name.as_str(), &p.bias_tensor_name, p.trans_b, p.w_rows, p.w_cols, p.k_dim, p.n_dim) != ("x", "w", &bias, t, r_, c, if t { c } else { r_ }, if t { r_ } else { c }) { Some(format!("gave k={} n={} rows={} cols={} transB={} names {} {} {:?}", p.k_dim, p.n_dim, p.w_rows, p.w_cols, p.trans_b, p.input_name, p.weight_tensor_name, p.bias_tensor_name)) } else { None }
                }
            };
            (what, bad)
        }
        1 => {
            let plain = window_attrs(r, &mut at);
            if r.b() { let mut v: Vec<i64> = (0..4).map(|_| r.i(0, 3)).collect(); if r.p(5) { v[r.u(0, 3)] = -1; } at.push(("pads".into(), At::Is(v))); }
            if r.p(30) { at.push(("group".into(), At::I(*r.pick(&[1, 1, 2])))); }
            let mut d: Vec<i64> = vec![r.i(1, 4), r.i(1, 3), r.i(1, 4), r.i(1, 4)];
            if r.p(8) { d.pop(); }
            let ch = if r.p(8) { r.u(1, 3) } else { d[1] as usize };
            let (h, w) = (r.u(1, 9), r.u(1, 9));
            let (pd, st) = (ints(&at, "pads"), ints(&at, "strides"));
            let pv: Vec<i64> = (0..4).map(|k| or(&pd, k, 0)).collect();
            let sv: Vec<i64> = (0..2).map(|k| or(&st, k, 1)).collect();
            let grp = at.iter().find(|(k, _)| k == "group").map(|(_, v)| if let At::I(x) = v { *x } else { 0 }).unwrap_or(1);
            let ok = ins.len() >= 2 && plain && grp == 1 && d.len() == 4 && ch as i64 == d[1] && pv.iter().all(|x| *x >= 0) && sv.iter().all(|x| *x > 0) && h as i64 + pv[0] + pv[2] >= d[2] && w as i64 + pv[1] + pv[3] >= d[3];
            let what = format!("Conv inputs {ins:?} attributes {at:?} weight {d:?} on {ch}x{h}x{w}");
            let bad = match guarded(|| ConvParams::from_layer(&layer("Conv", &ins, &at, &[("w".into(), d.clone())])?, ch, h, w)) {
                Got::Panic(p) => Some(format!("panicked: {p}")),
                Got::Err(e) => if ok { Some(format!("refused: {e}")) } else { None },
                Got::Ok(_) if !ok => Some("accepted although the parameters cannot describe it".into()),
                Got::Ok(p) => {
                    let oh = (h as i64 + pv[0] + pv[2] - d[2]) / sv[0] + 1; let ow = (w as i64 + pv[1] + pv[3] - d[3]) / sv[1] + 1;
                    let got = [p.c_out, p.c_in, p.kh, p.kw, p.pad_top, p.pad_left, p.pad_bottom, p.pad_right, p.stride_h, p.stride_w, p.out_h, p.out_w, p.patch_size, p.num_patches].map(|x| x as i64);
                    let want = [d[0], d[1], d[2], d[3], pv[0], pv[1], pv[2], pv[3], sv[0], sv[1], oh, ow, d[1] * d[2] * d[3], oh * ow];
                    if got != want || p.input_name != "x" || p.weight_tensor_name != "w" || p.bias_tensor_name != bias { Some(format!("gave {got:?} instead of {want:?}, names {} {} {:?}", p.input_name, p.weight_tensor_name, p.bias_tensor_name)) } else { None }
                }
            };
            (what, bad)
        }
        2 => {
            let plain = window_attrs(r, &mut at);
            ins.truncate(1);
            if r.p(40) { let mut v = vec![0i64; 4]; if r.p(30) { v[r.u(0, 3)] = r.i(-1, 2); } at.push(("pads".into(), At::Is(v))); }
            if r.p(30) { at.push(("ceil_mode".into(), At::I(r.i(0, 1)))); }
            if r.p(95) { at.push(("kernel_shape".into(), At::Is((0..*r.pick(&[2, 2, 2, 2, 1, 3])).map(|_| if r.p(4) { 0 } else { r.i(1, 4) }).collect()))); }
            let (h, w) = (r.u(1, 9), r.u(1, 9));
            let (pd, st, k) = (ints(&at, "pads"), ints(&at, "strides"), ints(&at, "kernel_shape"));
            let sv: Vec<i64> = (0..2).map(|k| or(&st, k, 1)).collect();
            let ceil = at.iter().any(|(k, v)| k == "ceil_mode" && matches!(v, At::I(1)));
            let ok = ins.len() == 1 && plain && !ceil && pd.map_or(true, |p| p.iter().all(|x| *x == 0)) && sv.iter().all(|x| *x > 0) && k.as_ref().map_or(false, |k| k.len() == 2 && k.iter().all(|x| *x > 0) && h as i64 >= k[0] && w as i64 >= k[1]);
            let what = format!("MaxPool inputs {ins:?} attributes {at:?} on {h}x{w}");
            let bad = match guarded(|| MaxPoolParams::from_layer(&layer("MaxPool", &ins, &at, &[])?, h, w)) {
                Got::Panic(p) => Some(format!("panicked: {p}")),
                Got::Err(e) => if ok { Some(format!("refused: {e}")) } else { None },
                Got::Ok(_) if !ok => Some("accepted although the parameters cannot describe it".into()),
                Got::Ok(p) => {
                    let k = k.unwrap();
                    let got = [p.pool_h, p.pool_w, p.stride_h, p.stride_w, p.pool_oh, p.pool_ow, p.window_size].map(|x| x as i64);
                    let want = [k[0], k[1], sv[0], sv[1], (h as i64 - k[0]) / sv[0] + 1, (w as i64 - k[1]) / sv[1] + 1, k[0] * k[1]];
                    if got != want || p.input_name != "x" { Some(format!("gave {got:?} instead of {want:?}, input {}", p.input_name)) } else { None }
                }
            };
            (what, bad)
        }
        3 => {
            let what = format!("BatchNormalization inputs {ins:?}");
            let bad = match guarded(|| BatchNormParams::from_layer(&layer("BatchNormalization", &ins, &at, &[])?)) {
                Got::Panic(p) => Some(format!("panicked: {p}")),
                Got::Err(e) => if ins.len() >= 3 { Some(format!("refused: {e}")) } else { None },
                Got::Ok(p) => if ins.len() < 3 || (p.input_name.as_str(), p.mul_tensor_name.as_str(), p.add_tensor_name.as_str()) != ("x", "w", "b") { Some(format!("gave {} {} {}", p.input_name, p.mul_tensor_name, p.add_tensor_name)) } else { None },
            };
            (what, bad)
        }
        _ => {
            let op = *r.pick(&["Add", "Sub"]);
            let what = format!("{op} inputs {ins:?}");
            let bad = match guarded(|| AddSubParams::from_layer(&layer(op, &ins, &at, &[])?)) {
                Got::Panic(p) => Some(format!("panicked: {p}")),
                Got::Err(e) => if ins.len() >= 2 { Some(format!("refused: {e}")) } else { None },
                Got::Ok(p) => if ins.len() < 2 || (p.input_a_name.as_str(), p.input_b_name.as_str()) != ("x", "w") { Some(format!("gave {} {}", p.input_a_name, p.input_b_name)) } else { None },
            };
            (what, bad)
        }
    }
}
pub fn l01(cfg: &Cfg) -> Res {
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_037) ^ c);
        let (what, bad) = one(&mut r);
        if let Some(b) = bad { return Err(format!("case {c}: parameters of {what}\n{b}")); }
    }
    Ok(cfg.cases)
}

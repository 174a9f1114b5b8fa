//! K01: the compatibility check and the zero-bias rewriting of model files.
use crate::core::{guarded, Got, Rng};
use crate::{Cfg, Res};
use jstprove_onnx as jo;
use jo::compat::{add_zero_bias_to_conv, is_compatible};
use jo::graph::OpType;
use jo::{AttributeProto, GraphProto, ModelProto, NodeProto, TensorProto, ValueInfoProto};
use prost::Message;
use std::collections::HashSet;

const OPS: &[&str] = &["Add", "Cast", "Clip", "BatchNormalization", "Div", "Sub", "Mul", "Constant", "Flatten", "Gemm", "MaxPool", "Max", "Min", "Relu", "Reshape", "Conv", "Squeeze", "Unsqueeze", "Exp", "Softmax", "Sigmoid", "Gelu", "Tile", "Gather", "LayerNormalization", "Resize", "GridSample", "Transpose", "Concat", "Slice", "Shape", "Expand", "MatMul", "AveragePool", "Pad", "Split", "Where", "Pow", "Sqrt", "Tanh", "ReduceSum", "Erf", "ConvTranspose", "Log", "ReduceMean", "TopK"];
const ODD: &[&str] = &["LSTM", "add", "Conv2", "Conv ", "RandomNormal", "NonZero", "Loop", "If", "QLinearConv", "ConvInteger", "GRU", "Einsum", "CumSum", "RNN", "Scan", "Trilu"];

fn nm(r: &mut Rng) -> Option<String> { match r.u(0, 9) { 0 => None, 1 => Some(String::new()), 2 => Some(format!("c{}_zero_bias", r.u(0, 2))), _ => Some(format!("c{}", r.u(0, 3))) } }
fn conv_model(r: &mut Rng) -> ModelProto {
    let mut g = GraphProto { name: Some("g".into()), ..Default::default() };
    let nw = r.u(1, 4);
    for k in 0..nw {
        let dims: Vec<i64> = match r.u(0, 8) { 0 => vec![], 1 => vec![r.i(0, 5)], _ => vec![r.i(1, 5), r.i(1, 2), 2, 2] };
        let n: i64 = dims.iter().product();
        let dt = *r.pick(&[1, 1, 1, 11, 10, 16, 7]);
        let w = match dt { 11 | 7 => 8, 10 | 16 => 2, _ => 4 };
        g.initializer.push(TensorProto { name: Some(format!("w{k}")), dims, data_type: if r.p(5) { None } else { Some(dt) }, raw_data: Some(vec![1; (n * w) as usize]), ..Default::default() });
        if r.p(15) { g.initializer.push(TensorProto { name: nm(r).map(|n| n + "_zero_bias"), dims: vec![1], data_type: Some(1), raw_data: Some(vec![0; 4]), ..Default::default() }); }
    }
    if r.p(60) { g.input.push(ValueInfoProto { name: Some("x".into()), ..Default::default() }); }
    if r.p(15) { g.input.push(ValueInfoProto { name: nm(r).map(|n| n + "_zero_bias"), ..Default::default() }); }
    for k in 0..r.u(0, 5) {
        let op = match r.u(0, 7) { 0 => "ConvTranspose", 1 => "Relu", 2 => "", _ => "Conv" };
        let mut input = vec!["x".to_string(), format!("w{}", r.u(0, nw))];
        match r.u(0, 9) { 0 => { input.pop(); } 1 => input.push(format!("b{k}")), 2 => { input[0] = nm(r).unwrap_or_default() + "_zero_bias"; } _ => {} }
        let output = match r.u(0, 9) { 0 => vec![], 1 => vec![nm(r).unwrap_or_default() + "_zero_bias"], _ => vec![format!("o{k}")] };
        let attribute = if r.b() { vec![AttributeProto { name: Some("group".into()), i: Some(1), r#type: Some(2), ..Default::default() }] } else { vec![] };
        g.node.push(NodeProto { input, output, name: nm(r), op_type: if op.is_empty() { None } else { Some(op.into()) }, attribute, domain: if r.p(20) { Some("d".into()) } else { None }, ..Default::default() });
    }
    for _ in 0..r.u(0, 1) { g.output.push(ValueInfoProto { name: Some("y".into()), ..Default::default() }); }
    ModelProto { graph: Some(g), ir_version: Some(8), producer_name: Some("p".into()), ..Default::default() }
}
/// None: as it should be
fn bias_diff(a: &ModelProto, b: &ModelProto) -> Option<String> {
    let (ga, gb) = (a.graph.as_ref()?, match &b.graph { Some(g) => g, None => return Some("the graph is gone".into()) });
    let mut used: HashSet<String> = ga.initializer.iter().filter_map(|t| t.name.clone()).chain(ga.input.iter().filter_map(|t| t.name.clone())).collect();
    for n in &ga.node { used.extend(n.input.iter().cloned()); used.extend(n.output.iter().cloned()); }
    let mut want = a.clone();
    let gw = want.graph.as_mut().unwrap();
    let mut at = ga.initializer.len();
    for (k, n) in ga.node.iter().enumerate() {
        if n.op_type.as_deref() != Some("Conv") || n.input.len() != 2 { continue; }
        let w = match ga.initializer.iter().find(|t| t.name.as_ref() == Some(&n.input[1])) { Some(w) if !w.dims.is_empty() => w, _ => continue };
        let t = match gb.initializer.get(at) { Some(t) => t, None => return Some(format!("node {k} got no bias tensor")) };
        at += 1;
        let name = t.name.clone().unwrap_or_default();
        if !used.insert(name.clone()) { return Some(format!("the bias of node {k} is called {name:?}, a name already taken")); }
        let dt = w.data_type.unwrap_or(1);
        let size = match dt { 11 => 8, 10 | 16 => 2, 1 => 4, _ => t.raw_data.as_ref().map_or(0, |d| d.len()) / (w.dims[0].max(1) as usize) };
        let z = TensorProto { name: Some(name.clone()), dims: vec![w.dims[0]], data_type: Some(dt), raw_data: Some(vec![0; w.dims[0] as usize * size]), ..Default::default() };
        if *t != z { return Some(format!("the bias of node {k} is {t:?}, expected {z:?}")); }
        gw.initializer.push(t.clone());
        gw.node[k].input.push(name);
    }
    if *b != want { return Some(format!("the rewritten model is {b:?}")); }
    None
}
pub fn k01(cfg: &Cfg) -> Res {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let (path, out) = (dir.path().join("m.onnx"), dir.path().join("o.onnx"));
    if !matches!(guarded(|| is_compatible(&dir.path().join("none.onnx"))), Got::Ok((false, _))) { return Err("a missing file is not reported as incompatible".into()); }
    std::fs::write(&path, [0xffu8; 9]).map_err(|e| e.to_string())?;
    if !matches!(guarded(|| is_compatible(&path)), Got::Ok((false, _))) { return Err("a file that is no model is not reported as incompatible".into()); }
    std::fs::write(&path, []).map_err(|e| e.to_string())?;
    if !matches!(guarded(|| is_compatible(&path)), Got::Ok((false, _))) { return Err("a model without a graph is not reported as incompatible".into()); }
    // which single operators does it accept? each must be one the layer graph accepts
    let mut listed: HashSet<String> = HashSet::new();
    let names: Vec<&str> = OPS.iter().chain(ODD).copied().chain(["LeakyRelu", "Neg", "Identity", "Sin", "Cos", "Not", "And", "Equal", "Range", "ScatterND", "HardSwish", "ReLU", "Int64Conv", "ReduceMax", "GatherElements", "Floor", "Ceil", "Abs", "Or", "Xor", "Mod", "Round", "Sign", "Softplus", "Elu", "Selu", "PRelu", "ArgMax", "ReduceMin", "Upsample", "Dropout", "Mish", "Swish"]).collect();
    for op in &names {
        let m = ModelProto { graph: Some(GraphProto { node: vec![NodeProto { op_type: Some(op.to_string()), ..Default::default() }], ..Default::default() }), ..Default::default() };
        std::fs::write(&path, m.encode_to_vec()).map_err(|e| e.to_string())?;
        match guarded(|| is_compatible(&path)) {
            Got::Ok((true, l)) if l.is_empty() => { listed.insert(op.to_string()); if OpType::from_str(op).is_err() { return Err(format!("a model consisting of one {op} node is reported compatible, but the layer graph refuses that operator")); } }
            Got::Ok((false, l)) if l == [op.to_string()] => { if OPS.contains(op) { return Err(format!("a model consisting of one {op} node is reported incompatible")); } }
            Got::Ok(x) => return Err(format!("a model consisting of one {op} node gives {x:?}")),
            Got::Err(e) => return Err(format!("a model consisting of one {op} node gives the error {e}")),
            Got::Panic(p) => return Err(format!("a model consisting of one {op} node panics: {p}")),
        }
    }
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_039) ^ c);
        if r.b() {
            let m = conv_model(&mut r);
            std::fs::write(&path, m.encode_to_vec()).map_err(|e| e.to_string())?;
            let bad = match guarded(|| add_zero_bias_to_conv(&path, &out)) {
                Got::Panic(p) => Some(format!("panicked: {p}")),
                Got::Err(e) => Some(format!("failed: {e}")),
                Got::Ok(()) => match ModelProto::decode(std::fs::read(&out).map_err(|e| e.to_string())?.as_slice()) { Err(e) => Some(format!("the result does not decode: {e}")), Ok(b) => bias_diff(&m, &b) },
            };
            if let Some(b) = bad { return Err(format!("case {c}: adding zero biases to {m:?}\n{b}")); }
        } else {
            let mut g = GraphProto::default();
            let mut want: Vec<String> = vec![];
            for _ in 0..r.u(0, 7) {
                let op: Option<String> = match r.u(0, 9) { 0 => None, 1 => Some(String::new()), 2 | 3 => Some(r.pick(ODD).to_string()), _ => Some(r.pick(OPS).to_string()) };
                if let Some(o) = &op { if !o.is_empty() && !listed.contains(o) && !want.contains(o) { want.push(o.clone()); } }
                g.node.push(NodeProto { op_type: op, ..Default::default() });
            }
            let desc: Vec<_> = g.node.iter().map(|n| n.op_type.clone()).collect();
            std::fs::write(&path, ModelProto { graph: Some(g), ir_version: Some(8), ..Default::default() }.encode_to_vec()).map_err(|e| e.to_string())?;
            match guarded(|| is_compatible(&path)) {
                Got::Ok((ok, l)) if ok == want.is_empty() && l == want => {}
                Got::Ok(x) => return Err(format!("case {c}: compatibility of a model with operators {desc:?} is {x:?}, expected {want:?} to be missing")),
                Got::Err(e) => return Err(format!("case {c}: compatibility of a model with operators {desc:?}: {e}")),
                Got::Panic(p) => return Err(format!("case {c}: compatibility of a model with operators {desc:?} panics: {p}")),
            }
        }
    }
    Ok(cfg.cases)
}

//! Layer graphs: construction and ordering (G01) and shape inference over whole graphs (S09).
use crate::core::*;
use crate::ops;
use crate::{Cfg, Res};
use jstprove_onnx::graph::{LayerGraph, OpType};
use jstprove_onnx::parser::{ParsedModel, TensorData};
use std::collections::{HashMap, HashSet};

/// every accepted operator name and the operator it stands for (Debug name)
pub fn names() -> Vec<(String, String)> {
    let base = "Add Div Sub Mul Gemm Conv Relu MaxPool BatchNormalization Max Min Cast Clip Exp Reshape Flatten Squeeze Unsqueeze Constant Softmax Sigmoid Gelu Tile Gather LayerNormalization Resize GridSample Transpose Concat Slice TopK Shape Log Expand ReduceMean MatMul AveragePool Pad Split Where Pow Sqrt Tanh ReduceSum Erf ConvTranspose LeakyRelu Identity Neg HardSwish GlobalAveragePool InstanceNormalization GroupNormalization Not And Equal Greater Less ConstantOfShape Sin Cos Range ReduceMax ScatterND GatherElements";
    let mut v: Vec<(String, String)> = base.split(' ').map(|s| (s.to_string(), s.to_string())).collect();
    for (a, b) in [("Int64Gemm", "Gemm"), ("Int64Conv", "Conv"), ("ReLU", "Relu"), ("Int64Relu", "Relu"), ("Int64MaxPool", "MaxPool"), ("Int64BatchNormalization", "BatchNormalization"), ("Int64Max", "Max"), ("Int64Min", "Min"), ("Int64Clip", "Clip"), ("LeakyReLU", "LeakyRelu"), ("Hardswish", "HardSwish")] {
        v.push((a.into(), b.into()));
    }
    v
}
fn name_table() -> Result<u64, String> {
    let t = names();
    for (a, b) in &t {
        match OpType::from_str(a) {
            Ok(o) if format!("{o:?}") == *b => {
                let want = ["Gemm", "Conv", "BatchNormalization", "Mul", "MatMul", "ConvTranspose"].contains(&b.as_str());
                if o.needs_rescale() != want { return Err(format!("operator {a}: needs_rescale is {} instead of {want}", !want)); }
                let so = ["Reshape", "Flatten", "Squeeze", "Unsqueeze"].contains(&b.as_str());
                if o.is_shape_only() != so { return Err(format!("operator {a}: is_shape_only is {} instead of {so}", !so)); }
            }
            o => return Err(format!("operator name {a}: expected {b}, got {o:?}")),
        }
    }
    for bad in ["", "add", "Conv2D", "Relu ", "GatherND", "LSTM", "Foo", "conv", "ReduceMin"] {
        if OpType::from_str(bad).is_ok() { return Err(format!("operator name {bad:?} accepted")); }
    }
    Ok(t.len() as u64 + 9)
}

struct Spec { m: ParsedModel, cyc: bool, bad_op: bool }
fn td(name: &str, v: i64) -> TensorData { TensorData { name: name.into(), dims: vec![1], data_type: 7, float_data: vec![], int_data: vec![v] } }
fn random_model(r: &mut Rng) -> Spec {
    let n = r.u(0, 9);
    let mut m = ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![], outputs: vec![], opset_version: 17 };
    let ni = r.u(0, 3);
    let mut pool: Vec<String> = vec![];
    for k in 0..ni {
        let rank = r.u(0, 4);
        let s: Vec<i64> = (0..rank).map(|_| r.i(-1, 5)).collect();
        m.inputs.push(io(&format!("x{k}"), &s));
        pool.push(format!("x{k}"));
    }
    for k in 0..r.u(0, 3) {
        let nm = format!("w{k}");
        m.initializers.insert(nm.clone(), td(&nm, k as i64));
        if r.p(30) { m.inputs.push(io(&nm, &[2])); }
        pool.push(nm);
    }
    let al = names();
    let mut bad_op = false;
    for k in 0..n {
        if r.p(15) {
            let nm = format!("k{k}");
            m.nodes.push(const_node(&nm, td(&nm, 100 + k as i64)));
            pool.push(nm);
            continue;
        }
        let ins: Vec<String> = (0..r.u(0, 4)).map(|_| if pool.is_empty() || r.p(8) { if r.b() { String::new() } else { "dangling".into() } } else { r.pick(&pool).clone() }).collect();
        let outs: Vec<String> = (0..r.u(1, 2)).map(|j| format!("t{k}_{j}")).collect();
        let op = if r.p(2) { bad_op = true; "Nope".to_string() } else { loop { let c = r.pick(&al).0.clone(); if c != "Constant" { break c; } } };
        m.nodes.push(node(&format!("n{k}"), &op, ins, outs.clone(), &[("a".to_string(), At::I(k as i64))]));
        pool.extend(outs);
    }
    let mut cyc = false;
    if r.p(25) && m.nodes.len() >= 2 {
        // close a cycle through a random pair (a -> .. -> b, then b -> a)
        let a = r.u(0, m.nodes.len() - 2);
        let b = r.u(a + 1, m.nodes.len() - 1);
        let (oa, ob) = (m.nodes[a].outputs[0].clone(), m.nodes[b].outputs[0].clone());
        if m.nodes[a].op_type != "Constant" {
            m.nodes[b].inputs.push(oa);
            m.nodes[a].inputs.push(ob);
            cyc = true;
        }
    }
    if r.p(70) { let mut v = std::mem::take(&mut m.nodes); r.shuffle(&mut v); m.nodes = v; }
    for _ in 0..r.u(0, 2) { if !pool.is_empty() { let o = r.pick(&pool).clone(); m.outputs.push(io(&o, &[])); } }
    Spec { m, cyc, bad_op }
}
fn dump(m: &ParsedModel) -> String {
    let mut ini: Vec<&String> = m.initializers.keys().collect();
    ini.sort();
    format!("inputs {:?}\noutputs {:?}\ninitializers {ini:?}\nnodes:\n{}", m.inputs.iter().map(|i| (&i.name, &i.shape)).collect::<Vec<_>>(), m.outputs.iter().map(|i| (&i.name, &i.shape)).collect::<Vec<_>>(),
        m.nodes.iter().map(|n| format!("  {} {}({:?}) -> {:?} {:?}\n", n.name, n.op_type, n.inputs, n.outputs, n.attributes)).collect::<String>())
}
fn check_graph(s: &Spec) -> Result<(), String> {
    let m = &s.m;
    let got = guarded(|| LayerGraph::from_parsed(m));
    let g = match got {
        Got::Panic(e) => return Err(format!("panicked: {e}")),
        Got::Err(e) => return if s.cyc || s.bad_op { Ok(()) } else { Err(format!("a valid graph was refused: {e}")) },
        Got::Ok(g) => g,
    };
    if s.cyc { return Err("a cyclic graph was accepted".into()); }
    if s.bad_op { return Err("an unknown operator was accepted".into()); }
    let al: HashMap<String, String> = names().into_iter().collect();
    if g.layers.len() != m.nodes.len() { return Err("number of layers".into()); }
    let mut kc: HashMap<&str, &TensorData> = HashMap::new();
    for n in &m.nodes { if n.op_type == "Constant" { if let Some(jstprove_onnx::parser::AttrValue::Tensor(t)) = n.attributes.get("value") { for o in &n.outputs { kc.insert(o, t); } } } }
    for (i, (l, n)) in g.layers.iter().zip(&m.nodes).enumerate() {
        if l.id != i || l.name != n.name || l.inputs != n.inputs || l.outputs != n.outputs || format!("{:?}", l.op_type) != al[&n.op_type] || l.attributes.len() != n.attributes.len() || l.n_bits.is_some() || !l.output_shape.is_empty() || l.needs_rescale != l.op_type.needs_rescale() {
            return Err(format!("layer {i} does not mirror node {i}: {l:?}"));
        }
        for (k, v) in &n.attributes { if format!("{:?}", l.attributes.get(k)) != format!("{:?}", Some(v)) { return Err(format!("attribute {k} of layer {i}")); } }
        let mut want: HashMap<&str, &TensorData> = HashMap::new();
        for x in &n.inputs { if let Some(t) = m.initializers.get(x) { want.insert(x, t); } else if let Some(t) = kc.get(x.as_str()) { want.insert(x, t); } }
        if want.len() != l.weights.len() { return Err(format!("weights of layer {i}: {:?}", l.weights.keys())); }
        for (k, t) in want { if l.weights.get(k).map(|w| (&w.dims, &w.int_data, &w.float_data, w.data_type)) != Some((&t.dims, &t.int_data, &t.float_data, t.data_type)) { return Err(format!("weight {k} of layer {i}")); } }
    }
    let mut pos = vec![usize::MAX; g.layers.len()];
    if g.topo_order.len() != g.layers.len() { return Err(format!("order {:?} is not a permutation", g.topo_order)); }
    for (p, &i) in g.topo_order.iter().enumerate() { if i >= pos.len() || pos[i] != usize::MAX { return Err(format!("order {:?} is not a permutation", g.topo_order)); } pos[i] = p; }
    for (i, n) in m.nodes.iter().enumerate() { for x in &n.inputs { for (j, q) in m.nodes.iter().enumerate() { if i != j && q.outputs.contains(x) && pos[j] > pos[i] { return Err(format!("order {:?}: node {} comes before {} which produces its input {x}", g.topo_order, n.name, q.name)); } } } }
    let it: Vec<usize> = g.iter_topo().map(|l| l.id).collect();
    if it != g.topo_order { return Err("iter_topo does not follow topo_order".into()); }
    let real: Vec<_> = m.inputs.iter().filter(|i| !m.initializers.contains_key(&i.name)).collect();
    if g.input_names != real.iter().map(|i| i.name.clone()).collect::<Vec<_>>() { return Err(format!("input names {:?}", g.input_names)); }
    if g.output_names != m.outputs.iter().map(|i| i.name.clone()).collect::<Vec<_>>() { return Err(format!("output names {:?}", g.output_names)); }
    if g.input_shapes.len() != real.len() { return Err("number of input shapes".into()); }
    for i in real {
        let s: Vec<usize> = i.shape.iter().map(|d| if *d <= 0 { 1 } else { *d as usize }).collect();
        let s = if s.len() >= 2 { s[1..].to_vec() } else { s };
        if g.input_shapes.get(&i.name) != Some(&s) { return Err(format!("input shape of {}: {:?} instead of {s:?}", i.name, g.input_shapes.get(&i.name))); }
    }
    Ok(())
}
pub fn g01(cfg: &Cfg) -> Res {
    let mut n = name_table()?;
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(77_003) ^ c);
        let s = random_model(&mut r);
        if let Err(e) = check_graph(&s) { return Err(format!("case {c}: {e}\n{}", dump(&s.m))); }
        n += 1;
    }
    // long chains in reverse order (deep dependency)
    for len in [50usize, 400] {
        let mut m = ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![io("t0", &[1, 3])], outputs: vec![], opset_version: 17 };
        for k in 0..len { m.nodes.push(node(&format!("n{k}"), "Relu", vec![format!("t{k}")], vec![format!("t{}", k + 1)], &[])); }
        m.nodes.reverse();
        let s = Spec { m, cyc: false, bad_op: false };
        check_graph(&s).map_err(|e| format!("chain of {len}: {e}"))?;
        n += 1;
    }
    Ok(n)
}

/// random multi-layer models with the shape every tensor must get
fn pipeline(r: &mut Rng) -> Option<(ParsedModel, Vec<(String, Vec<i128>)>)> {
    let mut m = ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![], outputs: vec![], opset_version: 17 };
    let mut sh: Vec<(String, Vec<i128>)> = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    for k in 0..r.u(1, 3) {
        let s: Vec<i64> = (0..r.u(1, 4)).map(|_| r.i(1, 4)).collect();
        let nm = format!("x{k}");
        // a negative declared extent is an unknown one and counts as one
        let decl: Vec<i64> = s.iter().map(|d| if *d == 1 && r.b() { -1 } else { *d }).collect();
        m.inputs.push(io(&nm, &decl));
        sh.push((nm, s.iter().map(|d| *d as i128).collect()));
    }
    if r.b() { let s: Vec<i64> = (0..r.u(0, 3)).map(|_| r.i(1, 3)).collect(); let n: i64 = s.iter().product(); let t = K::t(&s, &vec![1; n as usize]); m.initializers.insert("w".into(), t.td("w")); sh.push(("w".into(), t.shape())); }
    for k in 0..r.u(1, 8) {
        let o = format!("t{k}");
        let (a, b) = (r.pick(&sh).clone(), r.pick(&sh).clone());
        let mut outs = vec![o.clone()];
        let (op, ins, at, s): (&str, Vec<String>, Vec<(String, At)>, Vec<i128>) = match r.u(0, 9) {
            0 | 1 => { let op = *r.pick(ops::PASS); let mut ins = vec![a.0.clone()]; if r.b() { ins.push(b.0.clone()); } if op != "LayerNormalization" && r.p(10) { outs.push(format!("{o}_b")); } (op, ins, vec![], a.1.clone()) }
            2 | 3 => (*r.pick(ops::BIN), vec![a.0.clone(), b.0.clone()], vec![], ops::broadcast(&a.1, &b.1)?),
            4 => { let mut p: Vec<i64> = (0..a.1.len() as i64).collect(); r.shuffle(&mut p); let s = p.iter().map(|i| a.1[*i as usize]).collect(); ("Transpose", vec![a.0.clone()], vec![("perm".into(), At::Is(p))], s) }
            5 => { let ax = r.i(0, a.1.len() as i64); ("Flatten", vec![a.0.clone()], vec![("axis".into(), At::I(ax))], vec![a.1[..ax as usize].iter().product(), a.1[ax as usize..].iter().product()]) }
            6 => { let ax = if a.1.is_empty() { return None } else { r.u(0, a.1.len() - 1) }; let mut s = a.1.clone(); s[ax] *= 2; ("Concat", vec![a.0.clone(), a.0.clone()], vec![("axis".into(), At::I(ax as i64))], s) }
            7 => {
                // shape -> constant-of-shape: the extents travel through constants
                let q = format!("s{k}");
                m.nodes.push(node(&format!("sh{k}"), "Shape", vec![a.0.clone()], vec![q.clone()], &[]));
                sh.push((q.clone(), vec![a.1.len() as i128]));
                ("ConstantOfShape", vec![q], vec![], a.1.clone())
            }
            8 => { let q = format!("c{k}"); let n: i128 = a.1.iter().product(); let t = K::v(&[1, -1]); m.nodes.push(const_node(&q, t.td(&q))); sh.push((q.clone(), vec![2])); ("Reshape", vec![a.0.clone(), q], vec![], vec![1, n]) }
            _ => { let ix = format!("i{k}"); let t = K::t(&a.1.iter().map(|d| *d as i64).collect::<Vec<_>>(), &vec![0; a.1.iter().product::<i128>() as usize]); if a.1.is_empty() { return None; } m.initializers.insert(ix.clone(), t.td(&ix)); ("GatherElements", vec![a.0.clone(), ix], vec![("axis".into(), At::I(0))], a.1.clone()) }
        };
        m.nodes.push(node(&format!("n{k}"), op, ins, outs.clone(), &at));
        for q in outs { seen.insert(q.clone()); sh.push((q, s.clone())); }
    }
    // declared output shapes never override what the layers compute
    let last = sh.last().unwrap().clone();
    m.outputs.push(io(&last.0, &if r.b() { vec![] } else { last.1.iter().map(|d| *d as i64 + if r.p(50) { 1 } else { 0 }).collect::<Vec<_>>() }));
    if !seen.contains(&last.0) { m.outputs.clear(); }
    // an output no layer computes keeps its declared shape
    if r.p(20) { let d: Vec<i64> = (0..r.u(1, 3)).map(|_| r.i(-1, 4)).collect(); m.outputs.push(io("ghost", &d)); sh.push(("ghost".into(), d.iter().map(|d| if *d < 0 { 1 } else { *d as i128 }).collect())); }
    let mut v = std::mem::take(&mut m.nodes);
    if r.p(70) { r.shuffle(&mut v); }
    m.nodes = v;
    Some((m, sh))
}
pub fn s09(cfg: &Cfg) -> Res {
    let mut n = 0;
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(91_009) ^ c);
        let (m, sh) = match pipeline(&mut r) { Some(x) => x, None => continue };
        match shapes_of(&m) {
            Got::Ok(s) => for (k, w) in &sh {
                let g: Option<Vec<i128>> = s.get(k).map(|v| v.iter().map(|d| *d as i128).collect());
                if g.as_ref() != Some(w) { return Err(format!("case {c}: tensor {k}: expected {w:?}, got {g:?}\n{}", dump(&m))); }
            },
            e => return Err(format!("case {c}: {e:?}\n{}", dump(&m))),
        }
        n += 1;
    }
    Ok(n)
}

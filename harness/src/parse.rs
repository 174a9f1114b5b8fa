//! Decoding an ONNX file (P01): random protobuf models, written to a file and parsed back.
use crate::core::{guarded, Got, Rng};
use crate::{Cfg, Res};
use jstprove_onnx as jo;
use jo::parser::{parse_onnx, AttrValue, IoSpec, ParsedModel, TensorData};
use jo::{AttributeProto, GraphProto, ModelProto, NodeProto, OperatorSetIdProto, TensorProto, TensorShapeProto, TypeProto, ValueInfoProto};
use prost::Message;
use std::collections::HashMap;

fn name(r: &mut Rng) -> Option<String> { match r.u(0, 9) { 0 => None, 1 => Some(String::new()), _ => Some(format!("n{}", r.u(0, 6))) } }
fn f32v(r: &mut Rng) -> f32 { match r.u(0, 5) { 0 => 0.0, 1 => -0.0, 2 => *r.pick(&[f32::MAX, f32::MIN_POSITIVE, 1.0e-40, f32::INFINITY]), _ => (r.i(-1_000_000, 1_000_000) as f32) / 7.0 } }
fn i64v(r: &mut Rng) -> i64 { match r.u(0, 3) { 0 => r.i(-3, 3), 1 => *r.pick(&[i64::MIN, i64::MAX, -1, 1 << 40, -(1 << 33)]), _ => r.next() as i64 >> r.u(0, 63) } }
fn i32v(r: &mut Rng) -> i32 { match r.u(0, 2) { 0 => r.i(-3, 300) as i32, _ => r.next() as i32 } }

/// a tensor and what it must decode to (None: must be refused)
fn tensor(r: &mut Rng) -> (TensorProto, Option<TensorData>) {
    let dims: Vec<i64> = (0..r.u(0, 3)).map(|_| match r.u(0, 12) { 0 => 0, 1 => 1, _ => r.i(1, 4) }).collect();
    let n = dims.iter().product::<i64>() as usize;
    let mut t = TensorProto { dims: dims.clone(), name: name(r), ..Default::default() };
    let dt = *r.pick(&[1, 1, 1, 7, 7, 7, 6, 6, 11, 11, 9, 9, 2, 3, 4, 5, 10, 16, 8, 12, 13, 14, 0, 17, 99]);
    t.data_type = if dt == 0 && r.b() { None } else { Some(dt) };
    let (mut fl, mut il): (Vec<f64>, Vec<i64>) = (vec![], vec![]);
    let mut ok;
    if r.b() {
        // raw bytes, little-endian
        let mut raw = vec![];
        ok = true;
        match dt {
            1 => for _ in 0..n { let v = f32v(r); raw.extend(v.to_le_bytes()); fl.push(v as f64); },
            11 => for _ in 0..n { let v = f32v(r) as f64 * 1.1; raw.extend(v.to_le_bytes()); fl.push(v); },
            6 => for _ in 0..n { let v = i32v(r); raw.extend(v.to_le_bytes()); il.push(v as i64); },
            7 => for _ in 0..n { let v = i64v(r); raw.extend(v.to_le_bytes()); il.push(v); },
            9 => for _ in 0..n { let v = *r.pick(&[0u8, 0, 1, 1, 2, 255]); raw.push(v); il.push((v != 0) as i64); },
            2 => { for _ in 0..n { raw.push(r.next() as u8); } ok = false; }
            _ => { for _ in 0..2 * n { raw.push(r.next() as u8); } ok = false; }
        }
        if r.p(10) {
            match r.u(0, 2) { 0 => { raw.push(7); ok = false; } 1 => { if !raw.is_empty() { raw.pop(); ok = false; } } _ => { let w = match dt { 1 | 6 => 4, 9 => 1, _ => 8 }; for _ in 0..w { raw.push(1); } ok = false; } }
        }
        t.raw_data = Some(raw);
    } else {
        ok = matches!(dt, 1 | 2 | 3 | 4 | 5 | 6 | 7 | 9 | 11);
        match dt {
            1 => for _ in 0..n { let v = f32v(r); t.float_data.push(v); fl.push(v as f64); },
            11 => for _ in 0..n { let v = f32v(r) as f64 * 1.1; t.double_data.push(v); fl.push(v); },
            7 => for _ in 0..n { let v = i64v(r); t.int64_data.push(v); il.push(v); },
            12 | 13 => for _ in 0..n { t.uint64_data.push(r.next() >> 40); },
            8 => for _ in 0..n { t.string_data.push(b"x".to_vec()); },
            _ => for _ in 0..n { let v = i32v(r); t.int32_data.push(v); il.push(v as i64); },
        }
        if ok && r.p(10) {
            match dt { 1 => { t.float_data.push(1.0); } 11 => { t.double_data.push(1.0); } 7 => { t.int64_data.push(1); } _ => { t.int32_data.push(1); } }
            ok = false;
        } else if ok && n > 0 && r.p(8) {
            match dt { 1 => { t.float_data.pop(); } 11 => { t.double_data.pop(); } 7 => { t.int64_data.pop(); } _ => { t.int32_data.pop(); } }
            ok = false;
        }
    }
    if r.p(4) && !t.dims.is_empty() { let k = r.u(0, t.dims.len() - 1); t.dims[k] = *r.pick(&[-1, -2, i64::MIN]); ok = false; }
    let want = TensorData { name: t.name.clone().unwrap_or_default(), dims, data_type: t.data_type.unwrap_or(0), float_data: fl, int_data: il };
    (t, if ok { Some(want) } else { None })
}
fn same_t(a: &TensorData, b: &TensorData) -> bool {
    a.name == b.name && a.dims == b.dims && a.data_type == b.data_type && a.int_data == b.int_data && a.float_data.len() == b.float_data.len() && a.float_data.iter().zip(&b.float_data).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn same_a(a: &AttrValue, b: &AttrValue) -> bool {
    match (a, b) {
        (AttrValue::Float(x), AttrValue::Float(y)) => x.to_bits() == y.to_bits(),
        (AttrValue::Int(x), AttrValue::Int(y)) => x == y,
        (AttrValue::String(x), AttrValue::String(y)) => x == y,
        (AttrValue::Ints(x), AttrValue::Ints(y)) => x == y,
        (AttrValue::Floats(x), AttrValue::Floats(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits()),
        (AttrValue::Tensor(x), AttrValue::Tensor(y)) => same_t(x, y),
        _ => false,
    }
}
/// attribute message; Err(()): must be refused, Ok(None): dropped
fn attribute(r: &mut Rng) -> (AttributeProto, Result<Option<AttrValue>, ()>) {
    let mut a = AttributeProto { name: name(r), ..Default::default() };
    let ty = *r.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 6, 7, 7, 5, 8, 9, 0, 14, 77, -1]);
    a.r#type = if ty == -1 { None } else { Some(ty) };
    let set = r.p(85);
    let mut w = Ok(None);
    match ty {
        1 => { let v = f32v(r); if set { a.f = Some(v); } w = Ok(Some(AttrValue::Float(if set { v } else { 0.0 }))); }
        2 => { let v = i64v(r); if set { a.i = Some(v); } w = Ok(Some(AttrValue::Int(if set { v } else { 0 }))); }
        3 => { let v: &[u8] = *r.pick(&[&b"VALID"[..], b"", b"a\xff\xfeb", "é☃".as_bytes()]); if set { a.s = Some(v.to_vec()); } w = Ok(Some(AttrValue::String(if set { String::from_utf8_lossy(v).into_owned() } else { String::new() }))); }
        4 => { let (t, td) = tensor(r); if set { a.t = Some(t); w = td.map(|t| Some(AttrValue::Tensor(t))).ok_or(()); } }
        6 => { a.floats = (0..r.u(0, 4)).map(|_| f32v(r)).collect(); w = Ok(Some(AttrValue::Floats(a.floats.clone()))); }
        7 => { a.ints = (0..r.u(0, 4)).map(|_| i64v(r)).collect(); w = Ok(Some(AttrValue::Ints(a.ints.clone()))); }
        _ => {}
    }
    // fields of other kinds must not matter
    if r.p(15) { if ty != 2 { a.i = Some(5); } if ty != 7 { a.ints = vec![1, 2]; } if ty != 1 { a.f = Some(2.0); } }
    (a, w)
}
fn value_info(r: &mut Rng) -> (ValueInfoProto, IoSpec) {
    use jo::tensor_shape_proto::{dimension::Value as Dv, Dimension};
    use jo::type_proto::{Sequence, Tensor, Value};
    let mut v = ValueInfoProto { name: name(r), ..Default::default() };
    let mut w = IoSpec { name: v.name.clone().unwrap_or_default(), shape: vec![], elem_type: 0 };
    match r.u(0, 9) {
        0 => {}
        1 => v.r#type = Some(TypeProto { value: None, ..Default::default() }),
        2 => v.r#type = Some(TypeProto { value: Some(Value::SequenceType(Box::new(Sequence { elem_type: None }))), ..Default::default() }),
        _ => {
            let mut t = Tensor::default();
            if r.p(90) { let e = *r.pick(&[1, 7, 11, 10]); t.elem_type = Some(e); w.elem_type = e; }
            if r.p(90) {
                let mut s = TensorShapeProto::default();
                for _ in 0..r.u(0, 4) {
                    let (d, x) = match r.u(0, 5) { 0 => (Some(Dv::DimParam("batch".into())), -1), 1 => (None, -1), 2 => (Some(Dv::DimValue(0)), 0), _ => { let k = r.i(1, 500); (Some(Dv::DimValue(k)), k) } };
                    s.dim.push(Dimension { value: d, ..Default::default() });
                    w.shape.push(x);
                }
                t.shape = Some(s);
            }
            v.r#type = Some(TypeProto { value: Some(Value::TensorType(t)), ..Default::default() });
        }
    }
    (v, w)
}
struct Wn { name: String, op: String, dom: String, ins: Vec<String>, outs: Vec<String>, at: HashMap<String, AttrValue> }
struct W { nodes: Vec<Wn>, inits: HashMap<String, TensorData>, ins: Vec<IoSpec>, outs: Vec<IoSpec>, opset: i64 }

fn model(r: &mut Rng) -> (ModelProto, Option<W>) {
    let mut g = GraphProto::default();
    let mut w = W { nodes: vec![], inits: HashMap::new(), ins: vec![], outs: vec![], opset: 0 };
    let mut ok = true;
    // most models are all valid: retry invalid pieces there
    let strict = r.p(75);
    for _ in 0..r.u(0, 4) {
        let (t, td) = loop { let x = tensor(r); if !strict || x.1.is_some() { break x; } };
        match td { Some(td) => { w.inits.insert(t.name.clone().unwrap_or_default(), td); } None => ok = false }
        g.initializer.push(t);
    }
    for k in 0..r.u(0, 4) {
        let mut n = NodeProto { name: name(r), op_type: name(r), domain: name(r), ..Default::default() };
        n.input = (0..r.u(0, 3)).map(|_| name(r).unwrap_or_default()).collect();
        n.output = (0..r.u(0, 3)).map(|_| name(r).unwrap_or_default()).collect();
        let mut at = HashMap::new();
        for _ in 0..r.u(0, 4) {
            let (a, v) = loop { let x = attribute(r); if !strict || x.1.is_ok() { break x; } };
            if a.name.is_some() { match v { Ok(Some(v)) => { at.insert(a.name.clone().unwrap(), v); } Ok(None) => {} Err(()) => ok = false } }
            n.attribute.push(a);
        }
        w.nodes.push(Wn { name: n.name.clone().unwrap_or_else(|| format!("node_{k}")), op: n.op_type.clone().unwrap_or_default(), dom: n.domain.clone().unwrap_or_default(), ins: n.input.clone(), outs: n.output.clone(), at });
        g.node.push(n);
    }
    for _ in 0..r.u(0, 3) { let (v, s) = value_info(r); g.input.push(v); w.ins.push(s); }
    for _ in 0..r.u(0, 3) { let (v, s) = value_info(r); g.output.push(v); w.outs.push(s); }
    let mut m = ModelProto::default();
    let mut best: Option<i64> = None;
    for _ in 0..r.u(0, 3) {
        let o = OperatorSetIdProto { domain: r.pick(&[None, None, Some(String::new()), Some("ai.onnx.ml".to_string())]).clone(), version: match r.u(0, 6) { 0 => None, _ => Some(r.i(1, 21)) } };
        if o.domain.as_deref().unwrap_or("").is_empty() { let v = o.version.unwrap_or(0); best = Some(best.map_or(v, |b: i64| b.max(v))); }
        m.opset_import.push(o);
    }
    w.opset = best.unwrap_or(0);
    if r.p(97) { m.graph = Some(g); } else { ok = false; }
    (m, if ok { Some(w) } else { None })
}
fn differs(g: &ParsedModel, w: &W) -> Option<String> {
    if g.opset_version != w.opset { return Some(format!("opset {} instead of {}", g.opset_version, w.opset)); }
    for (what, a, b) in [("input", &g.inputs, &w.ins), ("output", &g.outputs, &w.outs)] {
        if a.len() != b.len() || a.iter().zip(b.iter()).any(|(x, y)| x.name != y.name || x.shape != y.shape || x.elem_type != y.elem_type) { return Some(format!("{what}s {a:?}\ninstead of {b:?}")); }
    }
    if g.initializers.len() != w.inits.len() { return Some(format!("initializers {:?} instead of {:?}", g.initializers.keys(), w.inits.keys())); }
    for (k, v) in &w.inits { if !g.initializers.get(k).map_or(false, |x| same_t(x, v)) { return Some(format!("initializer {k:?} is {:?}\ninstead of {v:?}", g.initializers.get(k))); } }
    if g.nodes.len() != w.nodes.len() { return Some(format!("{} nodes instead of {}", g.nodes.len(), w.nodes.len())); }
    for (k, (x, y)) in g.nodes.iter().zip(&w.nodes).enumerate() {
        if x.name != y.name || x.op_type != y.op || x.domain != y.dom || x.inputs != y.ins || x.outputs != y.outs { return Some(format!("node {k} is {x:?}, expected {:?} {:?} {:?} {:?} {:?}", y.name, y.op, y.dom, y.ins, y.outs)); }
        if x.attributes.len() != y.at.len() { return Some(format!("node {k} has attributes {:?} instead of {:?}", x.attributes, y.at)); }
        for (n, v) in &y.at { if !x.attributes.get(n).map_or(false, |z| same_a(z, v)) { return Some(format!("node {k} attribute {n:?} is {:?} instead of {v:?}", x.attributes.get(n))); } }
    }
    None
}
pub fn p01(cfg: &Cfg) -> Res {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("m.onnx");
    for c in 0..cfg.cases {
        let mut r = Rng::new(cfg.seed.wrapping_mul(1_000_033) ^ c);
        let (m, w) = model(&mut r);
        std::fs::write(&path, m.encode_to_vec()).map_err(|e| e.to_string())?;
        let bad = match (guarded(|| parse_onnx(&path)), &w) {
            (Got::Panic(p), _) => Some(format!("panicked: {p}")),
            (Got::Ok(_), None) => Some("was accepted although a tensor's data do not match its dims or type (or there is no graph)".to_string()),
            (Got::Err(e), Some(_)) => Some(format!("was refused: {e}")),
            (Got::Ok(g), Some(w)) => {
                let mut bad = differs(&g, w);
                for t in g.initializers.values() {
                    let (n, fv) = (t.dims.iter().product::<i64>() as usize, t.as_f64_vec());
                    if t.total_elements() != n || fv.len() != n || t.shape().iter().map(|d| *d as i64).ne(t.dims.iter().copied()) || (t.float_data.is_empty() && fv.iter().zip(&t.int_data).any(|(a, b)| *a != *b as f64)) || (!t.float_data.is_empty() && fv.iter().zip(&t.float_data).any(|(a, b)| a.to_bits() != b.to_bits())) {
                        bad = Some(format!("accessors of {t:?}: {} elements, shape {:?}, {fv:?}", t.total_elements(), t.shape()));
                    }
                }
                bad
            }
            (Got::Err(_), None) => None,
        };
        if let Some(b) = bad { return Err(format!("case {c}: the file holding {m:?}\n{b}")); }
    }
    Ok(cfg.cases)
}

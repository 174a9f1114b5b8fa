//! Deterministic generator, single-operator problems and the call into the real crate.
use jstprove_onnx::graph::LayerGraph;
use jstprove_onnx::parser::{AttrValue, IoSpec, ParsedModel, ParsedNode, TensorData};
use jstprove_onnx::shape_inference::infer_all_shapes;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// lo..=hi
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
    pub fn u(&mut self, lo: usize, hi: usize) -> usize { self.i(lo as i64, hi as i64) as usize }
    pub fn b(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn p(&mut self, pct: u64) -> bool { self.next() % 100 < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.u(0, v.len() - 1)] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.u(0, i); v.swap(i, j); } }
}

/// a constant: dims, values, floats, onnx dtype
#[derive(Clone, Debug, PartialEq)]
pub struct K { pub dims: Vec<i64>, pub ints: Vec<i64>, pub floats: Vec<f64>, pub dt: i32 }
impl K {
    pub fn v(v: &[i64]) -> K { K { dims: vec![v.len() as i64], ints: v.to_vec(), floats: vec![], dt: 7 } }
    pub fn s(v: i64) -> K { K { dims: vec![], ints: vec![v], floats: vec![], dt: 7 } }
    pub fn t(dims: &[i64], v: &[i64]) -> K { K { dims: dims.to_vec(), ints: v.to_vec(), floats: vec![], dt: 7 } }
    pub fn f(v: &[f64]) -> K { K { dims: vec![v.len() as i64], ints: vec![], floats: v.to_vec(), dt: 1 } }
    pub fn td(&self, name: &str) -> TensorData {
        TensorData { name: name.into(), dims: self.dims.clone(), data_type: self.dt, float_data: self.floats.clone(), int_data: self.ints.clone() }
    }
    pub fn vals(&self) -> Vec<i64> { if !self.ints.is_empty() { self.ints.clone() } else { self.floats.iter().map(|f| *f as i64).collect() } }
    pub fn shape(&self) -> Vec<i128> { self.dims.iter().map(|d| *d as i128).collect() }
}
#[derive(Clone, Debug)]
pub enum In {
    /// activation with a known shape
    A(Vec<i64>),
    /// compile-time constant
    C(K),
    /// omitted optional input (empty name)
    E,
    /// a name nobody defines
    U,
}
impl In {
    pub fn shape(&self) -> Option<Vec<i128>> {
        match self { In::A(s) => Some(s.iter().map(|d| *d as i128).collect()), In::C(k) => Some(k.shape()), _ => None }
    }
    pub fn konst(&self) -> Option<Vec<i64>> { match self { In::C(k) => Some(k.vals()), _ => None } }
    pub fn present(&self) -> bool { !matches!(self, In::E) }
}
#[derive(Clone, Debug)]
pub enum At { I(i64), Is(Vec<i64>), S(String), F(f32), Fs(Vec<f32>) }
#[derive(Clone, Debug)]
pub struct Prob { pub op: String, pub ins: Vec<In>, pub at: Vec<(String, At)>, pub nout: usize, pub how: u64 }
impl Prob {
    pub fn new(op: &str, ins: Vec<In>) -> Prob { Prob { op: op.into(), ins, at: vec![], nout: 1, how: 0 } }
    pub fn a(mut self, n: &str, v: At) -> Prob { self.at.push((n.into(), v)); self }
    pub fn int(&self, n: &str) -> Option<i64> { self.at.iter().find(|(k, _)| k == n).and_then(|(_, v)| if let At::I(x) = v { Some(*x) } else { None }) }
    pub fn ints(&self, n: &str) -> Option<Vec<i64>> { self.at.iter().find(|(k, _)| k == n).and_then(|(_, v)| if let At::Is(x) = v { Some(x.clone()) } else { None }) }
    pub fn shape(&self, k: usize) -> Option<Vec<i128>> { self.ins.get(k).and_then(|i| i.shape()) }
    pub fn konst(&self, k: usize) -> Option<Vec<i64>> { self.ins.get(k).and_then(|i| i.konst()) }
    pub fn present(&self, k: usize) -> bool { self.ins.get(k).map_or(false, |i| i.present()) }
}
pub fn attr(v: &At) -> AttrValue {
    match v { At::I(x) => AttrValue::Int(*x), At::Is(x) => AttrValue::Ints(x.clone()), At::S(s) => AttrValue::String(s.clone()), At::F(f) => AttrValue::Float(*f), At::Fs(f) => AttrValue::Floats(f.clone()) }
}
pub fn node(name: &str, op: &str, inputs: Vec<String>, outputs: Vec<String>, at: &[(String, At)]) -> ParsedNode {
    ParsedNode { name: name.into(), op_type: op.into(), inputs, outputs, attributes: at.iter().map(|(k, v)| (k.clone(), attr(v))).collect(), domain: String::new() }
}
pub fn const_node(out: &str, td: TensorData) -> ParsedNode {
    let mut m = HashMap::new();
    m.insert("value".to_string(), AttrValue::Tensor(td));
    ParsedNode { name: format!("k_{out}"), op_type: "Constant".into(), inputs: vec![], outputs: vec![out.into()], attributes: m, domain: String::new() }
}
pub fn io(name: &str, shape: &[i64]) -> IoSpec { IoSpec { name: name.into(), shape: shape.to_vec(), elem_type: 1 } }

#[derive(Debug, Clone, PartialEq)]
pub enum Got<T> { Ok(T), Err(String), Panic(String) }
pub fn guarded<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Got::Ok(v),
        Ok(Err(e)) => Got::Err(format!("{e:#}")),
        Err(p) => Got::Panic(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())),
    }
}
pub fn shapes_of(m: &ParsedModel) -> Got<HashMap<String, Vec<usize>>> {
    guarded(|| { let g = LayerGraph::from_parsed(m)?; infer_all_shapes(m, &g) })
}
/// model that feeds the problem's inputs in the requested way; constants are presented as
/// initializers, Constant nodes or (foldable) chains depending on `how`
pub fn build(p: &Prob) -> ParsedModel {
    let mut m = ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![], outputs: vec![], opset_version: 17 };
    let mut r = Rng::new(p.how);
    let mut names = vec![];
    let mut pre = vec![];
    for (k, i) in p.ins.iter().enumerate() {
        let n = format!("in{k}");
        match i {
            In::A(s) => { m.inputs.push(io(&n, s)); names.push(n); }
            In::E => names.push(String::new()),
            In::U => names.push(format!("nowhere{k}")),
            In::C(c) => {
                let mode = if p.how == 0 { 0 } else { r.u(0, 3) };
                match mode {
                    0 => { m.initializers.insert(n.clone(), c.td(&n)); }
                    1 => pre.push(const_node(&n, c.td(&n))),
                    2 => {
                        let b = format!("{n}_b");
                        m.initializers.insert(b.clone(), c.td(&b));
                        pre.push(node(&format!("cast{k}"), "Cast", vec![b], vec![n.clone()], &[("to".into(), At::I(c.dt as i64))]));
                    }
                    _ => {
                        let b = format!("{n}_b"); let u = format!("{n}_u");
                        pre.push(const_node(&b, c.td(&b)));
                        let ax = ("axes".to_string(), At::Is(vec![0]));
                        pre.push(node(&format!("us{k}"), "Unsqueeze", vec![b], vec![u.clone()], &[ax.clone()]));
                        pre.push(node(&format!("sq{k}"), "Squeeze", vec![u], vec![n.clone()], &[ax]));
                    }
                }
                names.push(n);
            }
        }
    }
    let outs: Vec<String> = (0..p.nout).map(|k| format!("out{k}")).collect();
    m.nodes = pre;
    m.nodes.push(node("op", &p.op, names, outs.clone(), &p.at));
    if p.how != 0 && r.b() { m.nodes.reverse(); }
    for o in &outs { m.outputs.push(io(o, &[])); }
    m
}
/// outputs of the operator, in order (None: no shape recorded)
pub fn run(p: &Prob) -> Got<Vec<Option<Vec<i128>>>> {
    let m = build(p);
    match shapes_of(&m) {
        Got::Ok(s) => Got::Ok((0..p.nout).map(|k| s.get(&format!("out{k}")).map(|v| v.iter().map(|d| *d as i128).collect())).collect()),
        Got::Err(e) => Got::Err(e),
        Got::Panic(e) => Got::Panic(e),
    }
}
/// what the property demands
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Shapes(Vec<Vec<i128>>),
    /// the request is invalid and has to be refused
    Refuse,
    /// outside the property; only a crash would be reported (never generated by default)
    Any,
}
pub fn same(p: &Prob, s: Vec<i128>) -> Want { Want::Shapes(vec![s; p.nout]) }
pub struct Fail { pub what: String }
pub fn check_prob(p: &Prob, w: &Want) -> Option<Fail> {
    let g = run(p);
    let ok = match (&g, w) {
        (Got::Panic(_), _) => false,
        (_, Want::Any) => true,
        (Got::Err(_), Want::Refuse) => true,
        (Got::Ok(v), Want::Shapes(s)) => v.len() == s.len() && v.iter().zip(s).all(|(a, b)| a.as_ref() == Some(b)),
        _ => false,
    };
    if ok { None } else { Some(Fail { what: format!("input: {p:?}\nexpected: {w:?}\ngot: {g:?}") }) }
}

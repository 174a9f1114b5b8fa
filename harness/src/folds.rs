//! Compile-time evaluation of integer tensors (S08): chains of foldable operators are evaluated by a
//! reference interpreter and observed through ConstantOfShape / Range.
use crate::core::*;
use crate::ops;
use crate::{Cfg, Res};
use jstprove_onnx::parser::ParsedModel;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct T { pub shape: Vec<i128>, pub v: Vec<f64>, pub float: bool }
impl T { fn n(&self) -> usize { self.v.len() } }
fn strides(s: &[i128]) -> Vec<usize> { let mut o = vec![1usize; s.len()]; for i in (0..s.len().saturating_sub(1)).rev() { o[i] = o[i + 1] * s[i + 1] as usize; } o }
/// reference evaluation; None: not foldable / invalid (then nothing is demanded)
pub fn eval(op: &str, ins: &[T], at: &[(String, At)]) -> Option<T> {
    let int = |n: &str| at.iter().find(|(k, _)| k == n).and_then(|(_, v)| if let At::I(x) = v { Some(*x) } else { None });
    let ints = |n: &str| at.iter().find(|(k, _)| k == n).and_then(|(_, v)| if let At::Is(x) = v { Some(x.clone()) } else { None });
    let li = |t: &T| t.v.iter().map(|x| *x as i64).collect::<Vec<i64>>();
    let x = ins.first()?;
    match op {
        "Cast" => { let to = int("to")?; let f = to == 1 || to == 11; Some(T { shape: x.shape.clone(), v: x.v.iter().map(|v| if f { *v } else { v.trunc() }).collect(), float: f }) }
        "Unsqueeze" => { let ax = ints("axes").or_else(|| ins.get(1).map(li))?; Some(T { shape: ops::unsqueeze_to(&x.shape, &ax)?, ..x.clone() }) }
        "Squeeze" => { let ax = ints("axes").or_else(|| ins.get(1).map(li)); Some(T { shape: ops::squeeze_to(&x.shape, ax)?, ..x.clone() }) }
        "Reshape" => Some(T { shape: ops::reshape_to(&x.shape, &li(ins.get(1)?), false)?, ..x.clone() }),
        "Concat" => {
            if ins.iter().any(|t| t.shape.len() != 1 || t.float != x.float) || int("axis")?.abs() > 1 || int("axis")? == 1 { return None; }
            let v: Vec<f64> = ins.iter().flat_map(|t| t.v.clone()).collect();
            Some(T { shape: vec![v.len() as i128], v, float: x.float })
        }
        "Slice" => {
            if x.shape.len() != 1 { return None; }
            let (s, e) = (li(ins.get(1)?), li(ins.get(2)?));
            let sp = ins.get(4).map(li).unwrap_or(vec![1]);
            let (s, n) = ops::slice_axis(x.shape[0], s[0], e[0], sp[0])?;
            let v: Vec<f64> = (0..n).map(|k| x.v[(s + k * sp[0] as i128) as usize]).collect();
            Some(T { shape: vec![n], v, float: x.float })
        }
        "Gather" => {
            let ix = ins.get(1)?; let sh = if x.shape.is_empty() { vec![1] } else { x.shape.clone() };
            let a = int("axis").unwrap_or(0); let a = (if a < 0 { a + sh.len() as i64 } else { a }) as usize;
            if a >= sh.len() { return None; }
            let (o, d, i) = (sh[..a].iter().product::<i128>() as usize, sh[a] as usize, sh[a + 1..].iter().product::<i128>() as usize);
            let mut v = vec![];
            for oo in 0..o { for k in &ix.v { let k = *k as i64; let k = if k < 0 { k + d as i64 } else { k }; if k < 0 || k >= d as i64 { return None; } for ii in 0..i { v.push(x.v[(oo * d + k as usize) * i + ii]); } } }
            let mut shape = sh[..a].to_vec(); shape.extend(&ix.shape); shape.extend(&sh[a + 1..]);
            Some(T { shape, v, float: x.float })
        }
        "GatherElements" => {
            let ix = ins.get(1)?; let a = int("axis").unwrap_or(0); let r = x.shape.len(); let a = (if a < 0 { a + r as i64 } else { a }) as usize;
            if r == 0 || ix.shape.len() != r || a >= r { return None; }
            if (0..r).any(|i| i != a && x.shape[i] != ix.shape[i]) { return None; }
            let (si, sx) = (strides(&ix.shape), strides(&x.shape));
            let mut v = vec![];
            for f in 0..ix.n() {
                let mut p = 0;
                for d in 0..r {
                    let mut c = (f / si[d]) % ix.shape[d] as usize;
                    if d == a { let k = ix.v[f] as i64; let k = if k < 0 { k + x.shape[a] as i64 } else { k }; if k < 0 || k as i128 >= x.shape[a] { return None; } c = k as usize; }
                    p += c * sx[d];
                }
                v.push(x.v[p]);
            }
            Some(T { shape: ix.shape.clone(), v, float: x.float })
        }
        _ => None,
    }
}
struct B { m: ParsedModel, t: HashMap<String, T>, log: Vec<String>, n: usize }
impl B {
    fn k(&mut self, r: &mut Rng, t: T) -> String {
        self.n += 1; let n = format!("c{}", self.n);
        let k = K { dims: t.shape.iter().map(|d| *d as i64).collect(), ints: if t.float { vec![] } else { t.v.iter().map(|x| *x as i64).collect() }, floats: if t.float { t.v.clone() } else { vec![] }, dt: if t.float { 1 } else { 7 } };
        let init = r.b();
        self.log.push(format!("{n} = {} {k:?}", if init { "initializer" } else { "Constant" }));
        if init { self.m.initializers.insert(n.clone(), k.td(&n)); } else { self.m.nodes.push(const_node(&n, k.td(&n))); }
        self.t.insert(n.clone(), t); n
    }
    fn kv(&mut self, r: &mut Rng, v: &[i64]) -> String { self.k(r, T { shape: vec![v.len() as i128], v: v.iter().map(|x| *x as f64).collect(), float: false }) }
    fn op(&mut self, op: &str, ins: Vec<String>, at: Vec<(String, At)>) -> Option<String> {
        let ts: Vec<T> = ins.iter().filter(|n| !n.is_empty()).map(|n| self.t[n].clone()).collect();
        let ts = if op == "Slice" && ins.len() == 5 && ins[3].is_empty() { vec![ts[0].clone(), ts[1].clone(), ts[2].clone(), ts[0].clone(), ts[3].clone()] } else { ts };
        let t = eval(op, &ts, &at)?;
        self.n += 1; let n = format!("v{}", self.n);
        self.log.push(format!("{n} = {op}({}) {at:?}", ins.join(",")));
        self.m.nodes.push(node(&format!("n{}", self.n), op, ins, vec![n.clone()], &at));
        self.t.insert(n.clone(), t);
        Some(n)
    }
}
pub fn run(cfg: &Cfg) -> Res {
    let mut cnt = 0;
    for c in 0..cfg.cases * 4 {
        let mut r = Rng::new(cfg.seed.wrapping_mul(7919) ^ (c << 20) ^ 0x508);
        let mut b = B { m: ParsedModel { nodes: vec![], initializers: HashMap::new(), inputs: vec![], outputs: vec![], opset_version: 17 }, t: HashMap::new(), log: vec![], n: 0 };
        let r = &mut r;
        let float = r.p(12);
        // start: the shape of an activation, or a constant
        let mut cur = if !float && r.p(40) {
            let d: Vec<i64> = (0..r.u(1, 5)).map(|_| r.i(1, 9)).collect();
            b.m.inputs.push(io("act", &d));
            let mut at = vec![]; let k = d.len() as i64;
            if r.p(40) { at.push(("start".to_string(), At::I(r.i(-k - 1, k)))); } if r.p(40) { at.push(("end".to_string(), At::I(r.i(-k - 1, k + 1)))); }
            let mut p = Prob::new("Shape", vec![In::A(d.clone())]); p.at = at.clone();
            let v = ops::shape_vals(&p).unwrap();
            b.log.push(format!("v0 = Shape(act {d:?}) {at:?}"));
            b.m.nodes.push(node("shape", "Shape", vec!["act".into()], vec!["v0".into()], &at));
            b.t.insert("v0".into(), T { shape: vec![v.len() as i128], v: v.iter().map(|x| *x as f64).collect(), float: false });
            "v0".to_string()
        } else {
            let s: Vec<i128> = (0..r.u(0, 3)).map(|_| r.i(1, 4) as i128).collect();
            let n: i128 = s.iter().product();
            let v = (0..n).map(|_| r.i(0, 9) as f64 + if float { *r.pick(&[0.0, 0.5, 0.25]) } else { 0.0 }).collect();
            b.k(r, T { shape: s, v, float })
        };
        for _ in 0..r.u(1, 5) {
            let x = b.t[&cur].clone(); let rank = x.shape.len();
            if x.v.is_empty() { break; }
            let nx = match r.u(0, 7) {
                0 => b.op("Cast", vec![cur.clone()], vec![("to".into(), At::I(*r.pick(if float { &[7i64, 1, 11][..] } else { &[7i64, 7, 1][..] })))]),
                1 => { let na = r.u(1, 2); let mut c: Vec<i64> = (0..(rank + na) as i64).collect(); r.shuffle(&mut c); c.truncate(na); for a in c.iter_mut() { if r.b() { *a -= (rank + na) as i64; } }
                    if r.b() { b.op("Unsqueeze", vec![cur.clone()], vec![("axes".into(), At::Is(c))]) } else { let k = b.kv(r, &c); b.op("Unsqueeze", vec![cur.clone(), k], vec![]) } }
                2 => { let mut c: Vec<i64> = (0..rank as i64).filter(|i| x.shape[*i as usize] == 1).collect(); r.shuffle(&mut c); let n = r.u(0, c.len()); c.truncate(n);
                    if n == 0 { b.op("Squeeze", vec![cur.clone()], vec![]) } else { for a in c.iter_mut() { if r.b() { *a -= rank as i64; } } if r.b() { b.op("Squeeze", vec![cur.clone()], vec![("axes".into(), At::Is(c))]) } else { let k = b.kv(r, &c); b.op("Squeeze", vec![cur.clone(), k], vec![]) } } }
                3 => { let mut t: Vec<i64> = match r.u(0, 3) { 0 => vec![-1], 1 => vec![1, -1], 2 => vec![-1, 1], _ => x.shape.iter().map(|d| *d as i64).collect() };
                    for i in 0..t.len() { if i < rank && r.p(30) && t[i] == x.shape[i] as i64 { t[i] = 0; } } if r.p(20) && !t.is_empty() && !t.contains(&-1) { let k = r.u(0, t.len() - 1); t[k] = -1; }
                    if t.is_empty() { continue; }
                    let k = b.kv(r, &t); b.op("Reshape", vec![cur.clone(), k], vec![]) }
                4 if rank == 1 => { let mut ins = vec![cur.clone()]; for _ in 0..r.u(0, 2) { let k = if r.p(20) { cur.clone() } else { let n = r.u(1, 3); let v = (0..n).map(|_| r.i(0, 9) as f64).collect(); b.k(r, T { shape: vec![n as i128], v, float: x.float }) }; ins.push(k); } r.shuffle(&mut ins);
                    let a = *r.pick(&[0i64, -1]); if x.float { continue; } b.op("Concat", ins, vec![("axis".into(), At::I(a))]) }
                5 if rank == 1 => { let n = x.shape[0] as i64; let e = if r.p(15) { i64::MAX } else { r.i(-n - 1, n + 2) }; let s = b.kv_(r, r_s(n, c)); let e = b.kv(r, &[e]); let mut ins = vec![cur.clone(), s, e];
                    let sp = r.p(40); if r.b() { let k = b.kv(r, &[0]); ins.push(k); } else if sp { ins.push(String::new()); } if sp { let st = if r.p(4) { i64::MAX } else { r.i(1, 3) }; let k = b.kv(r, &[st]); ins.push(k); }
                    b.op("Slice", ins, vec![]) }
                6 => { let sh = if rank == 0 { vec![1] } else { x.shape.clone() }; let a = r.i(0, sh.len() as i64 - 1); let d = sh[a as usize] as i64; if d == 0 { continue; }
                    let is: Vec<i128> = (0..r.u(0, 2)).map(|_| r.i(1, 3) as i128).collect(); let n: i128 = is.iter().product(); let v = (0..n).map(|_| r.i(-d, d - 1) as f64).collect();
                    let k = b.k(r, T { shape: is, v, float: false }); let a = if r.b() { a } else { a - sh.len() as i64 };
                    b.op("Gather", vec![cur.clone(), k], vec![("axis".into(), At::I(a))]) }
                7 if rank > 0 => { let a = r.i(0, rank as i64 - 1); let d = x.shape[a as usize] as i64; if d == 0 { continue; } let mut is = x.shape.clone(); is[a as usize] = r.i(1, 4) as i128; let n: i128 = is.iter().product(); let v = (0..n).map(|_| r.i(-d, d - 1) as f64).collect();
                    let k = b.k(r, T { shape: is, v, float: false }); let a = if r.b() { a } else { a - rank as i64 };
                    b.op("GatherElements", vec![cur.clone(), k], vec![("axis".into(), At::I(a))]) }
                _ => continue,
            };
            match nx { Some(n) => cur = n, None => {} }
            if b.t[&cur].v.is_empty() { break; }
        }
        let x = b.t[&cur].clone();
        let mut m = b.m;
        // observe the values, and the rank/extents through the recorded shape
        let mut log = b.log;
        let want: Vec<usize>;
        if x.float {
            if x.v.len() != 1 { continue; }
            m.initializers.insert("zero".into(), K::s(0).td("zero")); m.initializers.insert("one".into(), K::s(1).td("one"));
            m.nodes.push(node("obs", "Range", vec!["zero".into(), cur.clone(), "one".into()], vec!["obs".into()], &[]));
            want = vec![x.v[0].ceil().max(0.0) as usize];
            log.push(format!("obs = Range(0, {cur}, 1)"));
        } else if x.v.len() == 1 && r.b() {
            m.initializers.insert("zero".into(), K::s(0).td("zero")); m.initializers.insert("one".into(), K::s(1).td("one"));
            m.nodes.push(node("obs", "Range", vec!["zero".into(), cur.clone(), "one".into()], vec!["obs".into()], &[]));
            want = vec![x.v[0] as usize];
            log.push(format!("obs = Range(0, {cur}, 1)"));
        } else {
            let mut src = cur.clone();
            if x.shape.len() != 1 { m.initializers.insert("m1".into(), K::v(&[-1]).td("m1")); m.nodes.push(node("obsr", "Reshape", vec![cur.clone(), "m1".into()], vec!["obsr".into()], &[])); src = "obsr".into(); }
            m.nodes.push(node("obs", "ConstantOfShape", vec![src], vec!["obs".into()], &[]));
            want = x.v.iter().map(|v| *v as usize).collect();
            log.push(format!("obs = ConstantOfShape({cur})"));
        }
        if r.b() { m.nodes.reverse(); }
        let g = shapes_of(&m);
        let sh: Vec<usize> = x.shape.iter().map(|d| *d as usize).collect();
        let bad = match &g { Got::Ok(s) => s.get("obs") != Some(&want) || s.get(&cur) != Some(&sh), _ => true };
        if bad {
            let gs = match &g { Got::Ok(s) => format!("obs {:?}, {cur} {:?}", s.get("obs"), s.get(&cur)), o => format!("{o:?}") };
            return Err(format!("case {c}\ninput:\n  {}\nexpected: obs {want:?}, {cur} {sh:?}\ngot: {gs}", log.join("\n  ")));
        }
        cnt += 1;
    }
    Ok(cnt)
}
fn r_s(n: i64, c: u64) -> i64 { let mut r = Rng::new(c ^ 77); if r.p(8) { *r.pick(&[i64::MIN, -i64::MAX, i64::MAX]) } else { r.i(-n - 1, n + 1) } }
impl B { fn kv_(&mut self, r: &mut Rng, v: i64) -> String { self.kv(r, &[v]) } }

//! Reference semantics (ONNX operator definitions, in unbounded integers) and input generators.
use crate::core::*;

type S = Vec<i128>;
fn prod(s: &[i128]) -> i128 { s.iter().product() }
fn us(v: &[i64]) -> Option<S> { v.iter().map(|x| if *x < 0 { None } else { Some(*x as i128) }).collect() }
fn norm_axis(a: i64, rank: usize) -> Option<usize> { let r = rank as i128; let a = a as i128; let n = if a < 0 { a + r } else { a }; if n < 0 || n >= r { None } else { Some(n as usize) } }
pub fn broadcast(a: &[i128], b: &[i128]) -> Option<S> {
    let n = a.len().max(b.len());
    (0..n).map(|i| {
        let x = if i + a.len() < n { 1 } else { a[i + a.len() - n] };
        let y = if i + b.len() < n { 1 } else { b[i + b.len() - n] };
        if x == y { Some(x) } else if x == 1 { Some(y) } else if y == 1 { Some(x) } else { None }
    }).collect()
}
fn opt(p: &Prob, s: Option<S>) -> Want { match s { Some(s) => same(p, s), None => Want::Refuse } }

pub const PASS: &[&str] = &["BatchNormalization", "Relu", "Clip", "Cast", "Exp", "Softmax", "Sigmoid", "Gelu", "LayerNormalization", "Log", "Sqrt", "Tanh", "Erf", "LeakyRelu", "Identity", "Neg", "HardSwish", "InstanceNormalization", "GroupNormalization", "Not", "Sin", "Cos", "ScatterND"];
pub const BIN: &[&str] = &["Add", "Sub", "Mul", "Div", "Pow", "And", "Equal", "Greater", "Less", "Max", "Min"];

pub fn want(p: &Prob) -> Want {
    let op = p.op.as_str();
    match op {
        "Conv" => opt(p, conv(p)),
        "MaxPool" | "AveragePool" => opt(p, pool(p)),
        "GlobalAveragePool" => opt(p, p.shape(0).and_then(|x| if x.len() < 3 { None } else { Some((0..x.len()).map(|i| if i < 2 { x[i] } else { 1 }).collect()) })),
        "ConvTranspose" => opt(p, convt(p)),
        "Gemm" => opt(p, gemm(p)),
        "MatMul" => opt(p, matmul(p)),
        "Reshape" => opt(p, reshape(p)),
        "Flatten" => opt(p, flatten(p)),
        "Squeeze" => opt(p, squeeze(p)),
        "Unsqueeze" => opt(p, unsqueeze(p)),
        "Transpose" => opt(p, transpose(p)),
        "Tile" => opt(p, tile(p)),
        "Concat" => opt(p, concat(p)),
        "Pad" => opt(p, pad(p)),
        "Split" => split(p),
        "Where" => opt(p, (|| { let c = p.shape(0)?; let x = p.shape(1)?; let y = p.shape(2)?; broadcast(&broadcast(&c, &x)?, &y) })()),
        "Expand" => opt(p, (|| { let x = p.shape(0)?; let t = us(&p.konst(1)?)?; broadcast(&x, &t) })()),
        "Slice" => if p.ins.iter().skip(1).any(|i| matches!(i, In::U)) { Want::Any } else { opt(p, slice(p)) },
        "Gather" => gather(p),
        "GatherElements" => opt(p, p.shape(1)),
        "GridSample" => opt(p, (|| { let x = p.shape(0)?; let g = p.shape(1)?; if x.len() != 4 || g.len() != 4 || g[3] != 2 || g[0] != x[0] { return None; } Some(vec![x[0], x[1], g[1], g[2]]) })()),
        "TopK" => opt(p, topk(p)),
        "Shape" => opt(p, shape_vals(p).map(|v| vec![v.len() as i128])),
        "ReduceMean" | "ReduceSum" | "ReduceMax" => opt(p, reduce(p)),
        "Resize" => opt(p, resize(p)),
        "ConstantOfShape" => opt(p, p.konst(0).and_then(|v| us(&v))),
        "Range" => opt(p, range(p)),
        _ if PASS.contains(&op) => opt(p, p.shape(0)),
        _ if BIN.contains(&op) => match (p.shape(0), p.shape(1)) {
            (Some(a), Some(b)) => opt(p, broadcast(&a, &b)),
            (Some(a), None) | (None, Some(a)) => same(p, a),
            _ => Want::Refuse,
        },
        _ => Want::Any,
    }
}
fn kernel(p: &Prob, w: &S) -> Option<S> {
    match p.ints("kernel_shape") { Some(v) => us(&v), None => Some(if w.len() >= 3 { w[2..].to_vec() } else { vec![1] }) }
}
fn list(p: &Prob, n: &str, d: i128, len: usize) -> Option<S> { match p.ints(n) { Some(v) => us(&v), None => Some(vec![d; len]) } }
fn conv(p: &Prob) -> Option<S> {
    if !autopad_ok(p) { return None; }
    let x = p.shape(0)?; let w = p.shape(1)?;
    let k = kernel(p, &w)?; let n = k.len();
    let st = list(p, "strides", 1, n)?; let pd = list(p, "pads", 0, 2 * n)?; let dl = list(p, "dilations", 1, n)?;
    if w.len() < 2 || x.len() < n + 2 || pd.len() < 2 * n || st.len() < n || dl.len() < n { return None; }
    let mut o = vec![x[0], w[0]];
    for i in 0..n {
        if k[i] == 0 || st[i] == 0 { return None; }
        let ek = (k[i] - 1) * dl[i] + 1;
        let t = x[2 + i] + pd[i] + pd[n + i] - ek;
        if t < 0 { return None; }
        o.push(t / st[i] + 1);
    }
    Some(o)
}
fn autopad_ok(p: &Prob) -> bool { p.at.iter().all(|(n, v)| n != "auto_pad" || matches!(v, At::S(s) if s == "NOTSET" || s == "VALID" || s.is_empty())) }
fn pool(p: &Prob) -> Option<S> {
    if !autopad_ok(p) { return None; }
    let x = p.shape(0)?;
    let dl0 = list(p, "dilations", 1, p.ints("kernel_shape")?.len())?;
    let k = us(&p.ints("kernel_shape")?)?; let n = k.len();
    let st = list(p, "strides", 1, n)?; let pd = list(p, "pads", 0, 2 * n)?;
    if x.len() < n + 2 || pd.len() < 2 * n || st.len() < n || dl0.len() < n { return None; }
    let mut o = vec![x[0], x[1]];
    for i in 0..n {
        if k[i] == 0 || st[i] == 0 { return None; }
        let t = x[2 + i] + pd[i] + pd[n + i] - ((k[i] - 1) * dl0[i] + 1);
        if t < 0 || (p.int("ceil_mode").unwrap_or(0) != 0 && t % st[i] != 0) { return None; }
        o.push(t / st[i] + 1);
    }
    Some(o)
}
fn convt(p: &Prob) -> Option<S> {
    if !autopad_ok(p) { return None; }
    let x = p.shape(0)?; let w = p.shape(1)?;
    if w.len() < 2 { return None; }
    let g = p.int("group").unwrap_or(1);
    if g < 1 { return None; }
    let k = kernel(p, &w)?; let n = k.len();
    let st = list(p, "strides", 1, n)?; let pd = list(p, "pads", 0, 2 * n)?; let dl = list(p, "dilations", 1, n)?; let op = list(p, "output_padding", 0, n)?;
    if x.len() < n + 2 { return None; }
    let mut o = vec![x[0], w[1] * g as i128];
    if let Some(os) = p.ints("output_shape") {
        let os = us(&os)?;
        if os.len() != n { return None; }
        o.extend(os);
        return Some(o);
    }
    if st.len() != n || dl.len() != n || op.len() != n || (pd.len() != 2 * n && !pd.is_empty()) { return None; }
    for i in 0..n {
        if x[2 + i] < 1 || k[i] < 1 { return None; }
        let pads = if pd.is_empty() { 0 } else { pd[i] + pd[n + i] };
        let v = st[i] * (x[2 + i] - 1) + (k[i] - 1) * dl[i] + 1 - pads + op[i];
        if v <= 0 { return None; }
        o.push(v);
    }
    Some(o)
}
fn gemm(p: &Prob) -> Option<S> {
    let a = p.shape(0)?; let b = p.shape(1)?;
    let a = match a.len() { 1 => vec![1, a[0]], 2 => a, _ => return None };
    let b = match b.len() { 1 => vec![b[0], 1], 2 => b, _ => return None };
    let (m, ka) = if p.int("transA").unwrap_or(0) != 0 { (a[1], a[0]) } else { (a[0], a[1]) };
    let (kb, n) = if p.int("transB").unwrap_or(0) != 0 { (b[1], b[0]) } else { (b[0], b[1]) };
    if ka != kb { None } else { Some(vec![m, n]) }
}
fn matmul(p: &Prob) -> Option<S> {
    let a = p.shape(0)?; let b = p.shape(1)?;
    if a.is_empty() || b.is_empty() { return None; }
    let (a1, b1) = (a.len() == 1, b.len() == 1);
    let a = if a1 { vec![1, a[0]] } else { a };
    let b = if b1 { vec![b[0], 1] } else { b };
    if a[a.len() - 1] != b[b.len() - 2] { return None; }
    let mut o = broadcast(&a[..a.len() - 2], &b[..b.len() - 2])?;
    if !a1 { o.push(a[a.len() - 2]); }
    if !b1 { o.push(b[b.len() - 1]); }
    Some(o)
}
fn reshape(p: &Prob) -> Option<S> {
    let x = p.shape(0)?;
    let t = p.konst(1).or_else(|| p.ints("shape"))?;
    let az = p.int("allowzero").unwrap_or(0) != 0;
    reshape_to(&x, &t, az)
}
pub fn reshape_to(x: &[i128], t: &[i64], az: bool) -> Option<S> {
    let mut o = vec![]; let mut hole = None;
    for (i, d) in t.iter().enumerate() {
        match *d {
            -1 => { if hole.is_some() { return None; } hole = Some(i); o.push(1); }
            0 => if az { o.push(0) } else { o.push(*x.get(i)?) },
            d if d < 0 => return None,
            d => o.push(d as i128),
        }
    }
    let n = prod(x); let k = prod(&o);
    if let Some(h) = hole {
        if az && t.contains(&0) { return None; }
        if k == 0 || n % k != 0 { return None; }
        o[h] = n / k;
        Some(o)
    } else if n == k { Some(o) } else { None }
}
fn flatten(p: &Prob) -> Option<S> {
    let x = p.shape(0)?; let a = p.int("axis").unwrap_or(1) as i128; let r = x.len() as i128;
    if a < -r || a > r { return None; }
    let a = (if a < 0 { a + r } else { a }) as usize;
    Some(vec![prod(&x[..a]), prod(&x[a..])])
}
fn axes_of(p: &Prob) -> Option<Option<Vec<i64>>> {
    if let Some(v) = p.ints("axes") { return Some(Some(v)); }
    if p.present(1) { p.konst(1).map(Some) } else { Some(None) }
}
fn squeeze(p: &Prob) -> Option<S> { let x = p.shape(0)?; squeeze_to(&x, axes_of(p)?) }
pub fn squeeze_to(x: &[i128], axes: Option<Vec<i64>>) -> Option<S> {
    match axes {
        None => Some(x.iter().copied().filter(|d| *d != 1).collect()),
        Some(ax) => {
            let mut del = vec![false; x.len()];
            for a in ax { let n = norm_axis(a, x.len())?; if del[n] || x[n] != 1 { return None; } del[n] = true; }
            Some(x.iter().zip(&del).filter(|(_, d)| !**d).map(|(v, _)| *v).collect())
        }
    }
}
fn unsqueeze(p: &Prob) -> Option<S> { let x = p.shape(0)?; unsqueeze_to(&x, &axes_of(p)??) }
pub fn unsqueeze_to(x: &[i128], ax: &[i64]) -> Option<S> {
    let r = x.len() + ax.len();
    let mut one = vec![false; r];
    for a in ax { let n = norm_axis(*a, r)?; if one[n] { return None; } one[n] = true; }
    let mut it = x.iter();
    Some(one.iter().map(|o| if *o { 1 } else { *it.next().unwrap() }).collect())
}
fn transpose(p: &Prob) -> Option<S> {
    let x = p.shape(0)?;
    match p.ints("perm") {
        None => Some(x.iter().rev().copied().collect()),
        Some(pm) => {
            if pm.len() != x.len() { return None; }
            let mut seen = vec![false; x.len()];
            pm.iter().map(|a| { let n = norm_axis(*a, x.len())?; if seen[n] { return None; } seen[n] = true; Some(x[n]) }).collect()
        }
    }
}
fn tile(p: &Prob) -> Option<S> {
    let x = p.shape(0)?; let r = p.konst(1)?;
    if r.len() > x.len() { return None; }
    let mut rr = vec![1i64; x.len() - r.len()]; rr.extend(r);
    x.iter().zip(rr).map(|(d, r)| if r < 1 { None } else { let v = d * r as i128; if v > u64::MAX as i128 { None } else { Some(v) } }).collect()
}
fn concat(p: &Prob) -> Option<S> {
    let f = p.shape(0)?; let a = norm_axis(p.int("axis").unwrap_or(0), f.len())?;
    let mut o = f.clone();
    for k in 1..p.ins.len() {
        let s = p.shape(k)?;
        if s.len() != f.len() || (0..f.len()).any(|i| i != a && s[i] != f[i]) { return None; }
        o[a] += s[a];
    }
    if o[a] > u64::MAX as i128 { None } else { Some(o) }
}
fn pad(p: &Prob) -> Option<S> {
    let x = p.shape(0)?;
    let pd = if p.present(1) { p.konst(1)? } else { p.ints("pads")? };
    if pd.len() != 2 * x.len() || pd.iter().any(|v| *v < 0) { return None; }
    Some((0..x.len()).map(|i| x[i] + pd[i] as i128 + pd[x.len() + i] as i128).collect())
}
fn split(p: &Prob) -> Want {
    (|| {
        let x = p.shape(0)?; let a = norm_axis(p.int("axis").unwrap_or(0), x.len())?;
        let sz: S = if p.present(1) { us(&p.konst(1)?)? } else if let Some(v) = p.ints("split") { us(&v)? } else {
            let n = p.nout as i128;
            if n == 0 || x[a] % n != 0 { return None; }
            vec![x[a] / n; p.nout]
        };
        if sz.len() != p.nout || sz.iter().sum::<i128>() != x[a] { return None; }
        Some(Want::Shapes(sz.iter().map(|s| { let mut o = x.clone(); o[a] = *s; o }).collect()))
    })().unwrap_or(Want::Refuse)
}
/// (start, number of elements, step) selected on one axis
pub fn slice_axis(dim: i128, s: i64, e: i64, step: i64) -> Option<(i128, i128)> {
    if step <= 0 { return None; }
    let cl = |v: i64| { let v = v as i128; let v = if v < 0 { v + dim } else { v }; v.max(0).min(dim) };
    let (s, e) = (cl(s), cl(e));
    let mut n = 0; 
    if s < e { n = (e - s + step as i128 - 1) / step as i128; }
    Some((s, n))
}
fn slice(p: &Prob) -> Option<S> {
    let x = p.shape(0)?;
    let st = p.konst(1)?; let en = p.konst(2)?;
    if st.len() != en.len() { return None; }
    let ax = if p.present(3) { p.konst(3)? } else { (0..st.len() as i64).collect() };
    let sp = if p.present(4) { p.konst(4)? } else { vec![1; st.len()] };
    if ax.len() != st.len() || sp.len() != st.len() { return None; }
    let mut o = x.clone();
    for i in 0..ax.len() {
        let a = norm_axis(ax[i], x.len())?;
        o[a] = slice_axis(x[a], st[i], en[i], sp[i])?.1;
    }
    Some(o)
}
fn gather(p: &Prob) -> Want {
    let (d, i) = match (p.shape(0), p.shape(1)) { (Some(d), Some(i)) => (d, i), _ => return Want::Refuse };
    let d = if d.is_empty() { vec![1] } else { d };
    let ax = p.int("axis").unwrap_or(0);
    match norm_axis(ax, d.len()) {
        Some(a) => { let mut o = d[..a].to_vec(); o.extend(&i); o.extend(&d[a + 1..]); same(p, o) }
        None => if ax < 0 || ax as i128 >= d.len() as i128 + 4 { Want::Refuse } else { Want::Any },
    }
}
fn topk(p: &Prob) -> Option<S> {
    let x = p.shape(0)?; let a = norm_axis(p.int("axis").unwrap_or(-1), x.len())?;
    if p.int("largest").unwrap_or(1) != 1 { return None; }
    let k = p.konst(1)?;
    if k.len() != 1 || k[0] <= 0 || k[0] as i128 > x[a] { return None; }
    let mut o = x.clone(); o[a] = k[0] as i128; Some(o)
}
pub fn shape_vals(p: &Prob) -> Option<S> {
    let x = p.shape(0)?; let r = x.len() as i128;
    let cl = |v: i128| { let v = if v < 0 { v + r } else { v }; v.max(0).min(r) as usize };
    let s = cl(p.int("start").unwrap_or(0) as i128); let e = cl(p.int("end").map_or(r, |v| v as i128));
    Some(if s < e { x[s..e].to_vec() } else { vec![] })
}
fn reduce(p: &Prob) -> Option<S> {
    let x = p.shape(0)?;
    let ax = if p.present(1) { Some(p.konst(1)?) } else { p.ints("axes") };
    let keep = p.int("keepdims").unwrap_or(1) != 0;
    let ax = ax.unwrap_or_default(); let noop = p.int("noop_with_empty_axes").unwrap_or(0) != 0;
    let mut red = vec![ax.is_empty() && !noop; x.len()];
    for a in ax { red[norm_axis(a, x.len())?] = true; }
    Some(x.iter().zip(&red).filter_map(|(d, r)| if !*r { Some(*d) } else if keep { Some(1) } else { None }).collect())
}
fn resize(p: &Prob) -> Option<S> {
    let x = p.shape(0)?;
    if p.present(3) { if let Some(s) = p.konst(3) { if s.len() == x.len() { return us(&s); } } }
    if p.present(2) { if let Some(In::C(k)) = p.ins.get(2) { if k.floats.len() == x.len() {
        return x.iter().zip(&k.floats).map(|(d, s)| if *s <= 0.0 { None } else { Some((*d as f64 * s).floor() as i128) }).collect();
    } } }
    None
}
fn range(p: &Prob) -> Option<S> {
    let f = |k: usize| -> Option<f64> { match p.ins.get(k) { Some(In::C(c)) => { let v: Vec<f64> = if !c.floats.is_empty() { c.floats.clone() } else { c.ints.iter().map(|i| *i as f64).collect() }; if v.len() == 1 { Some(v[0]) } else { None } } _ => None } };
    let (s, l, d) = (f(0)?, f(1)?, f(2)?);
    if d == 0.0 { return None; }
    Some(vec![((l - s) / d).ceil().max(0.0) as i128])
}

// ---------------------------------------------------------------- generators
pub fn dims(r: &mut Rng, lo: usize, hi: usize) -> Vec<i64> { let n = r.u(lo, hi); (0..n).map(|_| dim(r)).collect() }
pub fn dim(r: &mut Rng) -> i64 { match r.u(0, 19) { 0 => 0, 1..=4 => 1, 5..=15 => r.i(2, 9), 16..=18 => r.i(10, 40), _ => r.i(100, 5000) } }
fn small(r: &mut Rng) -> i64 { r.i(1, 6) }
fn act(r: &mut Rng, s: Vec<i64>) -> In { if r.p(2) { In::U } else if r.p(15) && s.iter().all(|d| *d >= 0) { In::C(K { dims: s, ints: vec![], floats: vec![], dt: 1 }) } else { In::A(s) } }
fn ivec(r: &mut Rng, n: usize, lo: i64, hi: i64) -> Vec<i64> { (0..n).map(|_| r.i(lo, hi)).collect() }
fn opts(r: &mut Rng, v: Vec<i64>) -> In { let _ = &r; In::C(K::v(&v)) }
/// now and then break a list: length, sign, zero
fn perturb(r: &mut Rng, mut v: Vec<i64>) -> Vec<i64> {
    if r.p(8) { match r.u(0, 4) { 0 => { v.pop(); } 1 => v.push(r.i(0, 3)), 2 => if !v.is_empty() { let k = r.u(0, v.len() - 1); v[k] = -r.i(1, 3) }, 3 => if !v.is_empty() { let k = r.u(0, v.len() - 1); v[k] = 0 }, _ => v.clear() } }
    v
}
fn axis_in(r: &mut Rng, rank: usize) -> i64 { let k = rank as i64; if r.p(8) { *r.pick(&[-k - 1, k, k + 1, -k - 2, k + 7]) } else if k == 0 { r.i(-1, 1) } else { r.i(-k, k - 1) } }
pub fn gen(op: &str, r: &mut Rng) -> Prob {
    let mut p = gen0(op, r);
    if p.how == 0 && r.p(60) { p.how = r.next() | 1; }
    p
}
fn gen0(op: &str, r: &mut Rng) -> Prob {
    match op {
        "Conv" | "ConvTranspose" => {
            let n = r.u(1, 3);
            let mut x = vec![r.i(1, 4), r.i(1, 8)]; x.extend((0..n).map(|_| r.i(1, 30)));
            let k: Vec<i64> = (0..n).map(|_| small(r)).collect();
            let mut w = vec![r.i(1, 9), r.i(1, 8)]; w.extend(&k);
            if r.p(5) { x.pop(); } if r.p(4) { w.truncate(r.u(0, 2)); } if r.p(4) { x.push(3); }
            let mut p = Prob::new(op, vec![act(r, x), act(r, w)]);
            if r.p(30) { p.ins.push(In::A(vec![4])); }
            if r.p(50) { let k2 = perturb(r, k.clone()); p = p.a("kernel_shape", At::Is(k2)); }
            if r.p(60) { let v = ivec(r, n, 1, 4); p = p.a("strides", At::Is(perturb(r, v))); }
            if r.p(60) { let v = ivec(r, 2 * n, 0, 4); p = p.a("pads", At::Is(perturb(r, v))); }
            if r.p(50) { let v = ivec(r, n, 1, 4); p = p.a("dilations", At::Is(perturb(r, v))); }
            if r.p(10) { p = p.a("auto_pad", At::S(r.pick(&["NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"]).to_string())); }
            if op == "ConvTranspose" {
                if r.p(40) { let v = ivec(r, n, 0, 3); p = p.a("output_padding", At::Is(perturb(r, v))); }
                if r.p(15) { let v = ivec(r, n, 0, 30); p = p.a("output_shape", At::Is(perturb(r, v))); }
            }
            if r.p(40) { let g = r.i(-1, 4); p = p.a("group", At::I(if op == "Conv" { g.max(1) } else { g })); }
            p
        }
        "MaxPool" | "AveragePool" => {
            let n = r.u(1, 3);
            let mut x = vec![r.i(0, 4), r.i(1, 8)]; x.extend((0..n).map(|_| r.i(1, 30)));
            if r.p(5) { x.pop(); } if r.p(4) { x.push(3); }
            let mut p = Prob::new(op, vec![act(r, x)]);
            if !r.p(4) { let v = ivec(r, n, 1, 5); p = p.a("kernel_shape", At::Is(perturb(r, v))); }
            if r.p(60) { let v = ivec(r, n, 1, 4); p = p.a("strides", At::Is(perturb(r, v))); }
            if r.p(60) { let v = ivec(r, 2 * n, 0, 4); p = p.a("pads", At::Is(perturb(r, v))); }
            if r.p(40) { let v = ivec(r, n, 1, 4); p = p.a("dilations", At::Is(perturb(r, v))); }
            if r.p(25) { p = p.a("ceil_mode", At::I(r.i(0, 1))); }
            if op == "MaxPool" && r.p(20) { p.nout = 2; }
            if r.p(10) { p = p.a("auto_pad", At::S(r.pick(&["NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"]).to_string())); }
            p
        }
        "GlobalAveragePool" => { let d = dims(r, 0, 6); Prob::new(op, vec![act(r, d)]) }
        "Gemm" => {
            let (m, k, n) = (dim(r), dim(r), dim(r)); let (ta, tb) = (r.b(), r.b());
            let mut a = if ta { vec![k, m] } else { vec![m, k] }; let mut b = if tb { vec![n, k] } else { vec![k, n] };
            if r.p(10) { a.swap(0, 1); } if r.p(10) { b.swap(0, 1); }
            if r.p(6) { a.pop(); } if r.p(6) { b.pop(); } if r.p(4) { a.push(2); } if r.p(4) { b.insert(0, 2); } if r.p(2) { a.clear(); } if r.p(2) { b.clear(); }
            let mut p = Prob::new(op, vec![act(r, a), act(r, b)]);
            if r.p(50) { p.ins.push(In::A(vec![n])); }
            if ta || r.b() { p = p.a("transA", At::I(if ta { *r.pick(&[1, 1, 2, -1]) } else { 0 })); }
            if tb || r.b() { p = p.a("transB", At::I(if tb { *r.pick(&[1, 1, 2, -1]) } else { 0 })); }
            p
        }
        "MatMul" => {
            let (m, k, n) = (dim(r), dim(r), dim(r));
            let full = dims(r, 0, 3);
            let mk = |r: &mut Rng, t: [i64; 2]| { let cut = r.u(0, full.len()); let mut v: Vec<i64> = full[cut..].iter().map(|d| if r.p(25) { 1 } else { *d }).collect(); if r.p(4) && !v.is_empty() { v[0] = 3; } v.extend(t); v };
            let mut a = mk(r, [m, k]); let mut b = mk(r, [k, n]);
            if r.p(15) { a = vec![k]; } if r.p(15) { b = vec![k]; } if r.p(3) { a.clear(); } if r.p(3) { b.clear(); }
            if r.p(8) && !b.is_empty() { let l = b.len() - 1; b[l] += 1; if l > 0 { b.swap(l, l - 1); } }
            Prob::new(op, vec![act(r, a), act(r, b)])
        }
        "Reshape" => {
            let x: Vec<i64> = if r.p(10) { dims(r, 0, 5) } else { (0..r.u(0, 5)).map(|_| r.i(1, 6)).collect() };
            // random regrouping of the element count
            let mut fs: Vec<i64> = vec![]; for d in &x { let mut d = *d; let mut q = 2; while d > 1 { if d % q == 0 { fs.push(q); d /= q; } else { q += 1; } } }
            r.shuffle(&mut fs);
            let n = r.u(0, 5); let mut t = vec![1i64; n.max(if fs.is_empty() { 0 } else { 1 })];
            if !t.is_empty() { for f in fs { let k = r.u(0, t.len() - 1); t[k] *= f; } }
            for i in 0..t.len() { if i < x.len() && r.p(40) && t[i] == x[i] { t[i] = 0; } }
            if !t.is_empty() && r.p(50) { let k = r.u(0, t.len() - 1); t[k] = -1; }
            if r.p(6) && !t.is_empty() { let k = r.u(0, t.len() - 1); t[k] = *r.pick(&[-1, -2, 0, 5, 7]); }
            if r.p(4) { t.push(0); }
            let mut p = Prob::new(op, vec![act(r, x)]);
            if r.p(85) { p.ins.push(In::C(K::v(&t))); } else { if r.b() { p.ins.push(In::U); } if r.p(70) { p = p.a("shape", At::Is(t)); } }
            if r.p(20) { p = p.a("allowzero", At::I(r.i(0, 1))); }
            p
        }
        "Flatten" => {
            let x = dims(r, 0, 5); let k = x.len() as i64;
            let mut p = Prob::new(op, vec![act(r, x)]);
            if r.p(80) { let a = if r.p(10) { *r.pick(&[-k - 1, k + 1]) } else { r.i(-k, k) }; p = p.a("axis", At::I(a)); }
            p
        }
        "Squeeze" | "Unsqueeze" => {
            let sq = op == "Squeeze";
            let x: Vec<i64> = (0..r.u(0, 5)).map(|_| if sq && r.p(60) { 1 } else { dim(r) }).collect();
            let na = r.u(0, 3); let rank = if sq { x.len() } else { x.len() + na };
            let mut cand: Vec<usize> = (0..rank).filter(|i| !sq || x[*i] == 1 || r.p(5)).collect();
            r.shuffle(&mut cand); cand.truncate(na);
            let mut ax: Vec<i64> = cand.iter().map(|i| if r.b() { *i as i64 } else { *i as i64 - rank as i64 }).collect();
            if r.p(6) { ax.push(axis_in(r, rank)); }
            if r.p(5) && !ax.is_empty() { let a = ax[0]; ax.push(if a < 0 { a + rank as i64 } else { a }); }
            let mut p = Prob::new(op, vec![act(r, x)]);
            match r.u(0, 5) { 0 | 1 => p = p.a("axes", At::Is(ax)), 2 | 3 => { let i = opts(r, ax); p.ins.push(i); } 4 => if sq || r.p(20) { if r.b() { p.ins.push(In::E); } } else { p = p.a("axes", At::Is(ax)); }, _ => if r.p(20) { p.ins.push(In::U); } else { let i = opts(r, ax); p.ins.push(i); } }
            p
        }
        "Transpose" => {
            let x = dims(r, 0, 6); let n = x.len();
            let mut pm: Vec<i64> = (0..n as i64).collect(); r.shuffle(&mut pm);
            for v in pm.iter_mut() { if r.p(15) { *v -= n as i64; } }
            let mut p = Prob::new(op, vec![act(r, x)]);
            if r.p(6) { pm.push(0); } if r.p(6) { pm.pop(); }
            if r.p(8) && !pm.is_empty() { let k = r.u(0, pm.len() - 1); pm[k] = axis_in(r, n); }
            if r.p(85) { p = p.a("perm", At::Is(pm)); }
            p
        }
        "Tile" => {
            let x = dims(r, 0, 5); let n = if r.p(20) { r.u(0, x.len() + 1) } else { x.len() };
            let v = ivec(r, n, 1, 5);
            let v = perturb(r, v);
            let k = if r.p(4) { In::U } else { In::C(K::v(&v)) };
            Prob::new(op, vec![act(r, x), k])
        }
        "Concat" => {
            let x = dims(r, 0, 4); let n = r.u(1, 5); let a = axis_in(r, x.len());
            let ra = if a < 0 { a + x.len() as i64 } else { a };
            let ins = (0..n).map(|k| { let mut s = x.clone(); if k > 0 && ra >= 0 && (ra as usize) < s.len() { s[ra as usize] = dim(r); } if k > 0 && r.p(3) { if s.is_empty() || r.b() { s.push(1); } else { let j = r.u(0, s.len() - 1); s[j] += 1; } } act(r, s) }).collect();
            let mut p = Prob::new(op, ins);
            if a != 0 || r.b() { p = p.a("axis", At::I(a)); }
            p
        }
        "Pad" => {
            let x = dims(r, 0, 5); let v = ivec(r, 2 * x.len(), 0, 6); let v = perturb(r, v);
            let mut p = Prob::new(op, vec![act(r, x)]);
            match r.u(0, 5) { 0 | 1 => { if r.b() { p.ins.push(In::E); } p = p.a("pads", At::Is(v)); } 2 => if r.p(30) { p.ins.push(In::U); p = p.a("pads", At::Is(v)); } else { p.ins.push(In::C(K::v(&v))); p = p.a("pads", At::Is(vec![1; 3])); }, _ => p.ins.push(In::C(K::v(&v))) }
            p
        }
        "Split" => {
            let n = r.u(1, 4); let mut x: Vec<i64> = dims(r, 1, 5); let a = axis_in(r, x.len());
            let ra = if a < 0 { a + x.len() as i64 } else { a };
            let mut sz: Vec<i64> = (0..n).map(|_| r.i(0, 6)).collect();
            let eq = r.b();
            if ra >= 0 && (ra as usize) < x.len() { x[ra as usize] = if eq { n as i64 * r.i(0, 5) + if r.p(10) { 1 } else { 0 } } else { sz.iter().sum() }; }
            if r.p(4) { x.clear(); }
            if r.p(6) { let k = r.u(0, n - 1); sz[k] += *r.pick(&[1, -1, 2, -8]); } if r.p(3) { sz.push(0); }
            let mut p = Prob::new(op, vec![act(r, x)]);
            if !eq { if r.b() { p.ins.push(if r.p(4) { In::U } else { In::C(K::v(&sz)) }); } else { if r.b() { p.ins.push(In::E); } p = p.a("split", At::Is(sz)); } }
            if a != 0 || r.b() { p = p.a("axis", At::I(a)); }
            p.nout = n; p
        }
        "Where" => { let f = dims(r, 0, 4); let v = (0..3).map(|_| { let s = bshape(r, &f); act(r, s) }).collect(); Prob::new(op, v) }
        "Expand" => { let f = dims(r, 0, 4); let a = bshape(r, &f); let mut b = bshape(r, &f); if r.p(4) && !b.is_empty() { b[0] = -1; } let k = if r.p(4) { In::U } else { In::C(K::v(&b)) }; Prob::new(op, vec![act(r, a), k]) }
        "Slice" => {
            let x: Vec<i64> = (0..r.u(1, 4)).map(|_| if r.p(5) { 0 } else { r.i(1, 20) }).collect(); let n = x.len();
            let mut ax: Vec<usize> = (0..n).collect(); let dflt = r.p(30);
            if !dflt { r.shuffle(&mut ax); } let lo = if r.p(10) { 0 } else { 1 }; ax.truncate(r.u(lo, n));
            let big = i64::MAX;
            let st: Vec<i64> = ax.iter().map(|a| if r.p(6) { *r.pick(&[big, -big, i64::MIN, 0]) } else { r.i(-x[*a] - 2, x[*a] + 2) }).collect();
            let en: Vec<i64> = ax.iter().map(|a| if r.p(20) { *r.pick(&[big, -big, i64::MIN, 0, big - 1]) } else { r.i(-x[*a] - 2, x[*a] + 2) }).collect();
            let sp: Vec<i64> = ax.iter().map(|_| if r.p(3) { *r.pick(&[0, -1, big]) } else { r.i(1, 4) }).collect();
            let axv: Vec<i64> = ax.iter().map(|a| if r.p(4) { axis_in(r, n) } else if r.p(30) { *a as i64 - n as i64 } else { *a as i64 }).collect();
            let (st, en) = (if r.p(2) { perturb(r, st) } else { st }, en);
            let mut ins = vec![In::A(x), In::C(K::v(&st)), In::C(K::v(&en))];
            let steps = r.p(60);
            if !dflt { ins.push(In::C(K::v(&axv))); } else if steps { ins.push(In::E); }
            if steps { ins.push(In::C(K::v(&sp))); }
            let mut p = Prob::new(op, ins);
            if r.p(2) { p.ins.truncate(r.u(1, 2)); }
            if r.p(4) && p.ins.len() > 2 { let k = r.u(1, p.ins.len() - 1); p.ins[k] = In::U; }
            p
        }
        "Gather" => {
            let d = dims(r, 0, 4); let rank = d.len().max(1); let a = axis_in(r, rank);
            let i = dims(r, 0, 3);
            let mut p = Prob::new(op, vec![act(r, d), act(r, i)]);
            if a != 0 || r.b() { p = p.a("axis", At::I(a)); }
            p
        }
        "GatherElements" => { let d = dims(r, 1, 4); let i: Vec<i64> = d.iter().map(|_| dim(r)).collect(); Prob::new(op, vec![act(r, d), act(r, i)]) }
        "GridSample" => {
            let x = vec![r.i(1, 3), r.i(1, 4), r.i(1, 9), r.i(1, 9)]; let mut g = vec![x[0], r.i(1, 9), r.i(1, 9), 2]; let mut x = x;
            if r.p(5) { g[0] += 1; } if r.p(5) { g[3] = r.i(1, 3); } if r.p(4) { g.pop(); } if r.p(4) { x.push(2); } if r.p(3) { x.pop(); }
            Prob::new(op, vec![act(r, x), act(r, g)])
        }
        "TopK" => {
            let x = dims(r, 0, 4); let a = axis_in(r, x.len()); let ra = if a < 0 { a + x.len() as i64 } else { a };
            let d = x.get(ra.max(0) as usize).copied().unwrap_or(3);
            let k = if r.p(15) { r.i(-1, d + 2) } else { r.i(d.min(1), d.max(1)) };
            let kk = match r.u(0, 9) { 0 => In::C(K::s(k)), 1 => if r.p(30) { In::C(K::v(&[k, k])) } else { In::C(K::v(&[k])) }, 2 => if r.p(30) { In::U } else { In::C(K::v(&[k])) }, _ => In::C(K::v(&[k])) };
            let mut p = Prob::new(op, vec![act(r, x), kk]);
            if a != -1 || r.b() { p = p.a("axis", At::I(a)); }
            if r.p(20) { p = p.a("largest", At::I(if r.p(30) { 0 } else { 1 })); }
            p.nout = r.u(1, 2); p
        }
        "Shape" => {
            let x = dims(r, 0, 5); let k = x.len() as i64;
            let mut p = Prob::new(op, vec![act(r, x)]);
            if r.b() { p = p.a("start", At::I(r.i(-k - 2, k + 2))); } if r.b() { p = p.a("end", At::I(r.i(-k - 2, k + 2))); }
            p
        }
        "ReduceMean" | "ReduceSum" | "ReduceMax" => {
            let x = dims(r, 0, 5); let lo = if r.p(12) { 0 } else { 1 }; let n = r.u(lo, 3);
            let ax: Vec<i64> = (0..n).map(|_| if r.p(96) && !x.is_empty() { r.i(-(x.len() as i64), x.len() as i64 - 1) } else { axis_in(r, x.len()) }).collect();
            let mut p = Prob::new(op, vec![act(r, x)]);
            match r.u(0, 7) { 0 | 1 => { if r.b() { p.ins.push(In::E); } p = p.a("axes", At::Is(ax)); } 2 => { if r.b() { p.ins.push(In::E); } } 3 => { if r.p(20) { p.ins.push(In::U); } else { p.ins.push(In::C(K::v(&ax))); p = p.a("axes", At::Is(vec![0])); } } _ => p.ins.push(In::C(K::v(&ax))) }
            if r.p(15) { p = p.a("noop_with_empty_axes", At::I(r.i(0, 1))); }
            if r.p(60) { p = p.a("keepdims", At::I(r.i(0, 1))); }
            p
        }
        "Resize" => {
            let x = dims(r, 1, 4); let n = x.len();
            let sizes: Vec<i64> = (0..n).map(|_| r.i(1, 20)).collect(); let sizes = perturb(r, sizes);
            let mut sc: Vec<f64> = (0..n).map(|_| *r.pick(&[0.5, 1.0, 2.0, 1.5, 0.25, 3.0, 0.1, 1.2])).collect();
            if r.p(5) { sc[0] = *r.pick(&[0.0, -1.0]); } if r.p(4) { sc.pop(); }
            let mut ins = vec![act(r, x), In::E];
            let which = r.u(0, 4);
            ins.push(if which != 0 { In::C(K::f(&sc)) } else { In::E });
            if which != 1 { ins.push(if r.p(4) { In::U } else { In::C(K::v(&sizes)) }); }
            Prob::new(op, ins)
        }
        "ConstantOfShape" => { let v: Vec<i64> = (0..r.u(0, 5)).map(|_| if r.p(4) { r.i(-3, -1) } else { dim(r) }).collect(); Prob::new(op, vec![if r.p(3) { In::U } else { In::C(K::v(&v)) }]) }
        "Range" => {
            let d = *r.pick(&[1, 1, 2, 3, -1, -2, 5, 0]); let s = r.i(-20, 20); let l = r.i(-20, 30);
            let mk = |r: &mut Rng, v: i64| if r.p(20) { In::C(K { dims: vec![], ints: vec![], floats: vec![v as f64 + *r.pick(&[0.0, 0.5])], dt: 1 }) } else if r.p(3) { In::U } else if r.p(4) { In::C(K::v(&[v, v])) } else { In::C(K::s(v)) };
            let v = vec![mk(r, s), mk(r, l), mk(r, d)];
            Prob::new(op, v)
        }
        "LayerNormalization" | "BatchNormalization" | "InstanceNormalization" | "GroupNormalization" => { let d = dims(r, 0, 4); let mut ins = vec![act(r, d)]; for _ in 0..r.u(0, 4) { ins.push(In::A(dims(r, 0, 3))); } Prob::new(op, ins) }
        _ if BIN.contains(&op) => { let f = dims(r, 0, 5); let (a, b) = (bshape(r, &f), bshape(r, &f)); let mut v = vec![act(r, a), act(r, b)]; if (op == "Max" || op == "Min") && r.p(10) { v.pop(); } Prob::new(op, v) }
        _ => {
            let d = dims(r, 0, 5); let mut ins = vec![act(r, d)];
            if op == "ScatterND" { ins.push(In::A(dims(r, 1, 3))); ins.push(In::A(dims(r, 1, 3))); }
            if op == "Clip" && r.b() { ins.push(In::C(K::s(0))); }
            let mut p = Prob::new(op, ins);
            if op == "Cast" { p = p.a("to", At::I(7)); }
            p
        }
    }
}
/// a shape broadcastable to `f` (mostly)
fn bshape(r: &mut Rng, f: &[i64]) -> Vec<i64> {
    let cut = if r.p(50) { 0 } else { r.u(0, f.len()) };
    let mut v: Vec<i64> = f[cut..].iter().map(|d| if r.p(30) { 1 } else { *d }).collect();
    if r.p(5) && !v.is_empty() { let k = r.u(0, v.len() - 1); v[k] += 1; }
    v
}

%%include quant.vc
%%type HashMap<String, usize> => SMap<usize>
%%item rust/jstprove_onnx/src/graph.rs::LayerGraph
%%item rust/jstprove_onnx/src/quantizer.rs::ScaleConfig
%%raw
pub open spec fn order_in(g: LayerGraph) -> bool { forall|i: int| #![trigger g.topo_order@[i]] 0 <= i < g.topo_order@.len() ==> g.topo_order@[i] < g.layers@.len() }
pub open spec fn topo_at(g: LayerGraph, i: int) -> LayerNode { g.layers@[g.topo_order@[i] as int] }
pub type Bm = Map<Seq<char>, VF>;
pub type Shp = Map<Seq<char>, Vec<usize>>;
/// operators whose circuit compares or looks values up bit by bit
pub open spec fn rc_op(op: OpType) -> bool {
    match op {
        OpType::Relu | OpType::LeakyRelu | OpType::MaxPool | OpType::Max | OpType::Min | OpType::Clip | OpType::Exp | OpType::Softmax | OpType::Sigmoid | OpType::Gelu | OpType::Resize | OpType::GridSample
        | OpType::TopK | OpType::AveragePool | OpType::Sqrt | OpType::Tanh | OpType::Erf | OpType::Pow | OpType::HardSwish | OpType::GlobalAveragePool | OpType::Sin | OpType::Cos => true,
        _ => false,
    }
}
/// `r` signed bits hold every multiple of `m` up to `alpha`
pub open spec fn wide(n: int, alpha: real, m: real) -> bool { n >= 2 && p2(n - 1) >= rmul(alpha, m) }
/// elements reduced into one output element, as far as the recorded shapes tell
pub open spec fn red_n(l: LayerNode, sh: Shp) -> int {
    match inp(l, 0) { Some(n) => if sh.contains_key(n) && l.outputs@.len() > 0 {
        let a = prod(sh[n]@); let o = if sh.contains_key(l.outputs@[0]@) { prod(sh[l.outputs@[0]@]@) } else { 1 };
        let q = a / (if o < 1 { 1 } else { o });
        if q < 1 { 1 } else { q } } else { 1 }, None => 1 }
}
/// contraction length of a product of two run-time matrices
pub open spec fn mm_k(l: LayerNode, sh: Shp) -> int {
    match inp(l, 0) { Some(n) => if sh.contains_key(n) && sh[n]@.len() > 0 { if sh[n]@.last() < 1 { 1 } else { sh[n]@.last() as int } } else { 1 }, None => 1 }
}
pub open spec fn dyn_mm(l: LayerNode) -> bool { l.inputs@.len() >= 2 && wt(l, 0) is None && wt(l, 1) is None }
pub open spec fn sum_ok(l: LayerNode, b: Bm, n: int, r: real) -> bool { forall|x: Seq<real>| #![trigger rsum(x)] x.len() <= n && arg(l, b, 0, x) ==> vr_abs(rsum(x)) <= r }
pub open spec fn dot_ok(l: LayerNode, b: Bm, n: int, r: real) -> bool { forall|x: Seq<real>, y: Seq<real>| #![trigger dot(x, y)] x.len() == y.len() && x.len() <= n && arg(l, b, 0, x) && arg(l, b, 1, y) ==> vr_abs(dot(x, y)) <= r }
/// the layer's bound, with accumulations counted from the recorded shapes
pub open spec fn bounded(l: LayerNode, b: Bm, alpha: real, sh: Shp, r: real) -> bool {
    r >= 0real && match l.op_type {
        OpType::ReduceSum => sum_ok(l, b, red_n(l, sh), r),
        OpType::MatMul => if dyn_mm(l) { dot_ok(l, b, mm_k(l, sh), r) } else { covers(l, b, alpha, r) },
        _ => covers(l, b, alpha, r),
    }
}
pub open spec fn bput(b: Bm, o: Seq<String>, v: VF, k: int) -> Bm decreases k { if k <= 0 { b } else { bput(b, o, v, k - 1).insert(o[k - 1]@, v) } }
/// bounds after the layer: its outputs take `v`; the indices of TopK are not scaled numbers
pub open spec fn bnext(l: LayerNode, a: Bm, v: VF, b: Bm) -> bool {
    if l.op_type == OpType::TopK {
        if l.outputs@.len() > 1 { exists|one: VF| #[trigger] one.r() == 1real && b == a.insert(l.outputs@[0]@, v).insert(l.outputs@[1]@, one) }
        else if l.outputs@.len() == 1 { b == a.insert(l.outputs@[0]@, v) } else { b == a }
    } else { b == bput(a, l.outputs@, v, l.outputs@.len() as int) }
}
pub open spec fn needs_n(l: LayerNode) -> bool { l.needs_rescale || rc_op(l.op_type) }
pub open spec fn at_b(g: LayerGraph, alpha: real, sh: Shp, t: Seq<Bm>, v: Seq<VF>, i: int) -> bool { bounded(topo_at(g, i), t[i], alpha, sh, v[i].r()) && bnext(topo_at(g, i), t[i], v[i], t[i + 1]) }
/// t: bounds before and after every layer in the graph's order; v: bound of every layer
pub open spec fn btrace(g: LayerGraph, alpha: real, sh: Shp, t: Seq<Bm>, v: Seq<VF>) -> bool {
    t.len() == v.len() + 1 && v.len() <= g.topo_order@.len() && binit(g, t[0], g.input_names@.len() as int) && forall|i: int| #![trigger at_b(g, alpha, sh, t, v, i)] 0 <= i < v.len() ==> at_b(g, alpha, sh, t, v, i)
}
/// model inputs are scaled to magnitude 1
pub open spec fn binit(g: LayerGraph, b: Bm, k: int) -> bool { forall|s: Seq<char>| #![trigger b.contains_key(s)] b.contains_key(s) == (exists|j: int| #![trigger g.input_names@[j]] 0 <= j < k && g.input_names@[j]@ == s) && (b.contains_key(s) ==> b[s].r() == 1real) }
pub open spec fn nfit(g: LayerGraph, alpha: real, v: Seq<VF>, nb: Map<Seq<char>, usize>, i: int) -> bool { let l = topo_at(g, i); needs_n(l) ==> nb.contains_key(l.name@) && wide(nb[l.name@] as int, alpha, v[i].r()) }
pub open spec fn nfits(g: LayerGraph, alpha: real, v: Seq<VF>, nb: Map<Seq<char>, usize>) -> bool { forall|i: int| #![trigger nfit(g, alpha, v, nb, i)] 0 <= i < v.len() ==> nfit(g, alpha, v, nb, i) }
pub open spec fn graph_ok(g: LayerGraph) -> bool { order_in(g) && forall|i: int| #![trigger g.layers@[i]] 0 <= i < g.layers@.len() ==> weights_ok(g.layers@[i]) }
/// element counts of the shapes estimated for bound computation fit the machine
pub open spec fn shapes_fit(m: Shp) -> bool { forall|s: Seq<char>| #![trigger m[s]] m.contains_key(s) ==> prod1(m[s]@) <= usize::MAX }
/// "m are the shapes propagate_shapes gives the tensors of g": its contract, discharged in unit qshapes, here only a name
pub uninterp spec fn shapes_by(g: LayerGraph, m: Shp) -> bool;
pub proof fn lemma_p2_mono(a: int, b: int) requires a <= b ensures p2(a) <= p2(b), p2(a) >= 1real decreases (if b > 0 { b } else { 0 })
{ if b > 0 { if a == b { lemma_p2_mono(a - 1, b - 1); } else { lemma_p2_mono(a, b - 1); } } }
/// x <= m / a leaves a * x within m
pub broadcast proof fn lemma_rdiv_fit(a: real, m: real, x: real) requires a > 0real, x <= #[trigger] rdiv(m, a) ensures #[trigger] rmul(a, x) <= m
{ let q = m / a; assert(q * a == m) by(nonlinear_arith) requires q == m / a, a > 0real; assert(a * x <= m) by(nonlinear_arith) requires x <= q, q * a == m, a > 0real; }
pub proof fn lemma_rsum(x: Seq<real>, m: real, n: int) requires within(x, m), m >= 0real, x.len() <= n ensures -(n as real * m) <= rsum(x) <= n as real * m decreases x.len()
{
    let nr = n as real;
    if x.len() == 0 { assert(nr * m >= 0real) by(nonlinear_arith) requires nr >= 0real, m >= 0real; } else {
        assert forall|i: int| #![trigger x.drop_last()[i]] 0 <= i < x.len() - 1 implies -m <= x.drop_last()[i] <= m by { assert(-m <= x[i] <= m); }
        lemma_rsum(x.drop_last(), m, n - 1);
        let n1 = (n - 1) as real;
        assert(-m <= x[x.len() - 1] <= m);
        assert(nr * m == n1 * m + m) by(nonlinear_arith) requires nr == n1 + 1real;
    }
}
pub proof fn lemma_within(l: LayerNode, b: Bm, k: int, x: Seq<real>, m: real) requires arg(l, b, k, x), opb(l, b, k, m) ensures within(x, m)
{ assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies -m <= x[i] <= m by { if x[i] != 0real { assert(opnd(l, b, k, x[i])); } } }
pub proof fn lemma_sumok(l: LayerNode, b: Bm, n: int, m: real, r: real) requires opb(l, b, 0, m), n >= 0, r >= n as real * m ensures sum_ok(l, b, n, r)
{ assert forall|x: Seq<real>| #![trigger rsum(x)] x.len() <= n && arg(l, b, 0, x) implies vr_abs(rsum(x)) <= r by { lemma_within(l, b, 0, x, m); lemma_rsum(x, m, n); } }
pub proof fn lemma_l1n(x: Seq<real>, m: real, n: int) requires within(x, m), m >= 0real, x.len() <= n ensures l1n(x) <= n as real * m
{
    let y = rabs(x);
    assert forall|i: int| #![trigger y[i]] 0 <= i < y.len() implies -m <= y[i] <= m by { assert(-m <= x[i] <= m); }
    lemma_rsum(y, m, n);
}
pub proof fn lemma_dotok(l: LayerNode, b: Bm, n: int, p: real, q: real, r: real) requires opb(l, b, 0, p), opb(l, b, 1, q), n >= 0, r >= p * q * (n as real) ensures dot_ok(l, b, n, r)
{
    assert forall|x: Seq<real>, y: Seq<real>| #![trigger dot(x, y)] x.len() == y.len() && x.len() <= n && arg(l, b, 0, x) && arg(l, b, 1, y) implies vr_abs(dot(x, y)) <= r by {
        lemma_within(l, b, 0, x, p); lemma_within(l, b, 1, y, q);
        lemma_dot(x, y, q); lemma_l1n(x, p, n);
        let a = l1n(x); let nr = n as real;
        assert(a * q <= p * q * nr) by(nonlinear_arith) requires a <= nr * p, q >= 0real;
    }
}
pub broadcast proof fn lemma_red(l: LayerNode, b: Bm, n: int, m: real, f: real) requires #[trigger] opb(l, b, 0, m), n >= 0, f == n as real ensures #[trigger] sum_ok(l, b, n, rmul(m, f))
{ assert(m * f == (n as real) * m) by(nonlinear_arith) requires f == n as real; lemma_sumok(l, b, n, m, rmul(m, f)); }
pub broadcast proof fn lemma_red1(l: LayerNode, b: Bm, n: int, m: real) requires #[trigger] opb(l, b, 0, m), n == 1 ensures #[trigger] sum_ok(l, b, n, m)
{ assert(1real * m == m) by(nonlinear_arith); lemma_sumok(l, b, n, m, m); }
pub proof fn lemma_opb_get(l: LayerNode, b: Bm, k: int) requires nonneg(b), wt(l, k) is None ensures opb(l, b, k, got(l, b, k)) { if inp(l, k) is Some { let n = inp(l, k)->Some_0; if b.contains_key(n) { assert(b[n].r() >= 0real); } } }
pub open spec fn got(l: LayerNode, b: Bm, k: int) -> real { match inp(l, k) { Some(n) => if b.contains_key(n) { b[n].r() } else { 1real }, None => 1real } }
pub broadcast proof fn lemma_wide_mono(a: int, b: int, al: real, m: real) requires #[trigger] wide(a, al, m), a <= b ensures #[trigger] wide(b, al, m) { lemma_p2_mono(a - 1, b - 1); }
pub proof fn lemma_bput_nn(b: Bm, o: Seq<String>, v: VF, k: int) requires nonneg(b), v.r() >= 0real ensures nonneg(bput(b, o, v, k)) decreases k { if k > 0 { lemma_bput_nn(b, o, v, k - 1); } }
pub proof fn lemma_nonneg_next(l: LayerNode, a: Bm, v: VF, b: Bm) requires nonneg(a), v.r() >= 0real, bnext(l, a, v, b) ensures nonneg(b) { if l.op_type != OpType::TopK { lemma_bput_nn(a, l.outputs@, v, l.outputs@.len() as int); } }
%%fn rust/jstprove_onnx/src/quantizer.rs::is_range_check_op
ensures r == rc_op(op),
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_n_bits
%%opt vf 1
%%opt fcast 1
requires alpha >= 0, bound.r() >= 0real, rmul(alpha as real, bound.r()) <= f64max(),
ensures wide(r as int, alpha as real, bound.r()), r <= 1026,
%%entry
assert(p2(1) == 2real) by { reveal_with_fuel(p2, 3); }
lemma_rmul_pos(alpha as real, bound.r());
let x = rmul(alpha as real, bound.r());
if x > 1real { let k = vr_ceil(vr_log2(x)); ax_ceil(vr_log2(x)); ax_log2(x, k); assert(0 < k <= 1024); }
%%fn rust/jstprove_onnx/src/graph.rs::LayerGraph::iter_topo
%%opt collect_tail Vec<&LayerNode>
requires order_in(*self),
ensures r@.len() == self.topo_order@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == self.layers@[self.topo_order@[i] as int],
%%fn rust/jstprove_onnx/src/quantizer.rs::propagate_shapes
%%opt stub unit-qshapes
ensures r is Ok ==> shapes_by(*graph, r->Ok_0@) && shapes_fit(r->Ok_0@),
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_bounds
%%opt vf 1
%%opt fcast 1
%%opt for_own 1
%%opt use lemma_red, lemma_red1, lemma_rdiv_fit, lemma_rmul_pos, lemma_wide_mono
requires graph_ok(*graph), config.alpha > 0,
ensures
    r is Ok ==> exists|sh: Shp, t: Seq<Bm>, v: Seq<VF>| #[trigger] btrace(*graph, config.alpha as real, sh, t, v) && shapes_by(*graph, sh) && v.len() == graph.topo_order@.len() && nfits(*graph, config.alpha as real, v, r->Ok_0@),
%%loop L0
binit(*graph, bounds@, ixL0 as int),
%%gbody L0
let ghost b0 = bounds@;
%%end L0
assert forall|s: Seq<char>| #![trigger bounds@.contains_key(s)] bounds@.contains_key(s) == (exists|j: int| #![trigger graph.input_names@[j]] 0 <= j < ixL0 && graph.input_names@[j]@ == s) && (bounds@.contains_key(s) ==> bounds@[s].r() == 1real) by {
    let z = b0.contains_key(s);
    if graph.input_names@[ixL0 - 1]@ == s { assert(0 <= ixL0 - 1 < ixL0); }
}
%%gpre L1
let ghost mut t: Seq<Bm> = Seq::empty();
let ghost mut v: Seq<VF> = Seq::empty();
%%pre L1
t = seq![bounds@];
assert(btrace(*graph, alpha as real, shapes@, t, v));
%%loop L1
btrace(*graph, alpha as real, shapes@, t, v), v.len() == ixL1, t.last() == bounds@, nonneg(bounds@), nfits(*graph, alpha as real, v, n_bits_config@), alpha > 0, shapes_fit(shapes@),
forall|s: Seq<char>| #![trigger n_bits_config@[s]] n_bits_config@.contains_key(s) ==> n_bits_config@[s] <= 1026,
%%gbody L1
let ghost b1 = bounds@; let ghost n1 = n_bits_config@;
%%body L1
assert(*layer == topo_at(*graph, ixL1 - 1));
%%end L1
let l = *layer;
if l.op_type == OpType::MatMul && dyn_mm(l) {
    let p = got(l, b1, 0); let q = got(l, b1, 1); let k = mm_k(l, shapes@);
    lemma_opb_get(l, b1, 0); lemma_opb_get(l, b1, 1);
    assert(p * q >= 0real) by(nonlinear_arith) requires p >= 0real, q >= 0real;
    lemma_rmul_pos(rmul(p, q), k as real);
    assert(bound.r() == rmul(rmul(p, q), k as real));
    lemma_dotok(l, b1, k, p, q, bound.r());
    assert(dot_ok(l, b1, k, bound.r()));
} else if l.op_type == OpType::ReduceSum {
    assert(sum_ok(l, b1, red_n(l, shapes@), bound.r()));
}
assert(bounded(l, b1, alpha as real, shapes@, bound.r()));
assert(bnext(l, b1, bound, bounds@));
lemma_btrace(*graph, alpha as real, shapes@, t, v, bounds@, bound);
assert(nonneg(bounds@)) by { lemma_nonneg_next(l, b1, bound, bounds@); }
if needs_n(l) { assert(wide(n_bits_config@[l.name@] as int, alpha as real, bound.r())); }
assert(nfit(*graph, alpha as real, v.push(bound), n_bits_config@, v.len() as int));
lemma_nfits(*graph, alpha as real, v, bound, n1, n_bits_config@);
t = t.push(bounds@); v = v.push(bound);
%%loop L2
bounds@ == bput(b1, layer.outputs@, bound, ixL2 as int),
%%raw
pub proof fn lemma_btrace(g: LayerGraph, a: real, sh: Shp, t: Seq<Bm>, v: Seq<VF>, b: Bm, x: VF)
    requires btrace(g, a, sh, t, v), v.len() < g.topo_order@.len(), bounded(topo_at(g, v.len() as int), t.last(), a, sh, x.r()), bnext(topo_at(g, v.len() as int), t.last(), x, b)
    ensures btrace(g, a, sh, t.push(b), v.push(x))
{
    let u = t.push(b); let w = v.push(x);
    assert forall|i: int| #![trigger at_b(g, a, sh, u, w, i)] 0 <= i < w.len() implies at_b(g, a, sh, u, w, i) by { if i < v.len() { assert(at_b(g, a, sh, t, v, i)); } }
}
pub proof fn lemma_nfits(g: LayerGraph, a: real, v: Seq<VF>, x: VF, n: Map<Seq<char>, usize>, m: Map<Seq<char>, usize>)
    requires nfits(g, a, v, n), nfit(g, a, v.push(x), m, v.len() as int), forall|s: Seq<char>| #![trigger m[s]] n.contains_key(s) ==> m.contains_key(s) && n[s] <= m[s]
    ensures nfits(g, a, v.push(x), m)
{
    let w = v.push(x);
    assert forall|i: int| #![trigger nfit(g, a, w, m, i)] 0 <= i < w.len() implies nfit(g, a, w, m, i) by { if i < v.len() { assert(nfit(g, a, v, n, i)); let l = topo_at(g, i); if needs_n(l) { let z = m[l.name@]; lemma_p2_mono(n[l.name@] - 1, m[l.name@] - 1); } } }
}

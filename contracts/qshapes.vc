%%include onnx_base.vc
%%type HashMap::new() => SMap::new()
%%raw
// ---- tensor shapes the quantizer counts accumulation lengths with ------------------------------------
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { SMap { m: HashMap::new() } }
    /// iteration visits every entry once, in any order
    #[verifier::external_body] pub fn vx_s(&self) -> (r: &[(String, V)]) ensures entries(r@, self@) { unimplemented!() }
}
impl SMap<Vec<usize>> {
    #[verifier::external_body] pub fn extend(&mut self, v: Vec<(String, Vec<usize>)>) ensures final(self)@ == put(old(self)@, v@, v@.len() as int) { self.m.extend(v) }
}
pub open spec fn entries<V>(p: Seq<(String, V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> m.contains_key(p[i].0@) && m[p[i].0@] == p[i].1
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> p[i].0@ != p[j].0@
    &&& forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| #![trigger p[i]] 0 <= i < p.len() && p[i].0@ == k
}
%%item rust/jstprove_onnx/src/graph.rs::LayerGraph
%%raw
pub type Shp = Map<Seq<char>, Vec<usize>>;
pub type Cst = Map<Seq<char>, TensorData>;
pub open spec fn opt_has(m: Shp, s: Seq<char>, v: Option<Seq<usize>>) -> bool { match v { Some(x) => m.contains_key(s) && m[s]@ =~= x, None => !m.contains_key(s) } }
/// an input declared with at least two extents besides the batch has the batch axis in front
pub open spec fn batched(x: Seq<usize>) -> Seq<usize> { if x.len() >= 2 { x.insert(0, 1usize) } else { x } }
pub open spec fn kconst(l: LayerNode) -> Option<TensorData> {
    if l.op_type == OpType::Constant && l.attributes@.contains_key("value"@) { match l.attributes@["value"@] { AttrValue::Tensor(t) => Some(t), _ => None } } else { None }
}
pub open spec fn outn(l: LayerNode, s: Seq<char>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] l.outputs@[j]@ == s }
// what is known before any layer is visited: tensor s has shape x
pub open spec fn as_input(g: LayerGraph, s: Seq<char>, x: Seq<usize>) -> bool { g.input_shapes@.contains_key(s) && x =~= batched(g.input_shapes@[s]@) }
pub open spec fn has_w(g: LayerGraph, s: Seq<char>, i: int) -> bool { g.layers@[i].weights@.contains_key(s) }
/// as a constant of one of the first k layers
pub open spec fn as_weight(g: LayerGraph, s: Seq<char>, x: Seq<usize>, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] has_w(g, s, i) && x =~= td_shape(g.layers@[i].weights@[s]) }
pub open spec fn has_k(g: LayerGraph, s: Seq<char>, i: int) -> bool { kconst(g.layers@[i]) is Some && outn(g.layers@[i], s, g.layers@[i].outputs@.len() as int) }
/// as the value of a Constant layer among the first k
pub open spec fn as_value(g: LayerGraph, s: Seq<char>, x: Seq<usize>, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] has_k(g, s, i) && x =~= td_shape(kconst(g.layers@[i])->Some_0) }
/// every input, constant and Constant value is recorded, and nothing else (a name with several sources, which
/// a valid model does not have, may take any of them)
pub open spec fn seeded(g: LayerGraph, m: Shp, w: int, k: int) -> bool {
    &&& forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) ==> as_input(g, s, m[s]@) || as_weight(g, s, m[s]@, w) || as_value(g, s, m[s]@, k)
    &&& forall|s: Seq<char>| #![trigger g.input_shapes@.contains_key(s)] g.input_shapes@.contains_key(s) ==> m.contains_key(s)
    &&& forall|s: Seq<char>, i: int| #![trigger has_w(g, s, i)] 0 <= i < w && has_w(g, s, i) ==> m.contains_key(s)
    &&& forall|s: Seq<char>, i: int| #![trigger has_k(g, s, i)] 0 <= i < k && has_k(g, s, i) ==> m.contains_key(s)
}
/// shapes after recording the first k results
pub open spec fn put(sh: Shp, r: Seq<(String, Vec<usize>)>, k: int) -> Shp decreases k { if k <= 0 { sh } else { put(sh, r, k - 1).insert(r[k - 1].0@, r[k - 1].1) } }
/// "r is what the shape rules say about this layer" and "b is a after folding this layer": the contracts of
/// infer_layer_output_shape and fold_constants, discharged in unit dispatch (and S01-S08 below it)
pub uninterp spec fn inferred(l: LayerNode, sh: Shp, ini: Cst, ct: Cst, r: Result<Vec<(String, Vec<usize>)>, VErr>) -> bool;
pub uninterp spec fn folded(l: LayerNode, sh: Shp, ini: Cst, a: Cst, b: Cst) -> bool;
/// what the fallback estimates record for a layer the rules refuse: shapes of the layer's own outputs only
/// (assumed: the estimates are not under contract)
pub uninterp spec fn estimated(l: LayerNode, a: Shp, b: Shp) -> bool;
pub open spec fn own_outputs(l: LayerNode, a: Shp, b: Shp) -> bool {
    forall|s: Seq<char>| #![trigger b.contains_key(s)] !outn(l, s, l.outputs@.len() as int) ==> b.contains_key(s) == a.contains_key(s) && (a.contains_key(s) ==> b[s] == a[s])
}
#[verifier::external_body]
pub fn vx_est(layer: &LayerNode, shapes: &mut SMap<Vec<usize>>, x: Option<Vec<usize>>) -> (r: Result<(), VErr>) ensures estimated(*layer, old(shapes)@, final(shapes)@), own_outputs(*layer, old(shapes)@, final(shapes)@) { unimplemented!() }
/// the shape rules decide a layer they accept; only a layer they refuse is estimated
pub open spec fn step(l: LayerNode, a: Shp, c: Cst, r: Result<Vec<(String, Vec<usize>)>, VErr>, b: Shp, d: Cst) -> bool {
    inferred(l, a, l.weights@, c, r) && match r {
        Ok(o) => b == put(a, o@, o@.len() as int) && folded(l, b, l.weights@, c, d),
        Err(_) => d == c && estimated(l, a, b) && own_outputs(l, a, b),
    }
}
pub open spec fn st_ok(g: LayerGraph, t: Seq<(Shp, Cst)>, i: int, r: Result<Vec<(String, Vec<usize>)>, VErr>) -> bool { step(g.layers@[g.topo_order@[i] as int], t[i].0, t[i].1, r, t[i + 1].0, t[i + 1].1) }
pub open spec fn at_step(g: LayerGraph, t: Seq<(Shp, Cst)>, i: int) -> bool { exists|r: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] st_ok(g, t, i, r) }
/// t: the states before and after every layer, taken in the graph's order
pub open spec fn trace(g: LayerGraph, t: Seq<(Shp, Cst)>) -> bool {
    t.len() >= 1 && seeded(g, t[0].0, g.layers@.len() as int, g.layers@.len() as int) && t[0].1 == Map::<Seq<char>, TensorData>::empty() && forall|i: int| #![trigger at_step(g, t, i)] 0 <= i < t.len() - 1 ==> at_step(g, t, i)
}
pub proof fn lemma_trace(g: LayerGraph, t: Seq<(Shp, Cst)>, b: Shp, d: Cst, r: Result<Vec<(String, Vec<usize>)>, VErr>)
    requires trace(g, t), step(g.layers@[g.topo_order@[t.len() - 1] as int], t.last().0, t.last().1, r, b, d)
    ensures trace(g, t.push((b, d)))
{
    let u = t.push((b, d));
    assert forall|i: int| #![trigger at_step(g, u, i)] 0 <= i < u.len() - 1 implies at_step(g, u, i) by {
        if i < t.len() - 1 { assert(at_step(g, t, i)); let q = choose|q: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] st_ok(g, t, i, q); assert(st_ok(g, u, i, q)); }
        else { assert(st_ok(g, u, i, r)); }
    }
}
pub open spec fn order_in(g: LayerGraph) -> bool { forall|i: int| #![trigger g.topo_order@[i]] 0 <= i < g.topo_order@.len() ==> g.topo_order@[i] < g.layers@.len() }
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_layer_output_shape
%%opt stub S09
ensures inferred(*layer, shapes@, initializers@, constant_tensors@, r),
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_constants
%%opt stub S09
ensures folded(*layer, shapes@, initializers@, old(constant_tensors)@, final(constant_tensors)@),
%%fn rust/jstprove_onnx/src/graph.rs::LayerGraph::iter_topo
%%opt collect_tail Vec<&LayerNode>
requires order_in(*self),
ensures r@.len() == self.topo_order@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == self.layers@[self.topo_order@[i] as int],
%%include bcast_spec.vc
%%raw
/// larger of the two aligned extents: the broadcast extent wherever the two broadcast
pub open spec fn bmax(a: Seq<usize>, b: Seq<usize>, i: int) -> usize { let n = bc_rank(a, b) as int; if bdim(a, n, i) < bdim(b, n, i) { bdim(b, n, i) } else { bdim(a, n, i) } }
pub open spec fn bmaxs(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> { Seq::new(bc_rank(a, b), |i: int| bmax(a, b, i)) }
pub open spec fn positive(a: Seq<usize>) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i] >= 1 }
pub proof fn lemma_bmax_is_bc(a: Seq<usize>, b: Seq<usize>) requires bc_ok(a, b), positive(a), positive(b) ensures bmaxs(a, b) =~= bc(a, b)
{
    assert forall|i: int| 0 <= i < bc_rank(a, b) implies bmax(a, b, i) == bc_dim(a, b, i) by { assert(bc_dim_ok(a, b, i)); }
}
%%fn rust/jstprove_onnx/src/quantizer.rs::broadcast_two
requires a@.len() <= 0x4000_0000_0000_0000, b@.len() <= 0x4000_0000_0000_0000,
ensures r@ =~= bmaxs(a@, b@),
    bc_ok(a@, b@) && positive(a@) && positive(b@) ==> r@ =~= bc(a@, b@),
%%entry
if bc_ok(a@, b@) && positive(a@) && positive(b@) { lemma_bmax_is_bc(a@, b@); }
%%loop A0
len == bc_rank(a@, b@), a@.len() <= 0x4000_0000_0000_0000, b@.len() <= 0x4000_0000_0000_0000,
outA0@ =~= bmaxs(a@, b@).take(ixA0 as int),
%%post A0
assert(outA0@ =~= bmaxs(a@, b@));
%%raw
// while the entries of one map are read
pub open spec fn ins_at(g: LayerGraph, m: Shp, p: Seq<(String, Vec<usize>)>, k: int) -> bool {
    (forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) ==> as_input(g, s, m[s]@)) && forall|j: int| #![trigger p[j]] 0 <= j < k ==> m.contains_key(p[j].0@)
}
pub open spec fn ws_at(g: LayerGraph, m: Shp, p: Seq<(String, TensorData)>, l: int, k: int) -> bool {
    &&& forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) ==> as_input(g, s, m[s]@) || as_weight(g, s, m[s]@, l + 1)
    &&& forall|s: Seq<char>| #![trigger g.input_shapes@.contains_key(s)] g.input_shapes@.contains_key(s) ==> m.contains_key(s)
    &&& forall|s: Seq<char>, i: int| #![trigger has_w(g, s, i)] 0 <= i < l && has_w(g, s, i) ==> m.contains_key(s)
    &&& forall|j: int| #![trigger p[j]] 0 <= j < k ==> m.contains_key(p[j].0@)
}
pub open spec fn ks_at(g: LayerGraph, m: Shp, l: int, k: int) -> bool {
    let n = g.layers@.len() as int;
    &&& forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) ==> as_input(g, s, m[s]@) || as_weight(g, s, m[s]@, n) || as_value(g, s, m[s]@, l + 1)
    &&& forall|s: Seq<char>| #![trigger g.input_shapes@.contains_key(s)] g.input_shapes@.contains_key(s) ==> m.contains_key(s)
    &&& forall|s: Seq<char>, i: int| #![trigger has_w(g, s, i)] 0 <= i < n && has_w(g, s, i) ==> m.contains_key(s)
    &&& forall|s: Seq<char>, i: int| #![trigger has_k(g, s, i)] 0 <= i < l && has_k(g, s, i) ==> m.contains_key(s)
    &&& forall|j: int| #![trigger g.layers@[l].outputs@[j]] 0 <= j < k ==> m.contains_key(g.layers@[l].outputs@[j]@)
}
pub proof fn lemma_as_w(g: LayerGraph, s: Seq<char>, x: Seq<usize>, k: int) requires as_weight(g, s, x, k) ensures as_weight(g, s, x, k + 1) { let i = choose|i: int| 0 <= i < k && #[trigger] has_w(g, s, i) && x =~= td_shape(g.layers@[i].weights@[s]); assert(has_w(g, s, i)); }
pub proof fn lemma_as_k(g: LayerGraph, s: Seq<char>, x: Seq<usize>, k: int) requires as_value(g, s, x, k) ensures as_value(g, s, x, k + 1) { let i = choose|i: int| 0 <= i < k && #[trigger] has_k(g, s, i) && x =~= td_shape(kconst(g.layers@[i])->Some_0); assert(has_k(g, s, i)); }
pub proof fn lemma_new_w(g: LayerGraph, s: Seq<char>, x: Seq<usize>, l: int) requires 0 <= l < g.layers@.len(), g.layers@[l].weights@.contains_key(s), x =~= td_shape(g.layers@[l].weights@[s]) ensures as_weight(g, s, x, l + 1) { assert(has_w(g, s, l)); }
pub proof fn lemma_new_k(g: LayerGraph, s: Seq<char>, x: Seq<usize>, l: int, j: int) requires 0 <= l < g.layers@.len(), kconst(g.layers@[l]) is Some, 0 <= j < g.layers@[l].outputs@.len(), g.layers@[l].outputs@[j]@ == s, x =~= td_shape(kconst(g.layers@[l])->Some_0) ensures as_value(g, s, x, l + 1) { assert(has_k(g, s, l)); }
pub proof fn lemma_ins_end(g: LayerGraph, m: Shp, p: Seq<(String, Vec<usize>)>) requires ins_at(g, m, p, p.len() as int), entries(p, g.input_shapes@) ensures seeded(g, m, 0, 0)
{
    assert forall|s: Seq<char>| #![trigger g.input_shapes@.contains_key(s)] g.input_shapes@.contains_key(s) implies m.contains_key(s) by { let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && p[i].0@ == s; let z = p[i]; }
}
pub proof fn lemma_ws_start(g: LayerGraph, m: Shp, p: Seq<(String, TensorData)>, l: int) requires seeded(g, m, l, 0) ensures ws_at(g, m, p, l, 0)
{
    assert forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) implies as_input(g, s, m[s]@) || as_weight(g, s, m[s]@, l + 1) by { if as_weight(g, s, m[s]@, l) { lemma_as_w(g, s, m[s]@, l); } }
}
pub proof fn lemma_ws_end(g: LayerGraph, m: Shp, p: Seq<(String, TensorData)>, l: int) requires 0 <= l < g.layers@.len(), ws_at(g, m, p, l, p.len() as int), entries(p, g.layers@[l].weights@) ensures seeded(g, m, l + 1, 0)
{
    assert forall|s: Seq<char>, i: int| #![trigger has_w(g, s, i)] 0 <= i < l + 1 && has_w(g, s, i) implies m.contains_key(s) by {
        if i == l { let q = choose|q: int| #![trigger p[q]] 0 <= q < p.len() && p[q].0@ == s; let z = p[q]; }
    }
}
pub proof fn lemma_ks_start(g: LayerGraph, m: Shp, l: int) requires seeded(g, m, g.layers@.len() as int, l) ensures ks_at(g, m, l, 0)
{
    let n = g.layers@.len() as int;
    assert forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) implies as_input(g, s, m[s]@) || as_weight(g, s, m[s]@, n) || as_value(g, s, m[s]@, l + 1) by { if as_value(g, s, m[s]@, l) { lemma_as_k(g, s, m[s]@, l); } }
}
pub proof fn lemma_ks_end(g: LayerGraph, m: Shp, l: int) requires 0 <= l < g.layers@.len(), kconst(g.layers@[l]) is Some, ks_at(g, m, l, g.layers@[l].outputs@.len() as int) ensures seeded(g, m, g.layers@.len() as int, l + 1)
{
    assert forall|s: Seq<char>, i: int| #![trigger has_k(g, s, i)] 0 <= i < l + 1 && has_k(g, s, i) implies m.contains_key(s) by {
        if i == l { let j = choose|j: int| 0 <= j < g.layers@[l].outputs@.len() && #[trigger] g.layers@[l].outputs@[j]@ == s; let z = g.layers@[l].outputs@[j]; }
    }
}
pub proof fn lemma_ks_none(g: LayerGraph, m: Shp, l: int) requires 0 <= l < g.layers@.len(), kconst(g.layers@[l]) is None, seeded(g, m, g.layers@.len() as int, l) ensures seeded(g, m, g.layers@.len() as int, l + 1)
{
    let n = g.layers@.len() as int;
    assert forall|s: Seq<char>| #![trigger m.contains_key(s)] m.contains_key(s) implies as_input(g, s, m[s]@) || as_weight(g, s, m[s]@, n) || as_value(g, s, m[s]@, l + 1) by { if as_value(g, s, m[s]@, l) { lemma_as_k(g, s, m[s]@, l); } }
}
%%fn rust/jstprove_onnx/src/quantizer.rs::propagate_shapes
%%opt opaque out_shape=vx_est(layer, &mut shapes, input_shape)
requires order_in(*graph),
ensures r is Ok ==> exists|t: Seq<(Shp, Cst)>| #[trigger] trace(*graph, t) && t.len() == graph.topo_order@.len() + 1 && t.last().0 == r->Ok_0@,
%%loop L0
ins_at(*graph, shapes@, srcL0@, ixL0 as int), entries(srcL0@, graph.input_shapes@),
%%gbody L0
let ghost s0 = shapes@;
%%end L0
let e0 = srcL0@[ixL0 - 1];
assert forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] shapes@.contains_key(s) implies as_input(*graph, s, shapes@[s]@) by { let z = s0.contains_key(s); }
%%post L0
lemma_ins_end(*graph, shapes@, srcL0@);
%%loop L1
seeded(*graph, shapes@, ixL1 as int, 0), srcL1@ == graph.layers@,
%%pre L2
lemma_ws_start(*graph, shapes@, srcL2@, ixL1 - 1);
%%loop L2
ws_at(*graph, shapes@, srcL2@, ixL1 - 1, ixL2 as int), entries(srcL2@, layer.weights@), 1 <= ixL1 <= graph.layers@.len(), *layer == graph.layers@[ixL1 - 1],
%%gbody L2
let ghost s2 = shapes@;
%%end L2
let e2 = srcL2@[ixL2 - 1];
assert forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] shapes@.contains_key(s) implies as_input(*graph, s, shapes@[s]@) || as_weight(*graph, s, shapes@[s]@, ixL1 as int) by {
    let z = s2.contains_key(s);
    if s == e2.0@ && shapes@[s]@ =~= td_shape(e2.1) { lemma_new_w(*graph, s, shapes@[s]@, ixL1 - 1); }
}
%%post L2
lemma_ws_end(*graph, shapes@, srcL2@, ixL1 - 1);
%%loop L3
seeded(*graph, shapes@, graph.layers@.len() as int, ixL3 as int), srcL3@ == graph.layers@,
%%gbody L3
let ghost s3 = shapes@;
%%end L3
if kconst(*layer) is None { lemma_ks_none(*graph, s3, ixL3 - 1); }
%%pre L4
lemma_ks_start(*graph, shapes@, ixL3 - 1);
%%loop L4
ks_at(*graph, shapes@, ixL3 - 1, ixL4 as int), srcL4@ == layer.outputs@, 1 <= ixL3 <= graph.layers@.len(), *layer == graph.layers@[ixL3 - 1], kconst(*layer) is Some, kconst(*layer) == Some(*td),
%%gbody L4
let ghost s4 = shapes@;
%%end L4
let e4 = srcL4@[ixL4 - 1];
assert forall|s: Seq<char>| #![trigger shapes@.contains_key(s)] shapes@.contains_key(s) implies as_input(*graph, s, shapes@[s]@) || as_weight(*graph, s, shapes@[s]@, graph.layers@.len() as int) || as_value(*graph, s, shapes@[s]@, ixL3 as int) by {
    let z = s4.contains_key(s);
    if s == e4@ && shapes@[s]@ =~= td_shape(*td) { lemma_new_k(*graph, s, shapes@[s]@, ixL3 - 1, ixL4 - 1); }
}
%%post L4
lemma_ks_end(*graph, shapes@, ixL3 - 1);
%%gpre L5
let ghost mut tr: Seq<(Shp, Cst)> = Seq::empty();
%%pre L5
tr = seq![(shapes@, constants@)];
assert(trace(*graph, tr));
%%loop L5
trace(*graph, tr), tr.len() == ixL5 + 1, tr.last() == (shapes@, constants@), srcL5@.len() == graph.topo_order@.len(), forall|i: int| #![trigger srcL5@[i]] 0 <= i < srcL5@.len() ==> *srcL5@[i] == graph.layers@[graph.topo_order@[i] as int],
%%gbody L5
let ghost s5 = shapes@; let ghost c5 = constants@;
%%end L5
if !(exists|q: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] step(*layer, s5, c5, q, shapes@, constants@)) {
    assert(forall|q: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] inferred(*layer, s5, layer.weights@, c5, q) ==> !step(*layer, s5, c5, q, shapes@, constants@));
    assert(false);
}
let rr = choose|q: Result<Vec<(String, Vec<usize>)>, VErr>| #[trigger] step(*layer, s5, c5, q, shapes@, constants@);
lemma_trace(*graph, tr, shapes@, constants@, rr);
tr = tr.push((shapes@, constants@));

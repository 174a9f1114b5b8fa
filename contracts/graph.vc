%%include onnx_base.vc
%%type HashMap::new() => SMap::new()
%%type std::collections::HashSet<&str> => StrSet
%%raw
// ---- construction of the layer graph ----------------------------------------------------------------
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { SMap { m: HashMap::new() } }
}
/// a set of names (std HashSet<&str>)
#[verifier::external_body]
pub struct StrSet { m: std::collections::HashSet<String> }
impl View for StrSet { type V = spec_fn(Seq<char>) -> bool; uninterp spec fn view(&self) -> spec_fn(Seq<char>) -> bool; }
impl StrSet {
    #[verifier::external_body]
    pub fn contains(&self, k: &str) -> (r: bool) ensures r == (self@)(k@) { self.m.contains(k) }
}
#[verifier::external_body]
pub fn vx_keys<V>(m: &SMap<V>) -> (r: StrSet) ensures forall|k: Seq<char>| #[trigger] (r@)(k) == m@.contains_key(k) { StrSet { m: m.m.keys().cloned().collect() } }
impl Clone for TensorData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { TensorData { name: self.name.clone(), dims: self.dims.clone(), data_type: self.data_type, float_data: self.float_data.clone(), int_data: self.int_data.clone() } }
}
impl<V> Clone for SMap<V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// map built from (name, value) pairs, later pairs win
pub open spec fn pairs_map<V>(s: Seq<(String, V)>) -> Map<Seq<char>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0@, s.last().1) }
}
#[verifier::external_body]
pub fn vx_smap<V>(v: Vec<(String, V)>) -> (r: SMap<V>) ensures r@ == pairs_map(v@) { SMap { m: v.into_iter().collect() } }
// ---- maps keyed by string slices: assumed contract on std HashMap<&str, V> ---------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct RMap<V> { m: HashMap<String, V> }
impl<V> View for RMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> RMap<V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }
    { self.m.get(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &str, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { self.m.insert(k.to_string(), v) }
}
%%item rust/jstprove_onnx/src/graph.rs::LayerGraph
%%item rust/jstprove_onnx/src/parser.rs::ParsedModel
%%item rust/jstprove_onnx/src/parser.rs::ParsedNode
%%item rust/jstprove_onnx/src/parser.rs::IoSpec
%%include topo_spec.vc
%%fn rust/jstprove_onnx/src/graph.rs::topological_sort
%%opt stub G01
ensures
    r is Ok ==> topo_ok(layers@, r->Ok_0@),
    r is Err ==> exists|o: Seq<usize>| #[trigger] stuck(layers@, o),
%%include optab.vc
%%fn rust/jstprove_onnx/src/graph.rs::OpType::from_str
ensures
    match optab(s@) { Some(o) => r is Ok && r->Ok_0 == o, None => r is Err },
%%fn rust/jstprove_onnx/src/graph.rs::OpType::needs_rescale
ensures r == rescales(*self),
%%raw
// ---- what the graph of a model is ---------------------------------------------------------------------
pub open spec fn names_out(n: ParsedNode, s: Seq<char>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] n.outputs@[j]@ == s }
pub open spec fn const_td(n: ParsedNode) -> Option<TensorData> {
    if n.op_type@ == "Constant"@ && n.attributes@.contains_key("value"@) { match n.attributes@["value"@] { AttrValue::Tensor(t) => Some(t), _ => None } } else { None }
}
/// the tensor held by the Constant node (the last one, if several) among the first k that outputs s;
/// of node k itself only the first j outputs are looked at
pub open spec fn cval(ns: Seq<ParsedNode>, s: Seq<char>, k: int, j: int) -> Option<TensorData> decreases k {
    if 0 <= k < ns.len() && const_td(ns[k]) is Some && names_out(ns[k], s, j) { const_td(ns[k]) }
    else if k <= 0 { None } else { cval(ns, s, k - 1, ns[k - 1].outputs@.len() as int) }
}
pub open spec fn ctab(m: Map<Seq<char>, TensorData>, ns: Seq<ParsedNode>, k: int, j: int) -> bool {
    forall|s: Seq<char>| #![trigger m.contains_key(s)] match cval(ns, s, k, j) { Some(t) => m.contains_key(s) && m[s] == t, None => !m.contains_key(s) }
}
/// constant behind a tensor name: an initializer, or else a Constant node's value
pub open spec fn weight_of(m: ParsedModel, s: Seq<char>) -> Option<TensorData> {
    if m.initializers@.contains_key(s) { Some(m.initializers@[s]) } else { cval(m.nodes@, s, m.nodes@.len() as int, 0) }
}
pub open spec fn reads(n: ParsedNode, s: Seq<char>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] n.inputs@[j]@ == s }
pub open spec fn wtab(w: Map<Seq<char>, TensorData>, m: ParsedModel, n: ParsedNode, k: int) -> bool {
    forall|s: Seq<char>| #![trigger w.contains_key(s)] if reads(n, s, k) && weight_of(m, s) is Some { w.contains_key(s) && w[s] == weight_of(m, s)->Some_0 } else { !w.contains_key(s) }
}
pub open spec fn names_eq(a: Seq<String>, b: Seq<String>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i]@ }
pub open spec fn layer_ok(l: LayerNode, m: ParsedModel, i: int) -> bool {
    let n = m.nodes@[i];
    &&& l.id == i && l.name@ == n.name@ && optab(n.op_type@) == Some(l.op_type)
    &&& names_eq(n.inputs@, l.inputs@) && names_eq(n.outputs@, l.outputs@)
    &&& l.attributes@ == n.attributes@ && wtab(l.weights@, m, n, n.inputs@.len() as int)
    &&& l.output_shape@.len() == 0 && l.n_bits is None && l.needs_rescale == rescales(l.op_type)
}
/// extents of a declared input without its batch axis; unknown extents count as one
pub open spec fn iext(s: Seq<i64>) -> Seq<usize> { Seq::new(s.len(), |i: int| if s[i] <= 0 { 1usize } else { s[i] as usize }) }
pub open spec fn ishape(s: Seq<i64>) -> Seq<usize> { if s.len() >= 2 { iext(s).skip(1) } else { iext(s) } }
/// names of the declared inputs that are not initializers, in order
pub open spec fn in_names(m: ParsedModel, k: int) -> Seq<Seq<char>> decreases k {
    if k <= 0 { Seq::empty() } else if m.initializers@.contains_key(m.inputs@[k - 1].name@) { in_names(m, k - 1) } else { in_names(m, k - 1).push(m.inputs@[k - 1].name@) }
}
pub open spec fn in_shapes(m: ParsedModel, k: int) -> Map<Seq<char>, Seq<usize>> decreases k {
    if k <= 0 { Map::empty() } else if m.initializers@.contains_key(m.inputs@[k - 1].name@) { in_shapes(m, k - 1) } else { in_shapes(m, k - 1).insert(m.inputs@[k - 1].name@, ishape(m.inputs@[k - 1].shape@)) }
}
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn mviews(s: Map<Seq<char>, Vec<usize>>) -> Map<Seq<char>, Seq<usize>> { s.map_values(|v: Vec<usize>| v@) }
pub open spec fn graph_ok(g: LayerGraph, m: ParsedModel) -> bool {
    &&& g.layers@.len() == m.nodes@.len() && forall|i: int| #![trigger g.layers@[i]] 0 <= i < g.layers@.len() ==> layer_ok(g.layers@[i], m, i)
    &&& topo_ok(g.layers@, g.topo_order@)
    &&& views(g.input_names@) =~= in_names(m, m.inputs@.len() as int)
    &&& g.output_names@.len() == m.outputs@.len() && forall|i: int| #![trigger g.output_names@[i]] 0 <= i < g.output_names@.len() ==> g.output_names@[i]@ == m.outputs@[i].name@
    &&& mviews(g.input_shapes@) =~= in_shapes(m, m.inputs@.len() as int)
}
pub proof fn lemma_ctab_step(m0: Map<Seq<char>, TensorData>, m: Map<Seq<char>, TensorData>, ns: Seq<ParsedNode>, k: int, j: int)
    requires ctab(m0, ns, k, j), 0 <= k < ns.len(), 0 <= j < ns[k].outputs@.len(), const_td(ns[k]) is Some, m == m0.insert(ns[k].outputs@[j]@, const_td(ns[k])->Some_0)
    ensures ctab(m, ns, k, j + 1)
{
    let x = ns[k].outputs@[j]@;
    assert forall|s: Seq<char>| #![trigger m.contains_key(s)] match cval(ns, s, k, j + 1) { Some(t) => m.contains_key(s) && m[s] == t, None => !m.contains_key(s) } by {
        let z = m0.contains_key(s);
        if s == x { assert(names_out(ns[k], s, j + 1)); }
        else { assert(names_out(ns[k], s, j + 1) == names_out(ns[k], s, j)) by {
            if names_out(ns[k], s, j + 1) { let q = choose|q: int| 0 <= q < j + 1 && #[trigger] ns[k].outputs@[q]@ == s; assert(q != j); assert(0 <= q < j && ns[k].outputs@[q]@ == s); }
            if names_out(ns[k], s, j) { let q = choose|q: int| 0 <= q < j && #[trigger] ns[k].outputs@[q]@ == s; assert(0 <= q < j + 1 && ns[k].outputs@[q]@ == s); } } }
    }
}
pub proof fn lemma_ctab_next(m: Map<Seq<char>, TensorData>, ns: Seq<ParsedNode>, k: int)
    requires 0 <= k < ns.len(), const_td(ns[k]) is Some ==> ctab(m, ns, k, ns[k].outputs@.len() as int), const_td(ns[k]) is None ==> ctab(m, ns, k, 0)
    ensures ctab(m, ns, k + 1, 0)
{
    assert forall|s: Seq<char>| #![trigger m.contains_key(s)] match cval(ns, s, k + 1, 0) { Some(t) => m.contains_key(s) && m[s] == t, None => !m.contains_key(s) } by {
        let z = m.contains_key(s);
        if k + 1 < ns.len() { assert(!names_out(ns[k + 1], s, 0)); }
        if const_td(ns[k]) is None { assert(cval(ns, s, k, ns[k].outputs@.len() as int) == cval(ns, s, k, 0)); }
        assert(!names_out(ns[k], s, 0));
        assert(cval(ns, s, k + 1, 0) == cval(ns, s, k, ns[k].outputs@.len() as int));
    }
}
pub proof fn lemma_wtab_step(w0: Map<Seq<char>, TensorData>, w: Map<Seq<char>, TensorData>, m: ParsedModel, n: ParsedNode, k: int)
    requires wtab(w0, m, n, k), 0 <= k < n.inputs@.len(),
        match weight_of(m, n.inputs@[k]@) { Some(t) => w == w0.insert(n.inputs@[k]@, t), None => w == w0 }
    ensures wtab(w, m, n, k + 1)
{
    let x = n.inputs@[k]@;
    assert forall|s: Seq<char>| #![trigger w.contains_key(s)] if reads(n, s, k + 1) && weight_of(m, s) is Some { w.contains_key(s) && w[s] == weight_of(m, s)->Some_0 } else { !w.contains_key(s) } by {
        let z = w0.contains_key(s);
        if s == x { assert(reads(n, s, k + 1)); }
        else { assert(reads(n, s, k + 1) == reads(n, s, k)) by {
            if reads(n, s, k + 1) { let q = choose|q: int| 0 <= q < k + 1 && #[trigger] n.inputs@[q]@ == s; assert(q != k); assert(0 <= q < k && n.inputs@[q]@ == s); }
            if reads(n, s, k) { let q = choose|q: int| 0 <= q < k && #[trigger] n.inputs@[q]@ == s; assert(0 <= q < k + 1 && n.inputs@[q]@ == s); } } }
    }
}
%%fn rust/jstprove_onnx/src/graph.rs::LayerGraph::from_parsed
ensures
    r is Ok ==> graph_ok(r->Ok_0, *model),
    r is Err ==> exists|i: int| 0 <= i < model.nodes@.len() && optab((#[trigger] model.nodes@[i]).op_type@) is None
        || exists|ls: Seq<LayerNode>, o: Seq<usize>| #[trigger] stuck(ls, o) && ls.len() == model.nodes@.len() && forall|i: int| #![trigger ls[i]] 0 <= i < ls.len() ==> layer_ok(ls[i], *model, i),
%%pre L0
assert(ctab(constant_outputs@, model.nodes@, 0, 0)) by { assert forall|s: Seq<char>| cval(model.nodes@, s, 0, 0) is None by { if model.nodes@.len() > 0 { assert(!names_out(model.nodes@[0], s, 0)); } } }
%%loop L0
ctab(constant_outputs@, model.nodes@, ixL0 as int, 0),
%%loop L1
ctab(constant_outputs@, model.nodes@, ixL0 - 1, ixL1 as int),
const_td(model.nodes@[ixL0 - 1]) == Some(*td),
%%gbody L1
let ghost m0 = constant_outputs@;
%%end L1
lemma_ctab_step(m0, constant_outputs@, model.nodes@, ixL0 - 1, ixL1 - 1);
%%end L0
lemma_ctab_next(constant_outputs@, model.nodes@, ixL0 - 1);
%%loop L2
layers@.len() == ixL2,
forall|i: int| #![trigger layers@[i]] 0 <= i < layers@.len() ==> layer_ok(layers@[i], *model, i),
%%loop L3
wtab(weights@, *model, *node, ixL3 as int),
%%gbody L3
let ghost w0 = weights@;
%%body L3
assert(constant_outputs@.contains_key(node.inputs@[ixL3 - 1]@) || true);
%%end L3
lemma_wtab_step(w0, weights@, *model, *node, ixL3 - 1);
%%loop A0
views(outA0@) =~= in_names(*model, ixA0 as int),
%%loop A2
mviews(pairs_map(outA2@)) =~= in_shapes(*model, ixA2 as int),
%%gbody A2
let ghost q0 = outA2@;
%%end A2
if model.initializers@.contains_key(model.inputs@[ixA2 - 1].name@) { } else {
    let p = outA2@.last();
    assert(outA2@.drop_last() =~= q0);
    assert(p.0@ == model.inputs@[ixA2 - 1].name@);
    assert(p.1@ =~= ishape(model.inputs@[ixA2 - 1].shape@));
    assert(mviews(pairs_map(q0).insert(p.0@, p.1)) =~= mviews(pairs_map(q0)).insert(p.0@, p.1@));
}

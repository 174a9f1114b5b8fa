%%include prelude.vc
%%type std::fs::read(path) => vx_read(path)
%%type ModelProto::decode(bytes.as_slice()) => vx_decode(bytes.as_slice())
%%type path: &Path => path: &VPath
%%type output_path: &Path => output_path: &VPath
%%type HashSet<&str> => NSet
%%type HashSet<String> => NSet
%%type HashSet::new() => vx_set_new()
%%type std::fs::write(output_path, out_bytes) => vx_write(output_path, out_bytes)
%%type unsupported.contains(&op.to_string()) => vx_has_str(&unsupported, op)
%%type model.encode_to_vec() => vx_encode(&model)
%%type DataType::try_from(data_type) => vx_dtype(data_type)
%%type (i.name).vx_as_deref() == Some(weight_name) => vx_opt_eq(&i.name, weight_name)
%%type ..Default::default() => rest: vx_no_data()
%%type graph.initializer.extend(new_initializers) => vx_extend(&mut graph.initializer, new_initializers)
%%type bias_name.push('_') => vx_push(&mut bias_name, '_')
%%type tensor.name.clone().unwrap_or_default() => vx_name_or(tensor.name.clone())
%%type value.name.clone().unwrap_or_default() => vx_name_or(value.name.clone())
%%item rust/jstprove_onnx/src/graph.rs::OpType derive=Clone,Copy,PartialEq,Eq,Structural
%%include optab.vc
%%fn rust/jstprove_onnx/src/graph.rs::OpType::from_str
%%opt stub G01
ensures
    match optab(s@) { Some(o) => r is Ok && r->Ok_0 == o, None => r is Err },
%%item rust/jstprove_onnx/src/compat.rs::SUPPORTED_OPS
%%raw
// ---- files and messages: std::fs and prost are assumed ------------------------------------------------
pub struct VPath { pub p: u8 }
pub uninterp spec fn file_at(p: VPath) -> Option<Seq<u8>>;
pub uninterp spec fn there(p: VPath) -> bool;
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<ModelProto>;
impl VPath { #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == there(*self) { true } }
#[verifier::external_body] pub fn vx_read(p: &VPath) -> (r: Result<Vec<u8>, VErr>) ensures match r { Ok(v) => file_at(*p) == Some(v@), Err(_) => file_at(*p) is None } { Err(vx_err()) }
#[verifier::external_body] pub fn vx_decode(b: &[u8]) -> (r: Result<ModelProto, VErr>) ensures match r { Ok(v) => decoded(b@) == Some(v), Err(_) => decoded(b@) is None } { Err(vx_err()) }
#[verifier::external_body] pub struct Rest { p: u8 }
pub struct NodeProto { pub input: Vec<String>, pub output: Vec<String>, pub name: Option<String>, pub op_type: Option<String>, pub rest: Rest }
pub struct TensorProto { pub dims: Vec<i64>, pub data_type: Option<i32>, pub name: Option<String>, pub raw_data: Option<Vec<u8>>, pub rest: Rest }
pub struct ValueInfoProto { pub name: Option<String>, pub rest: Rest }
pub struct GraphProto { pub node: Vec<NodeProto>, pub initializer: Vec<TensorProto>, pub input: Vec<ValueInfoProto>, pub rest: Rest }
pub struct ModelProto { pub graph: Option<GraphProto>, pub rest: Rest }
/// a set of names: assumed contract on std HashSet<&str> / HashSet<String>
#[verifier::external_body]
pub struct NSet { m: std::collections::HashSet<String> }
impl View for NSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
pub trait VxName { spec fn nv(&self) -> Seq<char>; }
impl VxName for &str { open spec fn nv(&self) -> Seq<char> { (*self)@ } }
impl VxName for String { open spec fn nv(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn vx_set_new() -> (r: NSet) ensures r@ == Set::<Seq<char>>::empty() { NSet { m: std::collections::HashSet::new() } }
impl NSet {
    #[verifier::external_body] pub fn insert<T: VxName>(&mut self, k: T) -> (r: bool) ensures r == !old(self)@.contains(k.nv()), final(self)@ == old(self)@.insert(k.nv()) { true }
    #[verifier::external_body] pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { true }
}
#[verifier::external_body] pub fn vx_has_str(v: &Vec<String>, s: &str) -> (r: bool) ensures r == strs(v@).contains(s@) { true }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn op_of(n: NodeProto) -> Seq<char> { match n.op_type { Some(s) => s@, None => Seq::empty() } }
pub open spec fn listed(s: Seq<char>) -> bool { SUPPORTED_OPS_has(s) }
pub open spec fn missing(n: NodeProto) -> bool { op_of(n).len() > 0 && !listed(op_of(n)) }
/// operators outside the list, each once, in order of first use among the first `k` nodes
pub open spec fn lacks(ns: Seq<NodeProto>, k: int) -> Seq<Seq<char>> decreases k {
    if k <= 0 { Seq::empty() } else { let p = lacks(ns, k - 1); if missing(ns[k - 1]) && !p.contains(op_of(ns[k - 1])) { p.push(op_of(ns[k - 1])) } else { p } }
}
pub open spec fn model_of(p: VPath) -> Option<ModelProto> { match file_at(p) { Some(b) => decoded(b), None => None } }
%%fn rust/jstprove_onnx/src/compat.rs::is_compatible
ensures
    !there(*path) ==> r is Ok && !r->Ok_0.0,
    r is Err ==> there(*path) && file_at(*path) is None,
    there(*path) && file_at(*path) is Some ==> r is Ok && match model_of(*path) { None => !r->Ok_0.0, Some(m) => match m.graph { None => !r->Ok_0.0, Some(g) => ({ let l = lacks(g.node@, g.node@.len() as int); r->Ok_0.0 == (l.len() == 0) && strs(r->Ok_0.1@) =~= l }) } },
    r is Ok && r->Ok_0.0 ==> match model_of(*path) { Some(m) => m.graph is Some && forall|i: int| #![trigger m.graph->Some_0.node@[i]] 0 <= i < m.graph->Some_0.node@.len() && op_of(m.graph->Some_0.node@[i]).len() > 0 ==> optab(op_of(m.graph->Some_0.node@[i])) is Some, None => false },
%%loop A0
forall|s: Seq<char>| #![trigger outA0@.contains(s)] outA0@.contains(s) == (exists|j: int| 0 <= j < ixA0 && #[trigger] srcA0@[j]@ == s),
%%gbody A0
let ghost t0 = outA0@;
%%end A0
assert forall|s: Seq<char>| #![trigger outA0@.contains(s)] outA0@.contains(s) == (exists|j: int| 0 <= j < ixA0 && #[trigger] srcA0@[j]@ == s) by {
    let z = t0.contains(s);
    if outA0@.contains(s) { if s == srcA0@[ixA0 - 1]@ { } else { let j = choose|j: int| 0 <= j < ixA0 - 1 && #[trigger] srcA0@[j]@ == s; } }
}
%%post A0
SUPPORTED_OPS_cases(srcA0@);
assert forall|s: Seq<char>| #![trigger outA0@.contains(s)] outA0@.contains(s) == SUPPORTED_OPS_has(s) by { }
%%loop L0
strs(unsupported@) =~= lacks(graph.node@, ixL0 as int),
forall|s: Seq<char>| #![trigger supported@.contains(s)] supported@.contains(s) == listed(s),
forall|i: int| #![trigger graph.node@[i]] 0 <= i < ixL0 ==> (missing(graph.node@[i]) ==> unsupported@.len() > 0),
%%gbody L0
let ghost u0 = unsupported@;
%%body L0
reveal_strlit("");
assert(""@ =~= Seq::<char>::empty());
let z = supported@.contains(op_of(*node));
%%end L0
assert(strs(unsupported@) =~= strs(u0) || strs(unsupported@) =~= strs(u0).push(op_of(*node)));
%%raw
// ---- zero biases --------------------------------------------------------------------------------------
pub uninterp spec fn encoded(m: ModelProto) -> Seq<u8>;
pub uninterp spec fn wrote(p: VPath, b: Seq<u8>) -> bool;
#[verifier::external_body] pub fn vx_encode(m: &ModelProto) -> (r: Vec<u8>) ensures r@ == encoded(*m) { vec![] }
#[verifier::external_body] pub fn vx_write(p: &VPath, b: Vec<u8>) -> (r: Result<(), VErr>) ensures r is Ok ==> wrote(*p, b@) { Err(vx_err()) }
#[verifier::external_body] pub fn vx_no_data() -> (r: Rest) ensures r == no_data() { unimplemented!() }
pub uninterp spec fn no_data() -> Rest;
#[verifier::external_body] pub fn vx_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ =~= old(a)@ + b@ { a.extend(b) }
#[verifier::external_body] pub fn vx_string() -> (r: String) { String::new() }
#[verifier::external_body] pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] pub fn vx_name_or(o: Option<String>) -> (r: String) ensures r@ == (match o { Some(s) => s@, None => Seq::<char>::empty() }) { o.unwrap_or_default() }
pub enum DataType { Double, Float16, Bfloat16, Other }
pub open spec fn dtype(c: int) -> DataType { if c == 11 { DataType::Double } else if c == 10 { DataType::Float16 } else if c == 16 { DataType::Bfloat16 } else { DataType::Other } }
#[verifier::external_body] pub fn vx_dtype(c: i32) -> (r: Result<DataType, VErr>) ensures r is Ok ==> r->Ok_0 == dtype(c as int), r is Err ==> dtype(c as int) is Other { Err(vx_err()) }
pub open spec fn esize(c: int) -> int { match dtype(c) { DataType::Double => 8, DataType::Float16 => 2, DataType::Bfloat16 => 2, DataType::Other => 4 } }
pub open spec fn nm(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// first initializer of that name
pub open spec fn winit(v: Seq<TensorProto>, s: Seq<char>, k: int) -> Option<int> decreases k { if k <= 0 { None } else { match winit(v, s, k - 1) { Some(i) => Some(i), None => if nm(v[k - 1].name) == Some(s) { Some(k - 1) } else { None } } } }
pub open spec fn weight_ix(g: GraphProto, n: NodeProto) -> Option<int> { winit(g.initializer@, n.input@[1]@, g.initializer@.len() as int) }
/// a two-input convolution whose weight is a stored tensor
pub open spec fn lacks_bias(g: GraphProto, n: NodeProto) -> bool { op_of(n) == "Conv"@ && n.input@.len() == 2 && match weight_ix(g, n) { Some(i) => g.initializer@[i].dims@.len() > 0, None => false } }
/// `t` is a bias of zeros for a convolution with weight `w`
pub open spec fn zero_bias(w: TensorProto, t: TensorProto) -> bool {
    let c = match w.data_type { Some(c) => c as int, None => 1 };
    &&& t.name is Some && t.dims@ =~= seq![w.dims@[0]] && t.data_type == Some(c as i32) && t.rest == no_data()
    &&& t.raw_data is Some && t.raw_data->Some_0@ =~= rep(0u8, (w.dims@[0] * esize(c)) as nat)
}
pub open spec fn used(g: GraphProto, s: Seq<char>) -> bool {
    ||| exists|i: int| 0 <= i < g.initializer@.len() && nm(#[trigger] g.initializer@[i].name) == Some(s)
    ||| exists|i: int| 0 <= i < g.input@.len() && nm(#[trigger] g.input@[i].name) == Some(s)
    ||| exists|i: int, j: int| 0 <= i < g.node@.len() && 0 <= j < g.node@[i].input@.len() && #[trigger] g.node@[i].input@[j]@ == s
    ||| exists|i: int, j: int| 0 <= i < g.node@.len() && 0 <= j < g.node@[i].output@.len() && #[trigger] g.node@[i].output@[j]@ == s
}
pub open spec fn nbias(g: GraphProto, k: int) -> int decreases k { if k <= 0 { 0 } else { nbias(g, k - 1) + if lacks_bias(g, g.node@[k - 1]) { 1int } else { 0 } } }
/// node `i` of the result: unchanged, or with its own bias tensor as third input
pub open spec fn node_done(g: GraphProto, i: int, b: NodeProto, new: Seq<TensorProto>) -> bool {
    let a = g.node@[i];
    if lacks_bias(g, a) { let t = new[nbias(g, i)]; 0 <= nbias(g, i) < new.len() && b == (NodeProto { input: b.input, ..a }) && zero_bias(g.initializer@[weight_ix(g, a)->Some_0], t) && strs(b.input@) =~= strs(a.input@).push(t.name->Some_0@) } else { b == a }
}
pub open spec fn fresh(g: GraphProto, new: Seq<TensorProto>) -> bool {
    (forall|i: int| #![trigger new[i]] 0 <= i < new.len() ==> new[i].name is Some && !used(g, new[i].name->Some_0@)) && forall|i: int, j: int| #![trigger new[i], new[j]] 0 <= i < j < new.len() ==> new[i].name->Some_0@ != new[j].name->Some_0@
}
pub open spec fn biased(a: GraphProto, b: GraphProto) -> bool {
    exists|new: Seq<TensorProto>| #![trigger fresh(a, new)] fresh(a, new) && new.len() == nbias(a, a.node@.len() as int) && b == (GraphProto { node: b.node, initializer: b.initializer, ..a }) && b.initializer@ =~= a.initializer@ + new && b.node@.len() == a.node@.len() && forall|i: int| #![trigger b.node@[i]] 0 <= i < b.node@.len() ==> node_done(a, i, b.node@[i], new)
}
pub open spec fn done(p: VPath, q: VPath) -> bool {
    exists|m: ModelProto| #![trigger encoded(m)] wrote(q, encoded(m)) && model_of(p) is Some && model_of(p)->Some_0.graph is Some && m.graph is Some && m == (ModelProto { graph: m.graph, ..model_of(p)->Some_0 }) && biased(model_of(p)->Some_0.graph->Some_0, m.graph->Some_0)
}
#[verifier::external_body] pub fn vx_opt_eq(o: &Option<String>, s: &String) -> (r: bool) ensures r == (nm(*o) == Some(s@)) { o.as_ref() == Some(s) }
pub open spec fn tin(t: Set<Seq<char>>, g: GraphProto, i: int, k: int) -> bool { forall|j: int| #![trigger g.node@[i].input@[j]] 0 <= j < k ==> t.contains(g.node@[i].input@[j]@) }
pub open spec fn tout(t: Set<Seq<char>>, g: GraphProto, i: int, k: int) -> bool { forall|j: int| #![trigger g.node@[i].output@[j]] 0 <= j < k ==> t.contains(g.node@[i].output@[j]@) }
pub open spec fn tinit(t: Set<Seq<char>>, g: GraphProto, k: int) -> bool { forall|j: int| #![trigger g.initializer@[j]] 0 <= j < k ==> match nm(g.initializer@[j].name) { Some(s) => t.contains(s), None => true } }
pub open spec fn tval(t: Set<Seq<char>>, g: GraphProto, k: int) -> bool { forall|j: int| #![trigger g.input@[j]] 0 <= j < k ==> match nm(g.input@[j].name) { Some(s) => t.contains(s), None => true } }
pub open spec fn tnodes(t: Set<Seq<char>>, g: GraphProto, k: int) -> bool { forall|i: int| #![trigger g.node@[i]] 0 <= i < k ==> tin(t, g, i, g.node@[i].input@.len() as int) && tout(t, g, i, g.node@[i].output@.len() as int) }
pub open spec fn covers(t: Set<Seq<char>>, g: GraphProto) -> bool { forall|s: Seq<char>| #![trigger used(g, s)] used(g, s) ==> t.contains(s) }
pub open spec fn gin(p: VPath) -> GraphProto { model_of(p)->Some_0.graph->Some_0 }
pub open spec fn dims_small(g: GraphProto) -> bool { forall|i: int| #![trigger g.initializer@[i]] 0 <= i < g.initializer@.len() && g.initializer@[i].dims@.len() > 0 ==> 0 <= g.initializer@[i].dims@[0] <= 0x4000_0000 }
pub proof fn lemma_winit(v: Seq<TensorProto>, s: Seq<char>, k: int, n: int) requires 0 <= k <= n, winit(v, s, k) is Some ensures winit(v, s, n) == winit(v, s, k) decreases n { if k < n { lemma_winit(v, s, k, n - 1); } }
%%fn rust/jstprove_onnx/src/compat.rs::add_zero_bias_to_conv
%%opt keep_continue 1
%%attr #[verifier::exec_allows_no_decreases_clause]
requires match model_of(*path) { Some(m) => match m.graph { Some(g) => dims_small(g), None => true }, None => true }
ensures r is Ok ==> done(*path, *output_path),
%%loop L0
*graph == gin(*path), tinit(taken@, gin(*path), ixL0 as int),
%%loop L1
*graph == gin(*path), tinit(taken@, gin(*path), gin(*path).initializer@.len() as int), tval(taken@, gin(*path), ixL1 as int),
%%loop L2
*graph == gin(*path), tinit(taken@, gin(*path), gin(*path).initializer@.len() as int), tval(taken@, gin(*path), gin(*path).input@.len() as int), tnodes(taken@, gin(*path), ixL2 as int),
%%loop L3
*graph == gin(*path), tinit(taken@, gin(*path), gin(*path).initializer@.len() as int), tval(taken@, gin(*path), gin(*path).input@.len() as int), tnodes(taken@, gin(*path), ixL2 as int - 1), tin(taken@, gin(*path), ixL2 - 1, ixL3 as int),
%%loop L4
*graph == gin(*path), tinit(taken@, gin(*path), gin(*path).initializer@.len() as int), tval(taken@, gin(*path), gin(*path).input@.len() as int), tnodes(taken@, gin(*path), ixL2 as int - 1), tin(taken@, gin(*path), ixL2 - 1, node.input@.len() as int), tout(taken@, gin(*path), ixL2 - 1, ixL4 as int),
%%post L2
assert(covers(taken@, gin(*path)));
%%loop A0
!fndA0 ==> winit(gin(*path).initializer@, weight_name@, ixA0 as int) is None,
fndA0 ==> ixA0 > 0 && winit(gin(*path).initializer@, weight_name@, ixA0 as int) == Some(ixA0 - 1),
%%post A0
if fndA0 { lemma_winit(gin(*path).initializer@, weight_name@, ixA0 as int, gin(*path).initializer@.len() as int); }
%%gpre L6
let ghost t0 = taken@;
%%loop L6
taken@ == t0,
%%post L6
assert(taken@ =~= t0.insert(bias_name@) && !t0.contains(bias_name@));
%%gbody L5
let ghost nd0 = *node; proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); } let ghost ni0 = new_initializers@;
%%end L5
assert(strs(graph.node@[ixL5 - 1].input@) =~= strs(nd0.input@).push(bias_name@));
assert(ni0 =~= new_initializers@.drop_last());
assert(lacks_bias(gin(*path), nd0)); assert(nbias(gin(*path), ixL5 - 1) == ni0.len());
assert(weight_init == Some(&gin(*path).initializer@[weight_ix(gin(*path), nd0)->Some_0]));
assert(zero_bias(gin(*path).initializer@[weight_ix(gin(*path), nd0)->Some_0], new_initializers@.last()));

assert forall|i: int| #![trigger graph.node@[i]] 0 <= i < ixL5 implies node_done(gin(*path), i, graph.node@[i], new_initializers@) by { if i < ixL5 - 1 { assert(node_done(gin(*path), i, graph.node@[i], ni0)); } }
%%loop L5
*graph == (GraphProto { node: graph.node, ..gin(*path) }), graph.node@.len() == gin(*path).node@.len(), covers(taken@, gin(*path)), fresh(gin(*path), new_initializers@), new_initializers@.len() == nbias(gin(*path), ixL5 as int),
forall|i: int| #![trigger new_initializers@[i]] 0 <= i < new_initializers@.len() ==> taken@.contains(new_initializers@[i].name->Some_0@),
forall|i: int| #![trigger graph.node@[i]] 0 <= i < ixL5 ==> node_done(gin(*path), i, graph.node@[i], new_initializers@),
forall|i: int| #![trigger graph.node@[i]] ixL5 <= i < gin(*path).node@.len() ==> graph.node@[i] == gin(*path).node@[i],

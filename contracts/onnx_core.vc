%%type std::collections::HashMap<String, => SMap<
%%type HashMap<String, => SMap<
%%type std::collections::HashSet::new() => HashSet::<usize>::new()
%%type HashSet::new() => HashSet::<usize>::new()
%%type HashSet::with_capacity( => vx_set_cap(
%%type *f as i64 => vx_f2i(*f)
%%raw
pub fn vx_set_cap(n: usize) -> (r: HashSet<usize>) ensures r@ == Set::<usize>::empty() { HashSet::<usize>::new() }
// ---- string-keyed maps: assumed contract on std HashMap<String, V> -----------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct SMap<V> { m: HashMap<String, V> }
impl<V> View for SMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }
    { self.m.get(k) }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@)
    { self.m.contains_key(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v)
    { self.m.insert(k, v) }
}
pub uninterp spec fn f2i(f: Fl64) -> i64;
#[verifier::external_body]
pub fn vx_f2i(f: Fl64) -> (r: i64) ensures r == f2i(f) { unimplemented!() }
%%item rust/jstprove_onnx/src/graph.rs::OpType derive=Clone,Copy,PartialEq,Eq,Structural
%%item rust/jstprove_onnx/src/graph.rs::LayerNode
%%item rust/jstprove_onnx/src/parser.rs::TensorData
%%item rust/jstprove_onnx/src/parser.rs::AttrValue
%%raw
pub open spec fn int_attr(l: LayerNode, n: Seq<char>) -> Option<i64> {
    if l.attributes@.contains_key(n) { match l.attributes@[n] { AttrValue::Int(v) => Some(v), _ => None } } else { None }
}
pub open spec fn ints_attr(l: LayerNode, n: Seq<char>) -> Option<Seq<i64>> {
    if l.attributes@.contains_key(n) { match l.attributes@[n] { AttrValue::Ints(v) => Some(v@), _ => None } } else { None }
}
pub open spec fn str_attr(l: LayerNode, n: Seq<char>) -> Option<Seq<char>> {
    if l.attributes@.contains_key(n) { match l.attributes@[n] { AttrValue::String(v) => Some(v@), _ => None } } else { None }
}
pub open spec fn int_or(l: LayerNode, n: Seq<char>, d: i64) -> i64 { match int_attr(l, n) { Some(v) => v, None => d } }
pub open spec fn td_shape(t: TensorData) -> Seq<usize> { Seq::new(t.dims@.len(), |i: int| t.dims@[i] as usize) }
pub open spec fn td_ints(t: TensorData) -> Seq<i64> {
    if t.int_data@.len() > 0 { t.int_data@ } else { Seq::new(t.float_data@.len(), |i: int| f2i(t.float_data@[i])) }
}
pub open spec fn shp(m: SMap<Vec<usize>>, n: Seq<char>) -> Option<Seq<usize>> {
    if m@.contains_key(n) { Some(m@[n]@) } else { None }
}
pub open spec fn inp(l: LayerNode, k: int) -> Option<Seq<char>> { if 0 <= k < l.inputs@.len() { Some(l.inputs@[k]@) } else { None } }
/// optional input: absent, or present with an empty name
pub open spec fn inp_ne(l: LayerNode, k: int) -> Option<Seq<char>> {
    match inp(l, k) { Some(n) => if n.len() > 0 { Some(n) } else { None }, None => None }
}
pub open spec fn in_shape(l: LayerNode, m: SMap<Vec<usize>>, k: int) -> Option<Seq<usize>> {
    match inp(l, k) { Some(n) => shp(m, n), None => None }
}
pub open spec fn konst(n: Seq<char>, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<TensorData> {
    if a@.contains_key(n) { Some(a@[n]) } else if b@.contains_key(n) { Some(b@[n]) } else { None }
}
pub open spec fn konst_ints(n: Option<Seq<char>>, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<i64>> {
    match n { Some(n) => match konst(n, a, b) { Some(t) => Some(td_ints(t)), None => None }, None => None }
}
pub open spec fn oshape(o: Option<&Vec<usize>>) -> Option<Seq<usize>> { match o { Some(v) => Some(v@), None => None } }
/// every output name of the layer, in order, carries shape `s`
pub open spec fn outs_ok(r: Seq<(String, Vec<usize>)>, names: Seq<String>, s: Seq<usize>) -> bool {
    r.len() == names.len() && forall|j: int| #![trigger r[j]] 0 <= j < names.len() ==> r[j].0@ == names[j]@ && r[j].1@ =~= s
}
pub open spec fn all_nonneg(v: Seq<i64>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] >= 0 }
pub open spec fn to_us(v: Seq<i64>) -> Seq<usize> { Seq::new(v.len(), |i: int| v[i] as usize) }
pub open spec fn attr_nonneg(l: LayerNode, n: Seq<char>) -> bool { match ints_attr(l, n) { Some(v) => all_nonneg(v), None => true } }
/// attribute as unsigned list, or `len` copies of `d`
pub open spec fn us_or(l: LayerNode, n: Seq<char>, d: usize, len: nat) -> Seq<usize> {
    match ints_attr(l, n) { Some(v) => to_us(v), None => rep(d, len) }
}
/// machine-size side condition used by the extent formulas: rank and every value at most 2^30
pub open spec fn small(s: Seq<usize>) -> bool { s.len() <= 0x4000_0000 && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] <= 0x4000_0000 }
pub open spec fn osmall(s: Option<Seq<usize>>) -> bool { match s { Some(s) => small(s), None => true } }
pub open spec fn ismall(s: Option<Seq<i64>>) -> bool { match s { Some(s) => forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> -0x4000_0000 <= s[i] <= 0x4000_0000, None => true } }
pub proof fn lemma_mul30(a: int, b: int) requires 0 <= a <= 0x4000_0000, 0 <= b <= 0x4000_0000 ensures 0 <= a * b <= 0x1000_0000_0000_0000, a * b == b * a
{ assert(0 <= a * b <= 0x4000_0000 * 0x4000_0000) by(nonlinear_arith) requires 0 <= a <= 0x4000_0000, 0 <= b <= 0x4000_0000; assert(a * b == b * a) by(nonlinear_arith); }
%%fn rust/jstprove_onnx/src/graph.rs::LayerNode::get_ints_attr
ensures
    match r { Some(v) => ints_attr(*self, name@) == Some(v@), None => ints_attr(*self, name@) is None },
%%fn rust/jstprove_onnx/src/graph.rs::LayerNode::get_int_attr
ensures r == int_attr(*self, name@),
%%fn rust/jstprove_onnx/src/graph.rs::LayerNode::get_string_attr
ensures
    match r { Some(v) => str_attr(*self, name@) == Some(v@), None => str_attr(*self, name@) is None },
%%fn rust/jstprove_onnx/src/parser.rs::TensorData::shape
ensures r@ == td_shape(*self),
%%post A0
assert(outA0@ =~= td_shape(*self));
%%fn rust/jstprove_onnx/src/parser.rs::TensorData::as_i64_vec
%%opt noauto A0
ensures r@ == td_ints(*self),
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> outA0@[jj] == f2i(self.float_data@[jj]),
%%post A0
assert(outA0@ =~= td_ints(*self));

%%include onnx_base.vc
%%type HashMap<&str, usize> => RMap<usize>
%%type HashMap::new() => RMap::new()
%%raw
// ---- maps keyed by string slices: assumed contract on std HashMap<&str, V> ---------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct RMap<V> { m: HashMap<String, V> }
impl<V> View for RMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> RMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { RMap { m: HashMap::new() } }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }
    { self.m.get(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &str, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { self.m.insert(k.to_string(), v) }
}
%%include topo_spec.vc
%%fn rust/jstprove_onnx/src/graph.rs::topological_sort
ensures
    r is Ok ==> topo_ok(layers@, r->Ok_0@),
    r is Err ==> exists|o: Seq<usize>| #[trigger] stuck(layers@, o),
%%entry
reveal(hint);
%%pre L0
assert(ptab(output_to_layer@, layers@, 0, 0));
%%loop L0
ptab(output_to_layer@, layers@, ixL0 as int, 0),
%%loop L1
ptab(output_to_layer@, layers@, idx as int, ixL1 as int),
%%body L1
lemma_ptab_step(output_to_layer@, layers@, idx as int, ixL1 - 1, idx);
%%post L1
lemma_ptab_next(output_to_layer@, layers@, idx as int);
%%pre L2
assert forall|v: int| 0 <= v < layers@.len() implies tot(layers@, Seq::empty(), v, #[trigger] lim(layers@, v, 0, 0)) == 0 by { }
assert(built(layers@, vv(adj@), in_degree@, 0, 0)) by {
  let a = vv(adj@);
  assert forall|u: int, v: int| #![trigger occ(a[u], v)] #![trigger cnt(layers@, u, v, ilen(layers@, v)), a[u]] 0 <= u < layers@.len() && 0 <= v < layers@.len() implies occ(a[u], v) == cnt(layers@, u, v, lim(layers@, v, 0, 0)) by { assert(a[u] == Seq::<usize>::empty()); }
}
%%loop L2
built(layers@, vv(adj@), in_degree@, ixL2 as int, 0),
%%loop L3
built(layers@, vv(adj@), in_degree@, idx as int, ixL3 as int),
%%gbody L3
let ghost ga = vv(adj@); let ghost gd = in_degree@;
%%body L3
let k = ixL3 - 1; let n = input@;
lemma_producer(layers@, n, layers@.len() as int);
assert(pj(layers@, n, layers@.len() as int, 0) == producer(layers@, n, layers@.len() as int));
assert(layers@[idx as int].inputs@[k]@ == n);
match producer(layers@, n, layers@.len() as int) {
  Some(u) => { if u != idx { assert(feeds(layers@, u, idx as int, k)); lemma_built_edge(layers@, ga, gd, idx as int, k, u); } else { lemma_built_skip(layers@, ga, gd, idx as int, k); } }
  None => { lemma_built_skip(layers@, ga, gd, idx as int, k); }
}
%%end L3
match producer(layers@, input@, layers@.len() as int) {
  Some(u) => { if u != idx { assert(vv(adj@) =~= ga.update(u, ga[u].push(idx))); assert(in_degree@ =~= gd.update(idx as int, (gd[idx as int] + 1) as usize)); } else { assert(vv(adj@) =~= ga); } }
  None => { assert(vv(adj@) =~= ga); }
}
%%post L3
lemma_built_next(layers@, vv(adj@), in_degree@, idx as int);
%%loop A0
zeros(outA0@, in_degree@, ixA0 as int),
%%body A0
lemma_zeros(outA0@, in_degree@, ixA0 as int, ixA0);
%%pre L4
let e = Seq::<usize>::empty(); assert(e.take(0) =~= e); assert(order@ =~= e); assert(order@ + queue@ =~= queue@);
assert forall|v: int| 0 <= v < layers@.len() implies #[trigger] lim(layers@, v, layers@.len() as int, 0) == ilen(layers@, v) by { }
assert(kahn(layers@, in_degree@, queue@, order@, e, 0));
lemma_kahn_len(layers@, in_degree@, queue@, order@, e, 0);
%%loop L4
adj_ok(layers@, vv(adj@), layers@.len() as int, 0),
kahn(layers@, in_degree@, queue@, order@, Seq::empty(), 0),
kready(layers@, in_degree@, queue@, order@),
order@.len() + queue@.len() <= layers@.len(),
decreases layers@.len() - order@.len()
%%body L4
assert(hpop(idx, queue@));
lemma_pop(layers@, vv(adj@), in_degree@, idx, queue@, order@);
%%pre L5
assert(vv(adj@)[idx as int] == adj@[idx as int]@);
%%loop L5
kahn(layers@, in_degree@, queue@, order@, adj@[idx as int]@, ixL5 as int),
%%gbody L5
let ghost gd = in_degree@; let ghost gq = queue@;
%%body L5
assert(vv(adj@)[idx as int][ixL5 - 1] == next);
lemma_release(layers@, in_degree@, queue@, order@, adj@[idx as int]@, ixL5 - 1);
%%end L5
if gd[next as int] > 1 { assert(in_degree@ =~= gd.update(next as int, (gd[next as int] - 1) as usize)); } else { assert(in_degree@ =~= gd.update(next as int, 0)); }
%%post L5
lemma_round(layers@, in_degree@, queue@, order@, adj@[idx as int]@);
lemma_kahn_len(layers@, in_degree@, queue@, order@, Seq::empty(), 0);
%%post L4
lemma_done(layers@, in_degree@, queue@, order@);

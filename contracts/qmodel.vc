%%include bounds.vc
%%type HashMap<usize, usize> => UMap
%%type ops::get_scale_plan => get_scale_plan
%%type DEFAULT_SCALE_BASE => 2u64
%%type std::vx_log2_10() => vx_log2_10()
%%raw
/// HashMap<usize, usize>; iteration visits every entry once, in any order
pub struct UMap { m: HashMap<usize, usize> }
impl View for UMap { type V = Map<usize, usize>; uninterp spec fn view(&self) -> Map<usize, usize>; }
impl UMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<usize, usize>::empty() { UMap { m: HashMap::new() } }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k, v) { self.m.insert(k, v) }
    #[verifier::external_body] pub fn vx_s(&self) -> (r: &[(usize, usize)])
        ensures forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self@.contains_key(r@[i].0) && self@[r@[i].0] == r@[i].1,
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> r@[i].0 != r@[j].0,
            forall|k: usize| #![trigger self@.contains_key(k)] self@.contains_key(k) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && r@[i].0 == k
    { unimplemented!() }
}
impl<V> SMap<V> {
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r { Some(p) => old(self)@.contains_key(k@) && *p == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(p)), None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ }
    { unimplemented!() }
}
pub open spec fn sp(a: usize, b: usize) -> Map<usize, usize> { Map::<usize, usize>::empty().insert(1, a).insert(2, b) }
/// powers of the scale a constant operand carries, by position
pub open spec fn plan(op: OpType) -> Map<usize, usize> {
    match op {
        OpType::Conv | OpType::Gemm | OpType::BatchNormalization | OpType::LayerNormalization | OpType::ConvTranspose => sp(1, 2),
        OpType::GridSample | OpType::MatMul => Map::<usize, usize>::empty().insert(1, 1),
        _ => Map::<usize, usize>::empty(),
    }
}
%%fn rust/jstprove_onnx/src/ops.rs::get_scale_plan
%%opt types HashMap::new() => UMap::new()
ensures r@ == plan(op),
%%raw
pub open spec fn ipow(a: int, k: int) -> int decreases k { if k <= 0 { 1 } else { a * ipow(a, k - 1) } }
pub assume_specification [i64::checked_pow] (a: i64, k: u32) -> (r: Option<i64>) ensures match r { Some(v) => v == ipow(a as int, k as int), None => !(i64::MIN <= ipow(a as int, k as int) <= i64::MAX) };
/// `n` is constant `t` scaled by `f` and rounded to integers; a constant already stored as integers stays
pub open spec fn scaled(t: TensorData, f: int, n: TensorData) -> bool {
    if t.float_data@.len() == 0 { n == t } else {
        n.name == t.name && n.dims == t.dims && n.data_type == t.data_type && n.float_data@.len() == 0 && n.int_data@.len() == t.float_data@.len()
        && forall|i: int| #![trigger n.int_data@[i]] 0 <= i < n.int_data@.len() ==> n.int_data@[i] == vr_round(rmul(t.float_data@[i].r(), f as real))
    }
}
/// planned operand `k` names the constant `s`
pub open spec fn planned(l: LayerNode, k: usize, s: Seq<char>) -> bool { plan(l.op_type).contains_key(k) && inp(l, k as int) == Some(s) }
pub open spec fn plan_distinct(l: LayerNode) -> bool { inp(l, 1) is Some && inp(l, 2) is Some ==> inp(l, 1) != inp(l, 2) }
pub open spec fn same_but_weights(a: LayerNode, b: LayerNode) -> bool { b == (LayerNode { weights: b.weights, ..a }) }
/// every constant of the layer after scaling
#[verifier::opaque] pub open spec fn quantized(a: LayerNode, alpha: int, b: LayerNode) -> bool {
    &&& same_but_weights(a, b)
    &&& forall|s: Seq<char>| #![trigger b.weights@.contains_key(s)] b.weights@.contains_key(s) == a.weights@.contains_key(s)
    &&& forall|k: usize, s: Seq<char>| #![trigger planned(a, k, s)] planned(a, k, s) && a.weights@.contains_key(s) ==> scaled(a.weights@[s], ipow(alpha, plan(a.op_type)[k] as int), b.weights@[s])
    &&& forall|s: Seq<char>| #![trigger b.weights@[s]] a.weights@.contains_key(s) && (forall|k: usize| !planned(a, k, s)) ==> b.weights@[s] == a.weights@[s]
}
pub open spec fn ent(a: LayerNode, e: (usize, usize), s: Seq<char>) -> bool { inp(a, e.0 as int) == Some(s) }
#[verifier::opaque] pub open spec fn scaled_upto(a: LayerNode, alpha: int, b: LayerNode, p: Seq<(usize, usize)>, n: int) -> bool {
    &&& same_but_weights(a, b)
    &&& forall|s: Seq<char>| #![trigger b.weights@.contains_key(s)] b.weights@.contains_key(s) == a.weights@.contains_key(s)
    &&& forall|i: int, s: Seq<char>| #![trigger ent(a, p[i], s)] 0 <= i < n && ent(a, p[i], s) && a.weights@.contains_key(s) ==> scaled(a.weights@[s], ipow(alpha, p[i].1 as int), b.weights@[s])
    &&& forall|s: Seq<char>| #![trigger b.weights@[s]] a.weights@.contains_key(s) && (forall|i: int| 0 <= i < n ==> !#[trigger] ent(a, p[i], s)) ==> b.weights@[s] == a.weights@[s]
}
/// the entries are those of the plan
#[verifier::opaque] pub open spec fn entries(p: Seq<(usize, usize)>, m: Map<usize, usize>) -> bool {
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> m.contains_key(p[i].0) && m[p[i].0] == p[i].1
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> p[i].0 != p[j].0
    &&& forall|k: usize| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| #![trigger p[i]] 0 <= i < p.len() && p[i].0 == k
}
pub proof fn lemma_scaled_step(a: LayerNode, alpha: int, b: LayerNode, p: Seq<(usize, usize)>, n: int, c: LayerNode, s: Seq<char>)
    requires scaled_upto(a, alpha, b, p, n), 0 <= n < p.len(), entries(p, plan(a.op_type)), plan_distinct(a), ent(a, p[n], s), a.weights@.contains_key(s), same_but_weights(a, c),
        c.weights@ == b.weights@.insert(s, c.weights@[s]), scaled(b.weights@[s], ipow(alpha, p[n].1 as int), c.weights@[s]),
    ensures scaled_upto(a, alpha, c, p, n + 1)
{
    reveal(scaled_upto); reveal(entries); reveal(quantized);
    assert forall|i: int| 0 <= i < n implies !#[trigger] ent(a, p[i], s) by { let x = p[i]; let y = p[n]; let z = plan(a.op_type).contains_key(p[i].0); }
    assert(b.weights@[s] == a.weights@[s]);
    assert forall|i: int, t: Seq<char>| #![trigger ent(a, p[i], t)] 0 <= i < n + 1 && ent(a, p[i], t) && a.weights@.contains_key(t) implies scaled(a.weights@[t], ipow(alpha, p[i].1 as int), c.weights@[t]) by { if i < n { assert(t != s); } }
    assert forall|t: Seq<char>| #![trigger c.weights@.contains_key(t)] c.weights@.contains_key(t) == a.weights@.contains_key(t) by { let z = b.weights@.contains_key(t); }
    assert forall|t: Seq<char>| #![trigger c.weights@[t]] a.weights@.contains_key(t) && (forall|i: int| 0 <= i < n + 1 ==> !#[trigger] ent(a, p[i], t)) implies c.weights@[t] == a.weights@[t] by { assert(!ent(a, p[n], t)); assert(b.weights@[t] == a.weights@[t]); }
}
pub proof fn lemma_scaled_skip(a: LayerNode, alpha: int, b: LayerNode, p: Seq<(usize, usize)>, n: int, c: LayerNode)
    requires scaled_upto(a, alpha, b, p, n), same_but_weights(a, c), c.weights@ == b.weights@, 0 <= n < p.len(), inp(a, p[n].0 as int) is None || !a.weights@.contains_key(inp(a, p[n].0 as int)->Some_0),
    ensures scaled_upto(a, alpha, c, p, n + 1)
{
    assert forall|t: Seq<char>| #![trigger c.weights@.contains_key(t)] c.weights@.contains_key(t) == a.weights@.contains_key(t) by { reveal(scaled_upto); let z = b.weights@.contains_key(t); }
    reveal(scaled_upto); reveal(entries); reveal(quantized);
    assert forall|i: int, t: Seq<char>| #![trigger ent(a, p[i], t)] 0 <= i < n + 1 && ent(a, p[i], t) && a.weights@.contains_key(t) implies scaled(a.weights@[t], ipow(alpha, p[i].1 as int), c.weights@[t]) by { }
    assert forall|t: Seq<char>| #![trigger c.weights@[t]] a.weights@.contains_key(t) && (forall|i: int| 0 <= i < n + 1 ==> !#[trigger] ent(a, p[i], t)) implies c.weights@[t] == a.weights@[t] by { let z = b.weights@[t]; assert forall|i: int| 0 <= i < n implies !#[trigger] ent(a, p[i], t) by { } }
}
pub proof fn lemma_scaled_all(a: LayerNode, alpha: int, b: LayerNode, p: Seq<(usize, usize)>)
    requires scaled_upto(a, alpha, b, p, p.len() as int), entries(p, plan(a.op_type)) ensures quantized(a, alpha, b)
{
    reveal(scaled_upto); reveal(entries); reveal(quantized);
    assert forall|k: usize, s: Seq<char>| #![trigger planned(a, k, s)] planned(a, k, s) && a.weights@.contains_key(s) implies scaled(a.weights@[s], ipow(alpha, plan(a.op_type)[k] as int), b.weights@[s]) by {
        assert(plan(a.op_type).contains_key(k));
        let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && p[i].0 == k; assert(ent(a, p[i], s));
    }
    assert forall|s: Seq<char>| #![trigger b.weights@[s]] a.weights@.contains_key(s) && (forall|k: usize| !planned(a, k, s)) implies b.weights@[s] == a.weights@[s] by {
        assert forall|i: int| 0 <= i < p.len() implies !#[trigger] ent(a, p[i], s) by { let x = p[i]; assert(!planned(a, p[i].0, s)); }
    }
}
/// the scaled values fit 64 bits
pub open spec fn roomy_vec(v: Seq<VF>, f: int) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> vr_abs(rmul(v[i].r(), f as real)) < i64::MAX as real }
pub open spec fn roomy(t: TensorData, f: int) -> bool { t.float_data@.len() > 0 ==> f <= i64::MAX && roomy_vec(t.float_data@, f) }
pub open spec fn has_room(a: LayerNode, alpha: int) -> bool { forall|k: usize, s: Seq<char>| #![trigger planned(a, k, s)] planned(a, k, s) && a.weights@.contains_key(s) ==> roomy(a.weights@[s], ipow(alpha, plan(a.op_type)[k] as int)) }
pub proof fn lemma_ipow_pos(a: int, k: int) requires a > 0 ensures ipow(a, k) > 0 decreases k { if k > 0 { lemma_ipow_pos(a, k - 1); assert(a * ipow(a, k - 1) > 0) by (nonlinear_arith) requires a > 0, ipow(a, k - 1) > 0; } }
pub proof fn lemma_room_at(a: LayerNode, alpha: int, b: LayerNode, p: Seq<(usize, usize)>, n: int)
    requires scaled_upto(a, alpha, b, p, n), 0 <= n < p.len(), entries(p, plan(a.op_type)), plan_distinct(a), has_room(a, alpha), alpha > 0, inp(a, p[n].0 as int) is Some, a.weights@.contains_key(inp(a, p[n].0 as int)->Some_0)
    ensures ({ let s = inp(a, p[n].0 as int)->Some_0; b.weights@[s] == a.weights@[s] && roomy(b.weights@[s], ipow(alpha, p[n].1 as int)) }), ipow(alpha, p[n].1 as int) > 0
{
    reveal(scaled_upto); reveal(entries); lemma_ipow_pos(alpha, p[n].1 as int);
    let s = inp(a, p[n].0 as int)->Some_0; let y = p[n]; assert(planned(a, p[n].0, s));
    assert forall|i: int| 0 <= i < n implies !#[trigger] ent(a, p[i], s) by { let x = p[i]; let z = plan(a.op_type).contains_key(p[i].0); }
    let w = b.weights@[s];
}
pub proof fn lemma_scaled_init(a: LayerNode, alpha: int, p: Seq<(usize, usize)>) ensures scaled_upto(a, alpha, a, p, 0) { reveal(scaled_upto); }
pub proof fn lemma_scaled_keys(a: LayerNode, alpha: int, b: LayerNode, p: Seq<(usize, usize)>, n: int, k: int) requires scaled_upto(a, alpha, b, p, n)
    ensures same_but_weights(a, b), inp(b, k) == inp(a, k), inp(a, k) is Some ==> b.weights@.contains_key(inp(a, k)->Some_0) == a.weights@.contains_key(inp(a, k)->Some_0)
{ reveal(scaled_upto); }
pub proof fn lemma_round_fit(x: real) requires -(i64::MAX as real) < x, x < i64::MAX as real ensures i64::MIN <= vr_round(x) <= i64::MAX { ax_ceil(-x - 1real / 2real); ax_ceil(x - 1real / 2real); }
%%fn rust/jstprove_onnx/src/quantizer.rs::quantize_layer_weights
%%opt vf 1
%%opt fcast 1
requires alpha > 0, plan_distinct(*old(layer)),
ensures r is Ok ==> quantized(*old(layer), alpha as int, *final(layer)), has_room(*old(layer), alpha as int) ==> r is Ok,
%%gpre L0
let ghost a0 = *layer; let ghost al = alpha as int; let ghost b0 = *layer; let ghost src = srcL0@;
%%pre L0
assert(entries(src, plan(a0.op_type))) by { reveal(entries); }
lemma_scaled_init(a0, al, src);
%%loop L0
scaled_upto(a0, al, *layer, src, ixL0 as int), src == srcL0@, a0 == *old(layer), entries(src, plan(a0.op_type)), al == alpha, al > 0,
%%gbody L0
let ghost b0 = *layer;
%%body L0
lemma_scaled_keys(a0, al, b0, src, ixL0 - 1, input_pos as int);
if has_room(a0, al) && inp(a0, src[ixL0 - 1].0 as int) is Some && a0.weights@.contains_key(inp(a0, src[ixL0 - 1].0 as int)->Some_0) { lemma_room_at(a0, al, b0, src, ixL0 - 1); }
%%end L0
let nm = inp(a0, src[ixL0 - 1].0 as int);
if nm is Some && a0.weights@.contains_key(nm->Some_0) {
    let s = nm->Some_0; let z = b0.weights@.contains_key(s);
    assert(ent(a0, src[ixL0 - 1], s));
    assert(layer.weights@ =~= b0.weights@.insert(s, layer.weights@[s]));
    lemma_scaled_step(a0, al, b0, src, ixL0 - 1, *layer, s);
} else {
    assert(layer.weights@ == b0.weights@);
    lemma_scaled_skip(a0, al, b0, src, ixL0 - 1, *layer);
}
%%post L0
lemma_scaled_all(a0, al, *layer, src);
%%loop L1
has_room(a0, al) ==> roomy_vec(srcL1@, factor as int), a0 == *old(layer), al == alpha,
scaled@.len() == ixL1, forall|j: int| #![trigger scaled@[j]] 0 <= j < scaled@.len() ==> scaled@[j] == vr_round(rmul(srcL1@[j].r(), factor as real)),
%%end L1
lemma_round_fit(x.r());
%%raw
pub uninterp spec fn fmt1s(t: Seq<char>, s: Seq<char>) -> Seq<char>;
/// `format!` of a template and a string; different templates here end differently
#[verifier::external_body] pub fn vx_fmt1(t: &str, s: &String) -> (r: String) ensures r@ == fmt1s(t@, s@) { unimplemented!() }
pub axiom fn ax_fmt(s: Seq<char>) ensures fmt1s("{}_folded_mul"@, s) != fmt1s("{}_folded_add"@, s);
pub open spec fn mul_name(l: LayerNode) -> Seq<char> { fmt1s("{}_folded_mul"@, l.name@) }
pub open spec fn add_name(l: LayerNode) -> Seq<char> { fmt1s("{}_folded_add"@, l.name@) }
pub open spec fn allfin(s: Seq<VF>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> vfin(s[i]) }
pub open spec fn bn_eps(l: LayerNode) -> real { if l.attributes@.contains_key("epsilon"@) { match l.attributes@["epsilon"@] { AttrValue::Float(f) => f.r(), _ => 1real / 100000real } } else { 1real / 100000real } }
pub open spec fn is_bn(l: LayerNode) -> bool { l.op_type == OpType::BatchNormalization && l.inputs@.len() >= 5 }
/// multiplier and offset of channel i
pub open spec fn bn_mul(l: LayerNode, i: int) -> real { rdiv(wr(l, 1)[i], vr_sqrt(wr(l, 4)[i] + bn_eps(l))) }
pub open spec fn bn_add(l: LayerNode, i: int) -> real { wr(l, 2)[i] - rmul(wr(l, 3)[i], bn_mul(l, i)) }
pub open spec fn fresh_bn(l: LayerNode) -> bool { is_bn(l) ==> forall|k: int| 1 <= k < 5 && inp(l, k) is Some ==> (#[trigger] inp(l, k))->Some_0 != mul_name(l) && inp(l, k)->Some_0 != add_name(l) }
/// inference form of batch normalization: y = x * mul + add, one factor and offset per channel
pub open spec fn bn_folded(a: LayerNode, b: LayerNode) -> bool {
    &&& b == (LayerNode { weights: b.weights, inputs: b.inputs, ..a })
    &&& b.inputs@.len() == 3 && b.inputs@[0]@ == a.inputs@[0]@ && b.inputs@[1]@ == mul_name(a) && b.inputs@[2]@ == add_name(a)
    &&& b.weights@.contains_key(mul_name(a)) && b.weights@.contains_key(add_name(a))
    &&& ({ let n = wr(a, 1).len(); let m = b.weights@[mul_name(a)]; let c = b.weights@[add_name(a)];
        m.float_data@.len() == n && c.float_data@.len() == n && m.dims@.len() == 1 && m.dims@[0] == n && c.dims@.len() == 1 && c.dims@[0] == n
        && (forall|i: int| #![trigger m.float_data@[i]] 0 <= i < n ==> m.float_data@[i].r() == bn_mul(a, i))
        && (forall|i: int| #![trigger c.float_data@[i]] 0 <= i < n ==> c.float_data@[i].r() == bn_add(a, i)) })
}
/// the parameters of a normalization that can be folded: four stored vectors of one length, a positive denominator in every channel
pub open spec fn bn_ready(l: LayerNode) -> bool {
    wt(l, 1) is Some && wt(l, 2) is Some && wt(l, 3) is Some && wt(l, 4) is Some && wr(l, 2).len() == wr(l, 1).len() && wr(l, 3).len() == wr(l, 1).len() && wr(l, 4).len() == wr(l, 1).len()
    && (forall|i: int| #![trigger wr(l, 4)[i]] 0 <= i < wr(l, 4).len() ==> wr(l, 4)[i] + bn_eps(l) > 0real)
}
pub open spec fn bn_fit(l: LayerNode) -> bool { is_bn(l) ==> wr(l, 1).len() <= i64::MAX && eps_fin(l) }
pub open spec fn eps_fin(l: LayerNode) -> bool { l.attributes@.contains_key("epsilon"@) ==> match l.attributes@["epsilon"@] { AttrValue::Float(f) => f.fin(), _ => true } }
pub proof fn lemma_vec_ok(t: TensorData) requires t.dims@.len() == 1, t.dims@[0] == t.float_data@.len(), t.int_data@.len() == 0, allfin(t.float_data@) ensures td_ok(t)
{
    let d = td_shape(t); assert(d.drop_last() =~= Seq::empty()); assert(d.last() == d[0]); reveal_with_fuel(prod, 2); reveal_with_fuel(prod1, 2);
    assert(prod(d) == d[0]); assert forall|i: int| #![trigger t.float_data@[i]] 0 <= i < t.float_data@.len() implies t.float_data@[i].fin() by { assert(vfin(t.float_data@[i])); }
}
%%fn rust/jstprove_onnx/src/quantizer.rs::fold_batchnorm_params@get_floats
%%opt vf 1
%%opt fcast 1
requires true,
ensures layer.weights@.contains_key(name@) ==> r is Ok, r is Ok ==> layer.weights@.contains_key(name@) && rs(r->Ok_0@) =~= td_r(layer.weights@[name@]) && (td_ok(layer.weights@[name@]) ==> allfin(r->Ok_0@)),
%%loop A0
allfin(outA0@),
%%fn rust/jstprove_onnx/src/quantizer.rs::fold_batchnorm_params
%%opt vf 1
%%opt fcast 1
%%opt lift get_floats
%%opt fmt 1
%%opt use ax_sqrt_pos
requires is_bn(*old(layer)), fresh_bn(*old(layer)), weights_ok(*old(layer)), bn_fit(*old(layer)),
ensures r is Ok ==> bn_folded(*old(layer), *final(layer)) && weights_ok(*final(layer)) && plan_distinct(*final(layer)),
    bn_ready(*old(layer)) ==> r is Ok,
%%entry
ax_fmt(layer.name@);
%%gpre L0
let ghost a0 = *layer;
%%pre L0
assert(rs(scale@) == wr(a0, 1) && rs(bias@) == wr(a0, 2) && rs(mean@) == wr(a0, 3) && rs(var@) == wr(a0, 4));
%%loop L0
mul@.len() == ixL0, add@.len() == ixL0, allfin(mul@), allfin(add@), allfin(scale@), allfin(bias@), allfin(mean@), allfin(var@), epsilon.fin(),
forall|j: int| #![trigger mul@[j]] 0 <= j < ixL0 ==> vr_of(mul@[j]) == bn_mul(a0, j),
forall|j: int| #![trigger add@[j]] 0 <= j < ixL0 ==> vr_of(add@[j]) == bn_add(a0, j),
%%body L0
let j = ixL0 - 1;
assert(vfin(scale@[j]) && vfin(bias@[j]) && vfin(mean@[j]) && vfin(var@[j]));
assert(wr(a0, 4)[j as int] == rs(var@)[j as int]);
assert(rs(scale@)[j] == scale@[j].r() && rs(bias@)[j] == bias@[j].r() && rs(mean@)[j] == mean@[j].r() && rs(var@)[j] == var@[j].r());
%%loop L1
layer.weights@.contains_key(mul_name(a0)), layer.weights@.contains_key(add_name(a0)), *layer == (LayerNode { weights: layer.weights, ..l1 }), weights_ok(*layer),
layer.weights@[mul_name(a0)] == l1.weights@[mul_name(a0)], layer.weights@[add_name(a0)] == l1.weights@[add_name(a0)],
%%gpre L1
let ghost l1 = *layer; let ghost a0 = *old(layer);
%%pre L1
lemma_vec_ok(layer.weights@[mul_name(a0)]); lemma_vec_ok(layer.weights@[add_name(a0)]);
assert(weights_ok(*layer));
%%body L1
assert(inp(a0, ixL1 as int) == Some(name@));
let ws = weights_ok(*layer);
%%post L1
let b0 = *layer;
assert(b0 == (LayerNode { weights: b0.weights, inputs: b0.inputs, ..a0 }));
assert(b0.inputs@.len() == 3 && b0.inputs@[0]@ == a0.inputs@[0]@ && b0.inputs@[1]@ == mul_name(a0) && b0.inputs@[2]@ == add_name(a0));
%%item rust/jstprove_onnx/src/quantizer.rs::QuantizedModel
%%raw
impl Clone for ScaleConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn bn_step(a: LayerNode, b: LayerNode) -> bool { if is_bn(a) { bn_folded(a, b) } else { b == a } }
pub open spec fn is_sqrt_pow(l: LayerNode) -> bool { l.op_type == OpType::Pow && wt(l, 1) is Some && wr(l, 1).len() == 1 && vr_abs(wr(l, 1)[0] - 1real / 2real) < 1real / 1000000000real }
/// x^0.5 becomes the square root of x
pub open spec fn pow_step(a: LayerNode, b: LayerNode) -> bool {
    if is_sqrt_pow(a) { b == (LayerNode { op_type: OpType::Sqrt, inputs: b.inputs, weights: b.weights, ..a }) && b.inputs@ == a.inputs@.take(1) && b.weights@ == a.weights@.remove(a.inputs@[1]@) } else { b == a }
}
/// what a layer must satisfy before quantization
pub open spec fn layer_in(l: LayerNode) -> bool { weights_ok(l) && bn_fit(l) && fresh_bn(l) && plan_distinct(l) }
pub open spec fn layer_mid(l: LayerNode) -> bool { weights_ok(l) && plan_distinct(l) }
pub open spec fn same_frame(a: LayerGraph, b: LayerGraph) -> bool { b == (LayerGraph { layers: b.layers, ..a }) && b.layers@.len() == a.layers@.len() }
pub open spec fn graph_in(g: LayerGraph) -> bool { order_in(g) && forall|i: int| #![trigger g.layers@[i]] 0 <= i < g.layers@.len() ==> layer_in(g.layers@[i]) }
%%fn rust/jstprove_onnx/src/quantizer.rs::fold_all_batchnorms
requires graph_in(*old(graph)),
ensures (forall|i: int| #![trigger old(graph).layers@[i]] 0 <= i < old(graph).layers@.len() && is_bn(old(graph).layers@[i]) ==> bn_ready(old(graph).layers@[i])) ==> r is Ok,
    r is Ok ==> same_frame(*old(graph), *final(graph)) && forall|i: int| #![trigger final(graph).layers@[i]] 0 <= i < final(graph).layers@.len() ==> bn_step(old(graph).layers@[i], final(graph).layers@[i]) && layer_mid(final(graph).layers@[i]),
%%gpre L0
let ghost g0 = *graph;
%%loop L0
same_frame(g0, *graph), g0 == *old(graph),
forall|i: int| #![trigger graph.layers@[i]] 0 <= i < ixL0 ==> bn_step(g0.layers@[i], graph.layers@[i]) && layer_mid(graph.layers@[i]),
forall|i: int| #![trigger graph.layers@[i]] ixL0 <= i < graph.layers@.len() ==> graph.layers@[i] == g0.layers@[i],
%%body L0
assert(*layer == g0.layers@[ixL0 - 1] && layer_in(g0.layers@[ixL0 - 1]));
%%fn rust/jstprove_onnx/src/quantizer.rs::rewrite_pow_sqrt
%%opt vf 1
requires forall|i: int| #![trigger old(graph).layers@[i]] 0 <= i < old(graph).layers@.len() ==> layer_mid(old(graph).layers@[i]),
ensures same_frame(*old(graph), *final(graph)), forall|i: int| #![trigger final(graph).layers@[i]] 0 <= i < final(graph).layers@.len() ==> pow_step(old(graph).layers@[i], final(graph).layers@[i]) && layer_mid(final(graph).layers@[i]),
%%gpre L0
let ghost g0 = *graph;
%%loop L0
same_frame(g0, *graph), g0 == *old(graph),
forall|i: int| #![trigger graph.layers@[i]] 0 <= i < ixL0 ==> pow_step(g0.layers@[i], graph.layers@[i]) && layer_mid(graph.layers@[i]),
forall|i: int| #![trigger graph.layers@[i]] ixL0 <= i < graph.layers@.len() ==> graph.layers@[i] == g0.layers@[i],
%%body L0
assert(*layer == g0.layers@[ixL0 - 1] && layer_mid(g0.layers@[ixL0 - 1]));
%%end L0
%%raw
/// BatchNormalization folded, x^0.5 rewritten
pub open spec fn prep(a: LayerNode, b: LayerNode) -> bool { if is_bn(a) { bn_folded(a, b) } else { pow_step(a, b) } }
pub open spec fn prepared(a: LayerGraph, b: LayerGraph) -> bool { same_frame(a, b) && forall|i: int| #![trigger b.layers@[i]] 0 <= i < b.layers@.len() ==> prep(a.layers@[i], b.layers@[i]) && layer_mid(b.layers@[i]) }
pub open spec fn qstage(a: LayerGraph, alpha: int, nb: Map<Seq<char>, usize>, b: LayerGraph, g: LayerGraph) -> bool {
    prepared(a, b) && sized(b, alpha, nb) && same_frame(b, g) && forall|i: int| #![trigger g.layers@[i]] 0 <= i < g.layers@.len() ==> quantized(b.layers@[i], alpha, g.layers@[i])
}
/// the layer as it goes to the circuit: constants scaled, bit width as sized
pub open spec fn emitted(a: LayerNode, alpha: int, nb: Map<Seq<char>, usize>, b: LayerNode) -> bool {
    quantized(a, alpha, LayerNode { n_bits: a.n_bits, ..b }) && b.n_bits == (if nb.contains_key(a.name@) { Some(nb[a.name@]) } else { None::<usize> })
}
pub open spec fn sized(g: LayerGraph, alpha: int, nb: Map<Seq<char>, usize>) -> bool { exists|sh: Shp, t: Seq<Bm>, v: Seq<VF>| #[trigger] btrace(g, alpha as real, sh, t, v) && shapes_by(g, sh) && v.len() == g.topo_order@.len() && nfits(g, alpha as real, v, nb) }
pub open spec fn model_of(a: LayerGraph, c: ScaleConfig, q: QuantizedModel, b: LayerGraph) -> bool {
    &&& prepared(a, b) && sized(b, c.alpha as int, q.n_bits_config@) && q.scale_config == c && same_frame(b, q.graph)
    &&& forall|i: int| #![trigger q.graph.layers@[i]] 0 <= i < q.graph.layers@.len() ==> emitted(b.layers@[i], c.alpha as int, q.n_bits_config@, q.graph.layers@[i])
}
pub proof fn lemma_q_same(a: LayerNode, alpha: int, b: LayerNode) requires quantized(a, alpha, b) ensures same_but_weights(a, b) { reveal(quantized); }
%%fn rust/jstprove_onnx/src/quantizer.rs::quantize_model
requires graph_in(graph), config.alpha > 0,
ensures r is Ok ==> exists|b: LayerGraph| #[trigger] prepared(graph, b) && model_of(graph, *config, r->Ok_0, b),
%%gpre L0
let ghost g2 = graph;
%%loop L0
same_frame(g2, graph), prepared(gp0, g2), sized(g2, alpha as int, n_bits_config@),
forall|i: int| #![trigger graph.layers@[i]] 0 <= i < ixL0 ==> quantized(g2.layers@[i], alpha as int, graph.layers@[i]),
forall|i: int| #![trigger graph.layers@[i]] ixL0 <= i < graph.layers@.len() ==> graph.layers@[i] == g2.layers@[i],
forall|i: int| #![trigger g2.layers@[i]] 0 <= i < g2.layers@.len() ==> layer_mid(g2.layers@[i]),
%%body L0
assert(*layer == g2.layers@[ixL0 - 1] && layer_mid(g2.layers@[ixL0 - 1]));
%%post L0
assert(qstage(gp0, alpha as int, n_bits_config@, g2, graph));
%%gpre L1
let ghost g3 = graph; let ghost b2 = choose|b: LayerGraph| qstage(gp0, alpha as int, n_bits_config@, b, g3);
%%loop L1
same_frame(g3, graph),
forall|i: int| #![trigger graph.layers@[i]] 0 <= i < ixL1 ==> graph.layers@[i] == (LayerNode { n_bits: graph.layers@[i].n_bits, ..g3.layers@[i] }) && graph.layers@[i].n_bits == (if n_bits_config@.contains_key(g3.layers@[i].name@) { Some(n_bits_config@[g3.layers@[i].name@]) } else { None::<usize> }),
forall|i: int| #![trigger graph.layers@[i]] ixL1 <= i < graph.layers@.len() ==> graph.layers@[i] == g3.layers@[i],
%%body L1
assert(*layer == g3.layers@[ixL1 - 1]);
%%post L1
let q = QuantizedModel { graph: graph, scale_config: *config, n_bits_config: n_bits_config };
assert forall|i: int| #![trigger q.graph.layers@[i]] 0 <= i < q.graph.layers@.len() implies emitted(b2.layers@[i], alpha as int, q.n_bits_config@, q.graph.layers@[i]) by {
    let x = graph.layers@[i]; let y = g3.layers@[i];
    assert(quantized(b2.layers@[i], alpha as int, y));
    lemma_q_same(b2.layers@[i], alpha as int, y);
    assert(LayerNode { n_bits: b2.layers@[i].n_bits, ..x } == y);
}
assert(model_of(gp0, *config, q, b2));
%%raw
pub assume_specification [i64::pow] (a: i64, k: u32) -> (r: i64) requires i64::MIN <= ipow(a as int, k as int) <= i64::MAX ensures r == ipow(a as int, k as int);
pub uninterp spec fn vr_log2_10() -> real;
#[verifier::external_body] pub fn vx_log2_10() -> (q: VF) ensures q.r() == vr_log2_10(), q.fin() { unimplemented!() }
pub open spec fn p10(d: int) -> real decreases d { if d <= 0 { 1real } else { 10real * p10(d - 1) } }
/// 2^log2(10) is 10; log2(10) lies between 3 and 4
pub axiom fn ax_log2_10(d: int, k: int) ensures d >= 0 && (k as real) >= rmul(d as real, vr_log2_10()) ==> p2(k) >= p10(d), 3real < vr_log2_10() < 4real;
/// with a scale of 2^e, squared scale times the largest accumulation fits n signed bits
pub open spec fn safe_exp(e: int, n: int, b: real) -> bool { e == 0 || p2(2 * e) * b <= p2(n - 1) }
pub proof fn lemma_p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) decreases b
{ if b == 0 { assert(p2(a) * 1real == p2(a)); } else { lemma_p2_add(a, b - 1); let x = p2(a); let y = p2(b - 1); assert(2real * (x * y) == x * (2real * y)) by(nonlinear_arith); } }
pub proof fn lemma_safe(e: int, l: int, n: int, b: real) requires e >= 0, l >= 0, b <= p2(l), e > 0 ==> 2 * e + l + 1 <= n ensures safe_exp(e, n, b)
{
    if e > 0 { lemma_p2_add(2 * e, l); lemma_p2_mono(2 * e + l, n - 1); lemma_p2_mono(2 * e, 2 * e); let x = p2(2 * e); let y = p2(l); assert(x * b <= x * y) by(nonlinear_arith) requires b <= y, x >= 1real; }
}
pub proof fn lemma_safe_mono(e: int, f: int, n: int, b: real) requires 0 <= e <= f, safe_exp(f, n, b), b >= 0real ensures safe_exp(e, n, b)
{ if e > 0 { lemma_p2_mono(2 * e, 2 * f); let x = p2(2 * e); let y = p2(2 * f); assert(x * b <= y * b) by(nonlinear_arith) requires x <= y, b >= 0real; } }
pub proof fn lemma_ipow2(e: int) requires 0 <= e ensures ipow(2, e) as real == p2(e), ipow(2, e) >= 1 decreases e { if e > 0 { lemma_ipow2(e - 1); } }
pub proof fn lemma_ipow62(e: int) requires 0 <= e <= 62 ensures 1 <= ipow(2, e) <= i64::MAX decreases 62 - e { if e == 62 { assert(ipow(2, 62) == 4611686018427387904) by(compute); } else { lemma_ipow62(e + 1); lemma_ipow2(e); lemma_ipow2(e + 1); } }
%%type VF::from( => vx_to_f64(
%%fn rust/jstprove_onnx/src/quantizer.rs::ScaleConfig::new
requires base <= i64::MAX, i64::MIN <= ipow(base as int, exponent as int) <= i64::MAX,
ensures r.base == base, r.exponent == exponent, r.alpha == ipow(base as int, exponent as int),
%%fn rust/jstprove_onnx/src/quantizer.rs::ScaleConfig::exponent_for_digits
%%opt vf 1
%%opt fcast 1
ensures r < u32::MAX ==> p2(r as int) >= p10(target_digits as int),
%%entry
let x = rmul(target_digits as real, vr_log2_10());
ax_ceil(x); ax_log2_10(target_digits as int, vr_ceil(x)); lemma_rmul_pos(target_digits as real, vr_log2_10());
if vr_ceil(x) <= u32::MAX { assert(vr_ceil(x) as real <= u32::MAX as real); } else { assert(vr_ceil(x) as real > u32::MAX as real); }
%%fn rust/jstprove_onnx/src/quantizer.rs::ScaleConfig::max_safe_exponent
%%opt vf 1
%%opt fcast 1
ensures safe_exp(r as int, n_bits as int, max_bound.r()), r <= n_bits / 2,
%%entry
let b = max_bound.r();
if b > 1real { let k = vr_ceil(vr_log2(b)); ax_ceil(vr_log2(b)); ax_log2(b, k); assert(0 < k); assert(b <= p2(k));
  let e = if n_bits > k + 1 { (n_bits - (k + 1)) / 2 } else { 0int }; lemma_safe(e, k, n_bits as int, b); }
else { let e = if n_bits > 1 { (n_bits - 1) / 2 } else { 0int }; lemma_safe(e, 0, n_bits as int, b); }
%%fn rust/jstprove_onnx/src/quantizer.rs::ScaleConfig::max_safe_digits
%%opt vf 1
%%opt fcast 1
%%fn rust/jstprove_onnx/src/quantizer.rs::ScaleConfig::adaptive
requires n_bits <= 125,
ensures r.base == 2, r.alpha as real == p2(r.exponent as int), r.alpha > 0, safe_exp(r.exponent as int, n_bits as int, max_bound.r()),
%%entry
assert forall|e: int| 0 <= e <= 62 implies (#[trigger] ipow(2, e)) as real == p2(e) && 1 <= ipow(2, e) <= i64::MAX by { lemma_ipow2(e); lemma_ipow62(e); }
%%fn rust/jstprove_onnx/src/quantizer.rs::ScaleConfig::for_precision
requires 0real <= max_bound.r(), n_bits <= 125,
ensures r is Ok ==> ({ let c = r->Ok_0; c.base == 2 && c.alpha as real == p2(c.exponent as int) && c.alpha > 0 && c.alpha as real >= p10(target_digits as int) && safe_exp(c.exponent as int, n_bits as int, max_bound.r()) }),
%%entry
assert forall|e: int| 0 <= e <= 62 implies (#[trigger] ipow(2, e)) as real == p2(e) && 1 <= ipow(2, e) <= i64::MAX by { lemma_ipow2(e); lemma_ipow62(e); }
assert forall|e: int, f: int| 0 <= e <= f && #[trigger] safe_exp(f, n_bits as int, max_bound.r()) implies #[trigger] safe_exp(e, n_bits as int, max_bound.r()) by { lemma_safe_mono(e, f, n_bits as int, max_bound.r()); }
%%type DEFAULT_SCALE_EXPONENT => 18u32
%%raw
pub open spec fn def_alpha() -> real { vr_powi(2real, 18) }
pub open spec fn at_r(g: LayerGraph, alpha: real, sh: Shp, t: Seq<Bm>, v: Seq<VF>, w: Seq<VF>, i: int) -> bool {
    bounded(topo_at(g, i), t[i], alpha, sh, v[i].r()) && t[i + 1] == bput(t[i], topo_at(g, i).outputs@, w[i], topo_at(g, i).outputs@.len() as int) && w[i].r() == (if topo_at(g, i).needs_rescale { 1real } else { v[i].r() })
}
/// the same walk when every rescaled layer hands on values of magnitude 1
pub open spec fn rtrace(g: LayerGraph, alpha: real, sh: Shp, t: Seq<Bm>, v: Seq<VF>, w: Seq<VF>) -> bool {
    t.len() == v.len() + 1 && w.len() == v.len() && v.len() <= g.topo_order@.len() && binit(g, t[0], g.input_names@.len() as int) && forall|i: int| #![trigger at_r(g, alpha, sh, t, v, w, i)] 0 <= i < v.len() ==> at_r(g, alpha, sh, t, v, w, i)
}
/// m is at least 1 and at least the accumulation of every rescaled layer
pub open spec fn rmaxes(g: LayerGraph, v: Seq<VF>, m: real) -> bool { m >= 1real && forall|i: int| #![trigger v[i]] 0 <= i < v.len() && topo_at(g, i).needs_rescale ==> v[i].r() <= m }
pub open spec fn max_of(g: LayerGraph, m: real) -> bool { exists|sh: Shp, t: Seq<Bm>, v: Seq<VF>, w: Seq<VF>| #[trigger] rtrace(g, def_alpha(), sh, t, v, w) && shapes_by(g, sh) && v.len() == g.topo_order@.len() && rmaxes(g, v, m) }
pub proof fn lemma_rtrace(g: LayerGraph, a: real, sh: Shp, t: Seq<Bm>, v: Seq<VF>, w: Seq<VF>, b: Bm, x: VF, y: VF)
    requires rtrace(g, a, sh, t, v, w), v.len() < g.topo_order@.len(), at_r(g, a, sh, t.push(b), v.push(x), w.push(y), v.len() as int)
    ensures rtrace(g, a, sh, t.push(b), v.push(x), w.push(y))
{
    let t1 = t.push(b); let v1 = v.push(x); let w1 = w.push(y);
    assert forall|i: int| #![trigger at_r(g, a, sh, t1, v1, w1, i)] 0 <= i < v1.len() implies at_r(g, a, sh, t1, v1, w1, i) by { if i < v.len() { assert(at_r(g, a, sh, t, v, w, i)); } }
}
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_max_bound_inner
%%opt vf 1
%%opt fcast 1
%%opt for_own 1
%%opt use lemma_red, lemma_red1, lemma_rmul_pos
requires graph_ok(*graph),
ensures r is Ok ==> max_of(*graph, r->Ok_0.r()),
%%loop L0
binit(*graph, bounds@, ixL0 as int),
%%gbody L0
let ghost b0 = bounds@;
%%end L0
assert forall|s: Seq<char>| #![trigger bounds@.contains_key(s)] bounds@.contains_key(s) == (exists|j: int| #![trigger graph.input_names@[j]] 0 <= j < ixL0 && graph.input_names@[j]@ == s) && (bounds@.contains_key(s) ==> bounds@[s].r() == 1real) by {
    let z = b0.contains_key(s);
    if graph.input_names@[ixL0 - 1]@ == s { assert(0 <= ixL0 - 1 < ixL0); }
}
%%gpre L1
let ghost mut t: Seq<Bm> = Seq::empty();
let ghost mut v: Seq<VF> = Seq::empty();
let ghost mut w: Seq<VF> = Seq::empty();
%%pre L1
t = seq![bounds@];
assert(rtrace(*graph, def_alpha(), shapes@, t, v, w));
%%loop L1
rtrace(*graph, def_alpha(), shapes@, t, v, w), v.len() == ixL1, t.last() == bounds@, nonneg(bounds@), rmaxes(*graph, v, max_bound.r()), shapes_fit(shapes@),
%%gbody L1
let ghost b1 = bounds@; let ghost m1 = max_bound;
%%body L1
assert(*layer == topo_at(*graph, ixL1 - 1));
%%loop L2
bounds@ == bput(b1, layer.outputs@, post_rescale_bound, ixL2 as int),
%%end L1
let l = *layer;
if l.op_type == OpType::MatMul && dyn_mm(l) {
    let p = got(l, b1, 0); let q = got(l, b1, 1); let k = mm_k(l, shapes@);
    lemma_opb_get(l, b1, 0); lemma_opb_get(l, b1, 1);
    assert(p * q >= 0real) by(nonlinear_arith) requires p >= 0real, q >= 0real;
    lemma_rmul_pos(rmul(p, q), k as real);
    assert(bound.r() == rmul(rmul(p, q), k as real));
    lemma_dotok(l, b1, k, p, q, bound.r());
    assert(dot_ok(l, b1, k, bound.r()));
} else if l.op_type == OpType::ReduceSum {
    assert(sum_ok(l, b1, red_n(l, shapes@), bound.r()));
}
assert(bounded(l, b1, def_alpha(), shapes@, bound.r()));
assert(bounds@ == bput(b1, l.outputs@, post_rescale_bound, l.outputs@.len() as int));
assert(at_r(*graph, def_alpha(), shapes@, t.push(bounds@), v.push(bound), w.push(post_rescale_bound), v.len() as int));
lemma_rtrace(*graph, def_alpha(), shapes@, t, v, w, bounds@, bound, post_rescale_bound);
lemma_bput_nn(b1, l.outputs@, post_rescale_bound, l.outputs@.len() as int);
let v2 = v.push(bound);
assert forall|i: int| #![trigger v2[i]] 0 <= i < v2.len() && topo_at(*graph, i).needs_rescale implies v2[i].r() <= max_bound.r() by { if i < v.len() { assert(v[i].r() <= m1.r()); } }
t = t.push(bounds@); v = v.push(bound); w = w.push(post_rescale_bound);
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_max_bound
requires graph_in(*old(graph)),
ensures r is Ok ==> prepared(*old(graph), *final(graph)) && max_of(*final(graph), r->Ok_0.r()),
%%raw
pub open spec fn precise(d: int, n: int, c: ScaleConfig, m: real) -> bool { c.base == 2 && c.alpha as real == p2(c.exponent as int) && c.alpha as real >= p10(d) && safe_exp(c.exponent as int, n, m) }
pub proof fn lemma_prep_in(a: LayerGraph, b: LayerGraph) requires graph_in(a), prepared(a, b) ensures graph_in(b)
{ assert forall|i: int| #![trigger b.layers@[i]] 0 <= i < b.layers@.len() implies layer_in(b.layers@[i]) by { assert(layer_in(a.layers@[i])); assert(layer_mid(b.layers@[i])); assert(!is_bn(b.layers@[i])); }
  assert(order_in(b)); }
/// chosen for the requested digits: the scale resolves them, and the square of the scale times the largest accumulation fits the field
pub open spec fn for_digits(a: LayerGraph, d: int, n: int, q: QuantizedModel, g: LayerGraph, m: real) -> bool { prepared(a, g) && max_of(g, m) && precise(d, n, q.scale_config, m) && exists|b: LayerGraph| #[trigger] prepared(g, b) && model_of(g, q.scale_config, q, b) }
%%fn rust/jstprove_onnx/src/quantizer.rs::quantize_model_for_precision
requires graph_in(graph), n_bits <= 125,
ensures r is Ok ==> exists|g: LayerGraph, m: real| prepared(graph, g) && #[trigger] max_of(g, m) && for_digits(graph, target_digits as int, n_bits as int, r->Ok_0, g, m),
%%entry
assert forall|g: LayerGraph| #[trigger] prepared(graph, g) implies graph_in(g) by { lemma_prep_in(graph, g); }
%%fn rust/jstprove_onnx/src/quantizer.rs::QuantizedModel::apply_observed_n_bits
ensures
    final(self).scale_config == old(self).scale_config, same_frame(old(self).graph, final(self).graph),
    forall|i: int| #![trigger final(self).graph.layers@[i]] 0 <= i < final(self).graph.layers@.len() ==> observed(old(self).graph.layers@[i], overrides@, final(self).graph.layers@[i], final(self).n_bits_config@),
    forall|s: Seq<char>| #![trigger final(self).n_bits_config@.contains_key(s)] !overrides@.contains_key(s) ==> final(self).n_bits_config@.contains_key(s) == old(self).n_bits_config@.contains_key(s) && (old(self).n_bits_config@.contains_key(s) ==> final(self).n_bits_config@[s] == old(self).n_bits_config@[s]),
%%gpre L0
let ghost s0 = *self;
%%loop L0
same_frame(s0.graph, self.graph), self.scale_config == s0.scale_config, s0 == *old(self),
forall|i: int| #![trigger self.graph.layers@[i]] 0 <= i < ixL0 ==> observed(s0.graph.layers@[i], overrides@, self.graph.layers@[i], self.n_bits_config@),
forall|i: int| #![trigger self.graph.layers@[i]] ixL0 <= i < self.graph.layers@.len() ==> self.graph.layers@[i] == s0.graph.layers@[i],
forall|s: Seq<char>| #![trigger self.n_bits_config@.contains_key(s)] !overrides@.contains_key(s) ==> self.n_bits_config@.contains_key(s) == s0.n_bits_config@.contains_key(s) && (s0.n_bits_config@.contains_key(s) ==> self.n_bits_config@[s] == s0.n_bits_config@[s]),
%%raw
/// an observed width replaces the sized one, on the layer and in the table
pub open spec fn observed(a: LayerNode, o: Map<Seq<char>, usize>, b: LayerNode, nb: Map<Seq<char>, usize>) -> bool {
    if o.contains_key(a.name@) { b == (LayerNode { n_bits: Some(o[a.name@]), ..a }) && nb.contains_key(a.name@) && nb[a.name@] == o[a.name@] } else { b == a }
}

%%include onnx_base.vc
%%include fn_basic.vc
%%include axes_spec.vc
%%include fn_nonneg.vc
%%include float_spec.vc
%%type ((limit - start) / delta).ceil().max(0.0) as usize => vx_range_len(start, limit, delta)
%%type delta != 0.0 => !vx_fzero(delta)
%%type s <= 0.0 => vx_fnonpos(s)
%%type (d as f64 * s).floor() as usize => vx_scaled(d, s)
%%raw
// ---- floating point expressions: trusted names for the float operations of the source ------------
pub uninterp spec fn range_len(a: f64, b: f64, c: f64) -> usize;
#[verifier::external_body]
pub fn vx_range_len(start: f64, limit: f64, delta: f64) -> (r: usize) ensures r == range_len(start, limit, delta) { ((limit - start) / delta).ceil().max(0.0) as usize }
pub uninterp spec fn fzero(a: f64) -> bool;
#[verifier::external_body]
pub fn vx_fzero(a: f64) -> (r: bool) ensures r == fzero(a) { a == 0.0 }
pub uninterp spec fn fnonpos(a: f64) -> bool;
#[verifier::external_body]
pub fn vx_fnonpos(a: f64) -> (r: bool) ensures r == fnonpos(a) { a <= 0.0 }
pub uninterp spec fn scaled(d: usize, a: f64) -> usize;
#[verifier::external_body]
pub fn vx_scaled(d: usize, a: f64) -> (r: usize) ensures r == scaled(d, a) { (d as f64 * a).floor() as usize }
// ---- reduce --------------------------------------------------------------------------------------
/// axes: constant input 1, else the attribute; an empty list counts as not given
pub open spec fn rd_raw(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>) -> Seq<i64> {
    match inp_ne(l, 1) { Some(_) => match konst_ints(inp_ne(l, 1), a, b) { Some(v) => v, None => Seq::empty() }, None => match ints_attr(l, "axes"@) { Some(v) => v, None => Seq::empty() } }
}
pub open spec fn rd_dyn(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>) -> bool { inp_ne(l, 1) is Some && konst_ints(inp_ne(l, 1), a, b) is None }
pub open spec fn rd_has(l: LayerNode, ax: Seq<i64>, r: int, i: int) -> bool {
    if ax.len() > 0 { ax_has(ax, r, i) } else { int_or(l, "noop_with_empty_axes"@, 0) == 0 }
}
pub open spec fn rd_keep(x: Seq<usize>, l: LayerNode, ax: Seq<i64>, r: int) -> Seq<usize> decreases x.len() {
    if x.len() == 0 { Seq::empty() } else { let p = rd_keep(x.drop_last(), l, ax, r); if rd_has(l, ax, r, x.len() - 1) { p } else { p.push(x.last()) } }
}
pub open spec fn rd_one(x: Seq<usize>, l: LayerNode, ax: Seq<i64>) -> Seq<usize> { Seq::new(x.len(), |i: int| if rd_has(l, ax, x.len() as int, i) { 1usize } else { x[i] }) }
pub open spec fn rd_out(x: Seq<usize>, l: LayerNode, ax: Seq<i64>) -> Seq<usize> {
    if int_or(l, "keepdims"@, 1) != 0 { rd_one(x, l, ax) } else { rd_keep(x, l, ax, x.len() as int) }
}
pub proof fn lemma_rd_push(x: Seq<usize>, k: int, l: LayerNode, ax: Seq<i64>, r: int) requires 0 <= k < x.len()
    ensures rd_keep(x.take(k + 1), l, ax, r) == (if rd_has(l, ax, r, k) { rd_keep(x.take(k), l, ax, r) } else { rd_keep(x.take(k), l, ax, r).push(x[k]) })
{ assert(x.take(k + 1).drop_last() =~= x.take(k)); }
/// the normalised axis list names exactly the reduced axes
pub open spec fn rd_list(v: Seq<usize>, l: LayerNode, ax: Seq<i64>, r: int) -> bool { forall|i: usize| #![trigger v.contains(i)] i < r ==> (v.contains(i) <==> rd_has(l, ax, r, i as int)) }
pub proof fn lemma_rd_list(v: Seq<usize>, l: LayerNode, ax: Seq<i64>, r: int)
    requires ax.len() > 0, v.len() == ax.len(), forall|j: int| #![trigger ax[j]] 0 <= j < ax.len() ==> ax_in(ax[j], r) && v[j] == nax(ax[j], r)
    ensures rd_list(v, l, ax, r)
{
    assert forall|i: usize| #![trigger v.contains(i)] i < r implies (v.contains(i) <==> rd_has(l, ax, r, i as int)) by {
        if v.contains(i) { let j = choose|j: int| 0 <= j < v.len() && v[j] == i; assert(nax(ax[j], r) == i); }
        if rd_has(l, ax, r, i as int) { let j = choose|j: int| #![trigger ax[j]] 0 <= j < ax.len() && nax(ax[j], r) == i; assert(v[j] == i); }
    }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_reduce
%%opt noauto A0
requires osmall(oshape(input_shape)),
ensures
    ({ let x = oshape(input_shape); let ax = rd_raw(*layer, *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && !rd_dyn(*layer, *initializers, *constant_tensors) && ax_all_in(ax, x->Some_0.len() as int))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, rd_out(x->Some_0, *layer, ax)) }),
%%pre A0
assert(srcA0@ == rd_raw(*layer, *initializers, *constant_tensors));
%%loop A0
forall|j: int| #![trigger srcA0@[j]] 0 <= j < ixA0 ==> ax_in(srcA0@[j], rank as int) && outA0@[j] == nax(srcA0@[j], rank as int),
%%body A0
assert(hint(ax_in(srcA0@[ixA0 as int], rank as int)));
%%post A0
lemma_rd_list(outA0@, *layer, srcA0@, rank as int);
%%post A1
assert forall|i: usize| #![trigger outA1@.contains(i)] i < rank implies outA1@.contains(i) by { assert(outA1@[i as int] == i); }
%%pre A2
assert(rd_list(axes@, *layer, rd_raw(*layer, *initializers, *constant_tensors), rank as int));
%%loop A2
outA2@ =~= rd_one(input_shape@, *layer, rd_raw(*layer, *initializers, *constant_tensors)).take(ixA2 as int),
%%body A2
assert(hint(axes@.contains(ixA2)));
%%pre A3
assert(rd_list(axes@, *layer, rd_raw(*layer, *initializers, *constant_tensors), rank as int));
assert(input_shape@.take(0) =~= Seq::<usize>::empty());
%%loop A3
outA3@ == rd_keep(input_shape@.take(ixA3 as int), *layer, rd_raw(*layer, *initializers, *constant_tensors), rank as int),
%%body A3
lemma_rd_push(input_shape@, ixA3 as int, *layer, rd_raw(*layer, *initializers, *constant_tensors), rank as int);
assert(hint(axes@.contains(ixA3)));
%%pre A4
assert(input_shape@.take(input_shape@.len() as int) =~= input_shape@);
assert(output_shape@ =~= rd_out(input_shape@, *layer, rd_raw(*layer, *initializers, *constant_tensors)));
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_constant_of_shape
ensures
    ({ let v = konst_ints(inp(*layer, 0), *constant_tensors, *initializers);
       &&& (r is Ok) == (v is Some && all_nonneg(v->Some_0))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, to_us(v->Some_0)) }),
%%raw
// ---- shape ---------------------------------------------------------------------------------------
pub open spec fn so_pos(v: int, r: int) -> int { let p = if v < 0 { v + r } else { v }; if p < 0 { 0 } else if p > r { r } else { p } }
pub open spec fn so_len(l: LayerNode, r: int) -> int {
    let a = so_pos(int_or(l, "start"@, 0) as int, r); let b = so_pos(match int_attr(l, "end"@) { Some(e) => e as int, None => r }, r); if a < b { b - a } else { 0 }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_shape_op
requires osmall(oshape(input_shape)),
ensures
    (r is Ok) == (input_shape is Some),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, seq![so_len(*layer, input_shape->Some_0@.len() as int) as usize]),
%%raw
// ---- range / resize ------------------------------------------------------------------------------
pub open spec fn scalar(l: LayerNode, k: int, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<f64> {
    match inp(l, k) { None => None, Some(n) => match konst(n, a, b) { None => None, Some(t) => if td_floats(t).len() == 1 { Some(td_floats(t)[0]) } else { None } } }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_range
ensures
    ({ let s = scalar(*layer, 0, *initializers, *constant_tensors); let e = scalar(*layer, 1, *initializers, *constant_tensors); let d = scalar(*layer, 2, *initializers, *constant_tensors);
       &&& (r is Ok) == (s is Some && e is Some && d is Some && !fzero(d->Some_0) && layer.outputs@.len() > 0)
       &&& r is Ok ==> r->Ok_0@.len() == 1 && r->Ok_0@[0].0@ == layer.outputs@[0]@ && r->Ok_0@[0].1@ =~= seq![range_len(s->Some_0, e->Some_0, d->Some_0)] }),
%%raw
pub open spec fn rz_sizes(l: LayerNode, x: Seq<usize>, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<i64>> {
    match konst_ints(inp_ne(l, 3), a, b) { Some(v) => if v.len() == x.len() { Some(v) } else { None }, None => None }
}
pub open spec fn rz_scales(l: LayerNode, x: Seq<usize>, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<f64>> {
    match inp_ne(l, 2) { Some(n) => match konst(n, a, b) { Some(t) => if t.float_data@.len() == x.len() { Some(t.float_data@) } else { None }, None => None }, None => None }
}
pub open spec fn all_pos(s: Seq<f64>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !fnonpos(s[i]) }
pub open spec fn rz_by(x: Seq<usize>, s: Seq<f64>) -> Seq<usize> { Seq::new(x.len(), |i: int| scaled(x[i], s[i])) }
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_resize
ensures
    ({ let x = oshape(input_shape);
       match x { None => r is Err, Some(x) => match rz_sizes(*layer, x, *initializers, *constant_tensors) {
           Some(z) => (r is Ok) == all_nonneg(z) && (r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, to_us(z))),
           None => match rz_scales(*layer, x, *initializers, *constant_tensors) {
               Some(s) => (r is Ok) == all_pos(s) && (r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, rz_by(x, s))),
               None => r is Err } } } }),
%%loop A2
forall|j: int| #![trigger scales@[j]] 0 <= j < ixA2 ==> !fnonpos(scales@[j]),
forall|j: int| #![trigger outA2@[j]] 0 <= j < ixA2 ==> outA2@[j] == scaled(input_shape@[j], scales@[j]),
%%post A2
assert(outA2@ =~= rz_by(input_shape@, scales@));

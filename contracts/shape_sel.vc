%%include onnx_base.vc
%%include fn_basic.vc
%%include axes_spec.vc
%%include slice_spec.vc
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_slice
requires osmall(oshape(input_shape)), konst_ints(inp(*layer, 1), *initializers, *constant_tensors) is Some ==> konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0.len() < 0x4000_0000,
    // step extents stay within the machine word
    ismall(opt_const(*layer, 4, *initializers, *constant_tensors)),
ensures
    ({ let x = oshape(input_shape);
       !sl_dyn(*layer, *initializers, *constant_tensors) ==> {
       &&& (r is Ok) == (x is Some && inp(*layer, 2) is Some && sl_ok(*layer, x->Some_0, *initializers, *constant_tensors))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, sl_shape(*layer, x->Some_0, *initializers, *constant_tensors)) } }),
%%pre L0
assert(axes@ =~= sl_axes(opt_const(*layer, 3, *initializers, *constant_tensors), starts@.len()));
assert(steps@ =~= sl_steps(opt_const(*layer, 4, *initializers, *constant_tensors), starts@.len()));
%%loop L0
out_shape@ == sl_out(input_shape@, starts@, ends@, axes@, steps@, ixL0 as int),
sl_upto(axes@, steps@, rank as int, ixL0 as int),
%%body L0
assert(hint(sl_dim_ok(axes@, steps@, rank as int, ixL0 - 1)));
lemma_sl_len(input_shape@, starts@, ends@, axes@, steps@, ixL0 - 1);
if sl_dim_ok(axes@, steps@, rank as int, ixL0 - 1) { lemma_sl_pos(starts@[ixL0 - 1], ends@[ixL0 - 1], steps@[ixL0 - 1], input_shape@[nax(axes@[ixL0 - 1], rank as int)] as int); }

%%raw
// ---- topk ----------------------------------------------------------------------------------------
pub open spec fn tk_ok(l: LayerNode, x: Seq<usize>, k: Option<Seq<i64>>) -> bool {
    let a = int_or(l, "axis"@, -1i64);
    &&& ax_in(a, x.len() as int) && int_or(l, "largest"@, 1) == 1
    &&& k is Some && k->Some_0.len() == 1 && 1 <= k->Some_0[0] <= x[nax(a, x.len() as int)]
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_topk
requires osmall(oshape(input_shape)), layer.outputs@.len() <= 2,
ensures
    ({ let x = oshape(input_shape); let k = konst_ints(inp(*layer, 1), *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && tk_ok(*layer, x->Some_0, k))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, x->Some_0.update(nax(int_or(*layer, "axis"@, -1i64), x->Some_0.len() as int), k->Some_0[0] as usize)) }),
%%raw
// ---- gridsample ----------------------------------------------------------------------------------
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_gridsample
ensures
    ({ let x = in_shape(*layer, *shapes, 0); let g = in_shape(*layer, *shapes, 1);
       &&& (r is Ok) == (x is Some && g is Some && x->Some_0.len() == 4 && g->Some_0.len() == 4 && g->Some_0[3] == 2 && x->Some_0[0] == g->Some_0[0])
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, seq![x->Some_0[0], x->Some_0[1], g->Some_0[1], g->Some_0[2]]) }),
%%raw
// ---- gather --------------------------------------------------------------------------------------
/// a scalar counts as one element; an axis up to three places past the rank adds trailing ones
pub open spec fn ga_data(x: Seq<usize>, ax: int) -> Seq<usize> {
    let y = if x.len() == 0 { seq![1usize] } else { x };
    if ax < y.len() { y } else { y + rep(1usize, (ax + 1 - y.len()) as nat) }
}
pub open spec fn ga_ax(l: LayerNode, x: Seq<usize>) -> int { nax(int_or(l, "axis"@, 0), if x.len() == 0 { 1 } else { x.len() as int }) }
pub open spec fn ga_ok(l: LayerNode, x: Seq<usize>) -> bool { 0 <= ga_ax(l, x) < (if x.len() == 0 { 1 } else { x.len() as int }) + 4 }
pub open spec fn ga_out(x: Seq<usize>, ax: int, i: Seq<usize>) -> Seq<usize> { let y = ga_data(x, ax); y.take(ax) + i + y.skip(ax + 1) }
pub open spec fn shp_or_const(l: LayerNode, k: int, m: SMap<Vec<usize>>, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<usize>> {
    match in_shape(l, m, k) { Some(s) => Some(s), None => match inp(l, k) { Some(n) => match konst(n, a, b) { Some(t) => Some(td_shape(t)), None => None }, None => None } }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_gather
requires osmall(in_shape(*layer, *shapes, 0)), match shp_or_const(*layer, 1, *shapes, *initializers, *constant_tensors) { Some(s) => s.len() < 0x4000_0000, None => true },
ensures
    ({ let x = in_shape(*layer, *shapes, 0); let i = shp_or_const(*layer, 1, *shapes, *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && i is Some && ga_ok(*layer, x->Some_0))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, ga_out(x->Some_0, ga_ax(*layer, x->Some_0), i->Some_0)) }),
%%loop L0
data_shape_vec@.len() < 0x5000_0000,
data_shape_vec@.len() >= 1,
target_axis < 0x4000_0010,
data_shape_vec@.len() <= target_axis + 1 || data_shape_vec@ =~= ga_data(data_shape@, target_axis as int),
data_shape_vec@ =~= ga_data(data_shape@, data_shape_vec@.len() - 1),
target_axis == ga_ax(*layer, data_shape@),
decreases target_axis + 1 - data_shape_vec.len()
%%pre L0
assert(data_shape_vec@ =~= ga_data(data_shape@, data_shape_vec@.len() - 1));
%%post L0
assert(data_shape_vec@ =~= ga_data(data_shape@, target_axis as int));
%%pre A0
assert(out_shape@ =~= ga_out(gp1@[gp0.inputs@[0]@]@, target_axis as int, indices_shape@));

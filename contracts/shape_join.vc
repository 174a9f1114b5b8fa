%%include onnx_base.vc
%%include fn_basic.vc
%%include axes_spec.vc
%%raw
// ---- concat --------------------------------------------------------------------------------------
pub open spec fn norm_axis(l: LayerNode, n: Seq<char>, d: i64, r: int) -> int { nax(int_or(l, n, d), r) }
pub open spec fn cc_ax(l: LayerNode, r: int) -> int { norm_axis(l, "axis"@, 0, r) }
pub open spec fn cc_match(x: Seq<usize>, s: Seq<usize>, ax: int, k: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < k && j != ax ==> s[j] == x[j] }
pub open spec fn cc_in_ok(l: LayerNode, m: SMap<Vec<usize>>, x: Seq<usize>, ax: int, k: int) -> bool {
    match in_shape(l, m, k) { Some(s) => s.len() == x.len() && cc_match(x, s, ax, x.len() as int), None => false }
}
pub open spec fn cc_sum(l: LayerNode, m: SMap<Vec<usize>>, ax: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { cc_sum(l, m, ax, k - 1) + (match in_shape(l, m, k - 1) { Some(s) => s[ax] as int, None => 0 }) }
}
pub open spec fn cc_upto(l: LayerNode, m: SMap<Vec<usize>>, x: Seq<usize>, ax: int, n: int) -> bool {
    forall|k: int| #![trigger cc_in_ok(l, m, x, ax, k)] 1 <= k < n ==> cc_in_ok(l, m, x, ax, k)
}
pub open spec fn cc_ok(l: LayerNode, m: SMap<Vec<usize>>) -> bool {
    match in_shape(l, m, 0) { None => false, Some(x) => { let ax = cc_ax(l, x.len() as int);
        0 <= ax < x.len() && cc_upto(l, m, x, ax, l.inputs@.len() as int) && cc_sum(l, m, ax, l.inputs@.len() as int) <= usize::MAX } }
}
pub open spec fn cc_out(l: LayerNode, m: SMap<Vec<usize>>) -> Seq<usize> {
    let x = in_shape(l, m, 0)->Some_0; let ax = cc_ax(l, x.len() as int); x.update(ax, cc_sum(l, m, ax, l.inputs@.len() as int) as usize)
}
pub proof fn lemma_cc_mono(l: LayerNode, m: SMap<Vec<usize>>, ax: int, j: int, k: int) requires j <= k ensures cc_sum(l, m, ax, j) <= cc_sum(l, m, ax, k) decreases k - j
{ if j < k { lemma_cc_mono(l, m, ax, j, k - 1); } }
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_concat
requires in_shape(*layer, *shapes, 0) is Some ==> in_shape(*layer, *shapes, 0)->Some_0.len() < 0x4000_0000,
ensures
    (r is Ok) == cc_ok(*layer, *shapes),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, cc_out(*layer, *shapes)),
%%loop L0
out_shape@.len() == rank,
axis == cc_ax(*layer, rank as int),
cc_upto(*layer, *shapes, first_shape@, axis as int, ixL0 as int),
forall|j: int| #![trigger out_shape@[j]] 0 <= j < rank && j != axis ==> out_shape@[j] == first_shape@[j],
out_shape@[axis as int] == cc_sum(*layer, *shapes, axis as int, ixL0 as int),
%%pre L0
assert(cc_sum(*layer, *shapes, axis as int, 1) == cc_sum(*layer, *shapes, axis as int, 0) + first_shape@[axis as int]);
%%body L0
assert(hint(cc_in_ok(*layer, *shapes, first_shape@, axis as int, ixL0 - 1)));
lemma_cc_mono(*layer, *shapes, axis as int, ixL0 as int, layer.inputs@.len() as int);
%%post L0
assert(out_shape@ =~= cc_out(*layer, *shapes));
%%loop L1
cc_match(first_shape@, s@, axis as int, ixL1 as int),
%%raw
// ---- pad -----------------------------------------------------------------------------------------
/// amounts: the constant second input if given, else the attribute
pub open spec fn in_or_attr(l: LayerNode, k: int, n: Seq<char>, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<i64>> {
    match inp_ne(l, k) { Some(_) => konst_ints(inp_ne(l, k), a, b), None => ints_attr(l, n) }
}
pub open spec fn pd_ok(x: Seq<usize>, p: Seq<i64>) -> bool { p.len() == 2 * x.len() && all_nonneg(p) }
pub open spec fn pd_out(x: Seq<usize>, p: Seq<i64>) -> Seq<usize> { Seq::new(x.len(), |i: int| (x[i] + p[i] + p[x.len() + i]) as usize) }
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_pad
%%opt noauto A0
requires
    osmall(oshape(input_shape)), ismall(in_or_attr(*layer, 1, "pads"@, *initializers, *constant_tensors)),
ensures
    ({ let x = oshape(input_shape); let p = in_or_attr(*layer, 1, "pads"@, *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && p is Some && pd_ok(x->Some_0, p->Some_0))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, pd_out(x->Some_0, p->Some_0)) }),
%%pre A0
assert(pads@ == in_or_attr(*layer, 1, "pads"@, *initializers, *constant_tensors)->Some_0);
%%loop A0
outA0@.len() == ixA0,
forall|j: int| #![trigger pads@[j]] 0 <= j < ixA0 ==> pads@[j] >= 0,
forall|j: int| #![trigger pads@[j]] rank <= j < rank + ixA0 ==> pads@[j] >= 0,
forall|j: int| #![trigger outA0@[j]] 0 <= j < ixA0 ==> outA0@[j] == input_shape@[j] + pads@[j] + pads@[rank + j],
%%post A0
assert(outA0@ =~= pd_out(input_shape@, pads@));
%%raw
// ---- tile ----------------------------------------------------------------------------------------
pub open spec fn tl_rep(x: Seq<usize>, p: Seq<i64>, i: int) -> i64 { if i < x.len() - p.len() { 1i64 } else { p[i - (x.len() - p.len())] } }
pub open spec fn tl_dim_ok(x: Seq<usize>, p: Seq<i64>, i: int) -> bool { tl_rep(x, p, i) >= 1 && x[i] * tl_rep(x, p, i) <= usize::MAX }
pub open spec fn tl_upto(x: Seq<usize>, p: Seq<i64>, n: int) -> bool { forall|i: int| #![trigger tl_dim_ok(x, p, i)] 0 <= i < n ==> tl_dim_ok(x, p, i) }
pub open spec fn tl_out(x: Seq<usize>, p: Seq<i64>) -> Seq<usize> { Seq::new(x.len(), |i: int| (x[i] * tl_rep(x, p, i)) as usize) }
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_tile
%%opt noauto A0
ensures
    ({ let x = oshape(input_shape); let p = konst_ints(inp(*layer, 1), *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && p is Some && p->Some_0.len() <= x->Some_0.len() && tl_upto(x->Some_0, p->Some_0, x->Some_0.len() as int))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, tl_out(x->Some_0, p->Some_0)) }),
%%pre A0
let p = konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0;
assert(repeats_data@ =~= Seq::new(input_shape@.len(), |i: int| tl_rep(input_shape@, p, i)));
%%loop A0
outA0@.len() == ixA0,
repeats_data@.len() == input_shape@.len(),
forall|j: int| #![trigger repeats_data@[j]] 0 <= j < repeats_data@.len() ==> repeats_data@[j] == tl_rep(input_shape@, konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0, j),
tl_upto(input_shape@, konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0, ixA0 as int),
outA0@ =~= tl_out(input_shape@, konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0).take(ixA0 as int),
%%body A0
assert(hint(tl_dim_ok(input_shape@, konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0, ixA0 as int)));
%%post A0
assert(outA0@ =~= tl_out(input_shape@, konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0));
%%raw
// ---- split ---------------------------------------------------------------------------------------
pub open spec fn sp_sizes(l: LayerNode, x: Seq<usize>, ax: int, p: Option<Seq<i64>>) -> Seq<usize> {
    match p { Some(p) => to_us(p), None => rep((x[ax] / l.outputs@.len() as usize) as usize, l.outputs@.len()) }
}
pub open spec fn sp_even(l: LayerNode) -> bool { inp_ne(l, 1) is None && ints_attr(l, "split"@) is None }
pub open spec fn sp_ok(l: LayerNode, x: Seq<usize>, ax: int, p: Option<Seq<i64>>) -> bool {
    &&& 0 <= ax < x.len()
    &&& if sp_even(l) { l.outputs@.len() > 0 && x[ax] % (l.outputs@.len() as usize) == 0 }
        else { p is Some && all_nonneg(p->Some_0) && p->Some_0.len() == l.outputs@.len() && ssum(to_us(p->Some_0)) == x[ax] }
}
/// output j has the input's shape with the split axis replaced by size j
pub open spec fn sp_outs_ok(r: Seq<(String, Vec<usize>)>, l: LayerNode, x: Seq<usize>, ax: int, sz: Seq<usize>) -> bool {
    r.len() == l.outputs@.len() && forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j].0@ == l.outputs@[j]@ && r[j].1@ =~= x.update(ax, sz[j])
}
pub open spec fn sp_pre(r: Seq<(String, Vec<usize>)>, l: LayerNode, x: Seq<usize>, ax: int, sz: Seq<usize>) -> bool {
    forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> r[j].0@ == l.outputs@[j]@ && r[j].1@ =~= x.update(ax, sz[j])
}
pub proof fn lemma_sum_rep(v: usize, n: nat) ensures ssum(rep(v, n)) == v * n decreases n
{
    if n == 0 { assert(v * 0 == 0); } else {
        let s = rep(v, n); assert(s.drop_last() =~= rep(v, (n - 1) as nat)); lemma_sum_rep(v, (n - 1) as nat);
        assert(v * (n - 1) + v == v * n) by(nonlinear_arith);
    }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_split
requires
    input_shape is Some ==> input_shape->Some_0@.len() < 0x4000_0000,
    match in_or_attr(*layer, 1, "split"@, *initializers, *constant_tensors) { Some(p) => ssum(to_us(p)) <= usize::MAX, None => true },
ensures
    ({ let x = oshape(input_shape); let p = in_or_attr(*layer, 1, "split"@, *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && sp_ok(*layer, x->Some_0, cc_ax(*layer, x->Some_0.len() as int), p))
       &&& r is Ok ==> ({ let ax = cc_ax(*layer, x->Some_0.len() as int); sp_outs_ok(r->Ok_0@, *layer, x->Some_0, ax, sp_sizes(*layer, x->Some_0, ax, p)) }) }),
%%entry
match oshape(input_shape) { Some(x) => { let ax = cc_ax(*layer, x.len() as int); let n = layer.outputs@.len(); if 0 <= ax < x.len() && 0 < n <= usize::MAX {
    let q = (x[ax] / (n as usize)) as usize; lemma_sum_rep(q, n);
    assert(q * n <= x[ax] && (x[ax] % (n as usize) == 0 ==> q * n == x[ax])) by(nonlinear_arith) requires q == x[ax] / (n as usize), n > 0, n <= usize::MAX;
} } None => {} }
%%post A1
assert(outA1@ =~= to_us(vals@));
%%post A3
assert(outA3@ =~= to_us(v@));
%%pre A4
assert(split_sizes@ =~= sp_sizes(*layer, input_shape@, axis as int, in_or_attr(*layer, 1, "split"@, *initializers, *constant_tensors)));
%%loop A4
errA4 is None,
sp_pre(outA4@, *layer, input_shape@, axis as int, split_sizes@),

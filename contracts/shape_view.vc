%%include onnx_base.vc
%%include fn_basic.vc
%%include fn_axes.vc
%%include view_spec.vc
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_reshape
%%opt noauto A0
requires rs_fits(*layer, oshape(input_shape), rs_target(*layer, *initializers, *constant_tensors)),
ensures
    ({ let x = oshape(input_shape); let t = rs_target(*layer, *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && t is Some && rs_ok(t->Some_0, x->Some_0, rs_az(*layer)))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, rs_out(t->Some_0, x->Some_0, rs_az(*layer))) }),
%%loop L0
target_shape@ == rs_target(*layer, *initializers, *constant_tensors)->Some_0,
known_product == prod(rs_facs(target_shape@, input_shape@, allowzero).take(ixL0 as int)),
minus_one_count == cntm1(target_shape@.take(ixL0 as int)),
minus_one_count <= ixL0,
has_zero == (exists|j: int| #![trigger target_shape@[j]] 0 <= j < ixL0 && target_shape@[j] == 0),
match minus_one_idx { Some(k) => k < ixL0 && target_shape@[k as int] == -1, None => minus_one_count == 0 },
rs_upto(target_shape@, input_shape@, allowzero, ixL0 as int),
%%pre L0
lemma_prod1_pos(rs_facs(target_shape@, input_shape@, allowzero));
assert(rs_facs(target_shape@, input_shape@, allowzero).take(0) =~= Seq::<usize>::empty());
assert(target_shape@.take(0) =~= Seq::<i64>::empty());
%%body L0
assert(hint(rs_dim_ok(target_shape@, input_shape@, allowzero, i as int)));
lemma_prod_push(rs_facs(target_shape@, input_shape@, allowzero), i as int);
lemma_cnt_push(target_shape@, i as int);
assert(rs_facs(target_shape@, input_shape@, allowzero)[i as int] == rs_fac(target_shape@, input_shape@, allowzero, i as int));
assert(target_shape@[i as int] == d);
let pk = prod(rs_facs(target_shape@, input_shape@, allowzero).take(i as int)); let fk = rs_fac(target_shape@, input_shape@, allowzero, i as int) as int;
assert(fk == 0 ==> pk * fk == 0) by(nonlinear_arith);
assert(fk == 1 ==> pk * fk == pk) by(nonlinear_arith);
%%post L0
let f = rs_facs(target_shape@, input_shape@, allowzero);
assert(f.take(target_shape@.len() as int) =~= f);
assert(target_shape@.take(target_shape@.len() as int) =~= target_shape@);
lemma_cntm1(target_shape@);
lemma_prod1_pos(input_shape@);
assert(has_zero == has0(target_shape@));
assert(prod(f) == known_product);
%%loop A0
outA0@.len() == ixA0,
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> outA0@[jj] == (if target_shape@[jj] == -1 { 0usize } else { rs_fac(target_shape@, input_shape@, allowzero, jj) }),
%%body A0
assert(rs_dim_ok(target_shape@, input_shape@, allowzero, ixA0 as int));
%%post A0
assert(rs_ok(target_shape@, input_shape@, allowzero) && cntm1(target_shape@) == 0 ==> outA0@ =~= rs_out(target_shape@, input_shape@, allowzero));
if prod(rs_facs(target_shape@, input_shape@, allowzero)) != 0 { assert(prod(input_shape@) / prod(rs_facs(target_shape@, input_shape@, allowzero)) <= prod(input_shape@)) by(nonlinear_arith) requires prod(input_shape@) >= 0, prod(rs_facs(target_shape@, input_shape@, allowzero)) >= 1; }
%%pre A1
assert(out_shape@ =~= rs_out(target_shape@, input_shape@, allowzero));
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_flatten
requires input_shape is Some ==> input_shape->Some_0@.len() < 0x4000_0000 && prod1(input_shape->Some_0@) <= usize::MAX,
ensures
    (r is Ok) == (input_shape is Some && fl_ok(*layer, input_shape->Some_0@)),
    r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, fl_out(*layer, input_shape->Some_0@)),
    // no element is lost
    r is Ok ==> prod(input_shape->Some_0@) == prod(fl_out(*layer, input_shape->Some_0@)),
%%entry
match oshape(input_shape) { Some(x) => { let a = nax(int_or(*layer, "axis"@, 1), x.len() as int); if 0 <= a <= x.len() {
    lemma_prod1_split(x, a); lemma_prod1_pos(x.take(a)); lemma_prod1_pos(x.skip(a));
    let o = fl_out(*layer, x); assert(o.drop_last() =~= seq![prod(x.take(a)) as usize]); assert(o.drop_last().drop_last() =~= Seq::<usize>::empty());
    assert(prod(o.drop_last().drop_last()) == 1); assert(prod(o.drop_last()) == 1 * (prod(x.take(a)) as usize));
} } None => {} }
%%pre A0
assert(input_shape@.subrange(0, axis as int) =~= input_shape@.take(axis as int));
assert(input_shape@.subrange(axis as int, input_shape@.len() as int) =~= input_shape@.skip(axis as int));
assert(out_shape@ =~= fl_out(*layer, input_shape@));
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_squeeze
requires input_shape is Some ==> input_shape->Some_0@.len() < 0x4000_0000,
ensures
    ({ let x = oshape(input_shape); let a = sq_axes(*layer, *initializers, *constant_tensors);
       &&& (r is Ok) == (x is Some && !sq_dynamic(*layer, *initializers, *constant_tensors) && (a is Some ==> sq_ok(x->Some_0, a->Some_0)))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, sq_out(x->Some_0, a)) }),
%%loop A0
outA0@ == sq_ones(input_shape@.take(ixA0 as int)),
%%pre A0
assert(input_shape@.take(0) =~= Seq::<usize>::empty());
%%body A0
lemma_keep_push(input_shape@, ixA0 as int, axes@, 0);
%%post A0
assert(input_shape@.take(input_shape@.len() as int) =~= input_shape@);
%%pre A1
lemma_ax_empty(axes@, rank as int);
assert(axes@ == sq_axes(*layer, *initializers, *constant_tensors)->Some_0);
%%loop A1
set_is(seen@, axes@.take(ixA1 as int), rank as int),
ax_distinct(axes@.take(ixA1 as int), rank as int),
forall|j: int| #![trigger axes@[j]] 0 <= j < ixA1 ==> ax_in(axes@[j], rank as int) && outA1@[j] == nax(axes@[j], rank as int),
%%body A1
lemma_ax_push(axes@, ixA1 as int, rank as int);
%%post A1
lemma_ax_full(axes@, rank as int);
%%loop L0
forall|j: int| #![trigger axes@[j]] 0 <= j < ixL0 ==> input_shape@[nax(axes@[j], rank as int)] == 1,
%%body L0
assert(hint(ax_in(axes@[ixL0 - 1], rank as int)));
%%pre A2
assert(input_shape@.take(0) =~= Seq::<usize>::empty());
%%loop A2
outA2@ == sq_keep(input_shape@.take(ixA2 as int), axes@, rank as int),
%%body A2
lemma_keep_push(input_shape@, ixA2 as int, axes@, rank as int);
%%post A2
assert(input_shape@.take(input_shape@.len() as int) =~= input_shape@);
%%pre A3
if axes@.len() == 0 { lemma_keep_none(input_shape@, axes@, input_shape@.len() as int); }
assert(out_shape@ =~= sq_out(input_shape@, sq_axes(*layer, *initializers, *constant_tensors)));
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_unsqueeze
requires
    input_shape is Some ==> input_shape->Some_0@.len() < 0x4000_0000,
    sq_axes(*layer, *initializers, *constant_tensors) is Some ==> sq_axes(*layer, *initializers, *constant_tensors)->Some_0.len() < 0x4000_0000,
ensures
    ({ let x = oshape(input_shape); let a = sq_axes(*layer, *initializers, *constant_tensors);
       &&& (result is Ok) == (x is Some && a is Some && ({ let r = (x->Some_0.len() + a->Some_0.len()) as int; ax_all_in(a->Some_0, r) && ax_distinct(a->Some_0, r) }))
       &&& result is Ok ==> outs_ok(result->Ok_0@, layer.outputs@, us_out(x->Some_0, a->Some_0)) }),
%%opt retname result
%%loop A0
set_is(seen@, axes@.take(ixA0 as int), r as int),
ax_distinct(axes@.take(ixA0 as int), r as int),
forall|j: int| #![trigger axes@[j]] 0 <= j < ixA0 ==> ax_in(axes@[j], r as int),
%%pre A0
lemma_ax_empty(axes@, r as int);
assert(axes@ == sq_axes(*layer, *initializers, *constant_tensors)->Some_0);
%%body A0
lemma_ax_push(axes@, ixA0 as int, r as int);
%%post A0
lemma_ax_full(axes@, r as int);
%%loop L0
out_shape@.len() == ixL0,
input_idx == us_src(axes@, r as int, ixL0 as int),
input_idx <= ixL0,
out_shape@ =~= us_out(input_shape@, axes@).take(ixL0 as int),
%%body L0
lemma_us_count(axes@, r as int, i as int);
%%post L0
assert(out_shape@ =~= us_out(input_shape@, axes@));
%%fn rust/jstprove_onnx/src/shape_inference.rs::infer_transpose
%%opt noauto A0
requires in_shape(*layer, *shapes, 0) is Some ==> in_shape(*layer, *shapes, 0)->Some_0.len() < 0x4000_0000,
ensures
    ({ let x = in_shape(*layer, *shapes, 0);
       &&& (r is Ok) == (x is Some && tp_ok(tp_perm(*layer, x->Some_0.len()), x->Some_0.len() as int))
       &&& r is Ok ==> outs_ok(r->Ok_0@, layer.outputs@, tp_out(x->Some_0, tp_perm(*layer, x->Some_0.len()))) }),
%%loop A0
outA0@.len() == ixA0,
forall|j: int| #![trigger raw@[j]] #![trigger outA0@[j]] 0 <= j < ixA0 ==> ax_in(raw@[j], rank as int) && outA0@[j] == nax(raw@[j], rank as int),
%%body A0
assert(hint(ax_in(raw@[ixA0 as int], rank as int)));
%%pre L0
let p = tp_perm(*layer, input_shape@.len());
lemma_ax_empty(p, rank as int);
assert(perm@.len() == p.len());
assert forall|j: int| 0 <= j < p.len() implies ax_in(#[trigger] p[j], rank as int) && perm@[j] == nax(p[j], rank as int) by { assert(hint(perm@[j] == 0)); }
%%loop L0
perm@.len() == tp_perm(*layer, input_shape@.len()).len(),
ax_all_in(tp_perm(*layer, input_shape@.len()), rank as int),
forall|j: int| #![trigger perm@[j]] 0 <= j < perm@.len() ==> perm@[j] == nax(tp_perm(*layer, input_shape@.len())[j], rank as int) && perm@[j] < rank,
set_is(seen@, tp_perm(*layer, input_shape@.len()).take(ixL0 as int), rank as int),
ax_distinct(tp_perm(*layer, input_shape@.len()).take(ixL0 as int), rank as int),
%%body L0
lemma_ax_push(tp_perm(*layer, input_shape@.len()), ixL0 - 1, rank as int);
%%post L0
lemma_ax_full(tp_perm(*layer, input_shape@.len()), rank as int);
%%post A2
assert(outA2@ =~= tp_out(input_shape@, tp_perm(*layer, input_shape@.len())));

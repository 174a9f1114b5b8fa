%%include fold_spec.vc
%%include fn_select.vc
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_shape
requires osmall(in_shape(*layer, *shapes, 0)),
ensures
    ({ let x = in_shape(*layer, *shapes, 0);
       &&& (r is Some) == (x is Some)
       &&& r is Some ==> r->Some_0.int_data@ =~= so_vals(*layer, x->Some_0) && r->Some_0.float_data@.len() == 0 && r->Some_0.dims@ =~= seq![so_vals(*layer, x->Some_0).len() as i64] && r->Some_0.data_type == 7 }),
%%raw
// ---- cast ----------------------------------------------------------------------------------------
pub open spec fn is_ft(t: i64) -> bool { t == 1 || t == 10 || t == 11 || t == 16 }
pub open spec fn is_it(t: i64) -> bool { 2 <= t <= 7 || t == 12 || t == 13 }
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_cast
ensures
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let to = int_attr(*layer, "to"@);
       &&& (r is Some) == (t is Some && to is Some)
       &&& r is Some ==> ({ let t = t->Some_0; let o = r->Some_0; let to = to->Some_0;
           &&& o.dims@ =~= t.dims@ && o.data_type == to as i32
           &&& is_ft(to) ==> o.float_data@ =~= td_floats(t) && o.int_data@.len() == 0
           &&& is_it(to) ==> o.int_data@ =~= td_ints(t) && o.float_data@.len() == 0 }) }),
%%raw
// ---- concat --------------------------------------------------------------------------------------
pub open spec fn fc_all(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>, n: int) -> bool { forall|k: int| #![trigger kin(l, k, a, b)] 0 <= k < n ==> kin(l, k, a, b) is Some }
pub open spec fn fc_ints(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>, n: int) -> Seq<i64> decreases n {
    if n <= 0 { Seq::empty() } else { fc_ints(l, a, b, n - 1) + td_ints(kin(l, n - 1, a, b)->Some_0) }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_concat
requires kwf(*layer, 0, *initializers, *constant_tensors),
ensures
    r is Some ==> ({ let n = layer.inputs@.len() as int;
        &&& fc_all(*layer, *initializers, *constant_tensors, n)
        &&& r->Some_0.int_data@ =~= fc_ints(*layer, *initializers, *constant_tensors, n) && r->Some_0.float_data@.len() == 0
        &&& r->Some_0.dims@ =~= seq![r->Some_0.int_data@.len() as i64] && r->Some_0.data_type == kin(*layer, 0, *initializers, *constant_tensors)->Some_0.data_type }),
%%loop L0
all_inputs@.len() == ixL0,
forall|k: int| #![trigger kin(*layer, k, *initializers, *constant_tensors)] #![trigger all_inputs@[k]] 0 <= k < ixL0 ==> kin(*layer, k, *initializers, *constant_tensors) == Some(*all_inputs@[k]),
%%post L0
assert(kin(*layer, 0, *initializers, *constant_tensors) == Some(*all_inputs@[0]));
%%loop L1
concatenated@ =~= fc_ints(*layer, *initializers, *constant_tensors, ixL1 as int),
%%body L1
assert(hint(all_inputs@[ixL1 - 1] == all_inputs@[0]));
%%raw
// ---- unsqueeze / squeeze / reshape of a constant -------------------------------------------------
pub open spec fn rs_m1(m: Option<usize>, t: Seq<i64>, n: int) -> bool { match m { Some(k) => k < n && t[k as int] == -1, None => forall|j: int| #![trigger t[j]] 0 <= j < n ==> t[j] != -1 } }
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_unsqueeze
%%opt retname result
requires
    kwf(*layer, 0, *initializers, *constant_tensors),
    sq_axes(*layer, *initializers, *constant_tensors) is Some ==> sq_axes(*layer, *initializers, *constant_tensors)->Some_0.len() < 0x4000_0000,
    konst_ints(inp(*layer, 1), *initializers, *constant_tensors) is Some ==> konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0.len() < 0x4000_0000,
ensures
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let a = sq_axes(*layer, *initializers, *constant_tensors);
       result is Some && inp(*layer, 1) == inp_ne(*layer, 1) ==> t is Some && a is Some && td_view(t->Some_0, result->Some_0, us_out(td_shape(t->Some_0), a->Some_0)) }),
%%pre L0
lemma_ax_empty(axes@, r as int);
%%loop L0
set_is(seen@, axes@.take(ixL0 as int), r as int),
ax_distinct(axes@.take(ixL0 as int), r as int),
forall|j: int| #![trigger axes@[j]] 0 <= j < ixL0 ==> ax_in(axes@[j], r as int),
%%body L0
lemma_ax_push(axes@, ixL0 - 1, r as int);
if a < 0 && a + r < 0 { lemma_neg_cast((a + r) as i64); }
%%post L0
lemma_ax_full(axes@, r as int);
%%loop L1
out_dims@.len() == ixL1,
input_idx == us_src(axes@, r as int, ixL1 as int),
input_idx <= ixL1,
out_dims@ =~= dims_of(us_out(input_shape@, axes@)).take(ixL1 as int),
%%body L1
lemma_us_count(axes@, r as int, i as int);
%%post L1
assert(out_dims@ =~= dims_of(us_out(input_shape@, axes@)));
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_squeeze
requires kwf(*layer, 0, *initializers, *constant_tensors), !sq_dynamic(*layer, *initializers, *constant_tensors), inp(*layer, 1) == inp_ne(*layer, 1),
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let a = sq_axes(*layer, *initializers, *constant_tensors); t is Some && a is Some ==> ax_all_in(a->Some_0, t->Some_0.dims@.len() as int) }),
ensures
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let a = sq_axes(*layer, *initializers, *constant_tensors);
       &&& (r is Some) == (t is Some)
       &&& r is Some ==> td_view(t->Some_0, r->Some_0, sq_out(td_shape(t->Some_0), a)) }),
%%pre L0
lemma_ax_empty(axes@, rank as int);
assert(axes@ == sq_axes(*layer, *initializers, *constant_tensors)->Some_0);
%%loop L0
set_is(squeeze_set@, axes@.take(ixL0 as int), rank as int),
%%body L0
lemma_ax_push(axes@, ixL0 - 1, rank as int);
assert(ax_in(axes@[ixL0 - 1], rank as int));
%%post L0
lemma_ax_full(axes@, rank as int);
%%pre A0
assert(input_shape@.take(0) =~= Seq::<usize>::empty());
%%loop A0
outA0@ =~= dims_of(sq_keep(input_shape@.take(ixA0 as int), axes@, rank as int)),
%%body A0
lemma_keep_push(input_shape@, ixA0 as int, axes@, rank as int);
%%post A0
assert(input_shape@.take(input_shape@.len() as int) =~= input_shape@);
%%pre A1
assert(input_shape@.take(0) =~= Seq::<usize>::empty());
%%loop A1
outA1@ =~= dims_of(sq_ones(input_shape@.take(ixA1 as int))),
%%body A1
lemma_keep_push(input_shape@, ixA1 as int, Seq::empty(), rank as int);
%%post A1
assert(input_shape@.take(input_shape@.len() as int) =~= input_shape@);
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_reshape
requires
    kwf(*layer, 0, *initializers, *constant_tensors),
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let g = konst_ints(inp(*layer, 1), *initializers, *constant_tensors);
       t is Some && g is Some ==> rs_ok(g->Some_0, td_shape(t->Some_0), false) && prod1(rs_facs(g->Some_0, td_shape(t->Some_0), false)) <= usize::MAX }),
ensures
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let g = konst_ints(inp(*layer, 1), *initializers, *constant_tensors);
       &&& (r is Some) == (t is Some && g is Some)
       &&& r is Some ==> td_view(t->Some_0, r->Some_0, rs_out(g->Some_0, td_shape(t->Some_0), false)) }),
%%pre L0
let x = td_shape(*input_td);
lemma_prod1_pos(rs_facs(target@, x, false));
assert(rs_facs(target@, x, false).take(0) =~= Seq::<usize>::empty());
lemma_cntm1(target@); lemma_prod1_pos(x);
%%loop L0
out_dims@.len() == ixL0,
known_product == prod(rs_facs(target@, td_shape(*input_td), false).take(ixL0 as int)),
rs_m1(minus_one_idx, target@, ixL0 as int),
forall|jj: int| #![trigger out_dims@[jj]] 0 <= jj < ixL0 ==> out_dims@[jj] == (if target@[jj] == -1 { 0i64 } else { rs_fac(target@, td_shape(*input_td), false, jj) as i64 }),
%%body L0
let x = td_shape(*input_td);
assert(rs_dim_ok(target@, x, false, i as int));
lemma_prod_push(rs_facs(target@, x, false), i as int);
assert(rs_facs(target@, x, false)[i as int] == rs_fac(target@, x, false, i as int));
let pk = prod(rs_facs(target@, x, false).take(i as int)); let fk = rs_fac(target@, x, false, i as int) as int;
assert(fk == 1 ==> pk * fk == pk) by(nonlinear_arith);
%%post L0
let x = td_shape(*input_td); let f = rs_facs(target@, x, false);
assert(f.take(target@.len() as int) =~= f);
if prod(f) != 0 { assert(0 <= prod(x) / prod(f) <= prod(x)) by(nonlinear_arith) requires prod(x) >= 0, prod(f) >= 1; }

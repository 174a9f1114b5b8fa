%%include fold_spec.vc
%%include fn_select.vc
%%raw
// ---- gather of a constant ------------------------------------------------------------------------
pub open spec fn gx(t: TensorData) -> Seq<usize> { if t.dims@.len() == 0 { seq![1usize] } else { td_shape(t) } }
pub open spec fn gidx_ok(iv: Seq<i64>, d: int) -> bool { forall|k: int| #![trigger iv[k]] 0 <= k < iv.len() ==> ax_in(iv[k], d) }
/// flat positions of row o, index value ix: a block of `inner` consecutive elements
#[verifier::opaque]
pub open spec fn g_blk(o: int, ix: int, asz: int, inner: int) -> Seq<usize> { Seq::new(inner as nat, |j: int| (o * asz * inner + ix * inner + j) as usize) }
pub open spec fn g_row(iv: Seq<i64>, o: int, asz: int, inner: int, k: int) -> Seq<usize> decreases k {
    if k <= 0 { Seq::empty() } else { g_row(iv, o, asz, inner, k - 1) + g_blk(o, nax(iv[k - 1], asz), asz, inner) }
}
pub open spec fn g_all(iv: Seq<i64>, o: int, asz: int, inner: int) -> Seq<usize> decreases o {
    if o <= 0 { Seq::empty() } else { g_all(iv, o - 1, asz, inner) + g_row(iv, o - 1, asz, inner, iv.len() as int) }
}
pub open spec fn g_pos(x: Seq<usize>, iv: Seq<i64>, ax: int) -> Seq<usize> { g_all(iv, prod(x.take(ax)), x[ax] as int, prod(x.skip(ax + 1))) }
pub proof fn lemma_blk(o: int, ix: int, asz: int, inner: int, outer: int, total: int)
    requires 0 <= o < outer, 0 <= ix < asz, 0 <= inner, total == outer * (asz * inner), total <= 0x4000_0000
    ensures 0 <= o * asz, 0 <= o * asz * inner, 0 <= ix * inner, o * asz * inner + ix * inner + inner <= total, o * asz <= 0x4000_0000 || inner == 0, inner == 0 ==> o * asz * inner == 0 && ix * inner == 0
{
    assert(o * asz * inner == o * (asz * inner)) by(nonlinear_arith);
    assert((o + 1) * (asz * inner) <= outer * (asz * inner)) by(nonlinear_arith) requires o + 1 <= outer, asz >= 0, inner >= 0;
    assert((o + 1) * (asz * inner) == o * (asz * inner) + asz * inner) by(nonlinear_arith);
    assert((ix + 1) * inner <= asz * inner) by(nonlinear_arith) requires ix + 1 <= asz, inner >= 0;
    assert((ix + 1) * inner == ix * inner + inner) by(nonlinear_arith);
    assert(0 <= o * asz && 0 <= o * asz * inner && 0 <= ix * inner && 0 <= o * (asz * inner)) by(nonlinear_arith) requires o >= 0, asz >= 0, inner >= 0, ix >= 0;
    if inner > 0 { assert(o * asz <= o * asz * inner) by(nonlinear_arith) requires o * asz >= 0, inner >= 1; }
    else { assert(o * asz * inner == 0 && ix * inner == 0) by(nonlinear_arith) requires inner == 0; }
}
pub proof fn lemma_single(x: Seq<usize>) requires x.len() == 1 ensures prod(x) == x[0] { assert(x =~= seq![x[0]]); lemma_prod_one(x[0]); }
pub proof fn lemma_sub_prod1(x: Seq<usize>)
    ensures forall|j: int, k: int| #![trigger x.subrange(j, k)] 0 <= j <= k <= x.len() ==> 1 <= prod1(x.subrange(j, k)) <= prod1(x)
{
    assert forall|j: int, k: int| #![trigger x.subrange(j, k)] 0 <= j <= k <= x.len() implies 1 <= prod1(x.subrange(j, k)) <= prod1(x) by {
        lemma_prod1_split(x, k); let y = x.take(k); lemma_prod1_split(y, j); assert(y.skip(j) =~= x.subrange(j, k)); lemma_prod1_pos(x.subrange(j, k));
    }
}
pub proof fn lemma_split3(x: Seq<usize>, ax: int)
    requires 0 <= ax < x.len(), prod1(x) <= 0x4000_0000
    ensures prod(x) == prod(x.take(ax)) * (x[ax] * prod(x.skip(ax + 1))), prod1(x.take(ax)) <= 0x4000_0000, prod1(x.skip(ax + 1)) <= 0x4000_0000,
        0 <= prod(x.take(ax)) <= 0x4000_0000, 0 <= prod(x.skip(ax + 1)) <= 0x4000_0000,
        prod(x.take(ax)) * prod(x.skip(ax + 1)) <= 0x4000_0000
{
    lemma_prod1_split(x, ax); let y = x.skip(ax);
    lemma_prod1_split(y, 1);
    assert(y.skip(1) =~= x.skip(ax + 1)); assert(y.take(1) =~= seq![x[ax]]);
    lemma_prod_one(x[ax]);
    lemma_prod1_pos(x.take(ax)); lemma_prod1_pos(x.skip(ax + 1)); lemma_prod1_pos(y);
    let a = prod1(x.take(ax)); let b = prod1(x.skip(ax + 1));
    assert(prod1(y) >= b);
    assert(a * b <= a * prod1(y)) by(nonlinear_arith) requires a >= 1, b <= prod1(y);
    assert(prod(x.take(ax)) * prod(x.skip(ax + 1)) <= a * b) by(nonlinear_arith) requires 0 <= prod(x.take(ax)) <= a, 0 <= prod(x.skip(ax + 1)) <= b;
}
pub proof fn lemma_bound3(p: int, n: int, q: int) requires 0 <= p <= 0x4000_0000, 0 <= n <= 0x4000_0000, 0 <= q, p * q <= 0x4000_0000 ensures 0 <= p * n <= 0x1000_0000_0000_0000, 0 <= p * n * q <= 0x1000_0000_0000_0000
{
    assert(0 <= p * n <= 0x4000_0000 * 0x4000_0000) by(nonlinear_arith) requires 0 <= p <= 0x4000_0000, 0 <= n <= 0x4000_0000;
    assert(p * n * q == (p * q) * n) by(nonlinear_arith);
    assert(0 <= p * q) by(nonlinear_arith) requires p >= 0, q >= 0;
    assert(0 <= (p * q) * n <= 0x4000_0000 * 0x4000_0000) by(nonlinear_arith) requires 0 <= p * q <= 0x4000_0000, 0 <= n <= 0x4000_0000;
}
pub open spec fn g1_pre(out: Seq<usize>, iv: Seq<i64>, d: int, n: int) -> bool {
    forall|j: int| #![trigger out[j]] #![trigger iv[j]] 0 <= j < n ==> (ax_in(iv[j], d) ==> out[j] == nax(iv[j], d)) && (!ax_in(iv[j], d) ==> out[j] >= d)
}
pub proof fn lemma_grow1(iv: Seq<i64>, d: int, n: int) requires 0 <= n <= iv.len(), gidx_ok(iv, d), 0 <= d <= 0x4000_0000
    ensures g_row(iv, 0, d, 1, n) =~= Seq::new(n as nat, |k: int| nax(iv[k], d) as usize) decreases n
{
    if n > 0 { reveal(g_blk); lemma_grow1(iv, d, n - 1); let ix = nax(iv[n - 1], d); assert(ax_in(iv[n - 1], d)); assert(0 * d * 1 + ix * 1 + 0 == ix) by(nonlinear_arith); assert(g_blk(0, ix, d, 1) =~= seq![ix as usize]); }
}
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_gather
%%attr #[verifier::spinoff_prover] #[verifier::rlimit(150)]
%%opt noauto A0
requires
    kwf(*layer, 0, *initializers, *constant_tensors), kwf(*layer, 1, *initializers, *constant_tensors),
ensures
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors); let i = kin(*layer, 1, *initializers, *constant_tensors);
       r is Some ==> t is Some && i is Some && ({ let x = gx(t->Some_0); let ax = g_ax(*layer, x); let iv = td_ints(i->Some_0); let o = r->Some_0;
           &&& 0 <= ax < x.len() && o.data_type == t->Some_0.data_type
           &&& o.dims@ =~= dims_of(x.take(ax)) + i->Some_0.dims@ + dims_of(x.skip(ax + 1))
           &&& (iv.len() > 0 && prod(x) > 0 ==> gidx_ok(iv, x[ax] as int))
           &&& gidx_ok(iv, x[ax] as int) ==> sel_is(t->Some_0, g_pos(x, iv, ax), o.float_data@, o.int_data@) }) }),
%%entry
lemma_neg_casts();
match kin(*layer, 0, *initializers, *constant_tensors) { Some(t) => { lemma_sub_prod1(td_shape(t)); lemma_prod1_pos(td_shape(t)); } None => {} }
match kin(*layer, 1, *initializers, *constant_tensors) { Some(t) => { lemma_prod1_pos(td_shape(t)); } None => {} }
match kin(*layer, 0, *initializers, *constant_tensors) { Some(t) => { let x = gx(t); let a = g_ax(*layer, x); if t.dims@.len() > 1 && 0 <= a < x.len() { 
  lemma_split3(x, a); assert(x.subrange(0, a) =~= x.take(a)); assert(x.subrange(a + 1, x.len() as int) =~= x.skip(a + 1));
  match kin(*layer, 1, *initializers, *constant_tensors) { Some(t) => { let n = nvals(t) as int; let p = prod(x.take(a)); let q = prod(x.skip(a + 1)); lemma_bound3(p, n, q); } None => {} } } } None => {} }
%%pre A0
assert(data_shape@ =~= gx(*data_td));
%%loop A0
g1_pre(outA0@, indices_vals@, dim_size as int, ixA0 as int),
%%body A0
let iv = indices_vals@[ixA0 as int]; if iv < 0 && iv + dim_size < 0 { lemma_neg_cast((iv + dim_size) as i64); }
%%post A0
let x = gx(*data_td);
lemma_single(data_shape@);
assert(nvals(*data_td) == data_shape@[0]);
assert(x.take(0) =~= Seq::<usize>::empty() && x.skip(1) =~= Seq::<usize>::empty());
assert forall|k: int| #![trigger indices_vals@[k]] 0 <= k < indices_vals@.len() && outA0@[k] < x[0] implies ax_in(indices_vals@[k], x[0] as int) by { assert(hint(outA0@[k] == 0)); }
if gidx_ok(indices_vals@, x[0] as int) { lemma_grow1(indices_vals@, x[0] as int, indices_vals@.len() as int); 
assert(g_all(indices_vals@, 0, x[0] as int, 1) =~= Seq::<usize>::empty());
assert(g_pos(x, indices_vals@, 0) =~= g_row(indices_vals@, 0, x[0] as int, 1, indices_vals@.len() as int));
assert(outA0@ =~= g_pos(x, indices_vals@, 0)); }
%%pre A1
let x = gx(*data_td);
assert forall|k: int| #![trigger indices_vals@[k]] 0 <= k < indices_vals@.len() implies ax_in(indices_vals@[k], x[0] as int) by { assert(hint(positions@[k] == 0)); }
%%pre L0
let x = data_shape@;
lemma_split3(x, axis as int);
assert(x.subrange(0, axis as int) =~= x.take(axis as int)); assert(x.subrange(axis as int + 1, x.len() as int) =~= x.skip(axis as int + 1));
%%loop L0
positions@ =~= g_all(indices_vals@, ixL0 as int, axis_size as int, inner_size as int),
ixL0 > 0 ==> gidx_ok(indices_vals@, axis_size as int),
%%loop L1
positions@ =~= g_all(indices_vals@, o as int, axis_size as int, inner_size as int) + g_row(indices_vals@, o as int, axis_size as int, inner_size as int, ixL1 as int),
forall|k: int| #![trigger indices_vals@[k]] 0 <= k < ixL1 ==> ax_in(indices_vals@[k], axis_size as int),
%%body L1
if idx_raw < 0 && idx_raw + dim_size < 0 { lemma_neg_cast((idx_raw + dim_size) as i64); }
lemma_mul30(o as int, axis_size as int);
if ax_in(idx_raw, axis_size as int) { lemma_blk(o as int, nax(idx_raw, axis_size as int), axis_size as int, inner_size as int, outer_size as int, prod(data_shape@)); }
assert(hint(ax_in(indices_vals@[ixL1 - 1], axis_size as int)));
%%post A2
reveal(g_blk);
assert(outA2@ =~= g_blk(o as int, nax(idx_raw, axis_size as int), axis_size as int, inner_size as int));
%%post L0
if prod(data_shape@) > 0 && outer_size == 0 { assert(outer_size * (axis_size * inner_size) == 0) by(nonlinear_arith) requires outer_size == 0; }
%%post A5
assert(data_shape@.subrange(0, axis as int) =~= data_shape@.take(axis as int)); assert(data_shape@.subrange(axis as int + 1, data_shape@.len() as int) =~= data_shape@.skip(axis as int + 1));
assert(indices_td.dims@ =~= dims_of(indices_shape@));
%%fn rust/jstprove_onnx/src/shape_inference.rs::fold_slice
requires
    kwf(*layer, 0, *initializers, *constant_tensors),
    ({ let t = kin(*layer, 0, *initializers, *constant_tensors);
       &&& !sl_dyn(*layer, *initializers, *constant_tensors)
       &&& t is Some ==> sl_ok(*layer, td_shape(t->Some_0), *initializers, *constant_tensors) }),
    ismall(opt_const(*layer, 4, *initializers, *constant_tensors)),
    konst_ints(inp(*layer, 1), *initializers, *constant_tensors) is Some ==> konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0.len() < 0x4000_0000,
ensures
    r is Some ==> ({ let t = kin(*layer, 0, *initializers, *constant_tensors)->Some_0; let p = fsl_pos(*layer, td_shape(t)[0] as int, *initializers, *constant_tensors);
       &&& td_shape(t).len() == 1 && sl_shape(*layer, td_shape(t), *initializers, *constant_tensors) =~= seq![p.len() as usize]
       &&& r->Some_0.dims@ =~= seq![p.len() as i64] && r->Some_0.data_type == t.data_type
       &&& sel_is(t, p, r->Some_0.float_data@, r->Some_0.int_data@) }),
%%loop L0
0 <= i,
v@ + slp(i as int, end as int, step as int) =~= slp(start as int, end as int, step as int),
forall|j: int| #![trigger v@[j]] 0 <= j < v@.len() ==> v@[j] < end,
v@.len() <= i,
decreases (if i < end { end - i } else { 0 })
%%post L0
assert(slp(i as int, end as int, step as int) =~= Seq::<usize>::empty());
lemma_slp_len(start as int, if start < end { end as int } else { start as int }, step as int);
let s = konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0; let e = konst_ints(inp(*layer, 2), *initializers, *constant_tensors)->Some_0;
let ax = sl_axes(opt_const(*layer, 3, *initializers, *constant_tensors), s.len()); let st = sl_steps(opt_const(*layer, 4, *initializers, *constant_tensors), s.len());
assert(ax =~= axes@ && st =~= steps@);
assert(sl_dim_ok(ax, st, 1, 0));
lemma_sl_pos(s[0], e[0], st[0], input_shape@[0] as int);
let x = input_shape@; let a = nax(ax[0], 1);
assert(sl_out(x, s, e, ax, st, 0) == x);
assert(sl_out(x, s, e, ax, st, 1) == x.update(a, sl_len(s[0], e[0], st[0], x[a] as int) as usize));
%%pre L0
lemma_single(td_shape(*input_td));
let s0 = konst_ints(inp(*layer, 1), *initializers, *constant_tensors)->Some_0;
let ax0 = sl_axes(opt_const(*layer, 3, *initializers, *constant_tensors), s0.len()); let st0 = sl_steps(opt_const(*layer, 4, *initializers, *constant_tensors), s0.len());
assert(ax0 =~= axes@ && st0 =~= steps@);
assert(sl_dim_ok(ax0, st0, 1, 0));
%%loop L1
false,
decreases i - end
%%entry
match kin(*layer, 0, *initializers, *constant_tensors) { Some(t) => { lemma_prod1_pos(td_shape(t)); 
  match konst_ints(inp(*layer, 1), *initializers, *constant_tensors) { Some(s0) => { let ax0 = sl_axes(opt_const(*layer, 3, *initializers, *constant_tensors), s0.len()); let st0 = sl_steps(opt_const(*layer, 4, *initializers, *constant_tensors), s0.len());
  if td_shape(t).len() == 1 && s0.len() == 1 { assert(sl_dim_ok(ax0, st0, 1, 0)); } } None => {} }
} None => {} }
%%raw
/// every st-th position of [a, b)
pub open spec fn slp(a: int, b: int, st: int) -> Seq<usize> decreases (if a < b { b - a } else { 0 }) { if st < 1 || a >= b { Seq::empty() } else { seq![a as usize] + slp(a + st, b, st) } }
pub open spec fn fsl_pos(l: LayerNode, d: int, i: SMap<TensorData>, c: SMap<TensorData>) -> Seq<usize> {
    let s = konst_ints(inp(l, 1), i, c)->Some_0; let e = konst_ints(inp(l, 2), i, c)->Some_0; let st = sl_steps(opt_const(l, 4, i, c), s.len());
    slp(sl_pos(s[0], d), sl_pos(e[0], d), st[0] as int)
}
pub proof fn lemma_slp_len(a: int, b: int, st: int) requires st >= 1, a <= b ensures slp(a, b, st).len() == (if a < b { (b - a + st - 1) / st } else { 0 }) decreases b - a
{
    if a < b {
        let n = b - a;
        if a + st <= b { lemma_slp_len(a + st, b, st);
            assert((n + st - 1) / st == 1 + (n - st + st - 1) / st) by(nonlinear_arith) requires st >= 1;
            if a + st == b { assert((st - 1) / st == 0) by(nonlinear_arith) requires st >= 1; }
        } else { assert((n + st - 1) / st == 1) by(nonlinear_arith) requires st >= 1, 1 <= n < st; assert(slp(a + st, b, st) =~= Seq::<usize>::empty()); }
    }
}

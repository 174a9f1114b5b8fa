%%include prelude.vc
%%include real.vc
%%include onnx_core.vc
%%include quant_spec.vc
%%fn rust/jstprove_onnx/src/parser.rs::TensorData::as_f64_vec
%%opt vf 1
%%opt fcast 1
%%opt noauto A0
ensures rs(r@) =~= td_r(*self), self.float_data@.len() > 0 ==> r@ == self.float_data@,
    (forall|i: int| #![trigger self.float_data@[i]] 0 <= i < self.float_data@.len() ==> self.float_data@[i].fin()) ==> forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].fin(),
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> vr_of(outA0@[jj]) == self.int_data@[jj] as real && outA0@[jj].fin(),
%%fn rust/jstprove_onnx/src/graph.rs::LayerNode::get_float_attr
%%opt vf 1
ensures
    match r { Some(v) => self.attributes@.contains_key(name@) && self.attributes@[name@] == AttrValue::Float(v), None => !(self.attributes@.contains_key(name@) && self.attributes@[name@] is Float) },
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@get_input_bound
%%opt vf 1
requires nonneg(prev_bounds@),
ensures opb(*layer, prev_bounds@, idx as int, r.r()),
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@get_bias_bound
%%opt vf 1
ensures maxabs_ok(wr(*layer, input_idx as int), r.r()),
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@max_output_channel_l1
%%opt vf 1
ensures
    r is Ok ==> wt(*layer, input_idx as int) is Some && out_channels > 0 && wr(*layer, input_idx as int).len() % (out_channels as nat) == 0 && r->Ok_0.r() >= 0real
        && ({ let v = wr(*layer, input_idx as int); let p = per(v, out_channels as int); forall|oc: int| #![trigger row(v, p, oc)] 0 <= oc < out_channels ==> l1n(row(v, p, oc)) <= r->Ok_0.r() })
        && (out_channels == 1 ==> l1n(wr(*layer, input_idx as int)) <= r->Ok_0.r()),
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> vr_of(outA0@[jj]) == l1n(row(rs(vals@), per_channel as int, jj)),
%%body A0
let p = per_channel as int; let o = out_channels as int; let i = ixA0 as int;
lemma_rowfit(vals@.len() as int, o, p, i);
%%post A1
let v = rs(vals@); let t = row(v, per_channel as int, oc as int);
lemma_rowfit(vals@.len() as int, out_channels as int, per_channel as int, oc as int);
assert(srcA1@ =~= vals@.subrange(oc * per_channel, (oc + 1) * per_channel));
assert(rs(outA1@) =~= rabs(t));
%%post A0
assert(td_r(*w) =~= rs(vals@));
if out_channels == 1 { assert(row(rs(vals@), per_channel as int, 0) =~= rs(vals@)); assert(vr_of(outA0@[0]) == l1n(rs(vals@))); }
let v = rs(vals@); let p = per(v, out_channels as int);
assert(p == per_channel);
assert forall|oc: int| #![trigger row(v, p, oc)] 0 <= oc < out_channels implies hint(vr_of(outA0@[oc]) == l1n(row(v, p, oc))) && vr_of(outA0@[oc]) == l1n(row(v, p, oc)) by { assert(vr_of(outA0@[oc]) == l1n(row(v, p, oc))); }
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound
requires nonneg(prev_bounds@), weights_ok(*layer),
ensures r is Ok ==> r->Ok_0.r() >= 0real && covers(*layer, prev_bounds@, alpha_f64.r(), r->Ok_0.r()),
%%opt arms 1
%%opt vf 1
%%opt fcast 1
%%opt lift get_input_bound get_bias_bound max_output_channel_l1
%%opt use lemma_rmul_pos, lemma_rdiv_pos, ax_sqrt_pos, lemma_prodok, lemma_bnok, lemma_normok, lemma_lreluok, ax_exp_mono, ax_sqrt_mono, ax_pow_mono, ax_exp_pos, ax_pow_pos
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:Gemm
%%opt use lemma_rmul_pos, lemma_lin, lemma_prod1_pair
%%opt noauto A1
%%body A1
lemma_ix2(ixA1 as int, ixA0 as int, rows as int, cols as int);
%%post A1
lemma_per(vals@.len() as int, rows as int, cols as int);
assert(rs(outA1@) =~= rabs(col(rs(vals@), cols as int, ixA0 as int)));
%%loop A1
forall|jj: int| #![trigger outA1@[jj]] 0 <= jj < ixA1 ==> vr_of(outA1@[jj]) == vr_abs(col(rs(vals@), cols as int, ixA0 as int)[jj]),
per(rs(vals@), cols as int) == rows,
%%pre A1
lemma_per(vals@.len() as int, rows as int, cols as int);
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> vr_of(outA0@[jj]) == l1n(col(rs(vals@), cols as int, jj)),
%%post A0
let v = rs(vals@); let n = cols as int;
assert(td_r(*w) =~= v);
assert forall|c: int| #![trigger col(v, n, c)] 0 <= c < n implies hint(vr_of(outA0@[c]) == l1n(col(v, n, c))) && vr_of(outA0@[c]) == l1n(col(v, n, c)) by { assert(vr_of(outA0@[c]) == l1n(col(v, n, c))); }
%%post A2
assert(rs(outA2@) =~= rabs(td_r(*w)));
lemma_l1_nonneg(td_r(*w));
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:MatMul
%%opt use lemma_rmul_pos, lemma_lin0, lemma_prodok
%%loop A0
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> l1n(col(rs(vals@), n_out as int, jj)) <= vr_of(outA0@[jj]),
%%post A1
let v = rs(vals@); let n = n_out as int; let c = ixA0 as int; let k = col(v, n, c);
lemma_stride(v.len() as int, n, c);
let z = Seq::new(srcA1@.len(), |i: int| srcA1@[i].r());
assert(rs(outA1@) =~= rabs(z));
assert(z.take(k.len() as int) =~= k) by { assert forall|i: int| 0 <= i < k.len() implies z[i] == k[i] by { assert(srcA1@[i] == vals@[stride(c, n, i)]); } }
lemma_l1_take(z, k.len() as int);
%%post A0
let v = rs(vals@); let n = n_out as int;
assert(td_r(*w) =~= v);
assert forall|c: int| #![trigger col(v, n, c)] 0 <= c < n implies hint(vr_of(outA0@[c]) >= 0real) && l1n(col(v, n, c)) <= vr_of(outA0@[c]) by { assert(l1n(col(v, n, c)) <= vr_of(outA0@[c])); }
%%post A2
let v = rs(vals@); let n = n_out as int;
assert(td_r(*w) =~= v);
if n > 0 { assert forall|c: int| #![trigger col(v, n, c)] 0 <= c < n implies l1n(col(v, n, c)) == 0real by { assert(rabs(col(v, n, c)) =~= Seq::empty()); } }
%%loop A3
forall|jj: int| #![trigger outA3@[jj]] 0 <= jj < ixA3 ==> vr_of(outA3@[jj]) == l1n(row(rs(vals@), n_cols as int, jj)),
%%body A3
lemma_rowfit2(vals@.len() as int, n_cols as int, ixA3 as int);
%%post A4
let v = rs(vals@); let n = n_cols as int; let i = ixA3 as int;
lemma_rowfit2(v.len() as int, n, i);
assert(srcA4@ =~= vals@.subrange(i * n, (i + 1) * n));
assert(rs(outA4@) =~= rabs(row(v, n, i)));
%%post A3
let v = rs(vals@); let n = n_cols as int;
assert(td_r(*w) =~= v);
assert forall|i: int| #![trigger row(v, n, i)] 0 <= i < per(v, n) implies hint(vr_of(outA3@[i]) >= 0real) && l1n(row(v, n, i)) == vr_of(outA3@[i]) by { assert(vr_of(outA3@[i]) == l1n(row(v, n, i))); }
%%post A5
assert(td_r(*w) =~= rs(vals@));
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:ConvTranspose
%%entry
if wt(*layer, 1) is Some { let d0 = td_shape(wt(*layer, 1)->Some_0); assert(td_ok(layer.weights@[inp(*layer, 1)->Some_0])); if d0.len() >= 2 { lemma_prod1_pair(d0); } }
%%opt use lemma_rmul_pos, lemma_lin
%%loop A0
v11 == rs(vals@) && v11.len() == c_in * c_out * kernel_elems, v11.len() <= usize::MAX, kernel_elems > 0, c_out > 0,
forall|jj: int| #![trigger outA0@[jj]] 0 <= jj < ixA0 ==> vr_of(outA0@[jj]) == l1n(tcol(v11, c_in as int, c_out as int, kernel_elems as int, jj)),
%%gpre A0
let ghost v11 = rs(vals@);
%%pre A0
let d0 = td_shape(*w);
assert(v11 =~= td_r(*w)); lemma_prod1_pos(d0);
assert(v11.len() == prod(d0));
lemma_ct(d0); if d0.len() >= 2 { assert(d0.subrange(2, d0.len() as int) =~= d0.skip(2)); }
assert(v11.len() == c_in * c_out * kernel_elems);
%%loop L0
v11 == rs(vals@) && v11.len() == c_in * c_out * kernel_elems, v11.len() <= usize::MAX, kernel_elems > 0, ixA0 < c_out,
l1.r() == l1n(tcol(v11, c_in as int, c_out as int, kernel_elems as int, ixA0 as int).take(ixL0 * kernel_elems)),
%%pre L0
let t = tcol(v11, c_in as int, c_out as int, kernel_elems as int, ixA0 as int);
assert(ixL0 * kernel_elems == 0) by(nonlinear_arith) requires ixL0 == 0;
assert(t.take(0) =~= Seq::empty()); assert(rabs(t.take(0)) =~= Seq::empty());
%%loop L1
v11 == rs(vals@) && v11.len() == c_in * c_out * kernel_elems, v11.len() <= usize::MAX, kernel_elems > 0, ixA0 < c_out, ixL0 <= c_in, ixL0 >= 1,
l1.r() == l1n(tcol(v11, c_in as int, c_out as int, kernel_elems as int, ixA0 as int).take((ixL0 - 1) * kernel_elems + ixL1)),
%%body L1
let t = tcol(v11, c_in as int, c_out as int, kernel_elems as int, ixA0 as int);
lemma_tix(v11.len() as int, c_in as int, c_out as int, kernel_elems as int, ixL0 - 1, ixA0 as int, ixL1 - 1);
let e = (ixL0 - 1) * kernel_elems + (ixL1 - 1);
assert(t.take(e + 1).drop_last() =~= t.take(e));
lemma_l1_push(t.take(e + 1));
%%post L1
assert((ixL0 - 1) * kernel_elems + kernel_elems == ixL0 * kernel_elems) by(nonlinear_arith);
%%post L0
let t = tcol(v11, c_in as int, c_out as int, kernel_elems as int, ixA0 as int);
assert(t.take(t.len() as int) =~= t);
assert(c_in * kernel_elems >= 0) by(nonlinear_arith);
%%post A0
let v = v11; let ci = c_in as int; let co = c_out as int; let ke = kernel_elems as int;
assert forall|oc: int| #![trigger tcol(v, ci, co, ke, oc)] 0 <= oc < co implies hint(vr_of(outA0@[oc]) >= 0real) && vr_of(outA0@[oc]) == l1n(tcol(v, ci, co, ke, oc)) by { assert(vr_of(outA0@[oc]) == l1n(tcol(v, ci, co, ke, oc))); }
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:Clip
%%opt use lemma_keeps_mono
%%loop L0
keeps(*layer, prev_bounds@, 0, max_bound.r()),
forall|j: int| #![trigger inp(*layer, j)] 1 <= j < ixL0 && inp_ne(*layer, j) is Some ==> keeps(*layer, prev_bounds@, j, max_bound.r()),
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:Concat
%%opt use lemma_keeps_mono
%%loop L0
max_bound.r() >= 0real,
forall|j: int| #![trigger inp(*layer, j)] 0 <= j < ixL0 ==> keeps(*layer, prev_bounds@, j, max_bound.r()),
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:Conv
%%opt use lemma_rmul_pos, lemma_lin, lemma_l1_row
%%fn rust/jstprove_onnx/src/quantizer.rs::compute_layer_bound@:Div
%%opt use lemma_rdiv_pos, lemma_divok, lemma_hasv_push
%%loop A0
forall|p: int| #![trigger outA0@[p]] 0 <= p < outA0@.len() ==> vr_of(outA0@[p]) > 0real && vfin(outA0@[p]),
forall|j: int| #![trigger srcA0@[j]] 0 <= j < ixA0 && srcA0@[j].r() != 0real ==> hasv(outA0@, vr_abs(srcA0@[j].r())),
%%post A0
assert(td_r(*w) =~= rs(srcA0@));
assert forall|j: int| #![trigger wr(*layer, 1)[j]] 0 <= j < wr(*layer, 1).len() && wr(*layer, 1)[j] != 0real implies hasv(outA0@, vr_abs(wr(*layer, 1)[j])) by { assert(srcA0@[j].r() == wr(*layer, 1)[j]); }

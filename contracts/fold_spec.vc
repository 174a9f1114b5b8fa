%%include onnx_base.vc
%%include fn_basic.vc
%%include axes_spec.vc
%%include view_spec.vc
%%include float_spec.vc
%%include slice_spec.vc
%%raw
// ---- constants: value representation -------------------------------------------------------------
pub open spec fn nvals(t: TensorData) -> nat { if t.int_data@.len() > 0 { t.int_data@.len() } else { t.float_data@.len() } }
/// a decoded constant: non-negative dimensions, one stored value per element
pub open spec fn td_wf(t: TensorData) -> bool {
    &&& t.dims@.len() <= 0x4000_0000 && forall|i: int| #![trigger t.dims@[i]] 0 <= i < t.dims@.len() ==> 0 <= t.dims@[i] <= 0x4000_0000
    &&& prod1(td_shape(t)) <= 0x4000_0000 && nvals(t) == prod(td_shape(t))
}
pub open spec fn kwf(l: LayerNode, k: int, a: SMap<TensorData>, b: SMap<TensorData>) -> bool {
    match inp(l, k) { Some(n) => match konst(n, a, b) { Some(t) => td_wf(t), None => true }, None => true }
}
pub open spec fn kin(l: LayerNode, k: int, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<TensorData> {
    match inp(l, k) { Some(n) => konst(n, a, b), None => None }
}
pub open spec fn dims_of(s: Seq<usize>) -> Seq<i64> { Seq::new(s.len(), |i: int| s[i] as i64) }
/// same stored values, new dimensions
pub open spec fn td_view(t: TensorData, o: TensorData, s: Seq<usize>) -> bool {
    o.dims@ =~= dims_of(s) && o.data_type == t.data_type && o.int_data@ =~= t.int_data@ && o.float_data@ =~= t.float_data@
}
pub proof fn lemma_neg_cast(x: i64) requires x < 0 ensures x as usize >= 0x8000_0000_0000_0000usize
{ assert(x < 0i64 ==> x as u64 >= 0x8000_0000_0000_0000u64) by(bit_vector); }
// ---- shape ---------------------------------------------------------------------------------------
pub open spec fn so_pos(v: int, r: int) -> int { let p = if v < 0 { v + r } else { v }; if p < 0 { 0 } else if p > r { r } else { p } }
pub open spec fn so_a(l: LayerNode, r: int) -> int { so_pos(int_or(l, "start"@, 0) as int, r) }
pub open spec fn so_b(l: LayerNode, r: int) -> int { so_pos(match int_attr(l, "end"@) { Some(e) => e as int, None => r }, r) }
pub open spec fn so_vals(l: LayerNode, x: Seq<usize>) -> Seq<i64> {
    let a = so_a(l, x.len() as int); let b = so_b(l, x.len() as int); if a < b { dims_of(x.subrange(a, b)) } else { Seq::empty() }
}
pub open spec fn g_ax(l: LayerNode, x: Seq<usize>) -> int { nax(int_or(l, "axis"@, 0), x.len() as int) }
pub proof fn lemma_neg_casts() ensures forall|x: i64| x < 0 ==> #[trigger] (x as usize) >= 0x8000_0000_0000_0000usize
{ assert forall|x: i64| x < 0 implies #[trigger] (x as usize) >= 0x8000_0000_0000_0000usize by { lemma_neg_cast(x); } }
pub proof fn lemma_prod_one(v: usize) ensures prod(seq![v]) == v, prod1(seq![v]) >= v
{ let s = seq![v]; assert(s.drop_last() =~= Seq::<usize>::empty()); assert(s.last() == v); assert(prod(s) == prod(s.drop_last()) * (s.last() as int)); assert(prod(s.drop_last()) == 1); assert(prod1(s.drop_last()) == 1); assert(prod1(s) == 1 * (if v == 0 { 1int } else { v as int })); }

%%raw
// ---- slice ---------------------------------------------------------------------------------------
pub open spec fn clampi(v: int, lo: int, hi: int) -> int { if v < lo { lo } else if v > hi { hi } else { v } }
/// start/end position on an axis of length `d`: negative counts from the end, then clamped
pub open spec fn sl_pos(v: i64, d: int) -> int { clampi(if v < 0 { d + v } else { v as int }, 0, d) }
#[verifier::opaque]
pub open spec fn sl_len(s: i64, e: i64, st: i64, d: int) -> int { let a = sl_pos(s, d); let b = sl_pos(e, d); if a < b { (b - a + st - 1) / (st as int) } else { 0 } }
pub open spec fn sl_axes(a: Option<Seq<i64>>, n: nat) -> Seq<i64> { match a { Some(a) => a, None => Seq::new(n, |i: int| i as i64) } }
pub open spec fn sl_steps(a: Option<Seq<i64>>, n: nat) -> Seq<i64> { match a { Some(a) => a, None => rep(1i64, n) } }
pub open spec fn sl_dim_ok(ax: Seq<i64>, st: Seq<i64>, r: int, i: int) -> bool { ax_in(ax[i], r) && st[i] >= 1 }
pub open spec fn sl_upto(ax: Seq<i64>, st: Seq<i64>, r: int, k: int) -> bool { forall|i: int| #![trigger sl_dim_ok(ax, st, r, i)] 0 <= i < k ==> sl_dim_ok(ax, st, r, i) }
pub proof fn lemma_sl_pos(s: i64, e: i64, st: i64, d: int) requires 0 <= d <= 0x4000_0000, 1 <= st <= 0x4000_0000
    ensures ({ let a = sl_pos(s, d); let b = sl_pos(e, d); 0 <= sl_len(s, e, st, d) <= d && (a < b ==> sl_len(s, e, st, d) == (b - a + st - 1) / (st as int)) && (a >= b ==> sl_len(s, e, st, d) == 0) })
{
    reveal(sl_len); let a = sl_pos(s, d); let b = sl_pos(e, d);
    if a < b { let n = b - a; assert(0 <= (n + st - 1) / (st as int) <= n) by(nonlinear_arith) requires n >= 1, st >= 1; }
}
/// shape after applying the first k axis entries, in order
pub open spec fn sl_out(x: Seq<usize>, s: Seq<i64>, e: Seq<i64>, ax: Seq<i64>, st: Seq<i64>, k: int) -> Seq<usize> decreases k {
    if k <= 0 { x } else { let p = sl_out(x, s, e, ax, st, k - 1); let a = nax(ax[k - 1], x.len() as int); p.update(a, sl_len(s[k - 1], e[k - 1], st[k - 1], x[a] as int) as usize) }
}
pub proof fn lemma_sl_len(x: Seq<usize>, s: Seq<i64>, e: Seq<i64>, ax: Seq<i64>, st: Seq<i64>, k: int) ensures sl_out(x, s, e, ax, st, k).len() == x.len() decreases k
{ if k > 0 { lemma_sl_len(x, s, e, ax, st, k - 1); } }
pub open spec fn opt_const(l: LayerNode, k: int, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<i64>> { konst_ints(inp_ne(l, k), a, b) }
/// a parameter tensor is given but not known at compile time
pub open spec fn sl_dyn(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>) -> bool {
    konst_ints(inp(l, 1), a, b) is None || konst_ints(inp(l, 2), a, b) is None
    || (inp_ne(l, 3) is Some && opt_const(l, 3, a, b) is None) || (inp_ne(l, 4) is Some && opt_const(l, 4, a, b) is None)
}
pub open spec fn sl_ok(l: LayerNode, x: Seq<usize>, a: SMap<TensorData>, b: SMap<TensorData>) -> bool {
    let s = konst_ints(inp(l, 1), a, b)->Some_0; let e = konst_ints(inp(l, 2), a, b)->Some_0; let ax = opt_const(l, 3, a, b); let st = opt_const(l, 4, a, b);
    &&& s.len() == e.len() && (ax is Some ==> ax->Some_0.len() == s.len()) && (st is Some ==> st->Some_0.len() == s.len())
    &&& sl_upto(sl_axes(ax, s.len()), sl_steps(st, s.len()), x.len() as int, s.len() as int)
}
pub open spec fn sl_shape(l: LayerNode, x: Seq<usize>, a: SMap<TensorData>, b: SMap<TensorData>) -> Seq<usize> {
    let s = konst_ints(inp(l, 1), a, b)->Some_0; let e = konst_ints(inp(l, 2), a, b)->Some_0;
    sl_out(x, s, e, sl_axes(opt_const(l, 3, a, b), s.len()), sl_steps(opt_const(l, 4, a, b), s.len()), s.len() as int)
}

%%include logup_spec.vc
%%type LayerError => VErr
%%type RescaleError => VErr
%%type LayerKind => VKind
%%item rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::ShiftRangeContext
%%item rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs::RescalingContext
%%raw
#[derive(Clone, Copy)]
pub enum VKind { ReLU, Max, Min, Clip }
pub assume_specification [u64::checked_shl] (a: u64, b: u32) -> (r: Option<u64>) ensures r is Some == (b < 64), a == 1 && b < 64 ==> r->0 == p2(b as int);
pub assume_specification [u32::checked_shl] (a: u32, b: u32) -> (r: Option<u32>) ensures r is Some == (b < 32), a == 1 && b < 32 ==> r->0 == p2(b as int);
/// a small integer is the signed reading of its residue
pub proof fn lem_sgn(t: int) ensures -P() < 2 * t < P() ==> sgn(t % P()) == t
{ broadcast use prime; if -P() < 2 * t < P() { if t >= 0 { lemma_small_mod(t as nat, P() as nat); } else { lemma_small_mod((t + P()) as nat, P() as nat); lemma_mod_add_multiples_vanish(t, P()); } } }
pub proof fn lem_pos0(t: int) ensures 0 <= t < P() ==> t % P() == t { broadcast use prime; if 0 <= t < P() { lemma_small_mod(t as nat, P() as nat); } }
pub proof fn lem_res(x: int) requires 0 <= x < P() ensures sgn(x) % P() == x, -P() <= 2 * sgn(x) < P()
{ lemma_small_mod(x as nat, P() as nat); lemma_mod_add_multiples_vanish(x - P(), P()); }
pub proof fn lem_lin(a: int, b: int) requires 0 <= a < P(), 0 <= b < P()
    ensures (a + b) % P() == (sgn(a) + sgn(b)) % P(), (a - b) % P() == (sgn(a) - sgn(b)) % P()
{ lem_res(a); lem_res(b); lemma_add_mod_noop(sgn(a), sgn(b), P()); lemma_sub_mod_noop(sgn(a), sgn(b), P()); }
pub proof fn lem_bit(y: int) requires 0 <= y < P() ensures mulp(0, y) == 0, mulp(1, y) == y, mulp(P() - 1, y) == (-y) % P(), mulp(y, 0) == 0, mulp(y, 1) == y
{
    broadcast use prime; lemma_small_mod(y as nat, P() as nat); lemma_small_mod(0, P() as nat);
    assert((P() - 1) * y == P() * y + (-y)) by(nonlinear_arith); lemma_mod_multiples_vanish(y, -y, P());
}
/// the centering constant is 2^s and s leaves room in the field
pub open spec fn centred(c: ShiftRangeContext) -> bool { val(c.offset) == p2(c.shift_exponent as int) % P() }
pub open spec fn aligned(t: LogUpRangeProofTable, n: int) -> bool { n % (t.rangeproof_bits as int) == 0 }
pub open spec fn small(v: Variable) -> bool { 4 * sval(v) < P() && -4 * sval(v) < P() }
pub open spec fn fits(v: Variable, s: int) -> bool { -p2(s) <= sval(v) < p2(s) }
pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::LogupRangeCheckContext::range_check
%%opt stub 1
requires
    n_bits > 0 && n_bits <= 128 ==> sized(old(self).table.rangeproof_bits as int, n_bits as int),
ensures
    grows(old(self).table, final(self).table), final(api).ok() ==> old(api).ok(),
    r is Ok == (1 <= n_bits <= 128),
    r is Ok && accepted(final(self).table) && final(api).ok() ==> -slack(final(self).table.rangeproof_bits as int, n_bits as int) <= sval(value) < p2(n_bits as int),
    r is Ok && honest() && old(api).ok() && accepted(old(self).table) && val(value) < p2(n_bits as int) ==> final(api).ok() && accepted(final(self).table),
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::ShiftRangeContext::new
%%opt use circuit_facts
ensures
    final(api).ok() == old(api).ok(), r is Ok == (shift_exponent < 64), r is Ok ==> centred(r->Ok_0) && r->Ok_0.shift_exponent == shift_exponent,
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::constrained_relu
%%opt use circuit_facts
requires
    centred(*shift_ctx), sized(old(logup_ctx).table.rangeproof_bits as int, shift_ctx.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok,
    aligned(old(logup_ctx).table, shift_ctx.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() ==> sval(r->Ok_0) == mx(sval(x), 0) && -p2(shift_ctx.shift_exponent + 1) < sval(x) < p2(shift_ctx.shift_exponent + 1),
    honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(x, shift_ctx.shift_exponent as int) ==> final(api).ok() && accepted(final(logup_ctx).table),
    honest() && fits(x, shift_ctx.shift_exponent as int) ==> sval(r->Ok_0) == mx(sval(x), 0),
%%entry
    let n = shift_ctx.shift_exponent + 1; let b = logup_ctx.table.rangeproof_bits as int; let o = p2(n - 1);
    lem_p2(n - 1, 1); lem_p2(n, b + 1); lem_p2(b, 1); lem_128(); lemma_small_mod(o as nat, P() as nat);
    lem_bit(val(x)); lem_lin(val(x), o); lem_sgn(sval(x) + o); lem_sgn(sval(x)); lem_res(val(x)); lem_sgn(-sval(x)); lem_sgn(0);
    lem_lin(0, val(x)); lemma_sub_mod_noop(2 * val(x), val(x), P()); lemma_small_mod(val(x) as nat, P() as nat); lem_pos0(sval(x) + o); lem_pos0(-sval(x)); lem_pos0(1); lem_pos0(0);
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::constrained_max_2
%%opt use circuit_facts
requires
    centred(*shift_ctx), sized(old(logup_ctx).table.rangeproof_bits as int, shift_ctx.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok,
    aligned(old(logup_ctx).table, shift_ctx.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() && small(x) && small(a) ==> sval(r->Ok_0) == mx(sval(x), sval(a)),
    honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(x, shift_ctx.shift_exponent as int) && fits(a, shift_ctx.shift_exponent as int) ==> final(api).ok() && accepted(final(logup_ctx).table),
    honest() && fits(x, shift_ctx.shift_exponent as int) && fits(a, shift_ctx.shift_exponent as int) ==> sval(r->Ok_0) == mx(sval(x), sval(a)),
%%entry
    lem_two(x, a, shift_ctx.shift_exponent as int, logup_ctx.table.rangeproof_bits as int); lem_two(a, x, shift_ctx.shift_exponent as int, logup_ctx.table.rangeproof_bits as int);
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::constrained_min_2
%%opt use circuit_facts
requires
    centred(*shift_ctx), sized(old(logup_ctx).table.rangeproof_bits as int, shift_ctx.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok,
    aligned(old(logup_ctx).table, shift_ctx.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() && small(x) && small(a) ==> sval(r->Ok_0) == mn(sval(x), sval(a)),
    honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(x, shift_ctx.shift_exponent as int) && fits(a, shift_ctx.shift_exponent as int) ==> final(api).ok() && accepted(final(logup_ctx).table),
    honest() && fits(x, shift_ctx.shift_exponent as int) && fits(a, shift_ctx.shift_exponent as int) ==> sval(r->Ok_0) == mn(sval(x), sval(a)),
%%entry
    lem_two(x, a, shift_ctx.shift_exponent as int, logup_ctx.table.rangeproof_bits as int); lem_two(a, x, shift_ctx.shift_exponent as int, logup_ctx.table.rangeproof_bits as int);
%%raw
/// the arithmetic of a two-way selection, in both directions
pub proof fn lem_two(x: Variable, a: Variable, s: int, b: int)
    requires sized(b, s + 1), s >= 0,
    ensures ({ let d = (val(x) - val(a)) % P();
        &&& p2(s) % P() == p2(s) && 0 <= d < P() && 1int % P() == 1 && 2int % P() == 2 && 0int % P() == 0 && (-1int) % P() == P() - 1
        &&& mulp(0, d) == 0 && mulp(1, d) == d && mulp(P() - 1, d) == (-d) % P() && mulp(d, 0) == 0 && mulp(d, 1) == d && mulp(d, P() - 1) == (-d) % P()
        &&& ((d + d) % P() - d) % P() == d && (d - (d + d) % P()) % P() == (-d) % P() && (d + d) % P() == mulp(2, d) && (d + d) % P() == mulp(d, 2)
        &&& (val(a) + 0) % P() == val(a) && (val(a) + d) % P() == val(x) && (val(x) - d) % P() == val(a) && (val(a) - 0) % P() == val(a)
        &&& (small(x) && small(a) ==> sgn(d) == sval(x) - sval(a) && sgn((-d) % P()) == sval(a) - sval(x))
        &&& (fits(x, s) ==> (val(x) + p2(s)) % P() == sval(x) + p2(s) && small(x)) && (fits(a, s) ==> (val(a) + p2(s)) % P() == sval(a) + p2(s) && small(a))
        &&& (fits(x, s) && fits(a, s) && sval(x) >= sval(a) ==> d == sval(x) - sval(a) && d < p2(s + 1))
        &&& (fits(x, s) && fits(a, s) && sval(x) <= sval(a) ==> (-d) % P() == sval(a) - sval(x) && sval(a) - sval(x) < p2(s + 1))
        &&& 2 * p2(s + 1) < P()
    })
{
    broadcast use circuit_facts;
    let d = (val(x) - val(a)) % P(); let n = s + 1;
    lem_p2(s, 1); lem_p2(n, b + 1); lem_p2(b, 1); lem_p2(1, b); lem_128(); lem_le(2, b + 1); lemma2_to64();
    lem_pos0(p2(s)); lem_pos0(1); lem_pos0(2); lem_pos0(0); lem_sgn(-1); lemma_mod_bound(val(x) - val(a), P()); lem_bit(d); lem_pos0(val(a)); lem_pos0(val(x)); lem_pos0(val(a) + 0);
    lemma_add_mod_noop(val(a), val(x) - val(a), P()); lemma_sub_mod_noop(val(x), val(x) - val(a), P()); lemma_mod_add_multiples_vanish(-1, P()); lem_pos0(P() - 1);
    lem_lin(val(x), val(a)); lem_lin(val(x), p2(s)); lem_lin(val(a), p2(s)); lem_sgn(p2(s));
    assert(p2(n) * p2(b + 1) >= 4 * p2(n)) by(nonlinear_arith) requires p2(b + 1) >= 4, p2(n) >= 1;
    let t = sval(x) - sval(a);
    lemma_sub_mod_noop(0, t, P()); lemma_sub_mod_noop(0, d, P());
    lem_sgn(t); lem_sgn(-t); lem_pos0(t); lem_pos0(-t); lem_pos0(sval(x) + p2(s)); lem_pos0(sval(a) + p2(s));
    lem_pos0(d); lemma_mulp_comm(d, P() - 1); lemma_mulp_comm(d, 2);
    lemma_sub_mod_noop(d + d, d, P()); lemma_sub_mod_noop(d, d + d, P());
    assert(2 * d == d + d);
    assert((-d) % P() == (-t) % P());
}
%%raw
pub open spec fn is_top(v: int, s: Seq<int>) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= v) && s.contains(v) }
pub open spec fn is_bot(v: int, s: Seq<int>) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= v) && s.contains(v) }
pub open spec fn svals(s: Seq<Variable>) -> Seq<int> { Seq::new(s.len(), |i: int| sval(s[i])) }
pub open spec fn all_small(s: Seq<Variable>) -> bool { forall|i: int| 0 <= i < s.len() ==> small(#[trigger] s[i]) }
pub open spec fn all_fit(s: Seq<Variable>, e: int) -> bool { forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i], e) }
pub open spec fn dlt(m: Variable, v: Variable) -> int { (val(m) - val(v)) % P() }
/// some of the first k differences from m vanish
pub open spec fn hit(m: Variable, s: Seq<Variable>, k: int, up: bool) -> bool { exists|j: int| 0 <= j < k && val(#[trigger] s[j]) == val(m) }
pub open spec fn within(m: Variable, s: Seq<Variable>, k: int, n: int, up: bool) -> bool { forall|i: int| 0 <= i < k ==> 0 <= (if up { sgn(dlt(m, #[trigger] s[i])) } else { sgn(dlt(s[i], m)) }) < p2(n) }
pub proof fn lem_zero(p: int, d: int) requires 0 <= p < P(), 0 <= d < P() ensures (mulp(p, d) == 0) == (p == 0 || d == 0)
{ broadcast use prime; no_zero_div(p, d); lem_pos0(p); lem_pos0(d); lem_bit(p); lem_bit(d); lemma_mulp_comm(p, d); }
pub proof fn lem_same(m: Variable, v: Variable) ensures (dlt(m, v) == 0) == (val(m) == val(v)), 0 <= dlt(m, v) < P()
{ broadcast use circuit_facts; lemma_mod_bound(val(m) - val(v), P()); if val(m) >= val(v) { lem_pos0(val(m) - val(v)); } else { lem_pos0(val(m) - val(v) + P()); lemma_mod_add_multiples_vanish(val(m) - val(v), P()); } }
pub proof fn lem_sel(a: int, b: int, g: bool) requires 0 <= a < P(), 0 <= b < P()
    ensures (mulp(a, b2i(g)) + mulp(b, b2i(!g))) % P() == (if g { a } else { b })
{ lem_bit(a); lem_bit(b); lem_pos0(a); lem_pos0(b); }
%%fn rust/jstprove_circuits/src/circuit_functions/hints/max_min_clip.rs::unconstrained_max
%%opt use circuit_facts
ensures
    final(api).ok() == old(api).ok(), r is Ok == (values@.len() > 0), r is Ok && honest() ==> is_top(val(r->Ok_0), vals(values@)),
%%loop L0
    api.ok() == old(api).ok(), srcL0@ == values@, loL0 == 1, honest() ==> is_top(val(current_max), vals(values@.take(ixL0 as int))),
%%pre L0
    assert(vals(values@.take(1))[0] == val(values@[0]));
%%body L0
    lem_sel(val(v), val(current_max), val(v) > val(current_max));
    assert(vals(values@.take(ixL0 as int)) =~= vals(values@.take(ixL0 - 1)).push(val(v)));
    let sp = vals(values@.take(ixL0 - 1)); let k = sp.len() as int;
    if honest() { let w = choose|w: int| 0 <= w < k && sp[w] == val(current_max); assert(sp.push(val(v))[w] == val(current_max)); assert(sp.push(val(v))[k] == val(v)); }
%%post L0
    assert(values@.take(values@.len() as int) =~= values@);
%%fn rust/jstprove_circuits/src/circuit_functions/hints/max_min_clip.rs::unconstrained_min
%%opt use circuit_facts
ensures
    final(api).ok() == old(api).ok(), r is Ok == (values@.len() > 0), r is Ok && honest() ==> is_bot(val(r->Ok_0), vals(values@)),
%%loop L0
    api.ok() == old(api).ok(), srcL0@ == values@, loL0 == 1, honest() ==> is_bot(val(current_min), vals(values@.take(ixL0 as int))),
%%pre L0
    assert(vals(values@.take(1))[0] == val(values@[0]));
%%body L0
    lem_sel(val(v), val(current_min), val(v) < val(current_min));
    assert(vals(values@.take(ixL0 as int)) =~= vals(values@.take(ixL0 - 1)).push(val(v)));
    let sp = vals(values@.take(ixL0 - 1)); let k = sp.len() as int;
    if honest() { let w = choose|w: int| 0 <= w < k && sp[w] == val(current_min); assert(sp.push(val(v))[w] == val(current_min)); assert(sp.push(val(v))[k] == val(v)); }
%%post L0
    assert(values@.take(values@.len() as int) =~= values@);
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::constrained_max
%%opt use circuit_facts
%%opt for_ref 1
requires
    centred(*shift_ctx), sized(old(logup_ctx).table.rangeproof_bits as int, shift_ctx.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok == (values@.len() > 0),
    r is Ok && aligned(old(logup_ctx).table, shift_ctx.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() && all_small(values@) ==> is_top(sval(r->Ok_0), svals(values@)),
    r is Ok && honest() && old(api).ok() && accepted(old(logup_ctx).table) && all_fit(values@, shift_ctx.shift_exponent as int) ==> final(api).ok() && accepted(final(logup_ctx).table),
%%loop L0
    api.ok() == old(api).ok(), *logup_ctx == *old(logup_ctx), srcL0@ == values@, values_offset@.len() == ixL0,
    forall|i: int| 0 <= i < ixL0 ==> val(#[trigger] values_offset@[i]) == (val(values@[i]) + val(shift_ctx.offset)) % P(),
%%loop L1
    srcL1@ == values@, grows(old(logup_ctx).table, logup_ctx.table), api.ok() ==> old(api).ok(), n_bits == shift_ctx.shift_exponent + 1, sized(old(logup_ctx).table.rangeproof_bits as int, shift_ctx.shift_exponent + 1),
    (val(prod) == 0) == hit(max_raw, values@, ixL1 as int, true),
    aligned(old(logup_ctx).table, n_bits as int) && accepted(logup_ctx.table) && api.ok() ==> within(max_raw, values@, ixL1 as int, n_bits as int, true),
    honest() && old(api).ok() && accepted(old(logup_ctx).table) && within(max_raw, values@, values@.len() as int, n_bits as int, true) ==> api.ok() && accepted(logup_ctx.table),
%%pre L1
    lem_pos0(1);
%%body L1
    lem_same(max_raw, x); lem_same(x, max_raw); lem_zero(val(prod), dlt(max_raw, x)); assert(values@[ixL1 - 1] == x);
%%post L1
    lem_pick_max(max_raw, max_offset, values@, values_offset@, shift_ctx.shift_exponent as int, logup_ctx.table.rangeproof_bits as int);
%%entry
    if values@.len() == 2 { lem_pair(values@); }
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::constrained_min
%%opt use circuit_facts
%%opt for_ref 1
requires
    centred(*context), sized(old(logup_ctx).table.rangeproof_bits as int, context.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok == (values@.len() > 0),
    r is Ok && aligned(old(logup_ctx).table, context.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() && all_small(values@) ==> is_bot(sval(r->Ok_0), svals(values@)),
    r is Ok && honest() && old(api).ok() && accepted(old(logup_ctx).table) && all_fit(values@, context.shift_exponent as int) ==> final(api).ok() && accepted(final(logup_ctx).table),
%%loop L0
    api.ok() == old(api).ok(), *logup_ctx == *old(logup_ctx), srcL0@ == values@, values_offset@.len() == ixL0,
    forall|i: int| 0 <= i < ixL0 ==> val(#[trigger] values_offset@[i]) == (val(values@[i]) + val(context.offset)) % P(),
%%loop L1
    srcL1@ == values@, grows(old(logup_ctx).table, logup_ctx.table), api.ok() ==> old(api).ok(), n_bits == context.shift_exponent + 1, sized(old(logup_ctx).table.rangeproof_bits as int, context.shift_exponent + 1),
    (val(prod) == 0) == hit(min_raw, values@, ixL1 as int, false),
    aligned(old(logup_ctx).table, n_bits as int) && accepted(logup_ctx.table) && api.ok() ==> within(min_raw, values@, ixL1 as int, n_bits as int, false),
    honest() && old(api).ok() && accepted(old(logup_ctx).table) && within(min_raw, values@, values@.len() as int, n_bits as int, false) ==> api.ok() && accepted(logup_ctx.table),
%%pre L1
    lem_pos0(1);
%%body L1
    lem_same(min_raw, x); lem_same(x, min_raw); lem_zero(val(prod), dlt(x, min_raw)); assert(values@[ixL1 - 1] == x);
%%post L1
    lem_pick_min(min_raw, min_offset, values@, values_offset@, context.shift_exponent as int, logup_ctx.table.rangeproof_bits as int);
%%entry
    if values@.len() == 2 { lem_pair(values@); }
%%raw
pub proof fn lem_pair(s: Seq<Variable>) requires s.len() == 2 ensures is_top(mx(sval(s[0]), sval(s[1])), svals(s)), is_bot(mn(sval(s[0]), sval(s[1])), svals(s)), all_small(s) ==> small(s[0]) && small(s[1]), forall|e: int| #[trigger] all_fit(s, e) ==> fits(s[0], e) && fits(s[1], e)
{ assert(svals(s)[0] == sval(s[0]) && svals(s)[1] == sval(s[1])); }
pub open spec fn offs(v: Seq<Variable>, o: Seq<Variable>, e: int) -> bool { v.len() == o.len() && forall|i: int| 0 <= i < v.len() ==> val(#[trigger] o[i]) == (val(v[i]) + p2(e) % P()) % P() }
pub proof fn lem_pick_max(m: Variable, mo: Variable, s: Seq<Variable>, o: Seq<Variable>, e: int, b: int)
    requires sized(b, e + 1), e >= 0, s.len() > 0
    ensures within(m, s, s.len() as int, e + 1, true) && hit(m, s, s.len() as int, true) && all_small(s) ==> is_top(sval(m), svals(s)),
        offs(s, o, e) && val(m) == (val(mo) - p2(e) % P()) % P() && is_top(val(mo), vals(o)) && all_fit(s, e) ==> within(m, s, s.len() as int, e + 1, true) && hit(m, s, s.len() as int, true),
{
    broadcast use circuit_facts;
    let k = s.len() as int;
    if within(m, s, k, e + 1, true) && hit(m, s, k, true) && all_small(s) {
        let j = choose|j: int| 0 <= j < k && val(#[trigger] s[j]) == val(m);
        assert(small(s[j])); assert(svals(s)[j] == sval(m));
        assert forall|i: int| 0 <= i < k implies #[trigger] svals(s)[i] <= sval(m) by { assert(small(s[i])); lem_two(m, s[i], e, b); lem_two(s[i], m, e, b); assert(0 <= sgn(dlt(m, s[i])) < p2(e + 1)); }
    }
    if offs(s, o, e) && val(m) == (val(mo) - p2(e) % P()) % P() && is_top(val(mo), vals(o)) && all_fit(s, e) {
        let j = choose|j: int| 0 <= j < vals(o).len() && vals(o)[j] == val(mo);
        assert(val(o[j]) == val(mo)); assert(fits(s[j], e));
        lem_two(s[j], s[j], e, b);
        lem_two(m, s[j], e, b); lem_lin(val(mo), p2(e)); lem_pos0(val(s[j])); lemma_sub_mod_noop(val(s[j]) + p2(e), p2(e), P());
        assert(val(m) == val(s[j]));
        assert forall|i: int| 0 <= i < k implies 0 <= sgn(dlt(m, #[trigger] s[i])) < p2(e + 1) by { assert(fits(s[i], e)); assert(vals(o)[i] == val(o[i])); lem_two(m, s[i], e, b); lem_two(s[i], m, e, b); }
    }
}
pub proof fn lem_pick_min(m: Variable, mo: Variable, s: Seq<Variable>, o: Seq<Variable>, e: int, b: int)
    requires sized(b, e + 1), e >= 0, s.len() > 0
    ensures within(m, s, s.len() as int, e + 1, false) && hit(m, s, s.len() as int, false) && all_small(s) ==> is_bot(sval(m), svals(s)),
        offs(s, o, e) && val(m) == (val(mo) - p2(e) % P()) % P() && is_bot(val(mo), vals(o)) && all_fit(s, e) ==> within(m, s, s.len() as int, e + 1, false) && hit(m, s, s.len() as int, false),
{
    broadcast use circuit_facts;
    let k = s.len() as int;
    if within(m, s, k, e + 1, false) && hit(m, s, k, false) && all_small(s) {
        let j = choose|j: int| 0 <= j < k && val(#[trigger] s[j]) == val(m);
        assert(small(s[j])); assert(svals(s)[j] == sval(m));
        assert forall|i: int| 0 <= i < k implies #[trigger] svals(s)[i] >= sval(m) by { assert(small(s[i])); lem_two(m, s[i], e, b); lem_two(s[i], m, e, b); assert(0 <= sgn(dlt(s[i], m)) < p2(e + 1)); }
    }
    if offs(s, o, e) && val(m) == (val(mo) - p2(e) % P()) % P() && is_bot(val(mo), vals(o)) && all_fit(s, e) {
        let j = choose|j: int| 0 <= j < vals(o).len() && vals(o)[j] == val(mo);
        assert(val(o[j]) == val(mo)); assert(fits(s[j], e));
        lem_two(s[j], s[j], e, b);
        lem_two(m, s[j], e, b); lem_lin(val(mo), p2(e)); lem_pos0(val(s[j])); lemma_sub_mod_noop(val(s[j]) + p2(e), p2(e), P());
        assert(val(m) == val(s[j]));
        assert forall|i: int| 0 <= i < k implies 0 <= sgn(dlt(#[trigger] s[i], m)) < p2(e + 1) by { assert(fits(s[i], e)); assert(vals(o)[i] == val(o[i])); lem_two(m, s[i], e, b); lem_two(s[i], m, e, b); }
    }
}
%%raw
pub open spec fn clipped(x: int, lo: Option<Variable>, hi: Option<Variable>) -> int { let c = if lo is Some { mx(x, sval(lo->0)) } else { x }; if hi is Some { mn(c, sval(hi->0)) } else { c } }
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/max_min_clip.rs::constrained_clip
requires
    centred(*range_ctx), sized(old(logup_ctx).table.rangeproof_bits as int, range_ctx.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok,
    aligned(old(logup_ctx).table, range_ctx.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() && small(x) && (lower is Some ==> small(lower->0)) && (upper is Some ==> small(upper->0)) ==> sval(r->Ok_0) == clipped(sval(x), lower, upper),
    honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(x, range_ctx.shift_exponent as int) && (lower is Some ==> fits(lower->0, range_ctx.shift_exponent as int)) && (upper is Some ==> fits(upper->0, range_ctx.shift_exponent as int)) ==> final(api).ok() && accepted(final(logup_ctx).table) && sval(r->Ok_0) == clipped(sval(x), lower, upper),
%%raw
/// c = d * q + rem in the field, for some remainder below d
pub open spec fn divides(c: int, q: int, d: int) -> bool { exists|rem: int| 0 <= rem < d && c == #[trigger] lin(d, q, rem) }
pub open spec fn lin(d: int, q: int, rem: int) -> int { (d * q + rem) % P() }
pub open spec fn room(d: int, s: int) -> bool { d >= 1 && s >= 0 && 8 * (d * p2(s)) < P() }
/// with the quotient in range the relation is the integer division of the signed readings, rounded down
pub proof fn lem_divides(c: int, q: int, d: int, s: int)
    requires room(d, s), 0 <= c < P(), 0 <= q < P(), divides(c, q, d), -p2(s + 1) <= sgn(q) < p2(s + 1)
    ensures sgn(c) == d * sgn(q) + sgn(c) % d, sgn(q) == sgn(c) / d
{
    broadcast use prime;
    let rem = choose|rem: int| 0 <= rem < d && c == #[trigger] lin(d, q, rem);
    let z = sgn(q); let t = d * z + rem;
    lem_res(q); lem_res(c); lem_p2(s, 1); lem_128();
    lemma_mul_mod_noop_right(d, z, P()); lemma_mul_mod_noop_right(d, q, P()); lem_pos0(q);
    lemma_add_mod_noop(d * z, rem, P()); lemma_add_mod_noop(d * q, rem, P());
    assert(c == t % P());
    assert(-4 * (d * p2(s)) <= 2 * t <= 4 * (d * p2(s)) + 2 * d) by(nonlinear_arith) requires -2 * p2(s) <= z < 2 * p2(s), 0 <= rem < d, t == d * z + rem, p2(s) >= 1;
    assert(d <= d * p2(s)) by(nonlinear_arith) requires d >= 1, p2(s) >= 1;
    lem_sgn(t);
    assert(t == z * d + rem) by(nonlinear_arith) requires t == d * z + rem;
    lemma_fundamental_div_mod_converse(t, d, z, rem);
}
/// what the emitted equation and the two witnesses give
pub open spec fn div_eq(c: int, q: int, rem: int, d: int, s: int) -> bool { (d * p2(s) % P() + c) % P() == (mulp(d % P(), q) + rem) % P() }
pub proof fn lem_div_eq(c: int, q: int, rem: int, d: int, s: int)
    requires room(d, s), 0 <= c < P(), 0 <= q < P(), 0 <= rem < P()
    ensures div_eq(c, q, rem, d, s) && rem < d ==> divides(c, (q - p2(s) % P()) % P(), d), 0 <= (q - p2(s) % P()) % P() < P(),
        p2(s) % P() == p2(s), d % P() == d, q < p2(s + 1) ==> sgn((q - p2(s) % P()) % P()) == q - p2(s) && -p2(s) <= q - p2(s) < p2(s),
        ({ let v = (d * p2(s) % P() + c) % P(); -(d * p2(s)) <= sgn(c) < d * p2(s) ==> v == sgn(c) + d * p2(s) && 0 <= v && v / d < p2(s + 1) && 0 <= v / d < P() && 0 <= v % d < d && v / d - p2(s) == sgn(c) / d && -p2(s) <= sgn(c) / d < p2(s) && (v == (mulp(d % P(), v / d) + v % d) % P()) }),
{
    broadcast use prime;
    let S = p2(s); let D = d * S; let z = (q - S) % P();
    lem_p2(s, 1); lem_128();
    assert(d <= D && S <= D) by(nonlinear_arith) requires d >= 1, S >= 1, D == d * S;
    lem_pos0(S); lem_pos0(d); lem_pos0(D); lemma_mod_bound(q - S, P()); lem_sgn(q - S); lem_pos0(c); lem_pos0(rem);
    if div_eq(c, q, rem, d, s) && rem < d {
        // c = (D + c) - D = d q + rem - D = d (q - S) + rem
        let e = d * q + rem;
        lemma_add_mod_noop(d * q, rem, P());
        assert((D + c) % P() == e % P());
        lemma_sub_mod_noop(D + c, D, P()); lemma_sub_mod_noop(e, D, P());
        assert(c == (e - D) % P());
        assert(e - D == d * (q - S) + rem) by(nonlinear_arith) requires e == d * q + rem, D == d * S;
        lemma_mul_mod_noop_right(d, q - S, P());
        lemma_add_mod_noop(d * (q - S), rem, P()); lemma_add_mod_noop(d * z, rem, P());
        assert(c == lin(d, z, rem));
    }
    if -D <= sgn(c) < D {
        let v = sgn(c) + D;
        lem_res(c); lem_lin(c, D); lem_sgn(D); lem_pos0(v);
        lemma_fundamental_div_mod(v, d); lemma_mod_bound(v, d);
        lemma_div_pos_is_pos(v, d);
        assert(v < 2 * D && 2 * D == p2(s + 1) * d) by(nonlinear_arith) requires v < 2 * D, D == d * S, p2(s + 1) == S * 2;
        lemma_multiply_divide_lt(v, d, p2(s + 1));
        lemma_hoist_over_denominator(sgn(c), S, d as nat);
        assert(S * d == D) by(nonlinear_arith) requires D == d * S;
        lem_pos0(v); lemma_add_mod_noop(d * (v / d), v % d, P()); lem_pos0(v % d);
    }
}
%%raw
pub open spec fn div_all(c: Variable, q: Variable, rem: Variable, d: int, s: int) -> bool {
    let sd = (d * p2(s) % P() + val(c)) % P(); let z = (val(q) - p2(s) % P()) % P();
    &&& (sd == (mulp(d % P(), val(q)) + val(rem)) % P() && val(rem) < d ==> divides(val(c), z, d) && (val(q) < p2(s + 1) ==> sgn(z) == sval(c) / d && -p2(s) <= sgn(z) < p2(s)))
    &&& (-(d * p2(s)) <= sval(c) < d * p2(s) && val(q) == sd / d && val(rem) == sd % d ==> val(q) < p2(s + 1) && val(rem) < d && sd == (mulp(d % P(), val(q)) + val(rem)) % P() && sgn(z) == sval(c) / d && -p2(s) <= sgn(z) < p2(s))
}
#[verifier::spinoff_prover] pub proof fn lem_div_all(c: Variable, divisor: Variable, d: int, s: int)
    requires room(d, s), val(divisor) == d % P()
    ensures forall|q: Variable, rem: Variable| #![trigger mulp(val(divisor), val(q)), val(rem)] div_all(c, q, rem, d, s), d % P() == d, p2(s + 1) == 2 * p2(s), 2 * p2(s + 1) < P(), 8 * d < P()
{
    broadcast use circuit_facts;
    lem_p2(s, 1); lem_128();
    assert(8 * p2(s) <= 8 * (d * p2(s)) && d <= d * p2(s)) by(nonlinear_arith) requires d >= 1, p2(s) >= 1;
    lem_pos0(d);
    assert forall|q: Variable, rem: Variable| #![trigger mulp(val(divisor), val(q)), val(rem)] div_all(c, q, rem, d, s) by {
        lem_div_eq(val(c), val(q), val(rem), d, s);
        let z = (val(q) - p2(s) % P()) % P();
        if divides(val(c), z, d) && -p2(s + 1) <= sgn(z) < p2(s + 1) { lem_divides(val(c), z, d, s); }
        let v = (d * p2(s) % P() + val(c)) % P();
        if -(d * p2(s)) <= sval(c) < d * p2(s) && val(q) == v / d && val(rem) == v % d { }
    }
}
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs::div_pos_integer_pow2_constant_inner
%%opt use circuit_facts
requires
    val(divisor) == p2(divisor_exponent as int) % P(), val(divisor_by_shift) == p2(divisor_exponent as int) * p2(shift_exponent as int) % P(), val(shift) == p2(shift_exponent as int) % P(),
    room(p2(divisor_exponent as int), shift_exponent as int), 1 <= divisor_exponent ==> sized(old(logup_ctx).table.rangeproof_bits as int, divisor_exponent as int), range_check_quotient ==> sized(old(logup_ctx).table.rangeproof_bits as int, shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok == (divisor_exponent >= 1),
    r is Ok && aligned(old(logup_ctx).table, divisor_exponent as int) && accepted(final(logup_ctx).table) && final(api).ok() ==> divides(val(dividend), val(r->Ok_0), p2(divisor_exponent as int)),
    r is Ok && range_check_quotient && aligned(old(logup_ctx).table, divisor_exponent as int) && aligned(old(logup_ctx).table, shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() ==> sval(r->Ok_0) == sval(dividend) / p2(divisor_exponent as int) && fits(r->Ok_0, shift_exponent as int),
    r is Ok && honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(dividend, divisor_exponent + shift_exponent) ==> final(api).ok() && accepted(final(logup_ctx).table),
    r is Ok && honest() && fits(dividend, divisor_exponent + shift_exponent) ==> sval(r->Ok_0) == sval(dividend) / p2(divisor_exponent as int) && fits(r->Ok_0, shift_exponent as int),
%%entry
    lem_p2(divisor_exponent as int, shift_exponent as int); lem_p2(shift_exponent as int, 1); lem_p2(divisor_exponent as int, 1);
    lem_div_all(dividend, divisor, p2(divisor_exponent as int), shift_exponent as int);
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs::div_pos_integer_pow2_constant
requires
    val(divisor) == p2(divisor_exponent as int) % P(), val(divisor_by_shift) == p2(divisor_exponent as int) * p2(shift_exponent as int) % P(), val(shift) == p2(shift_exponent as int) % P(),
    room(p2(divisor_exponent as int), shift_exponent as int), 1 <= divisor_exponent ==> sized(old(logup_ctx).table.rangeproof_bits as int, divisor_exponent as int), sized(old(logup_ctx).table.rangeproof_bits as int, shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok == (divisor_exponent >= 1),
    r is Ok && aligned(old(logup_ctx).table, divisor_exponent as int) && aligned(old(logup_ctx).table, shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() ==> sval(r->Ok_0) == sval(dividend) / p2(divisor_exponent as int) && fits(r->Ok_0, shift_exponent as int),
    r is Ok && honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(dividend, divisor_exponent + shift_exponent) ==> final(api).ok() && accepted(final(logup_ctx).table),
    r is Ok && honest() && fits(dividend, divisor_exponent + shift_exponent) ==> sval(r->Ok_0) == sval(dividend) / p2(divisor_exponent as int) && fits(r->Ok_0, shift_exponent as int),
%%raw
/// assumed std contracts on the bit counts of u32
pub uninterp spec fn is_pow(x: int) -> bool;
pub uninterp spec fn tzs(x: int) -> int;
pub uninterp spec fn lzs(x: int) -> int;
pub axiom fn ax_bits(x: u32) ensures is_pow(x as int) ==> 0 <= tzs(x as int) < 32 && x == p2(tzs(x as int)), x > 0 ==> 0 <= lzs(x as int) < 32 && p2(31 - lzs(x as int)) <= x < p2(32 - lzs(x as int));
#[verifier::external_body] pub fn vx_is_power_of_two(x: u32) -> (r: bool) ensures r == is_pow(x as int) { x.is_power_of_two() }
#[verifier::external_body] pub fn vx_trailing_zeros(x: u32) -> (r: u32) ensures is_pow(x as int) ==> r == tzs(x as int) { x.trailing_zeros() }
#[verifier::external_body] pub fn vx_leading_zeros(x: u32) -> (r: u32) ensures x > 0 ==> r == lzs(x as int) { x.leading_zeros() }
/// the widths of the checks emitted for the remainder of a division by d
pub open spec fn rbits(d: int) -> int { choose|k: int| #![trigger p2(k)] 0 <= k <= 32 && p2(k) >= d && (k > 0 ==> p2(k - 1) < d) }
pub open spec fn fits_div(v: Variable, d: int, s: int) -> bool { -(d * p2(s)) <= sval(v) < d * p2(s) }
pub proof fn lem_rbits(d: int, k: int) requires 0 <= k <= 32, p2(k) >= d, k > 0 ==> p2(k - 1) < d ensures rbits(d) == k
{ let j = rbits(d); if j < k { lem_le(j, k - 1); } if k < j { lem_le(k, j - 1); } }
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/euclidean_division.rs::div_pos_integer_constant
%%opt use circuit_facts
requires
    val(divisor) == divisor_val as int % P(), val(divisor_by_shift) == divisor_val * p2(shift_exponent as int) % P(), val(shift) == p2(shift_exponent as int) % P(),
    divisor_val > 0 ==> room(divisor_val as int, shift_exponent as int), divisor_val > 1 ==> sized(old(logup_ctx).table.rangeproof_bits as int, rbits(divisor_val as int)), sized(old(logup_ctx).table.rangeproof_bits as int, shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok == (divisor_val > 0),
    r is Ok && (divisor_val == 1 || aligned(old(logup_ctx).table, rbits(divisor_val as int)) && aligned(old(logup_ctx).table, shift_exponent + 1)) && accepted(final(logup_ctx).table) && final(api).ok() ==> sval(r->Ok_0) == sval(dividend) / divisor_val as int,
    r is Ok && honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits_div(dividend, divisor_val as int, shift_exponent as int) ==> final(api).ok() && accepted(final(logup_ctx).table),
    r is Ok && honest() && fits_div(dividend, divisor_val as int, shift_exponent as int) ==> sval(r->Ok_0) == sval(dividend) / divisor_val as int,
%%entry
    let d = divisor_val as int; let s = shift_exponent as int; let o = p2(s);
    lem_widths(divisor_val, s);
    if d > 0 { lem_div_all(dividend, divisor, d, s); lem_pos0(d - 1); }
    assert forall|v: Variable| d > 1 implies rem_fact(#[trigger] val(v), d) by { if d > 1 { lem_rem(val(v), d); } }
%%raw
pub proof fn lem_widths(x: u32, s: int)
    requires s >= 0
    ensures x > 1 && is_pow(x as int) ==> x == p2(tzs(x as int)) && rbits(x as int) == tzs(x as int) && 1 <= tzs(x as int) < 32 && p2(tzs(x as int) + s) == x * p2(s),
        x > 1 ==> rbits(x as int) == 32 - lzs(x - 1) && 1 <= rbits(x as int) <= 32 && x <= p2(rbits(x as int)) < 2 * x, p2(s + 1) == 2 * p2(s), p2(s) >= 1,
{
    lem_128(); lem_p2(s, 1); ax_bits(x);
    if x > 1 {
        ax_bits((x - 1) as u32);
        let k = 32 - lzs(x - 1);
        lem_p2(k - 1, 1); lem_rbits(x as int, k);
        if is_pow(x as int) { let t = tzs(x as int); if t == 0 { } lem_p2(t - 1, 1); lem_rbits(x as int, t); lem_p2(t, s); }
    }
}
/// both bounds on the remainder
pub open spec fn rem_fact(v: int, d: int) -> bool {
    let w = (d - 1 - v) % P();
    &&& (0 <= sgn(w) && 0 <= sgn(v) < 2 * d ==> v < d)
    &&& (v < d ==> w == d - 1 - v)
}
pub proof fn lem_rem(v: int, d: int) requires 0 <= v < P(), d >= 1, 8 * d < P() ensures rem_fact(v, d)
{ lem_sgn(d - 1 - v); lem_pos0(d - 1 - v); }
%%fn rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs::RescalingContext::new
%%opt use circuit_facts
ensures
    final(api).ok() == old(api).ok(), r is Ok == (scaling_exponent < 32 && shift_exponent < 64), r is Ok ==> r->Ok_0.scaling_exponent == scaling_exponent && r->Ok_0.shift_exponent == shift_exponent && rescaling(r->Ok_0),
%%entry
    lem_128(); lemma2_to64(); lemma2_to64_rest();
    if scaling_exponent < 32 && shift_exponent < 64 { lem_p2(scaling_exponent as int, shift_exponent as int); lem_le(scaling_exponent + shift_exponent, 255); lem_p2(255, 1); }
%%raw
pub open spec fn rescaling(c: RescalingContext) -> bool {
    &&& val(c.scaling_factor) == p2(c.scaling_exponent as int) % P() && val(c.shift) == p2(c.shift_exponent as int) % P()
    &&& val(c.scaled_shift) == p2(c.scaling_exponent as int) * p2(c.shift_exponent as int) % P()
}
%%fn rust/jstprove_circuits/src/circuit_functions/utils/quantization.rs::rescale
%%opt use circuit_facts
requires
    rescaling(*context), context.shift_exponent < 64, room(p2(context.scaling_exponent as int), context.shift_exponent as int),
    context.scaling_exponent >= 1 ==> sized(old(logup_ctx).table.rangeproof_bits as int, context.scaling_exponent as int), sized(old(logup_ctx).table.rangeproof_bits as int, context.shift_exponent + 1),
ensures
    grows(old(logup_ctx).table, final(logup_ctx).table), final(api).ok() ==> old(api).ok(), r is Ok == (context.scaling_exponent >= 1),
    r is Ok && aligned(old(logup_ctx).table, context.scaling_exponent as int) && aligned(old(logup_ctx).table, context.shift_exponent + 1) && accepted(final(logup_ctx).table) && final(api).ok() ==> sval(r->Ok_0) == rescaled(sval(dividend), context.scaling_exponent as int, apply_relu),
    r is Ok && honest() && old(api).ok() && accepted(old(logup_ctx).table) && fits(dividend, context.scaling_exponent + context.shift_exponent) ==> final(api).ok() && accepted(final(logup_ctx).table),
    r is Ok && honest() && fits(dividend, context.scaling_exponent + context.shift_exponent) ==> sval(r->Ok_0) == rescaled(sval(dividend), context.scaling_exponent as int, apply_relu),
%%entry
    let d = p2(context.scaling_exponent as int); let s = context.shift_exponent as int;
    assert forall|q: Variable| divides(val(dividend), #[trigger] val(q), d) && -p2(s + 1) < sval(q) < p2(s + 1) implies sval(q) == sval(dividend) / d by { lem_divides(val(dividend), val(q), d, s); }
%%raw
pub open spec fn rescaled(c: int, k: int, relu: bool) -> int { if relu { mx(c / p2(k), 0) } else { c / p2(k) } }

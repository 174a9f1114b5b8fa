%%include circuit_base.vc
%%type CircuitError => VErr
%%type UtilsError => VErr
%%item rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::LogupRangeCheckContext
%%item rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::DEFAULT_LOGUP_CHUNK_BITS
%%item compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable
%%raw
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
pub open spec fn p2(n: int) -> int { pow2(n as nat) as int }
/// every query of the table is one of its digits
pub open spec fn digit(t: LogUpRangeProofTable, q: Variable) -> bool { val(q) < p2(t.rangeproof_bits as int) }
pub open spec fn accepted(t: LogUpRangeProofTable) -> bool { forall|i: int| 0 <= i < t.query_keys@.len() ==> digit(t, #[trigger] t.query_keys@[i]) }
pub open spec fn grows(a: LogUpRangeProofTable, b: LogUpRangeProofTable) -> bool {
    &&& a.table_keys@ == b.table_keys@ && a.rangeproof_bits == b.rangeproof_bits
    &&& a.query_keys@.len() <= b.query_keys@.len() && (forall|i: int| 0 <= i < a.query_keys@.len() ==> b.query_keys@[i] == #[trigger] a.query_keys@[i])
}
pub open spec fn full_table(t: LogUpRangeProofTable) -> bool { t.table_keys@.len() == p2(t.rangeproof_bits as int) && forall|j: int| 0 <= j < t.table_keys@.len() ==> val(#[trigger] t.table_keys@[j]) == j }
pub open spec fn bools(s: Seq<Variable>) -> bool { forall|i: int| 0 <= i < s.len() ==> val(#[trigger] s[i]) == 0 || val(s[i]) == 1 }
pub open spec fn sized(bits: int, n: int) -> bool { 1 <= bits <= 24 && 1 <= n <= 128 && (n < 128 || n % bits == 0) && p2(n + bits + 1) < P() }
/// how far below zero a check on n bits reaches: nowhere when n fills whole digits (KNOWN FINDING otherwise)
pub open spec fn slack(bits: int, n: int) -> int { if n % bits == 0 { 0 } else { (p2(bits - n % bits) - 1) * p2(n) } }
pub proof fn lem_p2(a: int, b: int) requires 0 <= a, 0 <= b ensures p2(a + b) == p2(a) * p2(b), p2(a) >= 1, p2(b) >= 1, p2(a + b) >= p2(a)
{ lemma_pow2_adds(a as nat, b as nat); lemma_pow2_pos(a as nat); lemma_pow2_pos(b as nat); assert(p2(a) * p2(b) >= p2(a)) by(nonlinear_arith) requires p2(a) >= 1, p2(b) >= 1; }
pub proof fn lem_le(a: int, b: int) requires 0 <= a <= b ensures p2(a) <= p2(b), p2(a) >= 1 { lem_p2(a, b - a); }
/// what adding (2^shift - 1) * 2^n and asking for n + shift bits says about the value
pub proof fn lem_shift(x: int, n: int, sh: int)
    requires 0 <= x < P(), n >= 1, sh >= 0, p2(n + sh + 1) < P()
    ensures mulp((p2(sh) - 1) % P(), p2(n) % P()) == p2(n + sh) - p2(n), 0 <= p2(n + sh) - p2(n) < P(), (p2(sh) - 1) * p2(n) == p2(n + sh) - p2(n),
        (x + (p2(n + sh) - p2(n))) % P() < p2(n + sh) ==> p2(n) - p2(n + sh) <= sgn(x) < p2(n),
        x < p2(n) ==> (x + (p2(n + sh) - p2(n))) % P() == x + p2(n + sh) - p2(n) && x + p2(n + sh) - p2(n) < p2(n + sh),
{
    lem_p2(n, sh); lem_p2(n + sh, 1); lemma2_to64(); assert(p2(1) == 2); lem_p2(sh, n);
    let k = p2(n + sh) - p2(n);
    assert((p2(sh) - 1) * p2(n) == k) by(nonlinear_arith) requires p2(n + sh) == p2(n) * p2(sh), k == p2(n + sh) - p2(n);
    lemma_small_mod((p2(sh) - 1) as nat, P() as nat);
    lemma_small_mod(p2(n) as nat, P() as nat);
    lemma_small_mod(k as nat, P() as nat);
    if x + k < P() { lemma_small_mod((x + k) as nat, P() as nat); }
    else { lemma_small_mod((x + k - P()) as nat, P() as nat); lemma_mod_add_multiples_vanish(x + k - P(), P()); }
}
pub proof fn lem_step(a: int, w: int, k: int)
    ensures (a % P() + mulp(w, k % P())) % P() == (a + w * k) % P(), mulp(k % P(), w) == mulp(w, k % P())
{ lemma_mulp_comm(k % P(), w); broadcast use prime; lemma_mul_mod_noop_right(w, k, P()); lemma_add_mod_noop(a, w * k, P()); lemma_mod_mod_noop(a, w, k); }
pub proof fn lemma_mod_mod_noop(a: int, w: int, k: int) { }
/// the number with base-2^b digits w[0..k), lowest first
pub open spec fn dsum(w: Seq<int>, b: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { dsum(w, b, k - 1) + w[k - 1] * p2(b * (k - 1)) } }
pub proof fn lem_dsum_bound(w: Seq<int>, b: int, k: int)
    requires 0 <= k <= w.len(), b >= 1, forall|i: int| 0 <= i < k ==> 0 <= #[trigger] w[i] < p2(b)
    ensures 0 <= dsum(w, b, k) < p2(b * k)
    decreases k
{
    if k == 0 { lemma2_to64(); assert(b * 0 == 0); } else {
        lem_dsum_bound(w, b, k - 1);
        assert(b * k == b * (k - 1) + b) by(nonlinear_arith);
        assert(b * (k - 1) >= 0) by(nonlinear_arith) requires b >= 1, k >= 1;
        lem_p2(b * (k - 1), b);
        let t = p2(b * (k - 1)); let x = w[k - 1];
        assert(dsum(w, b, k - 1) + x * t < t * p2(b) && x * t >= 0) by(nonlinear_arith) requires dsum(w, b, k - 1) < t, 0 <= x <= p2(b) - 1, t >= 1;
    }
}
/// the digits the hint is specified to return
pub open spec fn digits(a: int, b: int, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| (a / p2(b * i)) % p2(b)) }
pub broadcast axiom fn hint_rangeproof(ins: Seq<int>, n: nat)
    ensures ins.len() == 3 && ins[1] >= 1 && n == ins[0] / ins[1] ==> #[trigger] hint_out("myhint.rangeproofhint"@, ins, n) == digits(ins[2], ins[1], n as int);
pub proof fn lem_digits(a: int, b: int, n: int, k: int)
    requires 0 <= a, b >= 1, 0 <= k <= n
    ensures dsum(digits(a, b, n), b, k) == a % p2(b * k), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] digits(a, b, n)[i] < p2(b)
    decreases k
{
    let d = digits(a, b, n);
    lem_p2(b, 0);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] d[i] < p2(b) by { lemma_mod_bound(a / p2(b * i), p2(b)); }
    if k == 0 { lemma2_to64(); assert(b * 0 == 0); assert(p2(0) == 1); } else {
        lem_digits(a, b, n, k - 1);
        assert(b * k == b * (k - 1) + b) by(nonlinear_arith);
        assert(b * (k - 1) >= 0) by(nonlinear_arith) requires b >= 1, k >= 1;
        lem_p2(b * (k - 1), b);
        let t = p2(b * (k - 1));
        lemma_breakdown(a, t, p2(b));
        assert(d[k - 1] * t == t * d[k - 1]) by(nonlinear_arith);
    }
}
%%raw
pub proof fn lem_dsum_first(w: Seq<int>, b: int) requires w.len() >= 1 ensures dsum(w, b, 1) == w[0]
{ reveal_with_fuel(dsum, 2); assert(b * 0 == 0); lemma2_to64(); assert(p2(0) == 1); assert(w[0] * p2(b * 0) == w[0]) by(nonlinear_arith) requires p2(b * 0) == 1; }
pub proof fn lemma_mulp_comm(a: int, b: int) ensures mulp(a, b) == mulp(b, a) { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn lem_128() ensures p2(128) == u128::MAX as int + 1, p2(24) == 0x100_0000, p2(1) == 2, p2(0) == 1
{ lem_p2(64, 64); lemma2_to64(); lemma2_to64_rest(); assert(p2(64) == 0x1_0000_0000_0000_0000); assert(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == u128::MAX as int + 1) by(compute); }
pub proof fn lem_lt(k: int) requires k >= 0 ensures k < p2(k) decreases k { lemma2_to64(); if k > 0 { lem_lt(k - 1); lem_p2(k - 1, 1); assert(p2(1) == 2); } else { assert(p2(0) == 1); } }
pub open spec fn up(m: int, b: int) -> int { if m % b == 0 { m } else { m + b - m % b } }
pub open spec fn nd(m: int, b: int) -> int { up(m, b) / b }
pub proof fn lem_up(m: int, b: int) requires b >= 1, m >= 1
    ensures up(m, b) == b * nd(m, b), nd(m, b) >= 1, m <= up(m, b) < m + b, up(m, b) % b == 0, 0 <= m % b < b
{
    lemma_mod_bound(m, b); lemma_fundamental_div_mod(m, b);
    let q = m / b;
    if m % b != 0 {
        assert(m + b - m % b == b * (q + 1)) by(nonlinear_arith) requires m == b * q + m % b;
        lemma_div_multiples_vanish(q + 1, b); lemma_mod_multiples_basic(q + 1, b);
        assert((q + 1) * b == b * (q + 1)) by(nonlinear_arith);
    } else { lemma_div_multiples_vanish(q, b); assert(q * b == b * q) by(nonlinear_arith); }
    assert(nd(m, b) >= 1) by(nonlinear_arith) requires b >= 1, b * nd(m, b) >= 1;
}
/// the position of digit j stays below 2^128
pub proof fn lem_pos(m: int, b: int, j: int) requires b >= 1, 1 <= m <= 128, 0 <= j < nd(m, b)
    ensures 0 <= b * j <= 127, p2(b * j) <= u128::MAX
{
    lem_up(m, b); lem_128();
    assert(b * j <= b * nd(m, b) - b && b * j >= 0) by(nonlinear_arith) requires 0 <= j <= nd(m, b) - 1, b >= 1;
    lem_p2(b * j, 128 - b * j); lem_p2(1, 127 - b * j);
    assert(2 * p2(b * j) <= p2(128)) by(nonlinear_arith) requires p2(128) == p2(b * j) * p2(128 - b * j), p2(128 - b * j) >= 2, p2(b * j) >= 1;
}
/// the constants of the range proof, all below the field's size
pub proof fn lem_consts(x: int, m: int, b: int) requires sized(b, m), 0 <= x < P()
    ensures m % b != 0 ==> lem_shift_ok(x, m, b - m % b) && p2(b - m % b) <= 0x100_0000 && p2(b - m % b) >= 2 && p2(m) <= u128::MAX, p2(m) < P(), 2 * p2(m) < P(), 2 * p2(up(m, b)) < P(), up(m, b) <= 151
{
    lem_up(m, b); lem_128(); lem_le(up(m, b) + 1, m + b + 1); lem_le(m + 1, m + b + 1); lem_p2(m, 1); lem_p2(up(m, b), 1);
    if m % b != 0 { lem_shift(x, m, b - m % b); lem_le(b - m % b, 24); lem_p2(1, b - m % b - 1); lem_p2(m, 1); lem_le(m + 1, 128); }
}
pub open spec fn lem_shift_ok(x: int, n: int, sh: int) -> bool {
    &&& mulp((p2(sh) - 1) % P(), p2(n) % P()) == p2(n + sh) - p2(n) && 0 <= p2(n + sh) - p2(n) < P() && (p2(sh) - 1) * p2(n) == p2(n + sh) - p2(n)
    &&& ((x + (p2(n + sh) - p2(n))) % P() < p2(n + sh) ==> p2(n) - p2(n + sh) <= sgn(x) < p2(n))
    &&& (x < p2(n) ==> (x + (p2(n + sh) - p2(n))) % P() == x + p2(n + sh) - p2(n) && x + p2(n + sh) - p2(n) < p2(n + sh))
}
/// what the digits of a satisfied decomposition say, and that the digits the hint returns satisfy it
pub proof fn lem_decomp(w: Seq<int>, x: int, b: int, k: int)
    requires b >= 1, k >= 0, w.len() == k, 0 <= x < P(), p2(b * k) < P(), forall|i: int| 0 <= i < k ==> 0 <= #[trigger] w[i]
    ensures (forall|i: int| 0 <= i < k ==> #[trigger] w[i] < p2(b)) && x == dsum(w, b, k) % P() ==> x < p2(b * k),
        w == digits(x, b, k) && x < p2(b * k) ==> x == dsum(w, b, k) % P() && forall|i: int| 0 <= i < k ==> #[trigger] w[i] < p2(b),
{
    if forall|i: int| 0 <= i < k ==> #[trigger] w[i] < p2(b) { lem_dsum_bound(w, b, k); lemma_small_mod(dsum(w, b, k) as nat, P() as nat); }
    if w == digits(x, b, k) && x < p2(b * k) { lem_digits(x, b, k, k); lemma_small_mod(x as nat, p2(b * k) as nat); lemma_small_mod(x as nat, P() as nat); }
}
%%raw
pub open spec fn bits_fact(s: Seq<Variable>, v: int, n: int) -> bool {
    &&& bools(s) && s.len() == n && v == dsum(vals(s), 1, n) % P() ==> v == dsum(vals(s), 1, n) && v < p2(n)
    &&& (s.len() == n && v < p2(n) && forall|i: int| 0 <= i < n ==> val(#[trigger] s[i]) == (v / p2(i)) % 2) ==> bools(s) && v == dsum(vals(s), 1, n) % P()
}
pub proof fn lem_bits(x: Variable, n: int) ensures 1 <= n < 256 && p2(n) < P() / 2 ==> forall|s: Seq<Variable>| #![trigger bools(s)] bits_fact(s, val(x), n)
{
    broadcast use circuit_facts;
    let v = val(x);
    if 1 <= n < 256 && p2(n) < P() / 2 {
        lem_128();
        assert forall|s: Seq<Variable>| #![trigger bools(s)] bits_fact(s, v, n) by {
            if s.len() == n {
                let w = vals(s);
                assert forall|i: int| 0 <= i < n implies #[trigger] w[i] == val(s[i]) by { }
                if bools(s) { assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] w[i] < p2(1) by { assert(val(s[i]) == 0 || val(s[i]) == 1); } lem_dsum_bound(w, 1, n); lemma_small_mod(dsum(w, 1, n) as nat, P() as nat); }
                if v < p2(n) && forall|i: int| 0 <= i < n ==> val(#[trigger] s[i]) == (v / p2(i)) % 2 {
                    assert(w =~= digits(v, 1, n)) by { assert forall|i: int| 0 <= i < n implies w[i] == #[trigger] digits(v, 1, n)[i] by { assert(val(s[i]) == (v / p2(i)) % 2); assert(1 * i == i); } }
                    lem_digits(v, 1, n, n); lemma_small_mod(v as nat, p2(n) as nat); lemma_small_mod(v as nat, P() as nat); assert(1 * n == n);
                    assert forall|i: int| 0 <= i < s.len() implies val(#[trigger] s[i]) == 0 || val(s[i]) == 1 by { assert(w[i] == digits(v, 1, n)[i]); }
                }
            }
        }
    }
}

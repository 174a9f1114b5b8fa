%%include logup_spec.vc
%%fn compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable::query_range
ensures
    grows(*old(self), *final(self)), final(self).query_keys@ == old(self).query_keys@.push(key), accepted(*final(self)) == (accepted(*old(self)) && digit(*old(self), key)),
%%entry
    let n = self.query_keys@.len() as int; assert(self.query_keys@.push(key)[n] == key); assert forall|i: int| 0 <= i < n implies #[trigger] self.query_keys@[i] == self.query_keys@.push(key)[i] by { }
%%fn compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable::rangeproof_onechunk
%%opt use circuit_facts
requires
    sized(old(self).rangeproof_bits as int, n as int), n <= old(self).rangeproof_bits,
ensures
    grows(*old(self), *final(self)), final(builder).ok() == old(builder).ok(),
    accepted(*final(self)) ==> -slack(final(self).rangeproof_bits as int, n as int) <= sval(a) < p2(n as int),
    accepted(*old(self)) && val(a) < p2(n as int) ==> accepted(*final(self)),
%%entry
    let b = self.rangeproof_bits as int; let m = n as int;
        if n == b { lemma_mod_self_0(b); lem_le(b + 1, m + b + 1); lem_p2(b, 1); lemma2_to64(); assert(p2(1) == 2); } else { lemma_small_mod(n as nat, b as nat); lem_le(b + 1, m + b + 1); lem_shift(val(a), m, b - m); lem_le(b - m, 24); lem_le(m, 24); lemma2_to64(); lemma2_to64_rest(); }
%%fn compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable::rangeproof
%%opt use circuit_facts, hint_rangeproof
requires
    sized(old(self).rangeproof_bits as int, n as int),
ensures
    grows(*old(self), *final(self)), final(builder).ok() ==> old(builder).ok(),
    accepted(*final(self)) && final(builder).ok() ==> -slack(final(self).rangeproof_bits as int, n as int) <= sval(a) < p2(n as int),
    honest() && old(builder).ok() && accepted(*old(self)) && val(a) < p2(n as int) ==> final(builder).ok() && accepted(*final(self)),
%%loop L0
    builder.ok() == old(builder).ok(), *self == *old(self), witnesses@ == srcL0@, srcL0@.len() >= 1, ixL0 >= 1,
    witnesses@.len() == nd(gp3 as int, self.rangeproof_bits as int), self.rangeproof_bits >= 1, 1 <= gp3 <= 128,
    val(sum) == dsum(vals(witnesses@), self.rangeproof_bits as int, ixL0 as int) % P(),
%%pre L0
    lem_dsum_first(vals(witnesses@), self.rangeproof_bits as int); lemma_small_mod(val(witnesses@[0]) as nat, P() as nat);
%%body L0
    let b = self.rangeproof_bits as int; let j = ixL0 - 1;
    lem_step(dsum(vals(witnesses@), b, j), val(witnesses@[j]), p2(b * j));
    lem_pos(gp3 as int, b, j);
%%loop L1
    grows(*old(self), *self), self.rangeproof_bits == old(self).rangeproof_bits, witnesses@ == srcL1@, tkL1 == witnesses@.len(), builder.ok() ==> old(builder).ok(),
    accepted(*self) == (accepted(*old(self)) && forall|i: int| 0 <= i < ixL1 ==> digit(*old(self), #[trigger] witnesses@[i])),
%%post L1
    let b = self.rangeproof_bits as int; let w = vals(witnesses@); let k = nd(gp3 as int, b);
    lem_decomp(w, val(new_a), b, k);
    assert forall|i: int| 0 <= i < k implies #[trigger] w[i] == val(witnesses@[i]) by { }
    if forall|i: int| 0 <= i < witnesses@.len() ==> digit(*old(self), #[trigger] witnesses@[i]) { assert forall|i: int| 0 <= i < k implies #[trigger] w[i] < p2(b) by { assert(digit(*old(self), witnesses@[i])); } }
    if forall|i: int| 0 <= i < k ==> #[trigger] w[i] < p2(b) { assert forall|i: int| 0 <= i < witnesses@.len() implies digit(*old(self), #[trigger] witnesses@[i]) by { assert(w[i] < p2(b)); } }
    let m = gp3 as int;
    lemma_small_mod(up(m, b) as nat, P() as nat); lemma_small_mod(b as nat, P() as nat);
    assert(vals(hint_input@) =~= seq![up(m, b), b, val(new_a)]);
    assert(honest() ==> w == digits(val(new_a), b, k));
    assert(p2(b * k) == p2(up(m, b)));
    assert(val(sum) == dsum(w, b, k) % P());
    let sh = b - m % b;
    assert(m % b != 0 ==> p2(m + sh) == p2(up(m, b)));
    assert(m % b != 0 ==> val(new_a) == (val(a) + (p2(m + sh) - p2(m))) % P());
    assert(m % b == 0 ==> val(new_a) == val(a));
    assert(accepted(*self) == (accepted(*old(self)) && forall|i: int| 0 <= i < k ==> #[trigger] w[i] < p2(b)));
    assert(accepted(*self) && val(sum) == val(new_a) ==> val(new_a) < p2(up(m, b)));
    assert(val(a) < p2(m) ==> val(new_a) < p2(up(m, b)));
%%entry
    lem_lt(n as int + self.rangeproof_bits as int + 1); lem_consts(val(a), n as int, self.rangeproof_bits as int); lem_up(n as int, self.rangeproof_bits as int); lem_128();
%%fn compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable::new
ensures
    r.table_keys@.len() == 0, r.query_keys@.len() == 0, r.rangeproof_bits == nb_bits,
%%fn compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable::add_table_row
ensures
    final(self).table_keys@ == old(self).table_keys@.push(key), final(self).query_keys@ == old(self).query_keys@, final(self).rangeproof_bits == old(self).rangeproof_bits,
%%fn compiler/circuit-std-rs/src/logup.rs::LogUpRangeProofTable::initial
%%opt use circuit_facts
requires
    1 <= old(self).rangeproof_bits <= 24, p2(old(self).rangeproof_bits as int) < P(), old(self).table_keys@.len() == 0,
ensures
    full_table(*final(self)), final(self).query_keys@ == old(self).query_keys@, final(self).rangeproof_bits == old(self).rangeproof_bits, final(builder).ok() == old(builder).ok(),
%%entry
    lem_128(); lem_le(self.rangeproof_bits as int, 24);
%%loop L0
    builder.ok() == old(builder).ok(), self.query_keys@ == old(self).query_keys@, self.rangeproof_bits == old(self).rangeproof_bits,
    self.table_keys@.len() == ixL0, forall|j: int| 0 <= j < ixL0 ==> val(#[trigger] self.table_keys@[j]) == j,
%%body L0
    lemma_small_mod((ixL0 - 1) as nat, P() as nat);
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::LogupRangeCheckContext::new
requires
    0 < chunk_bits <= 128,
ensures
    r.chunk_bits == chunk_bits, r.table.rangeproof_bits == chunk_bits, r.table.table_keys@.len() == 0, r.table.query_keys@.len() == 0,
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::LogupRangeCheckContext::new_default
ensures
    r.table.rangeproof_bits == 12, r.table.table_keys@.len() == 0, r.table.query_keys@.len() == 0,
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::LogupRangeCheckContext::init
requires
    1 <= old(self).table.rangeproof_bits <= 24, p2(old(self).table.rangeproof_bits as int) < P(), old(self).table.table_keys@.len() == 0,
ensures
    full_table(final(self).table), final(self).table.query_keys@ == old(self).table.query_keys@, final(self).table.rangeproof_bits == old(self).table.rangeproof_bits, final(api).ok() == old(api).ok(),
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::LogupRangeCheckContext::range_check
requires
    n_bits > 0 && n_bits <= 128 ==> sized(old(self).table.rangeproof_bits as int, n_bits as int),
ensures
    grows(old(self).table, final(self).table), final(api).ok() ==> old(api).ok(),
    r is Ok == (1 <= n_bits <= 128),
    r is Ok && accepted(final(self).table) && final(api).ok() ==> -slack(final(self).table.rangeproof_bits as int, n_bits as int) <= sval(value) < p2(n_bits as int),
    r is Ok && honest() && old(api).ok() && accepted(old(self).table) && val(value) < p2(n_bits as int) ==> final(api).ok() && accepted(final(self).table),
%%fn rust/jstprove_circuits/src/circuit_functions/hints/bits.rs::unconstrained_to_bits
%%opt use circuit_facts
requires
    p2(255) > P(),
ensures
    final(api).ok() == old(api).ok(), r is Ok == (1 <= n_bits < 256 && p2(n_bits as int) < P() / 2),
    r is Ok ==> r->Ok_0@.len() == n_bits && (honest() ==> forall|i: int| 0 <= i < n_bits ==> val(#[trigger] r->Ok_0@[i]) == (val(input) / p2(i)) % 2),
%%loop L0
    api.ok() == old(api).ok(), least_significant_bits@.len() == ixL0, honest() ==> val(current) == val(input) / p2(ixL0 as int),
    honest() ==> forall|i: int| 0 <= i < ixL0 ==> val(#[trigger] least_significant_bits@[i]) == (val(input) / p2(i)) % 2,
%%body L0
    lem_p2(ixL0 - 1, 1); lemma_div_denominator(val(input), p2(ixL0 - 1), 2); lemma_small_mod(1, P() as nat);
%%entry
    lem_128(); lem_p2(n_bits as int, 0); lem_le(255, 256); if n_bits < 256 { lem_le(n_bits as int, 255); }
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::constrained_reconstruct_from_bits
%%opt use circuit_facts
ensures
    final(api).ok() ==> old(api).ok(), r is Ok == (least_significant_bits@.len() <= 256),
    r is Ok ==> final(api).ok() == (old(api).ok() && bools(least_significant_bits@)) && val(r->Ok_0) == dsum(vals(least_significant_bits@), 1, least_significant_bits@.len() as int) % P(),
%%loop L0
    least_significant_bits@ == srcL0@, api.ok() == (old(api).ok() && bools(srcL0@.take(ixL0 as int))), val(reconstructed) == dsum(vals(least_significant_bits@), 1, ixL0 as int) % P(),
%%pre L0
    lemma_small_mod(0, P() as nat);
%%body L0
    let j = ixL0 - 1; let w = vals(least_significant_bits@);
    lem_step(dsum(w, 1, j), w[j], p2(j)); lemma_mulp_comm(w[j], p2(j) % P()); lem_p2(j, 255 - j); lem_le(j + 1, 256); lem_p2(j, 1);
    assert(srcL0@.take(ixL0 as int) =~= srcL0@.take(j).push(srcL0@[j]));
    if bools(srcL0@.take(ixL0 as int)) { assert(srcL0@.take(ixL0 as int)[j] == srcL0@[j]); assert forall|i: int| 0 <= i < j implies val(#[trigger] srcL0@.take(j)[i]) == 0 || val(srcL0@.take(j)[i]) == 1 by { assert(srcL0@.take(ixL0 as int)[i] == srcL0@.take(j)[i]); } }
%%post L0
    assert(srcL0@.take(srcL0@.len() as int) =~= srcL0@);
%%entry
    lem_128();
%%fn rust/jstprove_circuits/src/circuit_functions/gadgets/range_check.rs::range_check_pow2_unsigned
%%opt use circuit_facts
requires
    p2(255) > P(),
ensures
    final(api).ok() ==> old(api).ok(), r is Ok == (1 <= n_bits < 256 && p2(n_bits as int) < P() / 2),
    r is Ok && final(api).ok() ==> val(value) < p2(n_bits as int) && r->Ok_0@.len() == n_bits && bools(r->Ok_0@) && val(value) == dsum(vals(r->Ok_0@), 1, n_bits as int),
    r is Ok && honest() && old(api).ok() && val(value) < p2(n_bits as int) ==> final(api).ok(),
%%entry
    lem_bits(value, n_bits as int);

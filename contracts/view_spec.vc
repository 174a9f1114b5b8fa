%%raw
broadcast use vstd::std_specs::hash::group_hash_axioms;
// ---- reshape -------------------------------------------------------------------------------------
pub open spec fn rs_az(l: LayerNode) -> bool { int_or(l, "allowzero"@, 0) != 0 }
pub open spec fn rs_fac(t: Seq<i64>, x: Seq<usize>, az: bool, i: int) -> usize {
    if t[i] < 0 { 1usize } else if t[i] == 0 { if az { 0usize } else if i < x.len() { x[i] } else { 1usize } } else { t[i] as usize }
}
pub open spec fn rs_facs(t: Seq<i64>, x: Seq<usize>, az: bool) -> Seq<usize> { Seq::new(t.len(), |i: int| rs_fac(t, x, az, i)) }
pub open spec fn rs_dim_ok(t: Seq<i64>, x: Seq<usize>, az: bool, i: int) -> bool { t[i] >= -1 && (t[i] == 0 && !az ==> i < x.len()) }
pub open spec fn rs_upto(t: Seq<i64>, x: Seq<usize>, az: bool, k: int) -> bool { forall|i: int| #![trigger rs_dim_ok(t, x, az, i)] 0 <= i < k ==> rs_dim_ok(t, x, az, i) }
pub open spec fn cntm1(t: Seq<i64>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { cntm1(t.drop_last()) + (if t.last() == -1 { 1nat } else { 0nat }) } }
pub open spec fn has0(t: Seq<i64>) -> bool { exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i] == 0 }
pub open spec fn rs_ok(t: Seq<i64>, x: Seq<usize>, az: bool) -> bool {
    let known = prod(rs_facs(t, x, az));
    &&& rs_upto(t, x, az, t.len() as int) && cntm1(t) <= 1 && !(az && has0(t) && cntm1(t) > 0)
    &&& if cntm1(t) == 1 { known != 0 && prod(x) % known == 0 } else { prod(x) == known }
}
pub open spec fn rs_out(t: Seq<i64>, x: Seq<usize>, az: bool) -> Seq<usize> {
    Seq::new(t.len(), |i: int| if t[i] == -1 { (prod(x) / prod(rs_facs(t, x, az))) as usize } else { rs_fac(t, x, az, i) })
}
pub open spec fn rs_target(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<i64>> {
    match konst_ints(inp(l, 1), a, b) { Some(t) => Some(t), None => ints_attr(l, "shape"@) }
}
pub open spec fn rs_fits(l: LayerNode, xo: Option<Seq<usize>>, t: Option<Seq<i64>>) -> bool {
    match (xo, t) { (Some(x), Some(t)) => prod1(x) <= usize::MAX && prod1(rs_facs(t, x, rs_az(l))) <= usize::MAX, (Some(x), None) => prod1(x) <= usize::MAX, _ => true }
}
pub proof fn lemma_cntm1(t: Seq<i64>)
    ensures
        (cntm1(t) == 0) == (forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] != -1),
        cntm1(t) <= 1 ==> forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && t[i] == -1 && t[j] == -1 ==> i == j,
        cntm1(t) <= t.len(),
    decreases t.len()
{
    if t.len() > 0 {
        let p = t.drop_last();
        lemma_cntm1(p);
        assert forall|i: int| 0 <= i < p.len() implies p[i] == t[i] by {}
        if cntm1(t) == 0 { assert forall|i: int| 0 <= i < t.len() implies t[i] != -1 by { if i < p.len() { assert(p[i] == t[i]); } } }
        if forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] != -1 { assert forall|i: int| 0 <= i < p.len() implies p[i] != -1 by { assert(p[i] == t[i]); } assert(t[t.len() - 1] != -1); }
        if cntm1(t) <= 1 {
            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && t[i] == -1 && t[j] == -1 implies i == j by {
                if i < p.len() && j < p.len() { assert(p[i] == -1 && p[j] == -1); }
                else if i < p.len() { assert(p[i] == -1); } else if j < p.len() { assert(p[j] == -1); }
            }
        }
    }
}
pub proof fn lemma_prod_push(s: Seq<usize>, k: int) requires 0 <= k < s.len() ensures prod(s.take(k + 1)) == prod(s.take(k)) * s[k], prod1(s.take(k + 1)) <= prod1(s), 0 <= prod(s.take(k + 1)) <= prod1(s)
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    lemma_prod1_mono(s, k + 1);
    lemma_prod1_pos(s.take(k + 1));
}
pub proof fn lemma_cnt_push(s: Seq<i64>, k: int) requires 0 <= k < s.len() ensures cntm1(s.take(k + 1)) == cntm1(s.take(k)) + (if s[k] == -1 { 1nat } else { 0nat })
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
%%raw
// ---- flatten -------------------------------------------------------------------------------------
pub proof fn lemma_prod1_split(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len()
    ensures prod1(s) == prod1(s.take(k)) * prod1(s.skip(k)), prod(s) == prod(s.take(k)) * prod(s.skip(k)), prod1(s.take(k)) <= prod1(s), prod1(s.skip(k)) <= prod1(s)
    decreases s.len()
{
    lemma_prod1_pos(s.take(k)); lemma_prod1_pos(s.skip(k));
    if k == s.len() { assert(s.take(k) =~= s); assert(s.skip(k) =~= Seq::<usize>::empty()); }
    else {
        let d = s.drop_last();
        lemma_prod1_split(d, k);
        assert(d.take(k) =~= s.take(k)); assert(s.skip(k).drop_last() =~= d.skip(k)); assert(s.skip(k).last() == s.last());
        let l = if s.last() == 0 { 1int } else { s.last() as int };
        let l2 = s.last() as int;
        assert(prod1(d.take(k)) * prod1(d.skip(k)) * l == prod1(d.take(k)) * (prod1(d.skip(k)) * l)) by(nonlinear_arith);
        assert(prod(d.take(k)) * prod(d.skip(k)) * l2 == prod(d.take(k)) * (prod(d.skip(k)) * l2)) by(nonlinear_arith);
    }
    let a = prod1(s.take(k)); let b = prod1(s.skip(k));
    assert(a <= a * b && b <= a * b) by(nonlinear_arith) requires a >= 1, b >= 1;
}
pub open spec fn fl_ok(l: LayerNode, x: Seq<usize>) -> bool { -x.len() <= int_or(l, "axis"@, 1) <= x.len() }
pub open spec fn fl_out(l: LayerNode, x: Seq<usize>) -> Seq<usize> {
    let a = nax(int_or(l, "axis"@, 1), x.len() as int); seq![prod(x.take(a)) as usize, prod(x.skip(a)) as usize]
}
%%raw
// ---- squeeze / unsqueeze / transpose -------------------------------------------------------------
/// axes: the attribute, else the constant second input; None when neither is given
pub open spec fn sq_axes(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>) -> Option<Seq<i64>> {
    match ints_attr(l, "axes"@) { Some(v) => Some(v), None => konst_ints(inp_ne(l, 1), a, b) }
}
/// axes given as an input whose value is not known at compile time
pub open spec fn sq_dynamic(l: LayerNode, a: SMap<TensorData>, b: SMap<TensorData>) -> bool {
    ints_attr(l, "axes"@) is None && inp_ne(l, 1) is Some && konst_ints(inp_ne(l, 1), a, b) is None
}
pub open spec fn ones_at(x: Seq<usize>, a: Seq<i64>) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> x[nax(a[i], x.len() as int)] == 1 }
pub open spec fn sq_ok(x: Seq<usize>, a: Seq<i64>) -> bool { ax_all_in(a, x.len() as int) && ax_distinct(a, x.len() as int) && ones_at(x, a) }
pub open spec fn sq_out(x: Seq<usize>, a: Option<Seq<i64>>) -> Seq<usize> { match a { None => sq_ones(x), Some(a) => sq_keep(x, a, x.len() as int) } }
%%raw
/// output of unsqueeze: 1 at the named positions, the input dimensions in order elsewhere
pub open spec fn us_src(a: Seq<i64>, r: int, k: int) -> int decreases k { if k <= 0 { 0 } else { us_src(a, r, k - 1) + (if ax_has(a, r, k - 1) { 0int } else { 1int }) } }
pub open spec fn us_dim(x: Seq<usize>, a: Seq<i64>, r: int, i: int) -> usize { if ax_has(a, r, i) { 1usize } else { x[us_src(a, r, i)] } }
pub open spec fn us_out(x: Seq<usize>, a: Seq<i64>) -> Seq<usize> { let r = x.len() + a.len(); Seq::new(r as nat, |i: int| us_dim(x, a, r as int, i)) }
pub open spec fn us_named(a: Seq<i64>, r: int, k: int) -> Set<int> decreases k { if k <= 0 { Set::empty() } else if ax_has(a, r, k - 1) { us_named(a, r, k - 1).insert(k - 1) } else { us_named(a, r, k - 1) } }
/// counting: the positions not named by `k` distinct in-range axes are exactly `r - k`
pub proof fn lemma_us_count(a: Seq<i64>, r: int, k: int)
    requires 0 <= k <= r, ax_all_in(a, r), ax_distinct(a, r)
    ensures 0 <= us_src(a, r, k), us_src(a, r, r) - us_src(a, r, k) >= 0, k < r && !ax_has(a, r, k) ==> us_src(a, r, k) < us_src(a, r, r), us_src(a, r, r) == r - a.len()
{
    lemma_us_mono(a, r, 0, k); lemma_us_mono(a, r, k, r);
    if k < r { lemma_us_mono(a, r, k + 1, r); }
    lemma_us_named(a, r, r);
    lemma_us_card(a, r);
}
pub proof fn lemma_us_mono(a: Seq<i64>, r: int, j: int, k: int) requires 0 <= j <= k ensures us_src(a, r, j) <= us_src(a, r, k) decreases k - j
{ if j < k { lemma_us_mono(a, r, j, k - 1); } }
pub proof fn lemma_us_named(a: Seq<i64>, r: int, k: int) requires 0 <= k
    ensures forall|n: int| #![trigger us_named(a, r, k).contains(n)] us_named(a, r, k).contains(n) <==> (0 <= n < k && ax_has(a, r, n)), us_src(a, r, k) + us_named(a, r, k).len() == k decreases k
{ if k > 0 { lemma_us_named(a, r, k - 1); } }
pub proof fn lemma_us_card(a: Seq<i64>, r: int) requires ax_all_in(a, r), ax_distinct(a, r), r >= 0 ensures us_named(a, r, r).len() == a.len() decreases a.len()
{
    lemma_us_named(a, r, r);
    if a.len() == 0 { assert(us_named(a, r, r) =~= Set::empty()); }
    else {
        let k = a.len() - 1; let p = a.take(k);
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies ax_in(p[i], r) by { assert(p[i] == a[i]); }
        assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() implies nax(p[i], r) != nax(p[j], r) by { assert(p[i] == a[i] && p[j] == a[j]); }
        lemma_us_card(p, r); lemma_us_named(p, r, r);
        lemma_ax_push(a, k, r);
        assert(a.take(k + 1) =~= a);
        let n = nax(a[k], r);
        assert(ax_in(a[k], r));
        assert(!ax_has(p, r, n)) by { if ax_has(p, r, n) { let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && nax(p[i], r) == n; assert(a[i] == p[i]); } }
        assert forall|m: int| us_named(a, r, r).contains(m) == us_named(p, r, r).insert(n).contains(m) by { assert(ax_has(a, r, m) == (ax_has(p, r, m) || n == m)); }
        assert(us_named(a, r, r) =~= us_named(p, r, r).insert(n));
    }
}
%%raw
pub open spec fn tp_perm(l: LayerNode, n: nat) -> Seq<i64> { match ints_attr(l, "perm"@) { Some(p) => p, None => Seq::new(n, |i: int| (n - 1 - i) as i64) } }
pub open spec fn tp_ok(p: Seq<i64>, n: int) -> bool { p.len() == n && ax_all_in(p, n) && ax_distinct(p, n) }
pub open spec fn tp_out(x: Seq<usize>, p: Seq<i64>) -> Seq<usize> { Seq::new(x.len(), |i: int| x[nax(p[i], x.len() as int)]) }

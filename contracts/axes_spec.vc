%%raw
// ---- axis normalisation -------------------------------------------------------------------------
pub open spec fn nax(a: i64, r: int) -> int { if a < 0 { a + r } else { a as int } }
pub open spec fn ax_in(a: i64, r: int) -> bool { -r <= a < r }
pub open spec fn ax_all_in(a: Seq<i64>, r: int) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> ax_in(a[i], r) }
/// some entry of `a` names axis `n`
pub open spec fn ax_has(a: Seq<i64>, r: int, n: int) -> bool { exists|i: int| #![trigger a[i]] 0 <= i < a.len() && nax(a[i], r) == n }
pub open spec fn ax_distinct(a: Seq<i64>, r: int) -> bool { forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() ==> nax(a[i], r) != nax(a[j], r) }
pub open spec fn set_is(s: Set<usize>, a: Seq<i64>, r: int) -> bool { forall|n: usize| #![trigger s.contains(n)] s.contains(n) <==> ax_has(a, r, n as int) }
pub proof fn lemma_ax_push(a: Seq<i64>, k: int, r: int)
    requires 0 <= k < a.len()
    ensures
        forall|n: int| #![trigger ax_has(a.take(k + 1), r, n)] ax_has(a.take(k + 1), r, n) <==> (ax_has(a.take(k), r, n) || nax(a[k], r) == n),
        ax_distinct(a.take(k), r) && !ax_has(a.take(k), r, nax(a[k], r)) ==> ax_distinct(a.take(k + 1), r),
        ax_has(a.take(k), r, nax(a[k], r)) ==> !ax_distinct(a, r),
{
    let p = a.take(k); let q = a.take(k + 1);
    assert forall|n: int| ax_has(q, r, n) <==> (ax_has(p, r, n) || nax(a[k], r) == n) by {
        if ax_has(q, r, n) { let i = choose|i: int| #![trigger q[i]] 0 <= i < q.len() && nax(q[i], r) == n; if i < k { assert(p[i] == q[i]); } }
        if ax_has(p, r, n) { let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && nax(p[i], r) == n; assert(q[i] == p[i]); }
        if nax(a[k], r) == n { assert(q[k] == a[k]); }
    }
    if ax_distinct(p, r) && !ax_has(p, r, nax(a[k], r)) {
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies nax(q[i], r) != nax(q[j], r) by {
            assert(p[i] == q[i]);
            if j < k { assert(p[j] == q[j]); }
        }
    }
    if ax_has(p, r, nax(a[k], r)) {
        let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && nax(p[i], r) == nax(a[k], r);
        assert(a[i] == p[i]);
    }
}
pub proof fn lemma_ax_empty(a: Seq<i64>, r: int) ensures forall|n: int| #![trigger ax_has(a.take(0), r, n)] !ax_has(a.take(0), r, n), ax_distinct(a.take(0), r) {}
pub proof fn lemma_ax_full(a: Seq<i64>, r: int) ensures a.take(a.len() as int) == a { assert(a.take(a.len() as int) =~= a); }
/// drop the named axes / the extents equal to one
pub open spec fn sq_keep(x: Seq<usize>, a: Seq<i64>, r: int) -> Seq<usize> decreases x.len() {
    if x.len() == 0 { Seq::empty() } else { let p = sq_keep(x.drop_last(), a, r); if ax_has(a, r, x.len() - 1) { p } else { p.push(x.last()) } }
}
pub open spec fn sq_ones(x: Seq<usize>) -> Seq<usize> decreases x.len() {
    if x.len() == 0 { Seq::empty() } else { let p = sq_ones(x.drop_last()); if x.last() == 1 { p } else { p.push(x.last()) } }
}
pub proof fn lemma_keep_push(x: Seq<usize>, k: int, a: Seq<i64>, r: int) requires 0 <= k < x.len()
    ensures sq_keep(x.take(k + 1), a, r) == (if ax_has(a, r, k) { sq_keep(x.take(k), a, r) } else { sq_keep(x.take(k), a, r).push(x[k]) }),
        sq_ones(x.take(k + 1)) == (if x[k] == 1 { sq_ones(x.take(k)) } else { sq_ones(x.take(k)).push(x[k]) })
{ assert(x.take(k + 1).drop_last() =~= x.take(k)); }
pub proof fn lemma_keep_none(x: Seq<usize>, a: Seq<i64>, r: int) requires a.len() == 0 ensures sq_keep(x, a, r) =~= x decreases x.len()
{ if x.len() > 0 { lemma_keep_none(x.drop_last(), a, r); } }

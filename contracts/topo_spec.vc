%%raw
// ---- data-flow order ----------------------------------------------------------------------------
pub open spec fn has_out(l: LayerNode, n: Seq<char>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] l.outputs@[j]@ == n }
/// the layer (the last one, if several) among the first k that produces tensor n
pub open spec fn producer(ls: Seq<LayerNode>, n: Seq<char>, k: int) -> Option<int> decreases k {
    if k <= 0 { None } else if has_out(ls[k - 1], n, ls[k - 1].outputs@.len() as int) { Some(k - 1) } else { producer(ls, n, k - 1) }
}
/// input i of layer v is produced by another layer u
pub open spec fn feeds(ls: Seq<LayerNode>, u: int, v: int, i: int) -> bool { u != v && producer(ls, ls[v].inputs@[i]@, ls.len() as int) == Some(u) }
pub open spec fn dep(ls: Seq<LayerNode>, u: int, v: int) -> bool { exists|i: int| 0 <= i < ls[v].inputs@.len() && #[trigger] feeds(ls, u, v, i) }
/// every layer once, and no layer before one that produces an input of it
pub open spec fn topo_ok(ls: Seq<LayerNode>, o: Seq<usize>) -> bool {
    &&& o.len() == ls.len() && o.no_duplicates() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] < ls.len()
    &&& forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < o.len() && 0 <= j < o.len() && dep(ls, o[i] as int, o[j] as int) ==> i < j
}
/// the layers outside `o` exist and each waits for another one of them: no order exists
pub open spec fn stuck(ls: Seq<LayerNode>, o: Seq<usize>) -> bool {
    &&& exists|v: int| 0 <= v < ls.len() && #[trigger] out_of(o, v)
    &&& forall|v: int| #![trigger out_of(o, v)] 0 <= v < ls.len() && out_of(o, v) ==> exists|u: int| 0 <= u < ls.len() && #[trigger] out_of(o, u) && dep(ls, u, v)
}
pub open spec fn out_of(o: Seq<usize>, v: int) -> bool { !o.contains(v as usize) }
pub open spec fn ilen(ls: Seq<LayerNode>, v: int) -> int { ls[v].inputs@.len() as int }
/// inputs among the first k of layer v that are fed by u
pub open spec fn cnt(ls: Seq<LayerNode>, u: int, v: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { cnt(ls, u, v, k - 1) + if feeds(ls, u, v, k - 1) { 1int } else { 0 } }
}
pub open spec fn waits(ls: Seq<LayerNode>, o: Seq<usize>, v: int, i: int) -> bool {
    match producer(ls, ls[v].inputs@[i]@, ls.len() as int) { Some(u) => u != v && !o.contains(u as usize), None => false }
}
/// inputs among the first k of layer v that are fed by another layer not in `o`
pub open spec fn tot(ls: Seq<LayerNode>, o: Seq<usize>, v: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { tot(ls, o, v, k - 1) + if waits(ls, o, v, k - 1) { 1int } else { 0 } }
}
pub open spec fn occ(s: Seq<usize>, v: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), v) + if s.last() == v { 1int } else { 0 } } }
pub proof fn lemma_producer(ls: Seq<LayerNode>, n: Seq<char>, k: int) ensures producer(ls, n, k) is Some ==> 0 <= producer(ls, n, k)->Some_0 < k decreases k
{ if k > 0 { lemma_producer(ls, n, k - 1); } }
pub proof fn lemma_tot_bound(ls: Seq<LayerNode>, o: Seq<usize>, v: int, k: int) ensures 0 <= tot(ls, o, v, k), k >= 0 ==> tot(ls, o, v, k) <= k decreases k
{ if k > 0 { lemma_tot_bound(ls, o, v, k - 1); } }
pub proof fn lemma_tot_push(ls: Seq<LayerNode>, o: Seq<usize>, x: usize, v: int, k: int)
    requires !o.contains(x), ls.len() <= usize::MAX ensures tot(ls, o, v, k) == tot(ls, o.push(x), v, k) + cnt(ls, x as int, v, k) decreases k
{
    if k > 0 { lemma_tot_push(ls, o, x, v, k - 1);
        let p = producer(ls, ls[v].inputs@[k - 1]@, ls.len() as int); lemma_producer(ls, ls[v].inputs@[k - 1]@, ls.len() as int);
        assert(o.push(x)[o.len() as int] == x);
        if p is Some { let u = p->Some_0 as usize; assert(u as int == p->Some_0);
            if o.contains(u) { let i = choose|i: int| 0 <= i < o.len() && o[i] == u; assert(o.push(x)[i] == u); }
            if o.push(x).contains(u) && u != x { let i = choose|i: int| 0 <= i < o.push(x).len() && o.push(x)[i] == u; assert(o[i] == u); } } }
}
pub proof fn lemma_tot_zero(ls: Seq<LayerNode>, o: Seq<usize>, v: int, k: int, u: int, i: int)
    requires tot(ls, o, v, k) == 0, 0 <= i < k, feeds(ls, u, v, i) ensures o.contains(u as usize) decreases k
{ lemma_tot_bound(ls, o, v, k - 1); if i < k - 1 { lemma_tot_zero(ls, o, v, k - 1, u, i); } }
pub proof fn lemma_tot_pos(ls: Seq<LayerNode>, o: Seq<usize>, v: int, k: int) -> (u: int)
    requires tot(ls, o, v, k) > 0, 0 <= v < ls.len(), k <= ilen(ls, v), ls.len() <= usize::MAX ensures 0 <= u < ls.len(), out_of(o, u), dep(ls, u, v) decreases k
{
    if waits(ls, o, v, k - 1) { let u = producer(ls, ls[v].inputs@[k - 1]@, ls.len() as int)->Some_0; lemma_producer(ls, ls[v].inputs@[k - 1]@, ls.len() as int); assert(feeds(ls, u, v, k - 1)); u }
    else { lemma_tot_pos(ls, o, v, k - 1) }
}
pub proof fn lemma_occ_mono(s: Seq<usize>, k: int, v: int) requires 0 <= k <= s.len() ensures 0 <= occ(s.take(k), v) <= occ(s, v) decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); if k > 0 { lemma_occ_mono(s.drop_last(), k - 1, v); } }
    else { lemma_occ_mono(s.drop_last(), k, v); assert(s.drop_last().take(k) =~= s.take(k)); }
}
pub proof fn lemma_occ_take(s: Seq<usize>, k: int, v: int) requires 0 <= k < s.len() ensures occ(s.take(k + 1), v) == occ(s.take(k), v) + (if s[k] == v { 1int } else { 0 })
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_remove(o: Seq<usize>, p: int, n: int) requires o.no_duplicates(), 0 <= p < o.len(), o[p] == n - 1, forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] < n
    ensures ({ let q = o.remove(p); q.no_duplicates() && q.len() == o.len() - 1 && (forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i] < n - 1) && forall|x: usize| #![trigger o.contains(x)] o.contains(x) ==> x == n - 1 || q.contains(x) })
{
    let q = o.remove(p);
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies q[i] < n - 1 by { let j = if i < p { i } else { i + 1 }; assert(q[i] == o[j]); assert(o[j] != o[p]); }
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
        let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 }; assert(q[i] == o[a] && q[j] == o[b]); }
    assert forall|x: usize| #![trigger o.contains(x)] o.contains(x) implies x == n - 1 || q.contains(x) by {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == x; if i != p { let j = if i < p { i } else { i - 1 }; assert(q[j] == x); } }
}
/// pigeonhole: at most n distinct numbers below n, and fewer than n leave one out
pub proof fn lemma_pigeon(o: Seq<usize>, n: int) -> (v: int)
    requires o.no_duplicates(), 0 <= n <= usize::MAX, forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] < n
    ensures o.len() <= n, o.len() < n ==> 0 <= v < n && out_of(o, v) decreases n
{
    if n == 0 { if o.len() > 0 { assert(o[0] < 0); } 0 }
    else if o.contains((n - 1) as usize) {
        let p = choose|i: int| 0 <= i < o.len() && o[i] == (n - 1) as usize;
        lemma_remove(o, p, n);
        let v = lemma_pigeon(o.remove(p), n - 1);
        v
    } else {
        assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies o[i] < n - 1 by { assert(o.contains(o[i])); }
        let v = lemma_pigeon(o, n - 1); n - 1
    }
}
// ---- producer table -----------------------------------------------------------------------------
pub open spec fn pj(ls: Seq<LayerNode>, n: Seq<char>, k: int, j: int) -> Option<int> { if 0 <= k < ls.len() && has_out(ls[k], n, j) { Some(k) } else { producer(ls, n, k) } }
pub open spec fn ptab(m: Map<Seq<char>, usize>, ls: Seq<LayerNode>, k: int, j: int) -> bool {
    forall|n: Seq<char>| #![trigger m.contains_key(n)] #![trigger m[n]] m.contains_key(n) == (pj(ls, n, k, j) is Some) && (m.contains_key(n) ==> m[n] == pj(ls, n, k, j)->Some_0)
}
pub proof fn lemma_ptab_step(m: Map<Seq<char>, usize>, ls: Seq<LayerNode>, k: int, j: int, x: usize) requires ptab(m, ls, k, j), 0 <= k < ls.len(), 0 <= j < ls[k].outputs@.len(), x == k
    ensures ptab(m.insert(ls[k].outputs@[j]@, x), ls, k, j + 1)
{
    let w = ls[k].outputs@[j]@; let m2 = m.insert(w, x);
    assert forall|n: Seq<char>| #![trigger m2.contains_key(n)] #![trigger m2[n]] m2.contains_key(n) == (pj(ls, n, k, j + 1) is Some) && (m2.contains_key(n) ==> m2[n] == pj(ls, n, k, j + 1)->Some_0) by {
        if n == w { assert(has_out(ls[k], n, j + 1)); } else {
            if has_out(ls[k], n, j) { let a = choose|a: int| 0 <= a < j && #[trigger] ls[k].outputs@[a]@ == n; assert(has_out(ls[k], n, j + 1)); }
            if has_out(ls[k], n, j + 1) { let a = choose|a: int| 0 <= a < j + 1 && #[trigger] ls[k].outputs@[a]@ == n; assert(a < j); assert(has_out(ls[k], n, j)); }
            assert(m.contains_key(n) == m2.contains_key(n)); }
    }
}
pub proof fn lemma_ptab_next(m: Map<Seq<char>, usize>, ls: Seq<LayerNode>, k: int) requires 0 <= k < ls.len(), ptab(m, ls, k, ls[k].outputs@.len() as int) ensures ptab(m, ls, k + 1, 0)
{
    assert forall|n: Seq<char>| #![trigger m.contains_key(n)] #![trigger m[n]] m.contains_key(n) == (pj(ls, n, k + 1, 0) is Some) && (m.contains_key(n) ==> m[n] == pj(ls, n, k + 1, 0)->Some_0) by {
        assert(pj(ls, n, k + 1, 0) == pj(ls, n, k, ls[k].outputs@.len() as int));
    }
}
// ---- adjacency and degrees ----------------------------------------------------------------------
pub open spec fn vv(a: Seq<Vec<usize>>) -> Seq<Seq<usize>> { Seq::new(a.len(), |i: int| a[i]@) }
pub open spec fn lim(ls: Seq<LayerNode>, v: int, v0: int, k: int) -> int { if v < v0 { ilen(ls, v) } else if v == v0 { k } else { 0 } }
pub open spec fn built(ls: Seq<LayerNode>, a: Seq<Seq<usize>>, d: Seq<usize>, v0: int, k: int) -> bool {
    &&& a.len() == ls.len() && d.len() == ls.len()
    &&& forall|v: int| #![trigger d[v]] 0 <= v < ls.len() ==> d[v] == tot(ls, Seq::empty(), v, lim(ls, v, v0, k))
    &&& adj_ok(ls, a, v0, k)
}
pub open spec fn adj_ok(ls: Seq<LayerNode>, a: Seq<Seq<usize>>, v0: int, k: int) -> bool {
    &&& a.len() == ls.len()
    &&& forall|u: int, v: int| #![trigger occ(a[u], v)] #![trigger cnt(ls, u, v, ilen(ls, v)), a[u]] 0 <= u < ls.len() && 0 <= v < ls.len() ==> occ(a[u], v) == cnt(ls, u, v, lim(ls, v, v0, k))
    &&& forall|u: int, j: int| #![trigger a[u][j]] 0 <= u < ls.len() && 0 <= j < a[u].len() ==> a[u][j] < ls.len()
}
pub proof fn lemma_built_skip(ls: Seq<LayerNode>, a: Seq<Seq<usize>>, d: Seq<usize>, v0: int, k: int)
    requires built(ls, a, d, v0, k), 0 <= v0 < ls.len(), 0 <= k < ilen(ls, v0), !waits(ls, Seq::empty(), v0, k)
    ensures built(ls, a, d, v0, k + 1)
{
    lemma_nowait(ls, v0, k);
    assert forall|u: int, v: int| #![trigger occ(a[u], v)] #![trigger cnt(ls, u, v, ilen(ls, v)), a[u]] 0 <= u < ls.len() && 0 <= v < ls.len() implies occ(a[u], v) == cnt(ls, u, v, lim(ls, v, v0, k + 1)) by { assert(!feeds(ls, u, v0, k)); }
}
pub proof fn lemma_nowait(ls: Seq<LayerNode>, v0: int, k: int) requires !waits(ls, Seq::empty(), v0, k) ensures forall|u: int| !feeds(ls, u, v0, k)
{ assert forall|u: int| !feeds(ls, u, v0, k) by { assert(!Seq::<usize>::empty().contains(u as usize)); } }
pub proof fn lemma_built_edge(ls: Seq<LayerNode>, a: Seq<Seq<usize>>, d: Seq<usize>, v0: int, k: int, u0: int)
    requires built(ls, a, d, v0, k), 0 <= v0 < ls.len() <= usize::MAX, 0 <= k < ilen(ls, v0), 0 <= u0 < ls.len(), feeds(ls, u0, v0, k)
    ensures d[v0] < ilen(ls, v0), built(ls, a.update(u0, a[u0].push(v0 as usize)), d.update(v0, (d[v0] + 1) as usize), v0, k + 1)
{
    lemma_tot_bound(ls, Seq::empty(), v0, k); let vl = ls[v0].inputs.len(); assert(vl == ilen(ls, v0));
    assert(!Seq::<usize>::empty().contains(u0 as usize)); assert(waits(ls, Seq::empty(), v0, k));
    let a2 = a.update(u0, a[u0].push(v0 as usize)); let d2 = d.update(v0, (d[v0] + 1) as usize);
    assert forall|u: int, v: int| #![trigger occ(a2[u], v)] #![trigger cnt(ls, u, v, ilen(ls, v)), a2[u]] 0 <= u < ls.len() && 0 <= v < ls.len() implies occ(a2[u], v) == cnt(ls, u, v, lim(ls, v, v0, k + 1)) by {
        if u == u0 { assert(a2[u].drop_last() =~= a[u]); }
        assert(occ(a[u], v) == cnt(ls, u, v, lim(ls, v, v0, k)));
        assert(feeds(ls, u, v0, k) == (u == u0));
    }
    assert forall|v: int| #![trigger d2[v]] 0 <= v < ls.len() implies d2[v] == tot(ls, Seq::empty(), v, lim(ls, v, v0, k + 1)) by { let x = d[v]; }
    assert forall|u: int, j: int| #![trigger a2[u][j]] 0 <= u < ls.len() && 0 <= j < a2[u].len() implies a2[u][j] < ls.len() by { if u == u0 && j == a[u0].len() { } else { assert(a2[u][j] == a[u][j]); } }
}
pub proof fn lemma_built_next(ls: Seq<LayerNode>, a: Seq<Seq<usize>>, d: Seq<usize>, v0: int) requires 0 <= v0 < ls.len(), built(ls, a, d, v0, ilen(ls, v0)) ensures built(ls, a, d, v0 + 1, 0)
{
    assert forall|v: int| 0 <= v < ls.len() implies #[trigger] lim(ls, v, v0 + 1, 0) == lim(ls, v, v0, ilen(ls, v0)) by { }
    assert forall|u: int, v: int| #![trigger occ(a[u], v)] #![trigger cnt(ls, u, v, ilen(ls, v)), a[u]] 0 <= u < ls.len() && 0 <= v < ls.len() implies occ(a[u], v) == cnt(ls, u, v, lim(ls, v, v0 + 1, 0)) by { assert(lim(ls, v, v0 + 1, 0) == lim(ls, v, v0, ilen(ls, v0))); }
    assert forall|v: int| #![trigger d[v]] 0 <= v < ls.len() implies d[v] == tot(ls, Seq::empty(), v, lim(ls, v, v0 + 1, 0)) by { assert(lim(ls, v, v0 + 1, 0) == lim(ls, v, v0, ilen(ls, v0))); }
}
pub proof fn lemma_tot0(ls: Seq<LayerNode>, v: int) ensures tot(ls, Seq::empty(), v, 0) == 0, forall|u: int| cnt(ls, u, v, 0) == 0 { }
// ---- the work list ------------------------------------------------------------------------------
/// o: emitted, q: ready; r[v]: edges into v not yet released although their source is in o
pub open spec fn kahn(ls: Seq<LayerNode>, d: Seq<usize>, q: Seq<usize>, o: Seq<usize>, s: Seq<usize>, k: int) -> bool {
    let w = o + q;
    &&& d.len() == ls.len() && w.no_duplicates() && (forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i] < ls.len()) && tord(ls, o)
    &&& forall|v: int| #![trigger d[v]] 0 <= v < ls.len() ==> d[v] == tot(ls, o, v, ilen(ls, v)) + occ(s, v) - occ(s.take(k), v) && (d[v] == 0) == w.contains(v as usize)
}
pub open spec fn tord(ls: Seq<LayerNode>, o: Seq<usize>) -> bool {
    forall|j: int, u: int| #![trigger dep(ls, u, o[j] as int)] 0 <= j < o.len() && dep(ls, u, o[j] as int) ==> o.take(j).contains(u as usize)
}
pub proof fn lemma_pop(ls: Seq<LayerNode>, a: Seq<Seq<usize>>, d: Seq<usize>, x: usize, q: Seq<usize>, o: Seq<usize>)
    requires ls.len() <= usize::MAX, kahn(ls, d, seq![x] + q, o, Seq::empty(), 0), adj_ok(ls, a, ls.len() as int, 0)
    ensures x < ls.len(), kahn(ls, d, q, o.push(x), a[x as int], 0)
{
    let w = o + (seq![x] + q); let w2 = o.push(x) + q; let o2 = o.push(x);
    assert(w2 =~= w); assert(w[o.len() as int] == x); assert(w.contains(x));
    let e = Seq::<usize>::empty(); assert(e.take(0) =~= e);
    if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(w[i] == x); assert(w[i] == w[o.len() as int]); }
    assert(a[x as int].take(0) =~= e);
    assert(d[x as int] == 0);
    assert forall|v: int| #![trigger d[v]] 0 <= v < ls.len() implies d[v] == tot(ls, o2, v, ilen(ls, v)) + occ(a[x as int], v) - occ(a[x as int].take(0), v) && (d[v] == 0) == w2.contains(v as usize) by {
        lemma_tot_push(ls, o, x, v, ilen(ls, v)); assert(occ(a[x as int], v) == cnt(ls, x as int, v, lim(ls, v, ls.len() as int, 0)));
    }
    assert forall|j: int, u: int| #![trigger dep(ls, u, o2[j] as int)] 0 <= j < o2.len() && dep(ls, u, o2[j] as int) implies o2.take(j).contains(u as usize) by {
        if j < o.len() { assert(o2[j] == o[j]); assert(o2.take(j) =~= o.take(j)); assert(dep(ls, u, o[j] as int)); }
        else { assert(o2.take(j) =~= o); let i = choose|i: int| 0 <= i < ilen(ls, x as int) && #[trigger] feeds(ls, u, x as int, i); lemma_tot_zero(ls, o, x as int, ilen(ls, x as int), u, i); }
    }
}
pub proof fn lemma_release(ls: Seq<LayerNode>, d: Seq<usize>, q: Seq<usize>, o: Seq<usize>, s: Seq<usize>, k: int)
    requires ls.len() <= usize::MAX, kahn(ls, d, q, o, s, k), 0 <= k < s.len(), s[k] < ls.len()
    ensures d[s[k] as int] >= 1,
        d[s[k] as int] > 1 ==> kahn(ls, d.update(s[k] as int, (d[s[k] as int] - 1) as usize), q, o, s, k + 1),
        d[s[k] as int] == 1 ==> kahn(ls, d.update(s[k] as int, 0), q.push(s[k]), o, s, k + 1),
{
    let x = s[k] as int; let w = o + q;
    lemma_occ_take(s, k, x); lemma_occ_mono(s, k + 1, x); lemma_tot_bound(ls, o, x, ilen(ls, x));
    assert(d[x] >= 1); assert(!w.contains(s[k]));
    let d2 = d.update(x, (d[x] - 1) as usize);
    if d[x] > 1 {
        assert forall|v: int| #![trigger d2[v]] 0 <= v < ls.len() implies d2[v] == tot(ls, o, v, ilen(ls, v)) + occ(s, v) - occ(s.take(k + 1), v) && (d2[v] == 0) == w.contains(v as usize) by { lemma_occ_take(s, k, v); let y = d[v]; }
    } else {
        let w2 = o + q.push(s[k]); assert(w2 =~= w.push(s[k]));
        assert forall|i: int, j: int| 0 <= i < w2.len() && 0 <= j < w2.len() && i != j implies w2[i] != w2[j] by { if i < w.len() { assert(w.contains(w[i])); } if j < w.len() { assert(w.contains(w[j])); } }
        assert forall|v: int| #![trigger d2[v]] 0 <= v < ls.len() implies d2[v] == tot(ls, o, v, ilen(ls, v)) + occ(s, v) - occ(s.take(k + 1), v) && (d2[v] == 0) == w2.contains(v as usize) by {
            lemma_occ_take(s, k, v); let y = d[v];
            assert(w2[w.len() as int] == s[k]);
            if w.contains(v as usize) { let i = choose|i: int| 0 <= i < w.len() && w[i] == v as usize; assert(w2[i] == v as usize); }
            if w2.contains(v as usize) && v != x { let i = choose|i: int| 0 <= i < w2.len() && w2[i] == v as usize; assert(w[i] == v as usize); }
        }
        assert(d2 =~= d.update(x, 0));
    }
}
pub proof fn lemma_round(ls: Seq<LayerNode>, d: Seq<usize>, q: Seq<usize>, o: Seq<usize>, s: Seq<usize>) requires kahn(ls, d, q, o, s, s.len() as int) ensures kahn(ls, d, q, o, Seq::empty(), 0)
{ let e = Seq::<usize>::empty(); assert(s.take(s.len() as int) =~= s); assert(e.take(0) =~= e); }
pub proof fn lemma_kahn_len(ls: Seq<LayerNode>, d: Seq<usize>, q: Seq<usize>, o: Seq<usize>, s: Seq<usize>, k: int) requires kahn(ls, d, q, o, s, k), ls.len() <= usize::MAX ensures o.len() + q.len() <= ls.len()
{ let v = lemma_pigeon(o + q, ls.len() as int); }
pub proof fn lemma_done(ls: Seq<LayerNode>, d: Seq<usize>, q: Seq<usize>, o: Seq<usize>)
    requires ls.len() <= usize::MAX, kahn(ls, d, q, o, Seq::empty(), 0), q.len() == 0
    ensures o.len() == ls.len() ==> topo_ok(ls, o), o.len() != ls.len() ==> stuck(ls, o)
{
    assert(o + q =~= o); let e = Seq::<usize>::empty(); assert(e.take(0) =~= e);
    let v0 = lemma_pigeon(o, ls.len() as int);
    if o.len() == ls.len() {
        assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies o[i] < ls.len() by { assert((o + q)[i] == o[i]); }
        assert forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < o.len() && 0 <= j < o.len() && dep(ls, o[i] as int, o[j] as int) implies i < j by {
            assert(o.take(j).contains(o[i])); let p = choose|p: int| 0 <= p < j && o.take(j)[p] == o[i]; assert(o[p] == o[i]); }
    } else {
        assert forall|v: int| #![trigger out_of(o, v)] 0 <= v < ls.len() && out_of(o, v) implies exists|u: int| 0 <= u < ls.len() && #[trigger] out_of(o, u) && dep(ls, u, v) by {
            let y = d[v]; let u = lemma_tot_pos(ls, o, v, ilen(ls, v)); }
    }
}
/// the positions below k that hold zero, each once
pub open spec fn zeros(z: Seq<usize>, d: Seq<usize>, k: int) -> bool {
    z.no_duplicates() && (forall|i: int| #![trigger z[i]] 0 <= i < z.len() ==> z[i] < k) && (forall|v: int| #![trigger d[v]] 0 <= v < k ==> (d[v] == 0) == z.contains(v as usize))
}
pub proof fn lemma_zeros(z: Seq<usize>, d: Seq<usize>, k: int, x: usize) requires zeros(z, d, k), 0 <= k < d.len() <= usize::MAX, x == k ensures d[k] == 0 ==> zeros(z.push(x), d, k + 1), d[k] != 0 ==> zeros(z, d, k + 1)
{
    let z2 = z.push(x); assert(z2[z.len() as int] == x);
    assert forall|v: int| #![trigger d[v]] 0 <= v < k implies z2.contains(v as usize) == z.contains(v as usize) by {
        if z.contains(v as usize) { let i = choose|i: int| 0 <= i < z.len() && z[i] == v as usize; assert(z2[i] == v as usize); }
        if z2.contains(v as usize) { let i = choose|i: int| 0 <= i < z2.len() && z2[i] == v as usize; assert(z[i] == v as usize); } }
    if z.contains(x) { let i = choose|i: int| 0 <= i < z.len() && z[i] == x; assert(z[i] < k); }
    if d[k] == 0 { assert(zeros(z2, d, k + 1)); }
}
pub open spec fn hpop(x: usize, q: Seq<usize>) -> bool { true }
/// kahn for a queue known only through its front and rest
pub open spec fn kready(ls: Seq<LayerNode>, d: Seq<usize>, q0: Seq<usize>, o: Seq<usize>) -> bool {
    forall|x: usize, q: Seq<usize>| #![trigger hpop(x, q)] q0 =~= seq![x] + q ==> kahn(ls, d, seq![x] + q, o, Seq::empty(), 0)
}

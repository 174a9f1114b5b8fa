%%raw
global size_of usize == 8;
// ---- opaque error value: all error messages are dropped by the extraction -------------------
pub struct VErr { pub tag: u8 }
pub fn vx_err() -> (e: VErr) { VErr { tag: 0 } }
pub fn vx_ok_or<T>(o: Option<T>) -> (r: Result<T, VErr>)
    ensures match o { Some(v) => r == Ok::<T, VErr>(v), None => r is Err }
{ match o { Some(v) => Ok(v), None => Err(vx_err()) } }
pub fn vx_map_err<T, E>(o: Result<T, E>) -> (r: Result<T, VErr>)
    ensures match o { Ok(v) => r == Ok::<T, VErr>(v), Err(_) => r is Err }
{ match o { Ok(v) => Ok(v), Err(_) => Err(vx_err()) } }
pub trait VxCtx<T> : Sized {
    spec fn ctx_ok(self) -> Option<T>;
    fn vx_ctx(self) -> (r: Result<T, VErr>)
        ensures (r is Ok) == (self.ctx_ok() is Some), r is Ok ==> self.ctx_ok() == Some(r->Ok_0);
}
impl<T> VxCtx<T> for Option<T> {
    open spec fn ctx_ok(self) -> Option<T> { self }
    fn vx_ctx(self) -> (r: Result<T, VErr>) { match self { Some(v) => Ok(v), None => Err(vx_err()) } }
}
impl<T, E> VxCtx<T> for Result<T, E> {
    open spec fn ctx_ok(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn vx_ctx(self) -> (r: Result<T, VErr>) { match self { Ok(v) => Ok(v), Err(_) => Err(vx_err()) } }
}
/// `x.iter()` / `&x[..]`: the elements of a vector, array or slice, in order
pub trait VxSrc<T> { spec fn sv(&self) -> Seq<T>; fn vx_s(&self) -> (r: &[T]) ensures r@ == self.sv(); }
impl<T> VxSrc<T> for Vec<T> { open spec fn sv(&self) -> Seq<T> { self@ } fn vx_s(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VxSrc<T> for [T] { open spec fn sv(&self) -> Seq<T> { self@ } fn vx_s(&self) -> (r: &[T]) { self } }
impl<T, const N: usize> VxSrc<T> for [T; N] { open spec fn sv(&self) -> Seq<T> { self@ } fn vx_s(&self) -> (r: &[T]) { self.as_slice() } }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { panic!() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r.iv() == if a.iv() < b.iv() { b.iv() } else { a.iv() } , r == a || r == b { if a.lt_(b) { b } else { a } }
pub trait VxOrd : Sized + Copy { spec fn iv(self) -> int; fn lt_(self, o: Self) -> (r: bool) ensures r == (self.iv() < o.iv()); }
impl VxOrd for usize { open spec fn iv(self) -> int { self as int } fn lt_(self, o: usize) -> (r: bool) { self < o } }
impl VxOrd for i64 { open spec fn iv(self) -> int { self as int } fn lt_(self, o: i64) -> (r: bool) { self < o } }
pub fn vx_clamp<T: VxOrd>(a: T, lo: T, hi: T) -> (r: T) requires lo.iv() <= hi.iv()
    ensures r == (if a.iv() < lo.iv() { lo } else if hi.iv() < a.iv() { hi } else { a }) { if a.lt_(lo) { lo } else if hi.lt_(a) { hi } else { a } }
pub fn vx_vec_new<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() }
pub open spec fn rep<T>(v: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| v) }
pub fn vx_vec_repeat<T: Copy>(v: T, n: usize) -> (r: Vec<T>)
    ensures r@ == rep(v, n as nat)
{
    let mut out: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < n invariant i <= n, out@.len() == i, forall|j: int| 0 <= j < i ==> out@[j] == v decreases n - i
    { out.push(v); i = i + 1; }
    proof { assert(out@ =~= rep(v, n as nat)); }
    out
}
pub fn vx_empty_vecs<T>(n: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| #![trigger r@[i]] 0 <= i < n ==> r@[i]@ == Seq::<T>::empty()
{
    let mut out: Vec<Vec<T>> = Vec::new();
    let mut i = 0usize;
    while i < n invariant i <= n, out@.len() == i, forall|j: int| #![trigger out@[j]] 0 <= j < i ==> out@[j]@ == Seq::<T>::empty() decreases n - i
    { let v: Vec<T> = Vec::new(); proof { assert(v@ =~= Seq::<T>::empty()); } out.push(v); i = i + 1; }
    out
}
pub fn vx_deque<T: Copy>(v: Vec<T>) -> (r: std::collections::VecDeque<T>) ensures r@ == v@
{
    let mut out: std::collections::VecDeque<T> = std::collections::VecDeque::new();
    let mut i = 0usize;
    while i < v.len() invariant i <= v@.len(), out@ == v@.take(i as int) decreases v@.len() - i
    { out.push_back(v[i]); i = i + 1; proof { assert(v@.take(i as int) =~= v@.take(i as int - 1).push(v@[i as int - 1])); } }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
pub open spec fn vx_p20<A, B>(t: (A, B)) -> A { t.0 }
pub open spec fn vx_p21<A, B>(t: (A, B)) -> B { t.1 }
pub open spec fn vx_veq<A: View>(a: A, v: A::V) -> bool { a@ == v }
pub open spec fn hint(b: bool) -> bool { true }
// ---- products and sums ------------------------------------------------------------------------
pub open spec fn prod(s: Seq<usize>) -> int decreases s.len()
{ if s.len() == 0 { 1 } else { prod(s.drop_last()) * (s.last() as int) } }
/// product with zero factors read as one: bounds every intermediate product
pub open spec fn prod1(s: Seq<usize>) -> int decreases s.len()
{ if s.len() == 0 { 1 } else { prod1(s.drop_last()) * (if s.last() == 0 { 1int } else { s.last() as int }) } }
pub open spec fn ssum(s: Seq<usize>) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { ssum(s.drop_last()) + s.last() as int } }
pub proof fn lemma_prod1_pos(s: Seq<usize>) ensures prod1(s) >= 1, 0 <= prod(s) <= prod1(s) decreases s.len()
{
    if s.len() > 0 {
        lemma_prod1_pos(s.drop_last());
        let a = prod1(s.drop_last()); let p = prod(s.drop_last()); let l = s.last() as int;
        if l == 0 { assert(p * 0 == 0); } else {
            assert(a * l >= 1) by(nonlinear_arith) requires a >= 1, l >= 1;
            assert(0 <= p * l <= a * l) by(nonlinear_arith) requires 0 <= p <= a, l >= 1;
        }
    }
}
pub proof fn lemma_prod1_mono(s: Seq<usize>, k: int) requires 0 <= k <= s.len() ensures prod1(s.take(k)) <= prod1(s) decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); } else {
        lemma_prod1_mono(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
        lemma_prod1_pos(s.drop_last());
        let a = prod1(s.drop_last()); let l = if s.last() == 0 { 1int } else { s.last() as int };
        assert(a <= a * l) by(nonlinear_arith) requires a >= 1, l >= 1;
    }
}
pub proof fn lemma_sum_mono(s: Seq<usize>, k: int) requires 0 <= k <= s.len() ensures 0 <= ssum(s.take(k)) <= ssum(s) decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); if s.len() > 0 { lemma_sum_mono(s.drop_last(), s.len() - 1); assert(s.drop_last().take(s.len() - 1) =~= s.drop_last()); } } else {
        lemma_sum_mono(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    }
}
pub fn vx_product(s: &[usize]) -> (r: usize)
    requires prod1(s@) <= usize::MAX
    ensures r == prod(s@)
{
    let mut acc: usize = 1;
    let mut i = 0usize;
    proof { assert(s@.take(0) =~= Seq::<usize>::empty()); }
    while i < s.len()
        invariant i <= s.len(), acc == prod(s@.take(i as int)), prod1(s@) <= usize::MAX
        decreases s.len() - i
    {
        proof {
            let t = s@.take(i as int + 1);
            assert(t.drop_last() =~= s@.take(i as int));
            lemma_prod1_mono(s@, i as int + 1);
            lemma_prod1_pos(t);
        }
        acc = acc * s[i];
        i = i + 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    acc
}
pub fn vx_sum(s: &[usize]) -> (r: usize)
    requires ssum(s@) <= usize::MAX
    ensures r == ssum(s@)
{
    let mut acc: usize = 0;
    let mut i = 0usize;
    proof { assert(s@.take(0) =~= Seq::<usize>::empty()); }
    while i < s.len()
        invariant i <= s.len(), acc == ssum(s@.take(i as int)), ssum(s@) <= usize::MAX
        decreases s.len() - i
    {
        proof {
            let t = s@.take(i as int + 1);
            assert(t.drop_last() =~= s@.take(i as int));
            lemma_sum_mono(s@, i as int + 1);
        }
        acc = acc + s[i];
        i = i + 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    acc
}
/// `o.as_deref()` on an optional vector
pub trait VxAsDeref { type O: ?Sized; spec fn adr(&self, r: Option<&Self::O>) -> bool; fn vx_as_deref(&self) -> (r: Option<&Self::O>) ensures self.adr(r); }
impl<T> VxAsDeref for Option<Vec<T>> {
    type O = [T];
    open spec fn adr(&self, r: Option<&[T]>) -> bool { match *self { Some(v) => r is Some && r->Some_0@ == v@, None => r is None } }
    fn vx_as_deref(&self) -> (r: Option<&[T]>) { match self { Some(v) => Some(v.as_slice()), None => None } }
}
impl VxAsDeref for Option<String> {
    type O = str;
    open spec fn adr(&self, r: Option<&str>) -> bool { match *self { Some(v) => r is Some && r->Some_0@ == v@, None => r is None } }
    fn vx_as_deref(&self) -> (r: Option<&str>) { match self { Some(v) => Some(v.as_str()), None => None } }
}
/// `iter().max()`: some greatest element, none of an empty sequence
pub fn vx_seq_max<T: VxOrd>(s: &[T]) -> (r: Option<T>)
    ensures match r { None => s@.len() == 0, Some(v) => (exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && s@[i] == v) && forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> s@[i].iv() <= v.iv() }
{
    if s.len() == 0 { return None; }
    let mut m = s[0];
    let mut i = 1usize;
    while i < s.len()
        invariant 1 <= i <= s@.len(), exists|j: int| #![trigger s@[j]] 0 <= j < i && s@[j] == m, forall|j: int| #![trigger s@[j]] 0 <= j < i ==> s@[j].iv() <= m.iv()
        decreases s@.len() - i
    { if m.lt_(s[i]) { m = s[i]; } i = i + 1; }
    Some(m)
}
// ---- assumed contracts on the standard library (not provided by vstd) --------------------------
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]),
        (forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> s@[i] == r@[i]) ==> r@ == s@;
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b != 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> (r == exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s@[i], x));
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == (a as int) % (b as int);
pub assume_specification [i64::signum] (a: i64) -> (r: i64) ensures r == (if a < 0 { -1int } else if a == 0 { 0 } else { 1 });
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b });

%%type f64::MAX => vx_f64_max()
%%type f64::INFINITY => vx_f64_inf()
%%type f64::consts::LOG2_10 => vx_log2_10()
%%type f64 => VF
%%type f32 => VF
%%raw
// ---- floating point as exact real numbers ---------------------------------------------------------
// `VF` stands for f32/f64; `r()` is its value.  Arithmetic is exact (rounding is NOT modelled) and every
// value that is not the result of `f64::INFINITY` is finite: both are stated assumptions of the units using it.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VF { f: f64 }
pub type Fl64 = VF;
pub open spec fn vfin(x: VF) -> bool { x.fin() }
pub open spec fn vr_of(x: VF) -> real { x.r() }
pub open spec fn rdiv(a: real, b: real) -> real { a / b }
pub open spec fn rmul(a: real, b: real) -> real { a * b }
pub open spec fn vr_abs(x: real) -> real { if x < 0real { -x } else { x } }
pub uninterp spec fn vr_sqrt(x: real) -> real;
pub uninterp spec fn vr_exp(x: real) -> real;
pub uninterp spec fn vr_ln(x: real) -> real;
pub uninterp spec fn vr_pow(x: real, y: real) -> real;
pub uninterp spec fn vr_powi(x: real, e: int) -> real;
pub uninterp spec fn vr_log2(x: real) -> real;
pub uninterp spec fn vr_ceil(x: real) -> int;
/// nearest integer, halves away from zero
pub open spec fn vr_round(x: real) -> int { if x >= 0real { -vr_ceil(-x - 1real / 2real) } else { vr_ceil(x - 1real / 2real) } }
pub broadcast axiom fn ax_ceil(x: real) ensures (#[trigger] vr_ceil(x)) as real >= x, (vr_ceil(x) as real) < x + 1real;
pub uninterp spec fn f64max() -> real;
pub open spec fn p2(k: int) -> real decreases k { if k <= 0 { 1real } else { 2real * p2(k - 1) } }
/// log2 inverts the power of two, is monotone, and is at most 1024 on finite doubles
pub axiom fn ax_log2(x: real, k: int) requires x > 0real ensures x <= f64max() ==> vr_log2(x) <= 1024real, x > 1real ==> vr_log2(x) > 0real, k >= 0 && vr_log2(x) <= k as real ==> x <= p2(k);
impl VF {
    pub uninterp spec fn r(self) -> real;
    /// the value is a finite number
    pub uninterp spec fn fin(self) -> bool;
    #[verifier::external_body] pub fn abs(self) -> (q: VF) ensures q.r() == vr_abs(self.r()), q.fin() == self.fin() { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: VF) -> (q: VF) ensures q.r() == (if self.r() < o.r() { o.r() } else { self.r() }), q == self || q == o { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: VF) -> (q: VF) ensures q.r() == (if self.r() > o.r() { o.r() } else { self.r() }), q == self || q == o { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (q: VF) ensures q.r() == vr_sqrt(self.r()), self.fin() && self.r() >= 0real ==> q.fin() { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (q: VF) ensures q.r() == vr_exp(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (q: VF) ensures q.r() == vr_ln(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, e: VF) -> (q: VF) ensures q.r() == vr_pow(self.r(), e.r()) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, e: i32) -> (q: VF) ensures q.r() == vr_powi(self.r(), e as int) { unimplemented!() }
    #[verifier::external_body] pub fn log2(self) -> (q: VF) ensures q.r() == vr_log2(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (q: VF) ensures q.r() == toi(vr_ceil(self.r())) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (q: VF) ensures q.r() == toi(-vr_ceil(-self.r())) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (q: VF) ensures q.r() == toi(vr_round(self.r())) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (q: bool) ensures q == self.fin() { unimplemented!() }
}
impl core::ops::Add for VF { type Output = VF; #[verifier::external_body] fn add(self, o: VF) -> (r: VF) ensures r.r() == self.r() + o.r(), self.fin() && o.fin() ==> r.fin() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for VF { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: VF) -> bool { true } uninterp spec fn add_spec(self, o: VF) -> VF; }
impl core::ops::Sub for VF { type Output = VF; #[verifier::external_body] fn sub(self, o: VF) -> (r: VF) ensures r.r() == self.r() - o.r(), self.fin() && o.fin() ==> r.fin() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for VF { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: VF) -> bool { true } uninterp spec fn sub_spec(self, o: VF) -> VF; }
impl core::ops::Mul for VF { type Output = VF; #[verifier::external_body] fn mul(self, o: VF) -> (r: VF) ensures r.r() == rmul(self.r(), o.r()), self.fin() && o.fin() ==> r.fin() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for VF { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: VF) -> bool { true } uninterp spec fn mul_spec(self, o: VF) -> VF; }
impl core::ops::Div for VF { type Output = VF; #[verifier::external_body] fn div(self, o: VF) -> (r: VF) ensures o.r() != 0real ==> r.r() == rdiv(self.r(), o.r()), self.fin() && o.fin() && o.r() != 0real ==> r.fin() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for VF { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: VF) -> bool { true } uninterp spec fn div_spec(self, o: VF) -> VF; }
impl core::cmp::PartialEq for VF { #[verifier::external_body] fn eq(&self, o: &VF) -> (r: bool) ensures r == (self.r() == o.r()) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for VF { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &VF) -> bool { self.r() == o.r() } }
impl core::cmp::PartialOrd for VF { #[verifier::external_body] fn partial_cmp(&self, o: &VF) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for VF { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &VF) -> Option<core::cmp::Ordering> { if self.r() < o.r() { Some(core::cmp::Ordering::Less) } else if self.r() == o.r() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } } }
#[verifier::external_body] pub fn vx_lit(n: i64, d: i64) -> (q: VF) requires d > 0 ensures q.r() * (d as real) == n as real, d == 1 ==> q.r() == n as real, q.fin() { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_inf() -> (q: VF) ensures !q.fin() { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_max() -> (q: VF) ensures q.fin(), q.r() > 0real, q.r() == f64max() { unimplemented!() }
/// `x as f64`, `x as f32` (from integers: rounding of large integers is not modelled; f32 to f64 is exact)
pub trait VxToF { spec fn tr(self) -> real; }
impl VxToF for VF { open spec fn tr(self) -> real { self.r() } }
impl VxToF for i64 { open spec fn tr(self) -> real { self as real } }
impl VxToF for u64 { open spec fn tr(self) -> real { self as real } }
impl VxToF for u32 { open spec fn tr(self) -> real { self as real } }
impl VxToF for usize { open spec fn tr(self) -> real { self as real } }
#[verifier::external_body] pub fn vx_to_f64<T: VxToF>(x: T) -> (q: VF) ensures q.r() == x.tr(), q.fin() { unimplemented!() }
#[verifier::external_body] pub fn vx_to_f32<T: VxToF>(x: T) -> (q: VF) ensures q.r() == x.tr() { unimplemented!() }
/// `x as usize` etc. of a whole number: saturates at the limits of the type
pub open spec fn toi(k: int) -> real { k as real }
#[verifier::external_body] pub fn vx_ftoi_usize(x: VF) -> (q: usize) ensures forall|k: int| #![trigger toi(k)] x.r() == toi(k) ==> q == (if k < usize::MIN { usize::MIN as int } else if k > usize::MAX { usize::MAX as int } else { k }) { unimplemented!() }
#[verifier::external_body] pub fn vx_ftoi_u32(x: VF) -> (q: u32) ensures forall|k: int| #![trigger toi(k)] x.r() == toi(k) ==> q == (if k < u32::MIN { u32::MIN as int } else if k > u32::MAX { u32::MAX as int } else { k }) { unimplemented!() }
#[verifier::external_body] pub fn vx_ftoi_i64(x: VF) -> (q: i64) ensures forall|k: int| #![trigger toi(k)] x.r() == toi(k) ==> q == (if k < i64::MIN { i64::MIN as int } else if k > i64::MAX { i64::MAX as int } else { k }) { unimplemented!() }
// ---- sequences of reals --------------------------------------------------------------------------
pub open spec fn rs(s: Seq<VF>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].r()) }
pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
pub open spec fn rabs(s: Seq<real>) -> Seq<real> { Seq::new(s.len(), |i: int| vr_abs(s[i])) }
/// sum of absolute values
pub open spec fn l1n(s: Seq<real>) -> real { rsum(rabs(s)) }
/// inner product
pub open spec fn dot(w: Seq<real>, x: Seq<real>) -> real decreases w.len() { if w.len() == 0 || x.len() != w.len() { 0real } else { dot(w.drop_last(), x.drop_last()) + w.last() * x.last() } }
pub open spec fn within(x: Seq<real>, m: real) -> bool { forall|i: int| #![trigger x[i]] 0 <= i < x.len() ==> -m <= x[i] <= m }
#[verifier::external_body] pub fn vx_fsum(s: &[VF]) -> (q: VF) ensures q.r() == rsum(rs(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmax_fold(i: VF, s: &[VF]) -> (q: VF)
    ensures q.r() >= i.r(), forall|j: int| #![trigger s@[j]] 0 <= j < s@.len() ==> s@[j].r() <= q.r(), q == i || exists|j: int| #![trigger s@[j]] 0 <= j < s@.len() && q == s@[j] { unimplemented!() }
/// `fold(init, f64::min)`; an infinite start value is below nothing
#[verifier::external_body] pub fn vx_fmin_fold(i: VF, s: &[VF]) -> (q: VF)
    ensures i.fin() ==> q.r() <= i.r(), (i.fin() || s@.len() > 0) ==> forall|j: int| #![trigger s@[j]] 0 <= j < s@.len() ==> q.r() <= s@[j].r(),
        (q == i && (i.fin() || s@.len() == 0)) || exists|j: int| #![trigger s@[j]] 0 <= j < s@.len() && q == s@[j] { unimplemented!() }
/// `iter().skip(k).step_by(n)`
pub open spec fn stride(k: int, n: int, j: int) -> int { k + j * n }
#[verifier::external_body] pub fn vx_skip_step(s: &[VF], k: usize, n: usize) -> (q: Vec<VF>)
    requires n > 0
    ensures q@.len() == (if k >= s@.len() { 0int } else { (s@.len() - k - 1) / n as int + 1 }), forall|j: int| #![trigger q@[j]] 0 <= j < q@.len() ==> 0 <= stride(k as int, n as int, j) < s@.len() && q@[j] == s@[stride(k as int, n as int, j)] { unimplemented!() }
pub broadcast proof fn lemma_l1_sub(s: Seq<real>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures #[trigger] l1n(s.subrange(a, b)) <= l1n(s)
{ lemma_l1_take(s, b); lemma_l1_skip(s.take(b), a); assert(s.subrange(a, b) =~= s.take(b).skip(a)); }
pub proof fn lemma_l1_nonneg(s: Seq<real>) ensures l1n(s) >= 0real decreases s.len()
{ if s.len() > 0 { lemma_l1_nonneg(s.drop_last()); assert(rabs(s).drop_last() =~= rabs(s.drop_last())); } }
pub proof fn lemma_l1_push(s: Seq<real>) requires s.len() > 0 ensures l1n(s) == l1n(s.drop_last()) + vr_abs(s.last())
{ assert(rabs(s).drop_last() =~= rabs(s.drop_last())); }
/// |<w, x>| <= |w|_1 * m for every x within m
pub proof fn lemma_dot(w: Seq<real>, x: Seq<real>, m: real)
    requires x.len() == w.len(), within(x, m), m >= 0real ensures -(l1n(w) * m) <= dot(w, x) <= l1n(w) * m decreases w.len()
{
    if w.len() == 0 { assert(rabs(w) =~= Seq::empty()); assert(l1n(w) * m == 0real) by(nonlinear_arith) requires l1n(w) == 0real; } else {
        lemma_dot(w.drop_last(), x.drop_last(), m);
        lemma_l1_push(w);
        let a = l1n(w.drop_last()); let b = vr_abs(w.last()); let v = w.last(); let y = x.last();
        assert((a + b) * m == a * m + b * m) by(nonlinear_arith);
        assert(-m <= x[x.len() - 1] <= m);
        assert(-(b * m) <= v * y <= b * m) by(nonlinear_arith) requires -m <= y <= m, b == (if v < 0real { -v } else { v }), m >= 0real;
    }
}
/// a part of a row weighs no more than the row
pub proof fn lemma_l1_take(s: Seq<real>, k: int) requires 0 <= k <= s.len() ensures l1n(s.take(k)) <= l1n(s) decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); } else { lemma_l1_take(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); lemma_l1_push(s); }
}
pub proof fn lemma_l1_skip(s: Seq<real>, k: int) requires 0 <= k <= s.len() ensures l1n(s.skip(k)) <= l1n(s) decreases s.len()
{
    if k == s.len() { assert(s.skip(k) =~= Seq::empty()); assert(rabs(s.skip(k)) =~= Seq::empty()); lemma_l1_nonneg(s); } else { lemma_l1_skip(s.drop_last(), k); assert(s.skip(k).drop_last() =~= s.drop_last().skip(k)); lemma_l1_push(s); lemma_l1_push(s.skip(k)); }
}

%%include prelude.vc
%%set shl 1
%%set errs 1
%%type U256::ONE => U256::new(1)
%%type CircuitField::<C>::MODULUS => CircuitField::<C>::modulus()
%%type ethnum::U256 => U256
%%raw
// ---- circuits: the model of the front end (expander_compiler) that the gadget contracts rest on ---------
// A circuit under construction is read under one fixed, arbitrary assignment of its variables: `val(v)` is
// the field element assigned to `v`, `ok()` says that the assignment satisfies every constraint emitted so
// far. A gadget is sound when `ok()` afterwards forces the specified relation whatever the hints returned,
// and complete when, with hints computed as specified (`honest()`), `ok()` is kept.
pub uninterp spec fn P() -> int;
/// the field is prime: the only zero divisors are zero
pub broadcast axiom fn prime() ensures #[trigger] P() > 2;
pub axiom fn no_zero_div(a: int, b: int) ensures (a * b) % P() == 0 ==> a % P() == 0 || b % P() == 0;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Variable { pub id: usize }
pub uninterp spec fn val(v: Variable) -> int;
pub broadcast axiom fn val_range(v: Variable) ensures 0 <= #[trigger] val(v) < P();
/// the signed integer a field element stands for
pub open spec fn sgn(x: int) -> int { if 2 * x < P() { x } else { x - P() } }
pub open spec fn sval(v: Variable) -> int { sgn(val(v)) }
pub uninterp spec fn honest() -> bool;
pub uninterp spec fn lucky() -> bool;
pub trait Config : Sized { }
#[verifier::external_body]
#[verifier::accept_recursive_types(C)]
pub struct CircuitField<C: Config> { p: core::marker::PhantomData<C> }
impl<C: Config> View for CircuitField<C> { type V = int; uninterp spec fn view(&self) -> int; }
impl<C: Config> Clone for CircuitField<C> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { loop { } } }
impl<C: Config> Copy for CircuitField<C> { }
impl<C: Config> CircuitField<C> {
    #[verifier::external_body] pub fn from_u256(x: U256) -> (r: Self) ensures r@ == x@ % P() { loop { } }
    #[verifier::external_body] pub fn modulus() -> (r: U256) ensures r@ == P() { loop { } }
}
/// assumed contract on the crate ethnum: 256-bit unsigned integers
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U256 { p: [u64; 4] }
impl View for U256 { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn u256(x: int) -> U256;
pub open spec fn u256_top() -> int { pow2(256) as int }
pub broadcast axiom fn u256_val(x: int) ensures 0 <= x < u256_top() ==> (#[trigger] u256(x))@ == x;
pub broadcast axiom fn u256_range(x: U256) ensures 0 <= #[trigger] x@ < u256_top();
pub trait VxU : Sized { spec fn uv(self) -> int; }
impl VxU for u32 { open spec fn uv(self) -> int { self as int } }
impl VxU for u64 { open spec fn uv(self) -> int { self as int } }
impl VxU for usize { open spec fn uv(self) -> int { self as int } }
impl VxU for u128 { open spec fn uv(self) -> int { self as int } }
impl U256 {
    #[verifier::external_body] pub fn new(x: u128) -> (r: U256) ensures r@ == x { loop { } }
    #[verifier::external_body] pub fn from<T: VxU>(x: T) -> (r: U256) ensures r@ == x.uv() { loop { } }
    #[verifier::external_body] pub fn pow(self, e: u32) -> (r: U256) requires self@ == 2, e < 256 ensures r@ == pow2(e as nat) { loop { } }
    #[verifier::external_body] pub fn as_u32(self) -> (r: u32) ensures r == (self@ % 0x1_0000_0000) { loop { } }
    #[verifier::external_body] pub fn as_usize(self) -> (r: usize) ensures self@ <= usize::MAX ==> r == self@ { loop { } }
}
impl vstd::std_specs::ops::MulSpecImpl<U256> for U256 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: U256) -> bool { self@ * rhs@ < u256_top() }
    open spec fn mul_spec(self, rhs: U256) -> U256 { u256(self@ * rhs@) }
}
impl core::ops::Mul<U256> for U256 { type Output = U256; #[verifier::external_body] fn mul(self, rhs: U256) -> (r: U256) { loop { } } }
impl vstd::std_specs::ops::SubSpecImpl<U256> for U256 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: U256) -> bool { self@ >= rhs@ }
    open spec fn sub_spec(self, rhs: U256) -> U256 { u256(self@ - rhs@) }
}
impl core::ops::Sub<U256> for U256 { type Output = U256; #[verifier::external_body] fn sub(self, rhs: U256) -> (r: U256) { loop { } } }
impl vstd::std_specs::ops::RemSpecImpl<U256> for U256 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: U256) -> bool { rhs@ > 0 }
    open spec fn rem_spec(self, rhs: U256) -> U256 { u256(self@ % rhs@) }
}
impl core::ops::Rem<U256> for U256 { type Output = U256; #[verifier::external_body] fn rem(self, rhs: U256) -> (r: U256) { loop { } } }
impl vstd::std_specs::ops::DivSpecImpl<U256> for U256 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: U256) -> bool { rhs@ > 0 }
    open spec fn div_spec(self, rhs: U256) -> U256 { u256(self@ / rhs@) }
}
impl core::ops::Div<U256> for U256 { type Output = U256; #[verifier::external_body] fn div(self, rhs: U256) -> (r: U256) { loop { } } }
impl vstd::std_specs::ops::DivSpecImpl<u32> for U256 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: u32) -> bool { rhs > 0 }
    open spec fn div_spec(self, rhs: u32) -> U256 { u256(self@ / (rhs as int)) }
}
impl core::ops::Div<u32> for U256 { type Output = U256; #[verifier::external_body] fn div(self, rhs: u32) -> (r: U256) { loop { } } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for U256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &U256) -> bool { self@ == other@ }
}
impl core::cmp::PartialEq for U256 { #[verifier::external_body] fn eq(&self, other: &U256) -> (r: bool) { loop { } } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U256 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &U256) -> Option<core::cmp::Ordering> { if self@ < other@ { Some(core::cmp::Ordering::Less) } else if self@ > other@ { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } }
}
impl core::cmp::PartialOrd for U256 { #[verifier::external_body] fn partial_cmp(&self, other: &U256) -> (r: Option<core::cmp::Ordering>) { loop { } } }
pub open spec fn shlv(a: int, b: int) -> int { if a == 1 { pow2(b as nat) as int } else { a * pow2(b as nat) } }
/// `a << b` where nothing is shifted out
pub trait VxShl : Sized { spec fn hv(self) -> int; spec fn htop() -> int; spec fn hbits() -> int;
    fn shl_(self, b: u32) -> (r: Self) requires b < Self::hbits(), shlv(self.hv(), b as int) < Self::htop() ensures r.hv() == shlv(self.hv(), b as int); }
impl VxShl for u32 { open spec fn hv(self) -> int { self as int } open spec fn htop() -> int { 0x1_0000_0000 } open spec fn hbits() -> int { 32 }
    fn shl_(self, b: u32) -> (r: u32) { proof { vstd::bits::lemma_u32_shl_is_mul(self, b); } self << b } }
impl VxShl for i32 { open spec fn hv(self) -> int { self as int } open spec fn htop() -> int { 0x8000_0000 } open spec fn hbits() -> int { 32 }
    #[verifier::external_body] fn shl_(self, b: u32) -> (r: i32) { self << b } }
impl VxShl for u64 { open spec fn hv(self) -> int { self as int } open spec fn htop() -> int { u64::MAX as int + 1 } open spec fn hbits() -> int { 64 }
    fn shl_(self, b: u32) -> (r: u64) { proof { vstd::bits::lemma_u64_shl_is_mul(self, b as u64); } self << b } }
impl VxShl for usize { open spec fn hv(self) -> int { self as int } open spec fn htop() -> int { u64::MAX as int + 1 } open spec fn hbits() -> int { 64 }
    #[verifier::external_body] fn shl_(self, b: u32) -> (r: usize) { self << b } }
impl VxShl for i64 { open spec fn hv(self) -> int { self as int } open spec fn htop() -> int { i64::MAX as int + 1 } open spec fn hbits() -> int { 64 }
    #[verifier::external_body] fn shl_(self, b: u32) -> (r: i64) { self << b } }
impl VxShl for u128 { open spec fn hv(self) -> int { self as int } open spec fn htop() -> int { u128::MAX as int + 1 } open spec fn hbits() -> int { 128 }
    #[verifier::external_body] fn shl_(self, b: u32) -> (r: u128) { self << b } }
impl VxShl for U256 { open spec fn hv(self) -> int { self@ } open spec fn htop() -> int { u256_top() } open spec fn hbits() -> int { 256 }
    #[verifier::external_body] fn shl_(self, b: u32) -> (r: U256) { loop { } } }
pub trait VxSh : Sized { spec fn sv_(self) -> int; fn to_(self) -> (r: u32) requires 0 <= self.sv_() < 256 ensures r == self.sv_(); }
impl VxSh for u32 { open spec fn sv_(self) -> int { self as int } fn to_(self) -> (r: u32) { self } }
impl VxSh for usize { open spec fn sv_(self) -> int { self as int } fn to_(self) -> (r: u32) { self as u32 } }
pub fn vx_shl<T: VxShl, B: VxSh>(a: T, b: B) -> (r: T) requires 0 <= b.sv_() < 256, b.sv_() < T::hbits(), shlv(a.hv(), b.sv_()) < T::htop() ensures r.hv() == shlv(a.hv(), b.sv_())
{ a.shl_(b.to_()) }
/// what may stand as an operand of a circuit operation
pub trait TV : Sized { spec fn tv(self) -> int; }
impl TV for Variable { open spec fn tv(self) -> int { val(self) } }
impl TV for &Variable { open spec fn tv(self) -> int { val(*self) } }
impl TV for u32 { open spec fn tv(self) -> int { self as int % P() } }
impl<C: Config> TV for CircuitField<C> { open spec fn tv(self) -> int { self@ } }
/// product in the field
pub open spec fn mulp(a: int, b: int) -> int { (a * b) % P() }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn vals(s: Seq<Variable>) -> Seq<int> { Seq::new(s.len(), |i: int| val(s[i])) }
/// the output of a registered hint, as field elements
pub uninterp spec fn hint_out(key: Seq<char>, ins: Seq<int>, n: nat) -> Seq<int>;
pub trait RootAPI<C: Config> : Sized {
    spec fn ok(&self) -> bool;
    fn constant<X: TV>(&mut self, x: X) -> (r: Variable) ensures final(self).ok() == old(self).ok(), val(r) == x.tv();
    fn add<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), val(r) == (x.tv() + y.tv()) % P();
    fn sub<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), val(r) == (x.tv() - y.tv()) % P();
    fn mul<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), val(r) == mulp(x.tv(), y.tv());
    fn assert_is_bool<X: TV>(&mut self, x: X) ensures final(self).ok() == (old(self).ok() && (x.tv() == 0 || x.tv() == 1));
    fn assert_is_zero<X: TV>(&mut self, x: X) ensures final(self).ok() == (old(self).ok() && x.tv() == 0);
    fn assert_is_equal<X: TV, Y: TV>(&mut self, x: X, y: Y) ensures final(self).ok() == (old(self).ok() && x.tv() == y.tv());
    fn get_random_value(&mut self) -> (r: Variable) ensures final(self).ok() == old(self).ok();
    fn new_hint(&mut self, key: &str, inputs: &[Variable], num_outputs: usize) -> (r: Vec<Variable>) ensures final(self).ok() == old(self).ok(), r@.len() == num_outputs, honest() ==> vals(r@) == hint_out(key@, vals(inputs@), num_outputs as nat);
    fn unconstrained_int_div<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() && y.tv() != 0 ==> val(r) == x.tv() / y.tv();
    fn unconstrained_mod<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() && y.tv() != 0 ==> val(r) == x.tv() % y.tv();
    fn unconstrained_greater_eq<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() ==> val(r) == b2i(x.tv() >= y.tv());
    fn unconstrained_greater<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() ==> val(r) == b2i(x.tv() > y.tv());
    fn unconstrained_lesser_eq<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() ==> val(r) == b2i(x.tv() <= y.tv());
    fn unconstrained_lesser<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() ==> val(r) == b2i(x.tv() < y.tv());
    fn unconstrained_add<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() ==> val(r) == (x.tv() + y.tv()) % P();
    fn unconstrained_mul<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() ==> val(r) == mulp(x.tv(), y.tv());
    fn unconstrained_bit_and<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() && y.tv() == 1 ==> val(r) == x.tv() % 2;
    fn unconstrained_shift_r<X: TV, Y: TV>(&mut self, x: X, y: Y) -> (r: Variable) ensures final(self).ok() == old(self).ok(), honest() && y.tv() == 1 ==> val(r) == x.tv() / 2;
}
pub broadcast group circuit_facts { prime, val_range, u256_val, u256_range }

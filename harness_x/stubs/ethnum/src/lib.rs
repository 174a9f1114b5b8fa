//! Stand-in for the crate `ethnum` (not available offline): 256-bit unsigned integers.
use std::cmp::Ordering;
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256 { hi: u128, lo: u128 }
impl U256 {
    pub const ZERO: U256 = U256 { hi: 0, lo: 0 };
    pub const ONE: U256 = U256 { hi: 0, lo: 1 };
    pub const MIN: U256 = U256::ZERO;
    pub const MAX: U256 = U256 { hi: u128::MAX, lo: u128::MAX };
    pub const BITS: u32 = 256;
    pub const fn new(x: u128) -> U256 { U256 { hi: 0, lo: x } }
    pub const fn from_words(hi: u128, lo: u128) -> U256 { U256 { hi, lo } }
    pub const fn as_u8(self) -> u8 { self.lo as u8 }
    pub const fn as_u16(self) -> u16 { self.lo as u16 }
    pub const fn as_u32(self) -> u32 { self.lo as u32 }
    pub const fn as_u64(self) -> u64 { self.lo as u64 }
    pub const fn as_u128(self) -> u128 { self.lo }
    pub const fn as_usize(self) -> usize { self.lo as usize }
    pub const fn leading_zeros(self) -> u32 { if self.hi != 0 { self.hi.leading_zeros() } else { 128 + self.lo.leading_zeros() } }
    pub const fn trailing_zeros(self) -> u32 { if self.lo != 0 { self.lo.trailing_zeros() } else { 128 + self.hi.trailing_zeros() } }
    pub fn bit(self, i: u32) -> bool { if i < 128 { self.lo >> i & 1 == 1 } else { self.hi >> (i - 128) & 1 == 1 } }
    pub fn overflowing_add(self, o: U256) -> (U256, bool) {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        let (hi, d) = self.hi.overflowing_add(o.hi);
        let (hi, e) = hi.overflowing_add(c as u128);
        (U256 { hi, lo }, d || e)
    }
    pub fn overflowing_sub(self, o: U256) -> (U256, bool) {
        let (lo, c) = self.lo.overflowing_sub(o.lo);
        let (hi, d) = self.hi.overflowing_sub(o.hi);
        let (hi, e) = hi.overflowing_sub(c as u128);
        (U256 { hi, lo }, d || e)
    }
    pub fn wrapping_add(self, o: U256) -> U256 { self.overflowing_add(o).0 }
    pub fn wrapping_sub(self, o: U256) -> U256 { self.overflowing_sub(o).0 }
    pub fn checked_add(self, o: U256) -> Option<U256> { let (r, f) = self.overflowing_add(o); if f { None } else { Some(r) } }
    pub fn checked_sub(self, o: U256) -> Option<U256> { let (r, f) = self.overflowing_sub(o); if f { None } else { Some(r) } }
    pub fn overflowing_mul(self, o: U256) -> (U256, bool) {
        if self.hi == 0 && o.hi == 0 && self.lo >> 64 == 0 && o.lo >> 64 == 0 { return (U256 { hi: 0, lo: self.lo * o.lo }, false); }
        let (mut r, mut f) = (U256::ZERO, false);
        let (a, b) = if self <= o { (self, o) } else { (o, self) };
        for i in (0..256 - a.leading_zeros()).rev() {
            f |= r.bit(255);
            r = r.shl_(1);
            if a.bit(i) { let (x, c) = r.overflowing_add(b); r = x; f |= c; }
        }
        (r, f)
    }
    pub fn checked_mul(self, o: U256) -> Option<U256> { let (r, f) = self.overflowing_mul(o); if f { None } else { Some(r) } }
    pub fn wrapping_mul(self, o: U256) -> U256 { self.overflowing_mul(o).0 }
    pub fn checked_pow(self, mut e: u32) -> Option<U256> {
        let (mut b, mut r) = (self, U256::ONE);
        while e > 0 {
            if e & 1 == 1 { r = r.checked_mul(b)?; }
            e >>= 1;
            if e > 0 { b = b.checked_mul(b)?; }
        }
        Some(r)
    }
    pub fn pow(self, e: u32) -> U256 { self.checked_pow(e).expect("U256 overflow in pow") }
    pub fn checked_shl(self, n: u32) -> Option<U256> { if n < 256 { Some(self.shl_(n)) } else { None } }
    pub fn checked_shr(self, n: u32) -> Option<U256> { if n < 256 { Some(self.shr_(n)) } else { None } }
    pub const fn is_power_of_two(self) -> bool { self.hi.count_ones() + self.lo.count_ones() == 1 }
    fn shl_(self, n: u32) -> U256 {
        if n == 0 { self } else if n >= 256 { U256::ZERO } else if n >= 128 { U256 { hi: self.lo << (n - 128), lo: 0 } }
        else { U256 { hi: self.hi << n | self.lo >> (128 - n), lo: self.lo << n } }
    }
    fn shr_(self, n: u32) -> U256 {
        if n == 0 { self } else if n >= 256 { U256::ZERO } else if n >= 128 { U256 { hi: 0, lo: self.hi >> (n - 128) } }
        else { U256 { hi: self.hi >> n, lo: self.lo >> n | self.hi << (128 - n) } }
    }
    pub fn div_rem(self, d: U256) -> (U256, U256) {
        assert!(d != U256::ZERO, "division by zero");
        if self.hi == 0 && d.hi == 0 { return (U256::new(self.lo / d.lo), U256::new(self.lo % d.lo)); }
        let (mut q, mut r) = (U256::ZERO, U256::ZERO);
        for i in (0..256).rev() {
            let top = r.bit(255);
            r = r.shl_(1);
            if self.bit(i) { r.lo |= 1; }
            if top || r >= d { r = r.wrapping_sub(d); q = q | U256::ONE.shl_(i); }
        }
        (q, r)
    }
}
impl PartialOrd for U256 { fn partial_cmp(&self, o: &U256) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for U256 { fn cmp(&self, o: &U256) -> Ordering { (self.hi, self.lo).cmp(&(o.hi, o.lo)) } }
macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(x: $t) -> U256 { U256::new(x as u128) } })* } }
from!(u8 u16 u32 u64 u128 usize);
impl TryFrom<U256> for u128 { type Error = (); fn try_from(x: U256) -> Result<u128, ()> { if x.hi == 0 { Ok(x.lo) } else { Err(()) } } }
impl TryFrom<U256> for u64 { type Error = (); fn try_from(x: U256) -> Result<u64, ()> { if x.hi == 0 { u64::try_from(x.lo).map_err(|_| ()) } else { Err(()) } } }
impl TryFrom<U256> for usize { type Error = (); fn try_from(x: U256) -> Result<usize, ()> { if x.hi == 0 { usize::try_from(x.lo).map_err(|_| ()) } else { Err(()) } } }
pub trait Num { fn u(self) -> U256; }
impl Num for U256 { fn u(self) -> U256 { self } }
impl Num for &U256 { fn u(self) -> U256 { *self } }
macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { fn u(self) -> U256 { U256::new(u128::try_from(self).unwrap()) } })* } }
num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
fn sh(n: U256) -> u32 { assert!(n < U256::new(256), "shift out of range"); n.as_u32() }
macro_rules! ops { ($($tr:ident $f:ident $ta:ident $fa:ident $e:expr;)*) => { $(
    impl<N: Num> $tr<N> for U256 { type Output = U256; fn $f(self, o: N) -> U256 { let g: fn(U256, U256) -> U256 = $e; g(self, o.u()) } }
    impl<N: Num> $ta<N> for U256 { fn $fa(&mut self, o: N) { let g: fn(U256, U256) -> U256 = $e; *self = g(*self, o.u()) } }
)* } }
ops! {
    Add add AddAssign add_assign |a, b| a.checked_add(b).expect("U256 overflow");
    Sub sub SubAssign sub_assign |a, b| a.checked_sub(b).expect("U256 overflow");
    Mul mul MulAssign mul_assign |a, b| a.checked_mul(b).expect("U256 overflow");
    Div div DivAssign div_assign |a, b| a.div_rem(b).0;
    Rem rem RemAssign rem_assign |a, b| a.div_rem(b).1;
    BitAnd bitand BitAndAssign bitand_assign |a, b| U256 { hi: a.hi & b.hi, lo: a.lo & b.lo };
    BitOr bitor BitOrAssign bitor_assign |a, b| U256 { hi: a.hi | b.hi, lo: a.lo | b.lo };
    BitXor bitxor BitXorAssign bitxor_assign |a, b| U256 { hi: a.hi ^ b.hi, lo: a.lo ^ b.lo };
    Shl shl ShlAssign shl_assign |a, b| a.shl_(sh(b));
    Shr shr ShrAssign shr_assign |a, b| a.shr_(sh(b));
}
impl Not for U256 { type Output = U256; fn not(self) -> U256 { U256 { hi: !self.hi, lo: !self.lo } } }
impl std::fmt::Display for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (mut x, mut s) = (*self, Vec::new());
        loop { let (q, r) = x.div_rem(U256::new(10)); s.push(b'0' + r.as_u8()); x = q; if x == U256::ZERO { break; } }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
impl std::fmt::Debug for U256 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self}") } }
impl std::iter::Sum for U256 { fn sum<I: Iterator<Item = U256>>(i: I) -> U256 { i.fold(U256::ZERO, |a, b| a + b) } }

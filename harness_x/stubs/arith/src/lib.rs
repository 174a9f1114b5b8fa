//! Stand-in for the repository's crate `arith`: prime fields by their modulus (index into `MODS`).
use ethnum::U256;
use rand::RngCore;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::*;
pub trait Field: Copy + Clone + Debug + Default + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync + 'static + From<u32>
    + Neg<Output = Self> + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign + SubAssign + MulAssign + Sum + Product {
    const ZERO: Self;
    const ONE: Self;
    const MODULUS: U256;
    const FIELD_SIZE: usize;
    fn zero() -> Self { Self::ZERO }
    fn one() -> Self { Self::ONE }
    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(mut rng: impl RngCore) -> Self { Self::from((rng.next_u64() & 1) as u32) }
    fn from_u256(x: U256) -> Self;
    fn to_u256(&self) -> U256;
    fn as_u32_unchecked(&self) -> u32 { self.to_u256().as_u32() }
    fn double(&self) -> Self { *self + *self }
    fn square(&self) -> Self { *self * *self }
    fn inv(&self) -> Option<Self> { if self.is_zero() { None } else { Some(self.pow_(Self::MODULUS - 2u32)) } }
    fn exp(&self, e: u128) -> Self { self.pow_(U256::new(e)) }
    fn pow_(&self, e: U256) -> Self {
        let (mut b, mut r) = (*self, Self::ONE);
        for i in 0..256 - e.leading_zeros() { if e.bit(i) { r = r * b; } b = b * b; }
        r
    }
}
/// Goldilocks, the scalar field of BN254, and 2^127 - 1
pub const MODS: [U256; 3] = [U256::new(0xffff_ffff_0000_0001), U256::from_words(0x30644e72e131a029b85045b68181585d, 0x2833e84879b9709143e1f593f0000001), U256::new(u128::MAX >> 1)];
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fp<const K: usize>(U256);
impl<const K: usize> Fp<K> {
    const fn m() -> U256 { MODS[K] }
    fn add_(self, o: Self) -> Self { let s = self.0.wrapping_add(o.0); Fp(if s >= Self::m() { s.wrapping_sub(Self::m()) } else { s }) }
    fn sub_(self, o: Self) -> Self { Fp(if self.0 >= o.0 { self.0.wrapping_sub(o.0) } else { self.0.wrapping_add(Self::m()).wrapping_sub(o.0) }) }
    fn mul_(self, o: Self) -> Self {
        if K == 0 { return Fp(U256::new((self.0.as_u128() * o.0.as_u128()) % Self::m().as_u128())); }
        mont::<K>(mont::<K>(self, o), R2.get_or_init(|| [r2::<0>(), r2::<1>(), r2::<2>()])[K].into_fp())
    }
    fn limbs(self) -> [u64; 4] { let (l, h) = (self.0.as_u128(), (self.0 >> 128u32).as_u128()); [l as u64, (l >> 64) as u64, h as u64, (h >> 64) as u64] }
}

static R2: std::sync::OnceLock<[U256; 3]> = std::sync::OnceLock::new();
trait IntoFp { fn into_fp<const K: usize>(self) -> Fp<K>; }
impl IntoFp for U256 { fn into_fp<const K: usize>(self) -> Fp<K> { Fp(self) } }
/// 2^512 modulo the modulus
fn r2<const K: usize>() -> U256 { let mut r = Fp::<K>(U256::ONE); for _ in 0..512 { r = r.add_(r); } r.0 }
/// Montgomery product a * b / 2^256
fn mont<const K: usize>(a: Fp<K>, b: Fp<K>) -> Fp<K> {
    let (a, b, m) = (a.limbs(), b.limbs(), Fp::<K>(MODS[K]).limbs());
    let mut inv = 1u64;
    for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv))); }
    let inv = inv.wrapping_neg();
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { c += t[j] as u128 + a[i] as u128 * b[j] as u128; t[j] = c as u64; c >>= 64; }
        c += t[4] as u128; t[4] = c as u64; t[5] = (c >> 64) as u64;
        let q = t[0].wrapping_mul(inv);
        let mut c = (t[0] as u128 + q as u128 * m[0] as u128) >> 64;
        for j in 1..4 { c += t[j] as u128 + q as u128 * m[j] as u128; t[j - 1] = c as u64; c >>= 64; }
        c += t[4] as u128; t[3] = c as u64;
        t[4] = t[5] + (c >> 64) as u64;
    }
    let r = U256::from_words((t[3] as u128) << 64 | t[2] as u128, (t[1] as u128) << 64 | t[0] as u128);
    Fp(if t[4] != 0 || r >= MODS[K] { r.wrapping_sub(MODS[K]) } else { r })
}
impl<const K: usize> Debug for Fp<K> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.0 > Self::m() / 2u32 { write!(f, "-{}", Self::m() - self.0) } else { write!(f, "{}", self.0) } } }
impl<const K: usize> From<u32> for Fp<K> { fn from(x: u32) -> Self { Fp(U256::from(x)) } }
impl<const K: usize> Neg for Fp<K> { type Output = Self; fn neg(self) -> Self { Fp(U256::ZERO).sub_(self) } }
macro_rules! op { ($($tr:ident $f:ident $g:ident $ta:ident $fa:ident)*) => { $(
    impl<const K: usize> $tr for Fp<K> { type Output = Self; fn $f(self, o: Self) -> Self { self.$g(o) } }
    impl<'a, const K: usize> $tr<&'a Fp<K>> for Fp<K> { type Output = Self; fn $f(self, o: &Self) -> Self { self.$g(*o) } }
    impl<const K: usize> $ta for Fp<K> { fn $fa(&mut self, o: Self) { *self = self.$g(o) } }
)* } }
op!(Add add add_ AddAssign add_assign Sub sub sub_ SubAssign sub_assign Mul mul mul_ MulAssign mul_assign);
impl<const K: usize> Sum for Fp<K> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Fp(U256::ZERO), |a, b| a + b) } }
impl<const K: usize> Product for Fp<K> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Fp(U256::ONE), |a, b| a * b) } }
impl<const K: usize> Field for Fp<K> {
    const ZERO: Self = Fp(U256::ZERO);
    const ONE: Self = Fp(U256::ONE);
    const MODULUS: U256 = MODS[K];
    const FIELD_SIZE: usize = [64, 254, 127][K];
    fn random_unsafe(mut rng: impl RngCore) -> Self { let mut w = || (rng.next_u64() as u128) << 64 | rng.next_u64() as u128; Self::from_u256(U256::from_words(w(), w())) }
    fn from_u256(x: U256) -> Self { Fp(if x < Self::m() { x } else { x % Self::m() }) }
    fn to_u256(&self) -> U256 { self.0 }
}

//! stand-in for ethnum::U256: 256 bits, little-endian byte conversion
#![allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u128; 2]);
impl U256 {
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..16].copy_from_slice(&self.0[0].to_le_bytes());
        o[16..].copy_from_slice(&self.0[1].to_le_bytes());
        o
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        U256([u128::from_le_bytes(b[..16].try_into().unwrap()), u128::from_le_bytes(b[16..].try_into().unwrap())])
    }
    pub fn to_be_bytes(self) -> [u8; 32] { let mut b = self.to_le_bytes(); b.reverse(); b }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self { b.reverse(); Self::from_le_bytes(b) }
    pub fn to_ne_bytes(self) -> [u8; 32] { self.to_le_bytes() }
    pub fn from_ne_bytes(b: [u8; 32]) -> Self { Self::from_le_bytes(b) }
    pub const fn new(v: u128) -> Self { U256([v, 0]) }
    pub const fn from_words(hi: u128, lo: u128) -> Self { U256([lo, hi]) }
    pub const fn into_words(self) -> (u128, u128) { (self.0[1], self.0[0]) }
    pub const ZERO: U256 = U256([0, 0]);
    pub const ONE: U256 = U256([1, 0]);
}
pub type u256 = U256;

//! stand-in for halo2curves: fixed-size canonical encodings (the top bit must be clear)
pub struct CtOption<T>(Option<T>);
impl<T> CtOption<T> {
    pub fn into_option(self) -> Option<T> { self.0 }
    pub fn unwrap(self) -> T { self.0.unwrap() }
    pub fn is_some(&self) -> bool { self.0.is_some() }
    pub fn is_none(&self) -> bool { self.0.is_none() }
}
impl<T> From<CtOption<T>> for Option<T> {
    fn from(c: CtOption<T>) -> Self { c.0 }
}
pub mod group {
    use super::CtOption;
    pub trait GroupEncoding: Sized {
        type Repr: Copy + Default + AsRef<[u8]> + AsMut<[u8]>;
        fn from_bytes(bytes: &Self::Repr) -> CtOption<Self>;
        fn to_bytes(&self) -> Self::Repr;
    }
}
pub mod bn256 {
    use super::{group::GroupEncoding, CtOption};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct Fr(pub [u8; 32]);
    impl Fr {
        pub fn to_bytes(&self) -> [u8; 32] { self.0 }
        pub fn from_bytes(b: &[u8; 32]) -> CtOption<Fr> { CtOption(if b[31] < 0x40 { Some(Fr(*b)) } else { None }) }
    }
    macro_rules! point {
        ($t:ident, $r:ident, $n:expr) => {
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct $t(pub [u8; $n]);
            #[derive(Clone, Copy)]
            pub struct $r([u8; $n]);
            impl Default for $r { fn default() -> Self { $r([0; $n]) } }
            impl AsRef<[u8]> for $r { fn as_ref(&self) -> &[u8] { &self.0 } }
            impl AsMut<[u8]> for $r { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
            impl GroupEncoding for $t {
                type Repr = $r;
                fn from_bytes(b: &$r) -> CtOption<Self> { CtOption(if b.0[$n - 1] < 0x40 { Some($t(b.0)) } else { None }) }
                fn to_bytes(&self) -> $r { $r(self.0) }
            }
        };
    }
    point!(G1Affine, G1Repr, 32);
    point!(G2Affine, G2Repr, 64);
}

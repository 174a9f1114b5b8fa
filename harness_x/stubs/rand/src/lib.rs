//! Stand-in for the crate `rand`: only what the copied sources name.
pub trait RngCore { fn next_u64(&mut self) -> u64; fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } }
impl<R: RngCore + ?Sized> RngCore for &mut R { fn next_u64(&mut self) -> u64 { (**self).next_u64() } }
pub trait Draw { fn draw(x: u64) -> Self; }
macro_rules! d { ($($t:ty)*) => { $(impl Draw for $t { fn draw(x: u64) -> $t { x as $t } })* } }
d!(u8 u16 u32 u64 usize i32 i64);
pub trait Rng: RngCore { fn gen<T: Draw>(&mut self) -> T { T::draw(self.next_u64()) } }
impl<R: RngCore> Rng for R { }

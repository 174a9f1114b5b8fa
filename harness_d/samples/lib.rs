//! types of every shape the derive macro knows; the derive is /repo's
use serdes::ExpSerde;

#[derive(ExpSerde)]
#[cfg_attr(not(plain), derive(Debug, Clone, PartialEq))]
pub struct One { pub a: u32 }

#[derive(ExpSerde)]
#[cfg_attr(not(plain), derive(Debug, Clone, PartialEq))]
pub struct Two { pub b: u8, pub a: Vec<u64> }

#[derive(ExpSerde)]
#[cfg_attr(not(plain), derive(Debug, Clone, PartialEq))]
pub struct Three<T: ExpSerde> { pub z: u32, pub y: T, pub x: u32 }

#[derive(ExpSerde)]
#[cfg_attr(not(plain), derive(Debug, Clone, PartialEq))]
pub struct Deep<T> where T: ExpSerde { pub head: Option<T>, pub rest: Vec<T> }

#[derive(ExpSerde)]
#[cfg_attr(not(plain), derive(Debug, Clone, PartialEq))]
pub enum Mixed { Empty, Single(u32), Double(u8, String), Named { y: u64, x: Vec<u32> }, Last }

#[derive(ExpSerde)]
#[cfg_attr(not(plain), derive(Debug, Clone, PartialEq))]
pub enum Choice<T: ExpSerde> { Left(T), Right { only: T }, Both(T, T), Neither }

pub mod logup;
pub mod traits;
pub use logup::{LogUpCircuit, LogUpParams};
pub use traits::StdCircuit;

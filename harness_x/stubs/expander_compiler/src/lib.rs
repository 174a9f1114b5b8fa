//! Stand-in for the crate `expander_compiler`. The front end's traits, macros and built-in hints are
//! copied from /repo (see gen.py); only the configuration, `Variable` and its conversions are stand-ins.
pub mod circuit { pub mod config {
    use std::fmt::Debug;
    pub trait Config: Default + Clone + Copy + Debug + PartialEq + Eq + 'static { type CircuitField: crate::field::Field; }
    pub type CircuitField<C> = <C as Config>::CircuitField;
} }
pub mod field {
    pub use arith::Field as FieldArith;
    pub trait Field: FieldArith {
        fn optimistic_inv(&self) -> Option<Self> { self.inv() }
    }
    impl<const K: usize> Field for arith::Fp<K> { }
}
pub mod hints { pub mod builtin; pub use builtin::*; }
pub mod utils { pub mod error; }
pub mod frontend {
    pub mod api;
    pub mod builder;
    pub mod circuit;
    pub mod variables;
    pub use circuit::declare_circuit;
    pub use crate::circuit::config::*;
    pub use crate::field::{Field, FieldArith};
    pub use crate::utils::error::Error;
    pub use api::{BasicAPI, RootAPI};
    pub use builder::Variable;
    pub use circuit::Define;
    pub mod internal {
        pub use super::circuit::{declare_circuit_default, declare_circuit_dump_into, declare_circuit_field_type, declare_circuit_load_from, declare_circuit_num_vars};
        pub use super::variables::{DumpLoadTwoVariables, DumpLoadVariables};
    }
    pub mod extra { pub use super::api::UnconstrainedAPI; }
}

//! Stand-in for the crate `rmpv`: two names used in error types.
#[derive(Debug, Clone, PartialEq)]
pub struct Value;
impl std::fmt::Display for Value { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("value") } }
pub mod ext {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("error") } }
    impl std::error::Error for Error { }
}

use ethnum::U256;
use crate::field::Field;
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Variable { id: usize }
impl Variable {
    pub fn id(&self) -> usize { self.id }
    pub fn of(id: usize) -> Variable { Variable { id } }
}
#[derive(Debug, Clone, Copy)]
pub enum VariableOrValue<F: Field> { Variable(Variable), Value(F) }
pub trait ToVariableOrValue<F: Field>: Clone { fn convert_to_variable_or_value(self) -> VariableOrValue<F>; }
trait NotVariable {}
impl NotVariable for u32 {}
impl NotVariable for U256 {}
impl<F: Field> NotVariable for F {}
impl<F: Field, T: Into<F> + NotVariable + Clone> ToVariableOrValue<F> for T {
    fn convert_to_variable_or_value(self) -> VariableOrValue<F> { VariableOrValue::Value(self.into()) }
}
impl<F: Field> ToVariableOrValue<F> for Variable {
    fn convert_to_variable_or_value(self) -> VariableOrValue<F> { assert!(self.id != 0, "invalid variable"); VariableOrValue::Variable(self) }
}
impl<F: Field> ToVariableOrValue<F> for &Variable {
    fn convert_to_variable_or_value(self) -> VariableOrValue<F> { (*self).convert_to_variable_or_value() }
}

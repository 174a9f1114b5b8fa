//! Stand-in for the crate `ndarray`: row-major arrays of any rank, as far as the copied sources use them.
#[derive(Debug, Clone, PartialEq)]
pub struct ShapeError;
impl std::fmt::Display for ShapeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("incompatible shape") } }
impl std::error::Error for ShapeError { }
#[derive(Debug, Clone, PartialEq)]
pub struct IxDyn { d: Vec<usize> }
#[allow(non_snake_case)]
pub fn IxDyn(d: &[usize]) -> IxDyn { IxDyn { d: d.to_vec() } }
impl From<Vec<usize>> for IxDyn { fn from(d: Vec<usize>) -> IxDyn { IxDyn { d: d } } }
impl From<&[usize]> for IxDyn { fn from(d: &[usize]) -> IxDyn { IxDyn { d: d.to_vec() } } }
#[derive(Debug, Clone, PartialEq)]
pub struct ArrayD<T> { shape: Vec<usize>, data: Vec<T> }
impl<T> ArrayD<T> {
    pub fn from_shape_vec(shape: impl Into<IxDyn>, data: Vec<T>) -> Result<Self, ShapeError> {
        let shape = shape.into().d;
        if shape.iter().product::<usize>() == data.len() { Ok(ArrayD { shape, data }) } else { Err(ShapeError) }
    }
    pub fn shape(&self) -> &[usize] { &self.shape }
    pub fn ndim(&self) -> usize { self.shape.len() }
    pub fn len(&self) -> usize { self.data.len() }
    pub fn is_empty(&self) -> bool { self.data.is_empty() }
    pub fn raw_dim(&self) -> IxDyn { IxDyn { d: self.shape.clone() } }
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.data.iter() }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.data.iter_mut() }
    pub fn into_raw_vec(self) -> Vec<T> { self.data }
    pub fn into_raw_vec_and_offset(self) -> (Vec<T>, Option<usize>) { (self.data, Some(0)) }
    pub fn map<U>(&self, f: impl FnMut(&T) -> U) -> ArrayD<U> { ArrayD { shape: self.shape.clone(), data: self.data.iter().map(f).collect() } }
    pub fn mapv<U>(&self, f: impl FnMut(T) -> U) -> ArrayD<U> where T: Clone { ArrayD { shape: self.shape.clone(), data: self.data.iter().cloned().map(f).collect() } }
    pub fn mapv_into(self, f: impl FnMut(T) -> T) -> ArrayD<T> { ArrayD { shape: self.shape, data: self.data.into_iter().map(f).collect() } }
    pub fn as_slice(&self) -> Option<&[T]> { Some(&self.data) }
}
impl<T> IntoIterator for ArrayD<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.data.into_iter() } }
impl<'a, T> IntoIterator for &'a ArrayD<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.data.iter() } }

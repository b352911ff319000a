//! Type-level stand-in: signatures only.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sketch") }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug)]
pub struct DDSketch;
impl PartialEq for DDSketch { fn eq(&self, _: &Self) -> bool { todo!() } }
impl DDSketch {
  pub fn logarithmic_collapsing_lowest_dense(_: f64, _: usize) -> Result<Self, Error> { todo!() }
  pub fn accept(&mut self, _: f64) { todo!() }
  pub fn merge_with(&mut self, _: &Self) -> Result<(), Error> { todo!() }
  pub fn decode_and_merge_with(&mut self, _: &[u8]) -> Result<(), Error> { todo!() }
  pub fn encode(&self) -> Result<Vec<u8>, Error> { todo!() }
  pub fn is_empty(&self) -> bool { todo!() }
  pub fn clear(&mut self) { todo!() }
  pub fn get_count(&mut self) -> f64 { todo!() }
}

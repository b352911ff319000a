//! Type-level stand-in: signatures only.
#[derive(Clone, Debug, Default)]
pub struct Hasher { _s: u32 }
impl Hasher {
  pub fn new() -> Self { Self { _s: 0 } }
  pub fn update(&mut self, _: &[u8]) { todo!() }
  pub fn finalize(self) -> u32 { todo!() }
  pub fn reset(&mut self) { todo!() }
}
impl std::hash::Hasher for Hasher {
  fn finish(&self) -> u64 { todo!() }
  fn write(&mut self, _: &[u8]) { todo!() }
}

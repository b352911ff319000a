//! Type-level stand-in: signatures only.
#[derive(Clone)]
pub struct Sha256(());
pub struct Output([u8; 32]);
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::fmt::LowerHex for Output { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
pub trait Digest: Sized {
  fn new() -> Self;
  fn update(&mut self, data: impl AsRef<[u8]>);
  fn finalize(self) -> Output;
}
impl Digest for Sha256 {
  fn new() -> Self { todo!() }
  fn update(&mut self, _: impl AsRef<[u8]>) { todo!() }
  fn finalize(self) -> Output { todo!() }
}

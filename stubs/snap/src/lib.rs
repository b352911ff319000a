//! Type-level stand-in: signatures only.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { todo!() } }
impl std::error::Error for Error {}
pub mod raw {
  pub struct Encoder;
  impl Encoder { pub fn new() -> Self { Self } pub fn compress_vec(&mut self, _: &[u8]) -> Result<Vec<u8>, super::Error> { todo!() } }
  pub struct Decoder;
  impl Decoder { pub fn new() -> Self { Self } pub fn decompress_vec(&mut self, _: &[u8]) -> Result<Vec<u8>, super::Error> { todo!() } }
}

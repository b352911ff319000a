//! Type-level stand-in: signatures only.
#[derive(Debug)]
pub struct Error;
pub trait Encoding {
  fn encode_string(input: &[u8]) -> String;
  fn decode_vec(input: &str) -> Result<Vec<u8>, Error>;
}
pub struct Base64;
impl Encoding for Base64 {
  fn encode_string(_: &[u8]) -> String { todo!() }
  fn decode_vec(_: &str) -> Result<Vec<u8>, Error> { todo!() }
}

//! Type-level stand-in: signatures only.
#[derive(Clone, Copy, Debug)]
pub struct Compression(u32);
impl Compression {
  pub const fn new(l: u32) -> Self { Self(l) }
}
pub mod read {
  use std::io::Read;
  pub struct ZlibDecoder<R>(R);
  impl<R: Read> ZlibDecoder<R> { pub fn new(r: R) -> Self { Self(r) } }
  impl<R: Read> Read for ZlibDecoder<R> { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { todo!() } }
  pub struct ZlibEncoder<R>(R);
  impl<R: Read> ZlibEncoder<R> { pub fn new(r: R, _: super::Compression) -> Self { Self(r) } }
  impl<R: Read> Read for ZlibEncoder<R> { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { todo!() } }
}
pub mod write {
  use std::io::{Result, Write};
  macro_rules! w { ($n:ident) => {
    impl<W: Write> $n<W> {
      pub fn get_mut(&mut self) -> &mut W { &mut self.0 }
      pub fn get_ref(&self) -> &W { &self.0 }
      pub fn reset(&mut self, _: W) -> Result<W> { todo!() }
      pub fn finish(self) -> Result<W> { todo!() }
      pub fn total_in(&self) -> u64 { todo!() }
      pub fn total_out(&self) -> u64 { todo!() }
    }
    impl<W: Write> Write for $n<W> {
      fn write(&mut self, _: &[u8]) -> Result<usize> { todo!() }
      fn flush(&mut self) -> Result<()> { todo!() }
    }
  } }
  #[derive(Debug)]
  pub struct ZlibEncoder<W: Write>(W);
  impl<W: Write> ZlibEncoder<W> { pub fn new(w: W, _: super::Compression) -> Self { Self(w) } }
  w!(ZlibEncoder);
  #[derive(Debug)]
  pub struct ZlibDecoder<W: Write>(W);
  impl<W: Write> ZlibDecoder<W> { pub fn new(w: W) -> Self { Self(w) } }
  w!(ZlibDecoder);
}

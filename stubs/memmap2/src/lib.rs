//! Type-level stand-in: signatures only.
pub struct MmapMut(Vec<u8>);
impl MmapMut {
  /// # Safety
  /// As in memmap2.
  pub unsafe fn map_mut(_: &std::fs::File) -> std::io::Result<Self> { todo!() }
  pub fn flush(&self) -> std::io::Result<()> { todo!() }
}
impl std::ops::Deref for MmapMut { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl std::ops::DerefMut for MmapMut { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }

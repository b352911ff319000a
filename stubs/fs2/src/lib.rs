//! Type-level stand-in: signatures only.
pub trait FileExt {
  fn try_lock_exclusive(&self) -> std::io::Result<()>;
  fn unlock(&self) -> std::io::Result<()>;
  fn allocate(&self, len: u64) -> std::io::Result<()>;
}
impl FileExt for std::fs::File {
  fn try_lock_exclusive(&self) -> std::io::Result<()> { todo!() }
  fn unlock(&self) -> std::io::Result<()> { todo!() }
  fn allocate(&self, _: u64) -> std::io::Result<()> { todo!() }
}

//! Stand-in for the protobuf runtime (a git fork that cannot be fetched here). It gives the
//! generated code and its users something to type-check against. The wire format is implemented
//! (so that the same stand-in can be linked into a demonstration); reflection is not.
use std::fmt;
use std::ops::{Deref, DerefMut};

pub const VERSION_4_0_0_ALPHA_0: () = ();

#[derive(Debug)]
pub enum Error {
  Io(std::io::Error),
  Wire(&'static str),
}
impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "{self:?}")
  }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
  fn from(e: std::io::Error) -> Self {
    Self::Io(e)
  }
}
pub type Result<T> = std::result::Result<T, Error>;

// ---------------------------------------------------------------- special fields
#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct UnknownFields {
  pub raw: Vec<u8>,
}
#[derive(Debug, Default)]
pub struct CachedSize(std::sync::atomic::AtomicU32);
impl CachedSize {
  pub const fn new() -> Self {
    Self(std::sync::atomic::AtomicU32::new(0))
  }
  pub fn get(&self) -> u32 {
    self.0.load(std::sync::atomic::Ordering::Relaxed)
  }
  pub fn set(&self, v: u32) {
    self.0.store(v, std::sync::atomic::Ordering::Relaxed)
  }
}
impl Clone for CachedSize {
  fn clone(&self) -> Self {
    Self(std::sync::atomic::AtomicU32::new(self.get()))
  }
}
impl PartialEq for CachedSize {
  fn eq(&self, _: &Self) -> bool {
    true
  }
}
#[derive(Debug, Default, Clone, PartialEq)]
pub struct SpecialFields {
  unknown: UnknownFields,
  cached: CachedSize,
}
impl SpecialFields {
  pub const fn new() -> Self {
    Self { unknown: UnknownFields { raw: Vec::new() }, cached: CachedSize::new() }
  }
  pub fn unknown_fields(&self) -> &UnknownFields {
    &self.unknown
  }
  pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields {
    &mut self.unknown
  }
  pub fn cached_size(&self) -> &CachedSize {
    &self.cached
  }
  pub fn clear(&mut self) {
    self.unknown.raw.clear();
  }
}

// ---------------------------------------------------------------- message
pub trait Message:
  Default + Clone + Send + Sync + Sized + PartialEq + fmt::Display + fmt::Debug + 'static
{
  const NAME: &'static str;
  fn is_initialized(&self) -> bool;
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn compute_size(&self) -> u64;
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
  fn special_fields(&self) -> &SpecialFields;
  fn mut_special_fields(&mut self) -> &mut SpecialFields;
  fn new() -> Self;
  fn clear(&mut self) {
    *self = Self::new();
  }
  fn default_instance() -> &'static Self;

  fn cached_size(&self) -> u32 {
    self.special_fields().cached_size().get()
  }
  fn parse_from_bytes(bytes: &[u8]) -> Result<Self> {
    let mut m = Self::new();
    m.merge_from_bytes(bytes)?;
    Ok(m)
  }
  fn parse_from_reader(reader: &mut dyn std::io::Read) -> Result<Self> {
    let mut b = Vec::new();
    reader.read_to_end(&mut b)?;
    Self::parse_from_bytes(&b)
  }
  fn parse_from_tokio_bytes(bytes: &bytes::Bytes) -> Result<Self> {
    Self::parse_from_bytes(bytes)
  }
  fn merge_from_bytes(&mut self, bytes: &[u8]) -> Result<()> {
    let mut is = CodedInputStream::from_bytes(bytes);
    self.merge_from(&mut is)
  }
  fn write_to_bytes(&self) -> Result<Vec<u8>> {
    let mut v = Vec::new();
    self.write_to_vec(&mut v)?;
    Ok(v)
  }
  fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<()> {
    self.compute_size();
    let mut os = CodedOutputStream::vec(v);
    self.write_to_with_cached_sizes(&mut os)?;
    os.flush()
  }
  fn write_to_writer(&self, w: &mut dyn std::io::Write) -> Result<()> {
    self.compute_size();
    let mut os = CodedOutputStream::new(w);
    self.write_to_with_cached_sizes(&mut os)?;
    os.flush()
  }
  fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.compute_size();
    self.write_to_with_cached_sizes(os)
  }
}
pub trait MessageFull: Message + reflect::ProtobufValue {
  fn descriptor() -> reflect::MessageDescriptor;
}
pub trait MessageDyn: std::any::Any + fmt::Debug + fmt::Display + Send + Sync + 'static {
  fn descriptor_dyn(&self) -> reflect::MessageDescriptor;
}
impl<M: MessageFull> MessageDyn for M {
  fn descriptor_dyn(&self) -> reflect::MessageDescriptor {
    M::descriptor()
  }
}
impl dyn MessageDyn {
  pub fn downcast_ref<'a, M: MessageFull + 'a>(&'a self) -> Option<&'a M> {
    (self as &dyn std::any::Any).downcast_ref()
  }
}

// ---------------------------------------------------------------- message field
#[derive(Clone, Debug, PartialEq)]
pub struct MessageField<T>(pub Option<Box<T>>);
impl<T> MessageField<T> {
  pub fn some(v: T) -> Self {
    Self(Some(Box::new(v)))
  }
  pub const fn none() -> Self {
    Self(None)
  }
  pub fn from_option(v: Option<T>) -> Self {
    match v {
      Some(v) => Self::some(v),
      None => Self::none(),
    }
  }
  pub fn is_some(&self) -> bool {
    self.0.is_some()
  }
  pub fn is_none(&self) -> bool {
    self.0.is_none()
  }
  pub fn into_option(self) -> Option<T> {
    match self.0 {
      Some(b) => Some(*b),
      None => None,
    }
  }
  pub fn as_ref(&self) -> Option<&T> {
    match &self.0 {
      Some(b) => Some(&**b),
      None => None,
    }
  }
  pub fn as_mut(&mut self) -> Option<&mut T> {
    match &mut self.0 {
      Some(b) => Some(&mut **b),
      None => None,
    }
  }
  pub fn take(&mut self) -> Option<T> {
    match self.0.take() {
      Some(b) => Some(*b),
      None => None,
    }
  }
  pub fn clear(&mut self) {
    self.0 = None;
  }
  pub fn unwrap(self) -> T {
    self.into_option().unwrap()
  }
  pub fn map<R, F: FnOnce(T) -> R>(self, f: F) -> Option<R> {
    self.into_option().map(f)
  }
}
impl<T: Default> MessageField<T> {
  pub fn mut_or_insert_default(&mut self) -> &mut T {
    if self.0.is_none() {
      self.0 = Some(Box::default());
    }
    self.as_mut().unwrap()
  }
  pub fn unwrap_or_default(self) -> T {
    self.into_option().unwrap_or_default()
  }
}
impl<T: Message> MessageField<T> {
  pub fn get_or_default(&self) -> &T {
    match self.as_ref() {
      Some(v) => v,
      None => T::default_instance(),
    }
  }
}
impl<T> Default for MessageField<T> {
  fn default() -> Self {
    Self(None)
  }
}
impl<T: Message> Deref for MessageField<T> {
  type Target = T;
  fn deref(&self) -> &T {
    self.get_or_default()
  }
}
impl<T> From<Option<T>> for MessageField<T> {
  fn from(o: Option<T>) -> Self {
    Self::from_option(o)
  }
}
impl<'a, T> IntoIterator for &'a MessageField<T> {
  type Item = &'a T;
  type IntoIter = std::option::IntoIter<&'a T>;
  fn into_iter(self) -> Self::IntoIter {
    self.as_ref().into_iter()
  }
}

// ---------------------------------------------------------------- enums
pub trait Enum: Eq + Sized + Copy + fmt::Debug + Default + Send + Sync + 'static {
  const NAME: &'static str;
  const VALUES: &'static [Self];
  fn value(&self) -> i32;
  fn from_i32(v: i32) -> Option<Self>;
  fn from_str(s: &str) -> Option<Self>;
}
pub trait EnumFull: Enum {
  fn enum_descriptor() -> reflect::EnumDescriptor;
  fn descriptor(&self) -> reflect::EnumValueDescriptor;
}
#[derive(Clone, Copy)]
pub struct EnumOrUnknown<E> {
  value: i32,
  _m: std::marker::PhantomData<E>,
}
impl<E: Enum> EnumOrUnknown<E> {
  pub fn new(e: E) -> Self {
    Self { value: e.value(), _m: std::marker::PhantomData }
  }
  pub fn enum_value(&self) -> std::result::Result<E, i32> {
    E::from_i32(self.value).ok_or(self.value)
  }
  pub fn enum_value_or(&self, e: E) -> E {
    self.enum_value().unwrap_or(e)
  }
  pub fn enum_value_or_default(&self) -> E {
    self.enum_value().unwrap_or_default()
  }
  pub fn unwrap(&self) -> E {
    self.enum_value().unwrap()
  }
}
impl<E> EnumOrUnknown<E> {
  pub const fn from_i32(value: i32) -> Self {
    Self { value, _m: std::marker::PhantomData }
  }
  pub const fn value(&self) -> i32 {
    self.value
  }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> {
  fn from(e: E) -> Self {
    Self::new(e)
  }
}
impl<E: Enum> Default for EnumOrUnknown<E> {
  fn default() -> Self {
    Self::from_i32(0)
  }
}
impl<E> PartialEq for EnumOrUnknown<E> {
  fn eq(&self, o: &Self) -> bool {
    self.value == o.value
  }
}
impl<E> Eq for EnumOrUnknown<E> {}
impl<E> std::hash::Hash for EnumOrUnknown<E> {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.value.hash(h)
  }
}
impl<E: fmt::Debug> fmt::Debug for EnumOrUnknown<E> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.value.fmt(f)
  }
}
pub trait Oneof {}
pub trait OneofFull: Oneof {
  fn descriptor() -> reflect::OneofDescriptor;
}

// ---------------------------------------------------------------- chars
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Chars(String);
impl Chars {
  pub const fn new() -> Self {
    Self(String::new())
  }
  pub fn clear(&mut self) {
    self.0.clear()
  }
  pub fn as_str(&self) -> &str {
    &self.0
  }
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}
impl Deref for Chars {
  type Target = str;
  fn deref(&self) -> &str {
    &self.0
  }
}
impl AsRef<str> for Chars {
  fn as_ref(&self) -> &str {
    &self.0
  }
}
impl std::borrow::Borrow<str> for Chars {
  fn borrow(&self) -> &str {
    &self.0
  }
}
impl From<&str> for Chars {
  fn from(s: &str) -> Self {
    Self(s.to_string())
  }
}
impl From<String> for Chars {
  fn from(s: String) -> Self {
    Self(s)
  }
}
impl fmt::Display for Chars {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.0.fmt(f)
  }
}

// ---------------------------------------------------------------- wire
pub struct CodedInputStream<'a> {
  buf: &'a [u8],
  pos: usize,
  limit: usize,
}
const EOF: Error = Error::Wire("unexpected eof");
impl<'a> CodedInputStream<'a> {
  pub fn from_bytes(buf: &'a [u8]) -> Self {
    Self { buf, pos: 0, limit: buf.len() }
  }
  pub fn read_raw_varint64(&mut self) -> Result<u64> {
    let (mut r, mut s) = (0u64, 0u32);
    loop {
      if self.pos >= self.limit {
        return Err(EOF);
      }
      let b = self.buf[self.pos];
      self.pos += 1;
      r |= u64::from(b & 0x7f) << s;
      if b & 0x80 == 0 {
        return Ok(r);
      }
      s += 7;
      if s > 63 {
        return Err(Error::Wire("varint"));
      }
    }
  }
  pub fn read_raw_varint32(&mut self) -> Result<u32> {
    Ok(self.read_raw_varint64()? as u32)
  }
  pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
    if self.pos >= self.limit {
      return Ok(None);
    }
    Ok(Some(self.read_raw_varint32()?))
  }
  pub fn push_limit(&mut self, len: u64) -> Result<u64> {
    let new = self.pos.checked_add(len as usize).ok_or(EOF)?;
    if new > self.limit {
      return Err(EOF);
    }
    let old = self.limit;
    self.limit = new;
    Ok(old as u64)
  }
  pub fn pop_limit(&mut self, old: u64) {
    self.limit = old as usize;
  }
  fn take(&mut self, n: usize) -> Result<&'a [u8]> {
    if n > self.limit - self.pos {
      return Err(EOF);
    }
    let s = &self.buf[self.pos .. self.pos + n];
    self.pos += n;
    Ok(s)
  }
  pub fn read_bytes(&mut self) -> Result<Vec<u8>> {
    let n = self.read_raw_varint64()? as usize;
    Ok(self.take(n)?.to_vec())
  }
  pub fn read_tokio_bytes(&mut self) -> Result<bytes::Bytes> {
    Ok(self.read_bytes()?.into())
  }
  pub fn read_string(&mut self) -> Result<String> {
    String::from_utf8(self.read_bytes()?).map_err(|_| Error::Wire("utf8"))
  }
  pub fn read_tokio_chars(&mut self) -> Result<Chars> {
    Ok(Chars(self.read_string()?))
  }
  pub fn read_message<M: Message>(&mut self) -> Result<M> {
    let mut m = M::new();
    self.merge_message(&mut m)?;
    Ok(m)
  }
  pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    m.merge_from(self)?;
    self.pop_limit(old);
    Ok(())
  }
  pub fn read_bool(&mut self) -> Result<bool> {
    Ok(self.read_raw_varint64()? != 0)
  }
  pub fn read_uint64(&mut self) -> Result<u64> {
    self.read_raw_varint64()
  }
  pub fn read_uint32(&mut self) -> Result<u32> {
    self.read_raw_varint32()
  }
  pub fn read_int64(&mut self) -> Result<i64> {
    Ok(self.read_raw_varint64()? as i64)
  }
  pub fn read_int32(&mut self) -> Result<i32> {
    Ok(self.read_raw_varint64()? as i32)
  }
  pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> {
    Ok(EnumOrUnknown::from_i32(self.read_int32()?))
  }
  pub fn read_fixed64(&mut self) -> Result<u64> {
    Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
  }
  pub fn read_fixed32(&mut self) -> Result<u32> {
    Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
  }
  pub fn read_sfixed64(&mut self) -> Result<i64> {
    Ok(self.read_fixed64()? as i64)
  }
  pub fn read_sfixed32(&mut self) -> Result<i32> {
    Ok(self.read_fixed32()? as i32)
  }
  pub fn read_double(&mut self) -> Result<f64> {
    Ok(f64::from_bits(self.read_fixed64()?))
  }
  pub fn read_float(&mut self) -> Result<f32> {
    Ok(f32::from_bits(self.read_fixed32()?))
  }
  pub fn read_sint64(&mut self) -> Result<i64> {
    let n = self.read_raw_varint64()?;
    Ok((n >> 1) as i64 ^ -((n & 1) as i64))
  }
  pub fn read_sint32(&mut self) -> Result<i32> {
    let n = self.read_raw_varint32()?;
    Ok((n >> 1) as i32 ^ -((n & 1) as i32))
  }
  fn packed<T>(&mut self, v: &mut Vec<T>, f: fn(&mut Self) -> Result<T>) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    while self.pos < self.limit {
      v.push(f(self)?);
    }
    self.pop_limit(old);
    Ok(())
  }
}
macro_rules! packed {
  ($($n:ident $r:ident $t:ty;)*) => { impl CodedInputStream<'_> { $(
    pub fn $n(&mut self, v: &mut Vec<$t>) -> Result<()> { self.packed(v, |s| s.$r()) }
  )* } };
}
packed! {
  read_repeated_packed_int32_into read_int32 i32;
  read_repeated_packed_int64_into read_int64 i64;
  read_repeated_packed_uint32_into read_uint32 u32;
  read_repeated_packed_uint64_into read_uint64 u64;
  read_repeated_packed_sint32_into read_sint32 i32;
  read_repeated_packed_sint64_into read_sint64 i64;
  read_repeated_packed_fixed32_into read_fixed32 u32;
  read_repeated_packed_fixed64_into read_fixed64 u64;
  read_repeated_packed_sfixed32_into read_sfixed32 i32;
  read_repeated_packed_sfixed64_into read_sfixed64 i64;
  read_repeated_packed_float_into read_float f32;
  read_repeated_packed_double_into read_double f64;
  read_repeated_packed_bool_into read_bool bool;
}

enum Out<'a> {
  Vec(&'a mut Vec<u8>),
  Writer(&'a mut dyn std::io::Write),
  Bytes(&'a mut [u8], usize),
}
pub struct CodedOutputStream<'a>(Out<'a>);
impl<'a> CodedOutputStream<'a> {
  pub fn new(w: &'a mut dyn std::io::Write) -> Self {
    Self(Out::Writer(w))
  }
  pub fn vec(v: &'a mut Vec<u8>) -> Self {
    Self(Out::Vec(v))
  }
  pub fn flush(&mut self) -> Result<()> {
    Ok(())
  }
  pub fn bytes(b: &'a mut [u8]) -> Self {
    Self(Out::Bytes(b, 0))
  }
  pub fn check_eof(&self) {}
  pub fn write_raw_bytes(&mut self, b: &[u8]) -> Result<()> {
    match &mut self.0 {
      Out::Vec(v) => v.extend_from_slice(b),
      Out::Writer(w) => w.write_all(b)?,
      Out::Bytes(v, n) => {
        v[*n .. *n + b.len()].copy_from_slice(b);
        *n += b.len();
      },
    }
    Ok(())
  }
  pub fn write_raw_varint64(&mut self, mut v: u64) -> Result<()> {
    while v >= 0x80 {
      self.write_raw_bytes(&[(v as u8 & 0x7f) | 0x80])?;
      v >>= 7;
    }
    self.write_raw_bytes(&[v as u8])
  }
  pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> {
    self.write_raw_varint64(v.into())
  }
  fn tag(&mut self, f: u32, w: u32) -> Result<()> {
    self.write_raw_varint32(f << 3 | w)
  }
  pub fn write_bytes(&mut self, f: u32, b: &[u8]) -> Result<()> {
    self.tag(f, 2)?;
    self.write_raw_varint64(b.len() as u64)?;
    self.write_raw_bytes(b)
  }
  pub fn write_string(&mut self, f: u32, s: &str) -> Result<()> {
    self.write_bytes(f, s.as_bytes())
  }
  pub fn write_uint64(&mut self, f: u32, v: u64) -> Result<()> {
    self.tag(f, 0)?;
    self.write_raw_varint64(v)
  }
  pub fn write_uint32(&mut self, f: u32, v: u32) -> Result<()> {
    self.write_uint64(f, v.into())
  }
  pub fn write_int64(&mut self, f: u32, v: i64) -> Result<()> {
    self.write_uint64(f, v as u64)
  }
  pub fn write_int32(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_int64(f, v.into())
  }
  pub fn write_bool(&mut self, f: u32, v: bool) -> Result<()> {
    self.write_uint64(f, v.into())
  }
  pub fn write_enum(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_int32(f, v)
  }
  pub fn write_sint64(&mut self, f: u32, v: i64) -> Result<()> {
    self.write_uint64(f, ((v << 1) ^ (v >> 63)) as u64)
  }
  pub fn write_sint32(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_uint32(f, ((v << 1) ^ (v >> 31)) as u32)
  }
  pub fn write_fixed64(&mut self, f: u32, v: u64) -> Result<()> {
    self.tag(f, 1)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_fixed32(&mut self, f: u32, v: u32) -> Result<()> {
    self.tag(f, 5)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_sfixed64(&mut self, f: u32, v: i64) -> Result<()> {
    self.write_fixed64(f, v as u64)
  }
  pub fn write_sfixed32(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_fixed32(f, v as u32)
  }
  pub fn write_double(&mut self, f: u32, v: f64) -> Result<()> {
    self.write_fixed64(f, v.to_bits())
  }
  pub fn write_float(&mut self, f: u32, v: f32) -> Result<()> {
    self.write_fixed32(f, v.to_bits())
  }
  pub fn write_unknown_fields(&mut self, u: &UnknownFields) -> Result<()> {
    self.write_raw_bytes(&u.raw)
  }
  pub fn write_repeated_packed_double(&mut self, f: u32, v: &[f64]) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.tag(f, 2)?;
    self.write_raw_varint64(v.len() as u64 * 8)?;
    for d in v {
      self.write_raw_bytes(&d.to_bits().to_le_bytes())?;
    }
    Ok(())
  }
  pub fn write_repeated_packed_enum_or_unknown<E: Enum>(
    &mut self,
    f: u32,
    v: &[EnumOrUnknown<E>],
  ) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.tag(f, 2)?;
    let n: u64 = v.iter().map(|e| rt::compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
    self.write_raw_varint64(n)?;
    for e in v {
      self.write_raw_varint64(i64::from(e.value()) as u64)?;
    }
    Ok(())
  }
}

pub mod rt {
  use super::*;
  pub struct Lazy<T: 'static>(std::sync::OnceLock<T>);
  impl<T> Lazy<T> {
    pub const fn new() -> Self {
      Self(std::sync::OnceLock::new())
    }
    pub fn get(&'static self, f: impl FnOnce() -> T) -> &'static T {
      self.0.get_or_init(f)
    }
  }
  pub fn compute_raw_varint64_size(v: u64) -> u64 {
    u64::from((64 - (v | 1).leading_zeros()).div_ceil(7))
  }
  fn tag_size(f: u32) -> u64 {
    compute_raw_varint64_size(u64::from(f) << 3)
  }
  pub fn bytes_size(f: u32, b: &[u8]) -> u64 {
    tag_size(f) + compute_raw_varint64_size(b.len() as u64) + b.len() as u64
  }
  pub fn string_size(f: u32, s: &str) -> u64 {
    bytes_size(f, s.as_bytes())
  }
  pub fn uint64_size(f: u32, v: u64) -> u64 {
    tag_size(f) + compute_raw_varint64_size(v)
  }
  pub fn uint32_size(f: u32, v: u32) -> u64 {
    uint64_size(f, v.into())
  }
  pub fn int64_size(f: u32, v: i64) -> u64 {
    uint64_size(f, v as u64)
  }
  pub fn int32_size(f: u32, v: i32) -> u64 {
    int64_size(f, v.into())
  }
  pub fn sint64_size(f: u32, v: i64) -> u64 {
    uint64_size(f, ((v << 1) ^ (v >> 63)) as u64)
  }
  pub fn sint32_size(f: u32, v: i32) -> u64 {
    uint32_size(f, ((v << 1) ^ (v >> 31)) as u32)
  }
  pub fn vec_packed_double_size(f: u32, v: &[f64]) -> u64 {
    if v.is_empty() {
      return 0;
    }
    let n = v.len() as u64 * 8;
    tag_size(f) + compute_raw_varint64_size(n) + n
  }
  pub fn vec_packed_enum_or_unknown_size<E: Enum>(f: u32, v: &[EnumOrUnknown<E>]) -> u64 {
    if v.is_empty() {
      return 0;
    }
    let n: u64 = v.iter().map(|e| compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
    tag_size(f) + compute_raw_varint64_size(n) + n
  }
  pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(
    is: &mut CodedInputStream<'_>,
    v: &mut Vec<EnumOrUnknown<E>>,
  ) -> Result<()> {
    is.packed(v, |s| s.read_enum_or_unknown())
  }
  pub fn unknown_fields_size(u: &UnknownFields) -> u64 {
    u.raw.len() as u64
  }
  pub fn write_message_field_with_cached_size<M: Message>(
    f: u32,
    m: &M,
    os: &mut CodedOutputStream<'_>,
  ) -> Result<()> {
    os.tag(f, 2)?;
    os.write_raw_varint32(m.cached_size())?;
    m.write_to_with_cached_sizes(os)
  }
  pub fn read_singular_message_into_field<M: Message>(
    is: &mut CodedInputStream<'_>,
    f: &mut MessageField<M>,
  ) -> Result<()> {
    is.merge_message(f.mut_or_insert_default())
  }
  pub fn skip_field_for_tag(tag: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    match tag & 7 {
      0 => is.read_raw_varint64().map(|_| ()),
      1 => is.take(8).map(|_| ()),
      2 => is.read_bytes().map(|_| ()),
      5 => is.take(4).map(|_| ()),
      _ => Err(Error::Wire("wire type")),
    }
  }
  pub fn read_unknown_or_skip_group(
    tag: u32,
    is: &mut CodedInputStream<'_>,
    u: &mut UnknownFields,
  ) -> Result<()> {
    let start = is.pos;
    skip_field_for_tag(tag, is)?;
    let body = is.buf[start .. is.pos].to_vec();
    CodedOutputStream::vec(&mut u.raw).write_raw_varint32(tag)?;
    u.raw.extend_from_slice(&body);
    Ok(())
  }
}

pub mod text_format {
  use super::*;
  pub fn fmt(m: &dyn fmt::Debug, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    m.fmt(f)
  }
}

pub mod ext {
  pub struct ExtFieldOptional<M, T>(std::marker::PhantomData<(M, T)>);
  impl<M, T> ExtFieldOptional<M, T> {
    pub const fn new(_: u32, _: super::descriptor::field_descriptor_proto::Type) -> Self {
      Self(std::marker::PhantomData)
    }
    pub fn get(&self, _: &M) -> Option<T> {
      todo!()
    }
  }
}

macro_rules! wkt {
  ($t:ident { $($f:ident $k:ident $d:expr, $ty:ty, $n:expr;)* }) => {
    #[derive(PartialEq, Clone, Default, Debug)]
    pub struct $t { $(pub $f: $ty,)* pub special_fields: crate::SpecialFields }
    impl<'a> Default for &'a $t {
      fn default() -> Self { <$t as crate::Message>::default_instance() }
    }
    impl $t { pub fn new() -> Self { Self::default() } }
    impl std::fmt::Display for $t {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
    }
    impl crate::Message for $t {
      const NAME: &'static str = stringify!($t);
      fn is_initialized(&self) -> bool { true }
      fn merge_from(&mut self, is: &mut crate::CodedInputStream<'_>) -> crate::Result<()> {
        while let Some(tag) = is.read_raw_tag_or_eof()? {
          $(if tag >> 3 == $n { wkt!(@read $k self.$f is); continue; })*
          crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
        }
        Ok(())
      }
      fn compute_size(&self) -> u64 {
        let mut v = Vec::new();
        self.write_to_with_cached_sizes(&mut crate::CodedOutputStream::vec(&mut v)).unwrap();
        self.special_fields.cached_size().set(v.len() as u32);
        v.len() as u64
      }
      fn write_to_with_cached_sizes(&self, os: &mut crate::CodedOutputStream<'_>) -> crate::Result<()> {
        $(if self.$f != <$ty>::default() { wkt!(@write $k self.$f os $n); })*
        os.write_unknown_fields(self.special_fields.unknown_fields())
      }
      fn special_fields(&self) -> &crate::SpecialFields { &self.special_fields }
      fn mut_special_fields(&mut self) -> &mut crate::SpecialFields { &mut self.special_fields }
      fn new() -> Self { Self::default() }
      fn default_instance() -> &'static Self {
        static I: $t = $t { $($f: $d,)* special_fields: crate::SpecialFields::new() };
        &I
      }
    }
    impl crate::MessageFull for $t {
      fn descriptor() -> crate::reflect::MessageDescriptor { todo!() }
    }
    impl crate::reflect::ProtobufValue for $t {
      type RuntimeType = crate::reflect::rt::RuntimeTypeMessage<Self>;
    }
  };
  (@read i64 $s:ident.$f:ident $is:ident) => { $s.$f = $is.read_int64()? };
  (@read i32 $s:ident.$f:ident $is:ident) => { $s.$f = $is.read_int32()? };
  (@read str $s:ident.$f:ident $is:ident) => { $s.$f = $is.read_string()? };
  (@read bytes $s:ident.$f:ident $is:ident) => { $s.$f = $is.read_bytes()? };
  (@write i64 $s:ident.$f:ident $os:ident $n:expr) => { $os.write_int64($n, $s.$f)? };
  (@write i32 $s:ident.$f:ident $os:ident $n:expr) => { $os.write_int32($n, $s.$f)? };
  (@write str $s:ident.$f:ident $os:ident $n:expr) => { $os.write_string($n, &$s.$f)? };
  (@write bytes $s:ident.$f:ident $os:ident $n:expr) => { $os.write_bytes($n, &$s.$f)? };
}

pub mod well_known_types {
  pub mod timestamp {
    wkt!(Timestamp { seconds i64 0, i64, 1; nanos i32 0, i32, 2; });
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      todo!()
    }
  }
  pub mod duration {
    wkt!(Duration { seconds i64 0, i64, 1; nanos i32 0, i32, 2; });
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      todo!()
    }
    impl TryFrom<Duration> for std::time::Duration {
      type Error = ();
      fn try_from(d: Duration) -> Result<Self, ()> {
        Ok(Self::new(
          d.seconds.try_into().map_err(|_| ())?,
          d.nanos.try_into().map_err(|_| ())?,
        ))
      }
    }
    impl From<std::time::Duration> for Duration {
      fn from(d: std::time::Duration) -> Self {
        Self { seconds: d.as_secs() as i64, nanos: d.subsec_nanos() as i32, ..Self::default() }
      }
    }
  }
  pub mod any {
    wkt!(Any { type_url str String::new(), String, 1; value bytes Vec::new(), Vec<u8>, 2; });
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      todo!()
    }
    impl Any {
      pub fn pack<M: crate::MessageFull>(_: &M) -> crate::Result<Self> {
        todo!()
      }
      pub fn unpack<M: crate::MessageFull>(&self) -> crate::Result<Option<M>> {
        todo!()
      }
    }
  }
}

pub mod descriptor {
  wkt!(FileDescriptorProto { name str String::new(), String, 1; });
  wkt!(FileOptions { name str String::new(), String, 1; });
  wkt!(MessageOptions { name str String::new(), String, 1; });
  wkt!(FieldOptions { name str String::new(), String, 1; });
  wkt!(OneofOptions { name str String::new(), String, 1; });
  wkt!(EnumOptions { name str String::new(), String, 1; });
  wkt!(EnumValueOptions { name str String::new(), String, 1; });
  wkt!(MethodOptions { name str String::new(), String, 1; });
  wkt!(ServiceOptions { name str String::new(), String, 1; });
  pub struct ServiceDescriptorProto { n: String }
  impl ServiceDescriptorProto { pub fn name(&self) -> &str { &self.n } }
  pub struct MethodDescriptorProto { n: String }
  impl MethodDescriptorProto { pub fn name(&self) -> &str { &self.n } }
  pub struct FieldDescriptorProto {
    pub options: crate::MessageField<FieldOptions>,
  }
  pub struct OneofDescriptorProto {
    pub options: crate::MessageField<OneofOptions>,
  }
  pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
    todo!()
  }
  pub mod field_descriptor_proto {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Type {
      TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32,
      TYPE_BOOL, TYPE_STRING, TYPE_GROUP, TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM,
      TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64,
    }
  }
}

pub mod reflect {
  use super::*;
  pub trait ProtobufValue: Clone + Default + fmt::Debug + Send + Sync + Sized + 'static {
    type RuntimeType;
  }
  macro_rules! d { ($($n:ident)*) => { $(#[derive(Clone, Debug, PartialEq, Eq)] pub struct $n;)* } }
  d!(ServiceDescriptor MethodDescriptor MessageDescriptor FieldDescriptor OneofDescriptor EnumDescriptor EnumValueDescriptor
     FileDescriptor GeneratedMessageDescriptorData GeneratedOneofDescriptorData
     GeneratedEnumDescriptorData GeneratedFileDescriptor ReflectRuntimeType);
  impl MessageDescriptor {
    pub fn full_name(&self) -> &str { todo!() }
    pub fn name(&self) -> &str { todo!() }
    pub fn file_descriptor(&self) -> &FileDescriptor { todo!() }
    pub fn oneofs(&self) -> std::vec::IntoIter<OneofDescriptor> { todo!() }
    pub fn fields(&self) -> std::vec::IntoIter<FieldDescriptor> { todo!() }
    pub fn oneof_by_name(&self, _: &str) -> Option<OneofDescriptor> { todo!() }
    pub fn field_by_name(&self, _: &str) -> Option<FieldDescriptor> { todo!() }
  }
  impl OneofDescriptor {
    pub fn full_name(&self) -> String { todo!() }
    pub fn name(&self) -> &str { todo!() }
    pub fn proto(&self) -> &descriptor::OneofDescriptorProto { todo!() }
    pub fn fields(&self) -> std::vec::IntoIter<FieldDescriptor> { todo!() }
  }
  impl FieldDescriptor {
    pub fn full_name(&self) -> String { todo!() }
    pub fn name(&self) -> &str { todo!() }
    pub fn number(&self) -> i32 { todo!() }
    pub fn proto(&self) -> &descriptor::FieldDescriptorProto { todo!() }
    pub fn has_field(&self, _: &dyn MessageDyn) -> bool { todo!() }
    pub fn containing_oneof_including_synthetic(&self) -> Option<OneofDescriptor> { todo!() }
    pub fn get_singular<'a>(&self, _: &'a dyn MessageDyn) -> Option<ReflectValueRef<'a>> { todo!() }
    pub fn get_singular_field_or_default<'a>(&self, _: &'a dyn MessageDyn) -> ReflectValueRef<'a> { todo!() }
    pub fn get_repeated<'a>(&self, _: &'a dyn MessageDyn) -> ReflectRepeatedRef<'a> { todo!() }
    pub fn get_reflect<'a>(&self, _: &'a dyn MessageDyn) -> ReflectFieldRef<'a> { todo!() }
    pub fn runtime_field_type(&self) -> RuntimeFieldType { todo!() }
  }
  impl EnumDescriptor {
    pub fn value_by_index(&self, _: usize) -> EnumValueDescriptor { todo!() }
    pub fn value_by_number(&self, _: i32) -> Option<EnumValueDescriptor> { todo!() }
  }
  impl FileDescriptor {
    pub fn new_generated_2(_: &'static GeneratedFileDescriptor) -> Self { todo!() }
    pub fn message_by_package_relative_name(&self, _: &str) -> Option<MessageDescriptor> { todo!() }
    pub fn enum_by_package_relative_name(&self, _: &str) -> Option<EnumDescriptor> { todo!() }
    pub fn name(&self) -> &str { todo!() }
    pub fn package(&self) -> &str { todo!() }
    pub fn services(&self) -> std::vec::IntoIter<ServiceDescriptor> { todo!() }
  }
  impl ServiceDescriptor {
    pub fn methods(&self) -> std::vec::IntoIter<MethodDescriptor> { todo!() }
    pub fn proto(&self) -> &descriptor::ServiceDescriptorProto { todo!() }
  }
  impl MethodDescriptor {
    pub fn input_type(&self) -> MessageDescriptor { todo!() }
    pub fn output_type(&self) -> MessageDescriptor { todo!() }
    pub fn proto(&self) -> &descriptor::MethodDescriptorProto { todo!() }
  }
  impl GeneratedFileDescriptor {
    pub fn new_generated(
      _: &'static descriptor::FileDescriptorProto,
      _: Vec<FileDescriptor>,
      _: Vec<GeneratedMessageDescriptorData>,
      _: Vec<GeneratedEnumDescriptorData>,
    ) -> Self { todo!() }
  }
  impl GeneratedMessageDescriptorData {
    pub fn new_2<M: MessageFull>(
      _: &'static str,
      _: Vec<rt::v2::FieldAccessor>,
      _: Vec<GeneratedOneofDescriptorData>,
    ) -> Self { todo!() }
  }
  impl GeneratedOneofDescriptorData {
    pub fn new<O: OneofFull>(_: &'static str) -> Self { todo!() }
  }
  impl GeneratedEnumDescriptorData {
    pub fn new<E: EnumFull>(_: &'static str) -> Self { todo!() }
  }
  pub enum RuntimeFieldType {
    Singular(RuntimeType),
    Repeated(RuntimeType),
    Map(RuntimeType, RuntimeType),
  }
  pub enum RuntimeType {
    I32, I64, U32, U64, F32, F64, Bool, String, VecU8,
    Enum(EnumDescriptor),
    Message(MessageDescriptor),
  }
  pub struct MessageRef<'a>(&'a dyn MessageDyn);
  impl<'a> Deref for MessageRef<'a> {
    type Target = dyn MessageDyn;
    fn deref(&self) -> &(dyn MessageDyn + 'static) { self.0 }
  }
  pub enum ReflectValueRef<'a> {
    U32(u32), U64(u64), I32(i32), I64(i64), F32(f32), F64(f64), Bool(bool),
    String(&'a str),
    Bytes(&'a [u8]),
    Enum(EnumDescriptor, i32),
    Message(MessageRef<'a>),
  }
  impl fmt::Display for ReflectValueRef<'_> {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
  }
  pub struct ReflectOptionalRef<'a>(std::marker::PhantomData<&'a ()>);
  impl<'a> ReflectOptionalRef<'a> {
    pub fn value(&self) -> Option<ReflectValueRef<'a>> { todo!() }
  }
  pub struct ReflectRepeatedRef<'a>(std::marker::PhantomData<&'a ()>);
  impl ReflectRepeatedRef<'_> {
    pub fn len(&self) -> usize { todo!() }
    pub fn is_empty(&self) -> bool { todo!() }
  }
  impl<'a> IntoIterator for ReflectRepeatedRef<'a> {
    type Item = ReflectValueRef<'a>;
    type IntoIter = std::vec::IntoIter<ReflectValueRef<'a>>;
    fn into_iter(self) -> Self::IntoIter { todo!() }
  }
  pub struct ReflectMapRef<'a>(std::marker::PhantomData<&'a ()>);
  impl<'a> IntoIterator for ReflectMapRef<'a> {
    type Item = (ReflectValueRef<'a>, ReflectValueRef<'a>);
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter { todo!() }
  }
  impl<'a, 'b: 'a> IntoIterator for &'b ReflectMapRef<'a> {
    type Item = (ReflectValueRef<'a>, ReflectValueRef<'a>);
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter { todo!() }
  }
  pub enum ReflectFieldRef<'a> {
    Optional(ReflectOptionalRef<'a>),
    Repeated(ReflectRepeatedRef<'a>),
    Map(ReflectMapRef<'a>),
  }
  pub mod rt {
    pub struct RuntimeTypeMessage<T>(std::marker::PhantomData<T>);
    pub mod v2 {
      pub struct FieldAccessor;
      type G<M, T> = for<'a> fn(&'a M) -> &'a T;
      type S<M, T> = for<'a> fn(&'a mut M) -> &'a mut T;
      pub fn make_option_accessor<M, T>(_: &'static str, _: G<M, Option<T>>, _: S<M, Option<T>>) -> FieldAccessor { todo!() }
      pub fn make_simpler_field_accessor<M, T>(_: &'static str, _: G<M, T>, _: S<M, T>) -> FieldAccessor { todo!() }
      pub fn make_vec_simpler_accessor<M, T>(_: &'static str, _: G<M, Vec<T>>, _: S<M, Vec<T>>) -> FieldAccessor { todo!() }
      pub fn make_message_field_accessor<M, T>(_: &'static str, _: G<M, crate::MessageField<T>>, _: S<M, crate::MessageField<T>>) -> FieldAccessor { todo!() }
      pub fn make_map_simpler_accessor_new<M, T>(_: &'static str, _: G<M, T>, _: S<M, T>) -> FieldAccessor { todo!() }
      pub fn make_oneof_copy_has_get_set_simpler_accessors<M, T>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> T, _: fn(&mut M, T)) -> FieldAccessor { todo!() }
      pub fn make_oneof_deref_has_get_set_simpler_accessor<M, T: std::ops::Deref>(_: &'static str, _: fn(&M) -> bool, _: for<'a> fn(&'a M) -> &'a T::Target, _: fn(&mut M, T)) -> FieldAccessor { todo!() }
      pub fn make_oneof_message_has_get_mut_set_accessor<M, T>(_: &'static str, _: fn(&M) -> bool, _: G<M, T>, _: S<M, T>, _: fn(&mut M, T)) -> FieldAccessor { todo!() }
      pub fn make_oneof_enum_accessors<M, E: crate::Enum>(_: &'static str, _: for<'a> fn(&'a M) -> Option<crate::EnumOrUnknown<E>>, _: fn(&mut M, crate::EnumOrUnknown<E>), _: E) -> FieldAccessor { todo!() }
    }
  }
}

#[allow(dead_code)]
fn _unused(_: &dyn DerefMut<Target = ()>) {}

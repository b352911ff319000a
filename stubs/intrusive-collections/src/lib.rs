//! Type-level stand-in: signatures only.
pub use std::mem::offset_of;
pub struct LinkedListLink(());
impl LinkedListLink { pub const fn new() -> Self { Self(()) } }
pub trait Adapter { type Ptr; type Value; const NEW: Self; }
pub struct LinkedList<A: Adapter>(std::marker::PhantomData<A>, Vec<A::Ptr>);
impl<A: Adapter> Default for LinkedList<A> { fn default() -> Self { todo!() } }
pub struct Cursor<'a, A: Adapter>(&'a LinkedList<A>);
impl<'a, A: Adapter> Cursor<'a, A> { pub fn get(&self) -> Option<&'a A::Value> { todo!() } }
impl<A: Adapter> LinkedList<A> {
  pub fn is_empty(&self) -> bool { todo!() }
  pub fn front(&self) -> Cursor<'_, A> { todo!() }
  pub fn pop_front(&mut self) -> Option<A::Ptr> { todo!() }
  pub fn push_front(&mut self, _: A::Ptr) { todo!() }
  pub fn push_back(&mut self, _: A::Ptr) { todo!() }
}
#[macro_export]
macro_rules! intrusive_adapter {
  ($n:ident<$t:ident> = $p:ty: $v:ty { $l:ident: $lt:ty }) => {
    struct $n<$t>(std::marker::PhantomData<$t>);
    impl<$t> $crate::Adapter for $n<$t> { type Ptr = $p; type Value = $v; const NEW: Self = $n(std::marker::PhantomData); }
  };
}

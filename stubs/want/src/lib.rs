//! Type-level stand-in: signatures only.
use std::task::{Context, Poll};
#[derive(Debug)] pub struct Giver(());
#[derive(Debug)] pub struct Taker(());
#[derive(Clone, Debug)] pub struct SharedGiver(());
#[derive(Debug)] pub struct Closed(());
pub fn new() -> (Giver, Taker) { todo!() }
impl Giver {
  pub fn poll_want(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Closed>> { todo!() }
  pub fn give(&self) -> bool { todo!() }
  pub fn is_wanting(&self) -> bool { todo!() }
  pub fn is_canceled(&self) -> bool { todo!() }
  pub fn shared(self) -> SharedGiver { todo!() }
}
impl SharedGiver { pub fn is_wanting(&self) -> bool { todo!() } pub fn is_canceled(&self) -> bool { todo!() } }
impl Taker { pub fn want(&mut self) { todo!() } pub fn cancel(&mut self) { todo!() } }

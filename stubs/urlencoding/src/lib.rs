//! Type-level stand-in: signatures only.
use std::borrow::Cow;
pub fn encode(_: &str) -> Cow<'_, str> { todo!() }
pub fn decode(_: &str) -> Result<Cow<'_, str>, std::string::FromUtf8Error> { todo!() }

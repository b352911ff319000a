//! Type-level stand-in: signatures only.

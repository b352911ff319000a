pub use futures_util::*;
pub use futures_channel as channel;

#[macro_export]
macro_rules! const_assert_eq { ($a:expr, $b:expr $(,)?) => { const _: () = assert!($a == $b); }; }
#[macro_export]
macro_rules! const_assert { ($a:expr $(,)?) => { const _: () = assert!($a); }; }

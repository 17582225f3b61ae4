#[macro_export] macro_rules! smallvec { ($($t:tt)*) => { vec![$($t)*].into() } }
pub extern crate alloc;

//! Stand-in for `sp-std` (std build): re-exports of the standard library.
pub use std::*;
pub mod prelude {
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::iter::{IntoIterator, Iterator, FromIterator};
	pub use std::vec;
	pub use std::vec::Vec;
	pub use std::borrow::ToOwned;
}
pub mod collections {
	pub use std::collections::*;
	pub mod btree_map { pub use std::collections::btree_map::*; }
	pub mod btree_set { pub use std::collections::btree_set::*; }
	pub mod vec_deque { pub use std::collections::vec_deque::*; }
}
pub mod alloc { pub use std::alloc::*; }
#[macro_export]
macro_rules! if_std { ( $( $code:tt )* ) => { $( $code )* } }
#[macro_export]
macro_rules! map {
	($( $name:expr => $value:expr ),* $(,)? ) => ( vec![ $( ( $name, $value ) ),* ].into_iter().collect() );
}
pub struct Writer(pub std::vec::Vec<u8>);

#[macro_export]
macro_rules! parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => ( $( #[ $attr ] )* $vis struct $name; $crate::parameter_types!(@C $name, $type, $value); $crate::parameter_types!( $( $rest )* ); );
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$( #[ $attr ] )* $vis struct $name;
		const _: () = {
			std::thread_local! { static HELD: std::cell::RefCell<$type> = std::cell::RefCell::new($value); }
			impl $name {
				#[allow(unused)] pub fn get() -> $type { HELD.with(|v| v.borrow().clone()) }
				#[allow(unused)] pub fn set(t: $type) { HELD.with(|v| *v.borrow_mut() = t); }
				#[allow(unused)] pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
				#[allow(unused)] pub fn take() -> $type { let c = Self::get(); Self::set($value); c }
			}
			impl<_I: From<$type>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
			impl $crate::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		};
		$crate::parameter_types!( $( $rest )* );
	);
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$( #[ $attr ] )* $vis struct $name;
		impl $name {
			pub fn key() -> [u8; 16] { $crate::__private::sp_io::hashing::twox_128(concat!(":", stringify!($name), ":").as_bytes()) }
			#[allow(unused)] pub fn get() -> $type { $crate::storage::unhashed::get(&Self::key()).unwrap_or_else(|| $value) }
			#[allow(unused)] pub fn set(v: &$type) { $crate::storage::unhashed::put(&Self::key(), v) }
		}
		impl<_I: From<$type>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		$crate::parameter_types!( $( $rest )* );
	);
	( $( #[ $attr:meta ] )* $vis:vis $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => ( $( #[ $attr ] )* $vis struct $name; $crate::parameter_types!(@N $name, $type, $value); $crate::parameter_types!( $( $rest )* ); );
	() => ();
	(@C $name:ident, $type:ty, $value:expr) => ( impl $name { #[allow(unused)] pub const fn get() -> $type { $value } } $crate::parameter_types!(@G $name, $type); );
	(@N $name:ident, $type:ty, $value:expr) => ( impl $name { #[allow(unused)] pub fn get() -> $type { $value } } $crate::parameter_types!(@G $name, $type); );
	(@G $name:ident, $type:ty) => (
		impl<_I: From<$type>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
	);
}
#[macro_export]
macro_rules! ord_parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => (
		$crate::parameter_types!( $( #[ $attr ] )* $vis const $name: $type = $value; );
		impl $crate::traits::SortedMembers<$type> for $name { fn contains(t: &$type) -> bool { &$value == t } fn sorted_members() -> Vec<$type> { vec![$value] } fn count() -> usize { 1 } }
		$crate::ord_parameter_types!( $( $rest )* );
	);
	() => ();
}
#[macro_export] macro_rules! ensure { ($x:expr, $y:expr $(,)?) => { if !$x { $crate::fail!($y); } }; }
#[macro_export] macro_rules! fail { ($y:expr) => { { return Err($y.into()); } }; }
#[macro_export] macro_rules! assert_ok { ($x:expr $(,)?) => { let is = $x; match is { Ok(_) => (), _ => assert!(false, "Expected Ok(_). Got {:#?}", is) } }; ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Ok($y)); }; }
#[macro_export] macro_rules! assert_err { ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Err($y.into())); }; }
#[macro_export] macro_rules! assert_err_ignore_postinfo { ($x:expr, $y:expr $(,)?) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); }; }
#[macro_export] macro_rules! assert_storage_noop { ($x:expr $(,)?) => { let h = $crate::__private::sp_io::storage::root($crate::__private::sp_runtime::StateVersion::V1); $x; assert_eq!(h, $crate::__private::sp_io::storage::root($crate::__private::sp_runtime::StateVersion::V1), "storage has been mutated"); }; }
#[macro_export] macro_rules! assert_noop { ($x:expr, $y:expr $(,)?) => { let h = $crate::__private::sp_io::storage::root($crate::__private::sp_runtime::StateVersion::V1); $crate::assert_err!($x, $y); assert_eq!(h, $crate::__private::sp_io::storage::root($crate::__private::sp_runtime::StateVersion::V1), "storage has been mutated"); }; }
#[macro_export] macro_rules! defensive { () => { if $crate::traits::defensive_fires() { panic!("defensive failure") } }; ($e:expr $(,)?) => { { let _ = &$e; if $crate::traits::defensive_fires() { panic!("defensive failure: {:?}", $e) } } }; ($e:expr, $p:expr $(,)?) => { { let _ = (&$e, &$p); if $crate::traits::defensive_fires() { panic!("defensive failure: {:?} {:?}", $e, $p) } } }; }
#[macro_export] macro_rules! runtime_print { ($($arg:tt)*) => {}; }
#[macro_export] macro_rules! parameter_type_dummy { () => {}; }

//! Stand-in for `orml-traits`.
use codec::{Codec, FullCodec, MaxEncodedLen};
pub use frame_support::traits::{BalanceStatus, LockIdentifier, Get};
use frame_support::transactional as _;
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize};
use sp_runtime::{DispatchError, DispatchResult};
use std::cmp::{Eq, PartialEq};
use std::fmt::Debug;
pub mod arithmetic {
	pub use sp_runtime::traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedShl, CheckedShr, CheckedSub, IntegerSquareRoot, One, Saturating, UniqueSaturatedFrom, UniqueSaturatedInto, Zero};
	use std::ops::*;
	pub trait Signed: Sized + PartialOrd + Sub + Neg { fn abs(&self) -> Self; fn signum(&self) -> Self; fn is_positive(&self) -> bool; fn is_negative(&self) -> bool; }
	macro_rules! s { ($($t:ident)*) => {$( impl Signed for $t { fn abs(&self) -> Self { <$t>::abs(*self) } fn signum(&self) -> Self { <$t>::signum(*self) } fn is_positive(&self) -> bool { *self > 0 } fn is_negative(&self) -> bool { *self < 0 } } )*} } s! { i8 i16 i32 i64 i128 isize }
	pub trait SimpleArithmetic: Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + PartialOrd<Self> + Bounded + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Sized {}
	impl<T: Zero + One + Add<T, Output = T> + AddAssign<T> + Sub<T, Output = T> + SubAssign<T> + Mul<T, Output = T> + MulAssign<T> + Div<T, Output = T> + DivAssign<T> + Rem<T, Output = T> + PartialOrd<T> + Bounded + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Sized> SimpleArithmetic for T {}
}
pub mod location { pub struct AbsoluteReserveProvider; pub struct RelativeReserveProvider; pub trait Reserve {} pub trait Parse {} }
pub mod asset_registry {}
pub mod nft {}
pub mod get_by_key {
	pub trait GetByKey<K, V> { fn get(k: &K) -> V; }
	#[macro_export]
	macro_rules! parameter_type_with_key {
		( pub $name:ident: |$k:ident: $key:ty| -> $value:ty $body:block; ) => { $crate::parameter_type_with_key! { @ [pub] $name: |$k: $key| -> $value $body; } };
		( $name:ident: |$k:ident: $key:ty| -> $value:ty $body:block; ) => { $crate::parameter_type_with_key! { @ [] $name: |$k: $key| -> $value $body; } };
		( @ [$($v:tt)*] $name:ident: |$k:ident: $key:ty| -> $value:ty $body:block; ) => { $($v)* struct $name; impl $crate::GetByKey<$key, $value> for $name { #[allow(unused_variables)] fn get($k: &$key) -> $value $body } };
	}
	pub struct Zero; impl<K, V: sp_runtime::traits::Zero> GetByKey<K, V> for Zero { fn get(_: &K) -> V { V::zero() } }
}
pub use get_by_key::GetByKey;
pub trait Happened<T> { fn happened(t: &T); }
#[impl_trait_for_tuples::impl_for_tuples(30)] impl<T> Happened<T> for Tuple { fn happened(t: &T) { for_tuples!( #( Tuple::happened(t); )* ); } }
pub trait Handler<T> { fn handle(t: &T) -> DispatchResult; }
#[impl_trait_for_tuples::impl_for_tuples(30)] impl<T> Handler<T> for Tuple { fn handle(t: &T) -> DispatchResult { for_tuples!( #( Tuple::handle(t)?; )* ); Ok(()) } }
pub trait Contains<T> { fn contains(t: &T) -> bool; }
pub trait PriceProvider<C, P> { fn get_price(b: C, q: C) -> Option<P>; }
pub trait DataProvider<K, V> { fn get(k: &K) -> Option<V>; }
pub use currency::*;
pub mod currency {
	use super::*;
	use super::arithmetic::SimpleArithmetic;
	pub trait MultiCurrency<A> {
		type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + Debug + TypeInfo + MaxEncodedLen;
		type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + TypeInfo + MaxEncodedLen;
		fn minimum_balance(c: Self::CurrencyId) -> Self::Balance; fn total_issuance(c: Self::CurrencyId) -> Self::Balance; fn total_balance(c: Self::CurrencyId, w: &A) -> Self::Balance; fn free_balance(c: Self::CurrencyId, w: &A) -> Self::Balance;
		fn ensure_can_withdraw(c: Self::CurrencyId, w: &A, a: Self::Balance) -> DispatchResult; fn transfer(c: Self::CurrencyId, f: &A, t: &A, a: Self::Balance) -> DispatchResult; fn deposit(c: Self::CurrencyId, w: &A, a: Self::Balance) -> DispatchResult; fn withdraw(c: Self::CurrencyId, w: &A, a: Self::Balance) -> DispatchResult;
		fn can_slash(c: Self::CurrencyId, w: &A, v: Self::Balance) -> bool; fn slash(c: Self::CurrencyId, w: &A, a: Self::Balance) -> Self::Balance;
	}
	pub trait MultiCurrencyExtended<A>: MultiCurrency<A> {
		type Amount: arithmetic::Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + SimpleArithmetic + Codec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen + TypeInfo + PartialEq + Eq + Clone;
		fn update_balance(c: Self::CurrencyId, w: &A, a: Self::Amount) -> DispatchResult;
	}
	pub trait MultiLockableCurrency<A>: MultiCurrency<A> { type Moment; fn set_lock(i: LockIdentifier, c: Self::CurrencyId, w: &A, a: Self::Balance) -> DispatchResult; fn extend_lock(i: LockIdentifier, c: Self::CurrencyId, w: &A, a: Self::Balance) -> DispatchResult; fn remove_lock(i: LockIdentifier, c: Self::CurrencyId, w: &A) -> DispatchResult; }
	pub trait MultiReservableCurrency<A>: MultiCurrency<A> {
		fn can_reserve(c: Self::CurrencyId, w: &A, v: Self::Balance) -> bool; fn slash_reserved(c: Self::CurrencyId, w: &A, v: Self::Balance) -> Self::Balance; fn reserved_balance(c: Self::CurrencyId, w: &A) -> Self::Balance; fn reserve(c: Self::CurrencyId, w: &A, v: Self::Balance) -> DispatchResult; fn unreserve(c: Self::CurrencyId, w: &A, v: Self::Balance) -> Self::Balance;
		fn repatriate_reserved(c: Self::CurrencyId, s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	}
	pub trait NamedMultiReservableCurrency<A>: MultiReservableCurrency<A> {
		type ReserveIdentifier;
		fn slash_reserved_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A, v: Self::Balance) -> Self::Balance; fn reserved_balance_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A) -> Self::Balance; fn reserve_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A, v: Self::Balance) -> DispatchResult; fn unreserve_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A, v: Self::Balance) -> Self::Balance;
		fn repatriate_reserved_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
		fn ensure_reserved_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A, v: Self::Balance) -> DispatchResult { let cur = Self::reserved_balance_named(i, c, w); if cur > v { Self::unreserve_named(i, c, w, cur - v); Ok(()) } else if v > cur { Self::reserve_named(i, c, w, v - cur) } else { Ok(()) } }
		fn unreserve_all_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A) -> Self::Balance { let v = Self::reserved_balance_named(i, c, w); Self::unreserve_named(i, c, w, v); v }
		fn slash_all_reserved_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, w: &A) -> Self::Balance { let v = Self::reserved_balance_named(i, c, w); Self::slash_reserved_named(i, c, w, v) }
		fn repatriate_all_reserved_named(i: &Self::ReserveIdentifier, c: Self::CurrencyId, s: &A, b: &A, st: BalanceStatus) -> DispatchResult { let v = Self::reserved_balance_named(i, c, s); Self::repatriate_reserved_named(i, c, s, b, v, st).map(|_| ()) }
	}
	pub trait BasicCurrency<A> {
		type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen;
		fn minimum_balance() -> Self::Balance; fn total_issuance() -> Self::Balance; fn total_balance(w: &A) -> Self::Balance; fn free_balance(w: &A) -> Self::Balance; fn ensure_can_withdraw(w: &A, a: Self::Balance) -> DispatchResult; fn transfer(f: &A, t: &A, a: Self::Balance) -> DispatchResult; fn deposit(w: &A, a: Self::Balance) -> DispatchResult; fn withdraw(w: &A, a: Self::Balance) -> DispatchResult; fn can_slash(w: &A, v: Self::Balance) -> bool; fn slash(w: &A, a: Self::Balance) -> Self::Balance;
	}
	pub trait BasicCurrencyExtended<A>: BasicCurrency<A> { type Amount: arithmetic::Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + SimpleArithmetic + Codec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen; fn update_balance(w: &A, a: Self::Amount) -> DispatchResult; }
	pub trait BasicLockableCurrency<A>: BasicCurrency<A> { type Moment; fn set_lock(i: LockIdentifier, w: &A, a: Self::Balance) -> DispatchResult; fn extend_lock(i: LockIdentifier, w: &A, a: Self::Balance) -> DispatchResult; fn remove_lock(i: LockIdentifier, w: &A) -> DispatchResult; }
	pub trait BasicReservableCurrency<A>: BasicCurrency<A> { fn can_reserve(w: &A, v: Self::Balance) -> bool; fn slash_reserved(w: &A, v: Self::Balance) -> Self::Balance; fn reserved_balance(w: &A) -> Self::Balance; fn reserve(w: &A, v: Self::Balance) -> DispatchResult; fn unreserve(w: &A, v: Self::Balance) -> Self::Balance; fn repatriate_reserved(s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>; }
	pub trait NamedBasicReservableCurrency<A, I>: BasicReservableCurrency<A> {
		fn slash_reserved_named(i: &I, w: &A, v: Self::Balance) -> Self::Balance; fn reserved_balance_named(i: &I, w: &A) -> Self::Balance; fn reserve_named(i: &I, w: &A, v: Self::Balance) -> DispatchResult; fn unreserve_named(i: &I, w: &A, v: Self::Balance) -> Self::Balance; fn repatriate_reserved_named(i: &I, s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
		fn ensure_reserved_named(i: &I, w: &A, v: Self::Balance) -> DispatchResult { let cur = Self::reserved_balance_named(i, w); if cur > v { Self::unreserve_named(i, w, cur - v); Ok(()) } else if v > cur { Self::reserve_named(i, w, v - cur) } else { Ok(()) } }
		fn unreserve_all_named(i: &I, w: &A) -> Self::Balance { let v = Self::reserved_balance_named(i, w); Self::unreserve_named(i, w, v); v }
	}
	pub trait OnDust<A, C, B> { fn on_dust(w: &A, c: C, a: B); } impl<A, C, B> OnDust<A, C, B> for () { fn on_dust(_: &A, _: C, _: B) {} }
	pub trait TransferAll<A> { fn transfer_all(s: &A, d: &A) -> DispatchResult; }
	#[impl_trait_for_tuples::impl_for_tuples(5)] impl<A> TransferAll<A> for Tuple { fn transfer_all(s: &A, d: &A) -> DispatchResult { for_tuples!( #( Tuple::transfer_all(s, d)?; )* ); Ok(()) } }
	pub trait OnSlash<A, C, B> { fn on_slash(c: C, w: &A, f: B, r: B); } impl<A, C, B> OnSlash<A, C, B> for () { fn on_slash(_: C, _: &A, _: B, _: B) {} }
	pub trait OnDeposit<A, C, B> { fn on_deposit(c: C, w: &A, a: B) -> DispatchResult; } impl<A, C, B> OnDeposit<A, C, B> for () { fn on_deposit(_: C, _: &A, _: B) -> DispatchResult { Ok(()) } }
	pub trait OnTransfer<A, C, B> { fn on_transfer(c: C, f: &A, t: &A, a: B) -> DispatchResult; } impl<A, C, B> OnTransfer<A, C, B> for () { fn on_transfer(_: C, _: &A, _: &A, _: B) -> DispatchResult { Ok(()) } }
	pub trait MutationHooks<A, C, B> { type OnDust: OnDust<A, C, B>; type OnSlash: OnSlash<A, C, B>; type PreDeposit: OnDeposit<A, C, B>; type PostDeposit: OnDeposit<A, C, B>; type PreTransfer: OnTransfer<A, C, B>; type PostTransfer: OnTransfer<A, C, B>; type OnNewTokenAccount: Happened<(A, C)>; type OnKilledTokenAccount: Happened<(A, C)>; }
	impl<A, C, B> MutationHooks<A, C, B> for () { type OnDust = (); type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = (); type OnKilledTokenAccount = (); }
}

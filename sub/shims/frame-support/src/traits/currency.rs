//! The older single-currency traits.
use super::tokens::*;
use super::tokens::imbalance::*;
use super::*;
use sp_runtime::traits::MaybeSerializeDeserialize;
use sp_runtime::Permill;
pub type LockIdentifier = [u8; 8];
pub trait Currency<A> {
	type Balance: Balance + MaybeSerializeDeserialize + Debug + codec::MaxEncodedLen + sp_runtime::FixedPointOperand;
	type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>; type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
	fn total_balance(w: &A) -> Self::Balance; fn can_slash(w: &A, v: Self::Balance) -> bool; fn total_issuance() -> Self::Balance; fn active_issuance() -> Self::Balance { Self::total_issuance() } fn minimum_balance() -> Self::Balance;
	fn burn(a: Self::Balance) -> Self::PositiveImbalance; fn issue(a: Self::Balance) -> Self::NegativeImbalance; fn free_balance(w: &A) -> Self::Balance;
	fn ensure_can_withdraw(w: &A, a: Self::Balance, r: WithdrawReasons, n: Self::Balance) -> DispatchResult; fn transfer(s: &A, d: &A, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
	fn slash(w: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance); fn deposit_into_existing(w: &A, v: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
	fn resolve_into_existing(w: &A, v: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> { let x = v.peek(); match Self::deposit_into_existing(w, x) { Ok(o) => Ok(drop(v.offset(o))), _ => Err(v) } }
	fn deposit_creating(w: &A, v: Self::Balance) -> Self::PositiveImbalance; fn resolve_creating(w: &A, v: Self::NegativeImbalance) { let x = v.peek(); drop(v.offset(Self::deposit_creating(w, x))); }
	fn withdraw(w: &A, v: Self::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>; fn make_free_balance_be(w: &A, b: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}
pub trait ReservableCurrency<A>: Currency<A> {
	fn can_reserve(w: &A, v: Self::Balance) -> bool; fn slash_reserved(w: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance); fn reserved_balance(w: &A) -> Self::Balance;
	fn reserve(w: &A, v: Self::Balance) -> DispatchResult; fn unreserve(w: &A, v: Self::Balance) -> Self::Balance; fn repatriate_reserved(s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedReservableCurrency<A>: ReservableCurrency<A> {
	type ReserveIdentifier: codec::Encode + TypeInfo + 'static;
	fn slash_reserved_named(i: &Self::ReserveIdentifier, w: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance); fn reserved_balance_named(i: &Self::ReserveIdentifier, w: &A) -> Self::Balance;
	fn reserve_named(i: &Self::ReserveIdentifier, w: &A, v: Self::Balance) -> DispatchResult; fn unreserve_named(i: &Self::ReserveIdentifier, w: &A, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved_named(i: &Self::ReserveIdentifier, s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	fn ensure_reserved_named(i: &Self::ReserveIdentifier, w: &A, v: Self::Balance) -> DispatchResult { let c = Self::reserved_balance_named(i, w); if c > v { Self::unreserve_named(i, w, c - v); Ok(()) } else if v > c { Self::reserve_named(i, w, v - c) } else { Ok(()) } }
	fn unreserve_all_named(i: &Self::ReserveIdentifier, w: &A) -> Self::Balance { let v = Self::reserved_balance_named(i, w); Self::unreserve_named(i, w, v); v }
	fn slash_all_reserved_named(i: &Self::ReserveIdentifier, w: &A) -> Self::NegativeImbalance { let v = Self::reserved_balance_named(i, w); Self::slash_reserved_named(i, w, v).0 }
	fn repatriate_all_reserved_named(i: &Self::ReserveIdentifier, s: &A, b: &A, st: BalanceStatus) -> DispatchResult { let v = Self::reserved_balance_named(i, s); Self::repatriate_reserved_named(i, s, b, v, st).map(|_| ()) }
}
pub trait LockableCurrency<A>: Currency<A> { type Moment; type MaxLocks: Get<u32>; fn set_lock(i: LockIdentifier, w: &A, a: Self::Balance, r: WithdrawReasons); fn extend_lock(i: LockIdentifier, w: &A, a: Self::Balance, r: WithdrawReasons); fn remove_lock(i: LockIdentifier, w: &A); }
pub trait VestingSchedule<A> {}
#[doc(hidden)] pub type _P = Permill;

use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, Member, Zero, CheckedAdd, CheckedSub};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::fmt::Debug;
use std::marker::PhantomData;
pub mod imbalance {
	use super::*;
	pub enum SameOrOther<A, B> { None, Same(A), Other(B) }
	impl<A, B> SameOrOther<A, B> { pub fn drop_other(self) -> Result<A, B> where A: Default { match self { Self::Same(a) => Ok(a), Self::None => Ok(A::default()), Self::Other(b) => Err(b) } } pub fn same(self) -> Result<A, B> where A: Default { self.drop_other() } pub fn other(self) -> Result<B, A> where B: Default { match self { Self::Same(a) => Err(a), Self::None => Ok(B::default()), Self::Other(b) => Ok(b) } } }
	pub trait TryDrop: Sized { fn try_drop(self) -> Result<(), Self>; }
	impl<A: TryDrop, B: TryDrop> TryDrop for SameOrOther<A, B> { fn try_drop(self) -> Result<(), Self> { match self { Self::None => Ok(()), Self::Same(a) => a.try_drop().map_err(Self::Same), Self::Other(b) => b.try_drop().map_err(Self::Other) } } }
	pub trait Imbalance<B>: Sized + TryDrop + Default {
		type Opposite: Imbalance<B>;
		fn zero() -> Self; fn drop_zero(self) -> Result<(), Self>; fn split(self, a: B) -> (Self, Self); fn merge(self, o: Self) -> Self; fn subsume(&mut self, o: Self); fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite>; fn peek(&self) -> B;
		fn maybe_merge(self, o: Option<Self>) -> Self { if let Some(o) = o { self.merge(o) } else { self } } fn maybe_subsume(&mut self, o: Option<Self>) { if let Some(o) = o { self.subsume(o) } }
		fn ration(self, f: u32, s: u32) -> (Self, Self) where B: From<u32> + sp_runtime::traits::Saturating + std::ops::Div<Output = B> + std::ops::Add<Output = B> + Copy { let t = f + s; if t == 0 { return (Self::zero(), Self::zero()); } let a = sp_runtime::traits::Saturating::saturating_mul(self.peek(), B::from(f)) / B::from(t); self.split(a) }
	}
	impl TryDrop for () { fn try_drop(self) -> Result<(), Self> { Ok(()) } }
	pub trait OnUnbalanced<I: TryDrop> { fn on_unbalanceds<B>(a: impl Iterator<Item = I>) where I: Imbalance<B> { Self::on_unbalanced(a.fold(I::default(), |i, x| x.merge(i))) } fn on_unbalanced(a: I) { a.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced) } fn on_nonzero_unbalanced(a: I) { drop(a) } }
	impl<I: TryDrop> OnUnbalanced<I> for () {}
	pub enum SignedImbalance<B, P: Imbalance<B>> { Positive(P), Negative(P::Opposite), #[doc(hidden)] _P(PhantomData<B>) }
}
pub use imbalance::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, TryDrop};
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum FrozenDummy {}
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)] pub enum Provenance { Minted, Extant }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)] pub enum Restriction { Free, OnHold }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)] pub enum Precision { Exact, BestEffort }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)] pub enum Preservation { Expendable, Protect, Preserve }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)] pub enum Fortitude { Polite, Force }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode)] pub enum ExistenceRequirement { KeepAlive, AllowDeath }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen)] pub enum BalanceStatus { Free, Reserved }
#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, MaxEncodedLen, TypeInfo, Debug)] pub struct WithdrawReasons(pub i8);
impl WithdrawReasons { pub const TRANSACTION_PAYMENT: Self = Self(1); pub const TRANSFER: Self = Self(2); pub const RESERVE: Self = Self(4); pub const FEE: Self = Self(8); pub const TIP: Self = Self(16);
	pub const fn all() -> Self { Self(31) } pub const fn empty() -> Self { Self(0) } pub fn except(o: Self) -> Self { Self(31 & !o.0) } pub fn contains(&self, o: Self) -> bool { self.0 & o.0 == o.0 } pub fn intersects(&self, o: Self) -> bool { self.0 & o.0 != 0 } pub fn is_empty(&self) -> bool { self.0 == 0 } pub fn is_all(&self) -> bool { self.0 == 31 } }
impl std::ops::BitOr for WithdrawReasons { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } } impl std::ops::BitOrAssign for WithdrawReasons { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } } impl std::ops::BitAnd for WithdrawReasons { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }
impl From<ExistenceRequirement> for Preservation { fn from(e: ExistenceRequirement) -> Self { match e { ExistenceRequirement::KeepAlive => Preservation::Preserve, _ => Preservation::Expendable } } }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
impl<B: Zero> WithdrawConsequence<B> { pub fn into_result(self, keep: bool) -> Result<B, DispatchError> { use WithdrawConsequence::*; match self { BalanceLow => Err(TokenError::FundsUnavailable.into()), WouldDie => Err(TokenError::OnlyProvider.into()), UnknownAsset => Err(TokenError::UnknownAsset.into()), Underflow => Err(ArithmeticError::Underflow.into()), Overflow => Err(ArithmeticError::Overflow.into()), Frozen => Err(TokenError::Frozen.into()), ReducedToZero(_) if keep => Err(TokenError::NotExpendable.into()), ReducedToZero(r) => Ok(r), Success => Ok(Zero::zero()) } } }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
impl DepositConsequence { pub fn into_result(self) -> DispatchResult { use DepositConsequence::*; Err(match self { BelowMinimum => TokenError::BelowMinimum.into(), CannotCreate => TokenError::CannotCreate.into(), UnknownAsset => TokenError::UnknownAsset.into(), Overflow => ArithmeticError::Overflow.into(), Blocked => TokenError::Blocked.into(), Success => return Ok(()) }) } }
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {} impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen {} impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen> Balance for T {}
pub trait ConversionToAssetBalance<I, A, O> { type Error; fn to_asset_balance(b: I, a: A) -> Result<O, Self::Error>; }
pub trait Locker<C, I> { fn is_locked(_c: C, _i: I) -> bool; } impl<C, I> Locker<C, I> for () { fn is_locked(_: C, _: I) -> bool { false } }
pub mod currency { pub use crate::traits::currency::*; }
pub use crate::traits::currency::{Currency, LockIdentifier, LockableCurrency, NamedReservableCurrency, ReservableCurrency};

macro_rules! fungible_traits { ($m:ident, [$($dust:tt)*], [$($ad:tt)*], [$($ap:ident: $at:ty)?], [$($av:ident)?]) => { pub mod $m {
	use super::*;
	pub trait Inspect<A>: Sized { $($ad)* type Balance: Balance;
		fn total_issuance($($ap: $at)?) -> Self::Balance; fn active_issuance($($ap: $at)?) -> Self::Balance { Self::total_issuance($($av)?) } fn minimum_balance($($ap: $at)?) -> Self::Balance; fn total_balance($($ap: $at,)? w: &A) -> Self::Balance; fn balance($($ap: $at,)? w: &A) -> Self::Balance;
		fn reducible_balance($($ap: $at,)? w: &A, p: Preservation, f: Fortitude) -> Self::Balance; fn can_deposit($($ap: $at,)? w: &A, a: Self::Balance, pr: Provenance) -> DepositConsequence; fn can_withdraw($($ap: $at,)? w: &A, a: Self::Balance) -> WithdrawConsequence<Self::Balance>; }
	$($dust)*
	pub trait Unbalanced<A>: Inspect<A> {
		fn handle_dust(d: Dust<A, Self>); fn handle_raw_dust($($ap: $at,)? a: Self::Balance) { Self::handle_dust(Dust($($av,)? a)) }
		fn write_balance($($ap: $at,)? w: &A, a: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>; fn set_total_issuance($($ap: $at,)? a: Self::Balance);
		fn decrease_balance($($ap: $at,)? w: &A, mut a: Self::Balance, pc: Precision, ps: Preservation, f: Fortitude) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance($($av.clone(),)? w); let free = Self::reducible_balance($($av.clone(),)? w, ps, f);
			if let Precision::BestEffort = pc { a = a.min(free); }
			let new = old.checked_sub(&a).ok_or(TokenError::FundsUnavailable)?;
			if a > free { return Err(TokenError::FundsUnavailable.into()); }
			if let Some(d) = Self::write_balance($($av.clone(),)? w, new)? { Self::handle_dust(Dust($($av,)? d)); }
			Ok(old - new)
		}
		fn increase_balance($($ap: $at,)? w: &A, a: Self::Balance, pc: Precision) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance($($av.clone(),)? w);
			let new = if let Precision::BestEffort = pc { sp_runtime::traits::Saturating::saturating_add(old, a) } else { old.checked_add(&a).ok_or(ArithmeticError::Overflow)? };
			if new < Self::minimum_balance($($av.clone())?) { return if let Precision::BestEffort = pc { Ok(Self::Balance::zero()) } else { Err(TokenError::BelowMinimum.into()) }; }
			if new == old { Ok(Self::Balance::zero()) } else { if let Some(d) = Self::write_balance($($av.clone(),)? w, new)? { Self::handle_dust(Dust($($av,)? d)); } Ok(new - old) }
		}
		fn deactivate($($ap: $at,)? _a: Self::Balance) { $(let _ = $av;)? } fn reactivate($($ap: $at,)? _a: Self::Balance) { $(let _ = $av;)? }
	}
	pub trait Mutate<A: Eq>: Inspect<A> + Unbalanced<A> {
		fn mint_into($($ap: $at,)? w: &A, a: Self::Balance) -> Result<Self::Balance, DispatchError> { Self::total_issuance($($av.clone())?).checked_add(&a).ok_or(ArithmeticError::Overflow)?; let x = Self::increase_balance($($av.clone(),)? w, a, Precision::Exact)?; let ti = Self::total_issuance($($av.clone())?) + x; Self::set_total_issuance($($av.clone(),)? ti); Self::done_mint_into($($av,)? w, a); Ok(x) }
		fn burn_from($($ap: $at,)? w: &A, a: Self::Balance, pc: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError> { let x = Self::reducible_balance($($av.clone(),)? w, Preservation::Expendable, f).min(a); if x < a && pc == Precision::Exact { return Err(TokenError::FundsUnavailable.into()); } Self::total_issuance($($av.clone())?).checked_sub(&x).ok_or(ArithmeticError::Overflow)?; let x = Self::decrease_balance($($av.clone(),)? w, x, Precision::BestEffort, Preservation::Expendable, f)?; let ti = Self::total_issuance($($av.clone())?).checked_sub(&x).unwrap(); Self::set_total_issuance($($av.clone(),)? ti); Self::done_burn_from($($av,)? w, x); Ok(x) }
		fn shelve($($ap: $at,)? w: &A, a: Self::Balance) -> Result<Self::Balance, DispatchError> { let x = Self::reducible_balance($($av.clone(),)? w, Preservation::Expendable, Fortitude::Polite).min(a); if x < a { return Err(TokenError::FundsUnavailable.into()); } let x = Self::decrease_balance($($av.clone(),)? w, a, Precision::BestEffort, Preservation::Expendable, Fortitude::Polite)?; let ti = Self::total_issuance($($av.clone())?).checked_sub(&x).unwrap(); Self::set_total_issuance($($av,)? ti); Ok(x) }
		fn restore($($ap: $at,)? w: &A, a: Self::Balance) -> Result<Self::Balance, DispatchError> { let x = Self::increase_balance($($av.clone(),)? w, a, Precision::Exact)?; let ti = Self::total_issuance($($av.clone())?).checked_add(&x).unwrap(); Self::set_total_issuance($($av,)? ti); Ok(x) }
		fn transfer($($ap: $at,)? s: &A, d: &A, a: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError> {
			let _extra = Self::can_withdraw($($av.clone(),)? s, a).into_result(p != Preservation::Expendable)?;
			Self::can_deposit($($av.clone(),)? d, a, Provenance::Extant).into_result()?;
			if s == d { return Ok(a); }
			Self::decrease_balance($($av.clone(),)? s, a, Precision::BestEffort, p, Fortitude::Polite)?;
			let _ = Self::increase_balance($($av.clone(),)? d, a, Precision::BestEffort);
			Self::done_transfer($($av,)? s, d, a); Ok(a)
		}
		fn set_balance($($ap: $at,)? w: &A, a: Self::Balance) -> Self::Balance { let b = Self::balance($($av.clone(),)? w); if a > b { Self::mint_into($($av,)? w, a - b).map(|d| sp_runtime::traits::Saturating::saturating_add(b, d)) } else { Self::burn_from($($av,)? w, b - a, Precision::BestEffort, Fortitude::Force).map(|d| sp_runtime::traits::Saturating::saturating_sub(b, d)) }.unwrap_or(b) }
		fn done_shelve($($ap: $at,)? _w: &A, _a: Self::Balance) { $(let _ = $av;)? } fn done_restore($($ap: $at,)? _w: &A, _a: Self::Balance) { $(let _ = $av;)? } fn done_mint_into($($ap: $at,)? _w: &A, _a: Self::Balance) { $(let _ = $av;)? } fn done_burn_from($($ap: $at,)? _w: &A, _a: Self::Balance) { $(let _ = $av;)? } fn done_transfer($($ap: $at,)? _s: &A, _d: &A, _a: Self::Balance) { $(let _ = $av;)? }
	}
	/// credit and debt are tracked by amount only; dropping them adjusts issuance through the implementor's hooks
	pub trait Balanced<A>: Inspect<A> + Unbalanced<A> { type OnDropDebt; type OnDropCredit; fn deposit($($ap: $at,)? w: &A, a: Self::Balance, p: Precision) -> Result<Self::Balance, DispatchError> { let i = Self::increase_balance($($av.clone(),)? w, a, p)?; let t = Self::total_issuance($($av.clone())?); Self::set_total_issuance($($av,)? sp_runtime::traits::Saturating::saturating_add(t, i)); Ok(i) } }
} }; }
fungible_traits!(fungible, [pub struct Dust<A, T: Inspect<A>>(pub T::Balance);], [], [], []);
fungible_traits!(fungibles, [pub struct Dust<A, T: Inspect<A>>(pub T::AssetId, pub T::Balance);], [type AssetId: AssetId; fn asset_exists(asset: Self::AssetId) -> bool;], [asset: Self::AssetId], [asset]);
// the fungibles form carries its asset id
pub mod nonfungibles {
	use super::*;
	pub trait Inspect<A> { type ItemId; type CollectionId; fn owner(c: &Self::CollectionId, i: &Self::ItemId) -> Option<A>; fn collection_owner(_c: &Self::CollectionId) -> Option<A> { None } fn attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> { None } fn typed_attribute<K: Encode, V: Decode>(c: &Self::CollectionId, i: &Self::ItemId, k: &K) -> Option<V> { k.using_encoded(|d| Self::attribute(c, i, d)).and_then(|v| V::decode(&mut &v[..]).ok()) } fn collection_attribute(_c: &Self::CollectionId, _k: &[u8]) -> Option<Vec<u8>> { None } fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool { true } }
	pub trait InspectEnumerable<A>: Inspect<A> { type CollectionsIterator: Iterator<Item = Self::CollectionId>; type ItemsIterator: Iterator<Item = Self::ItemId>; type OwnedIterator: Iterator<Item = (Self::CollectionId, Self::ItemId)>; type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>; fn collections() -> Self::CollectionsIterator; fn items(c: &Self::CollectionId) -> Self::ItemsIterator; fn owned(w: &A) -> Self::OwnedIterator; fn owned_in_collection(c: &Self::CollectionId, w: &A) -> Self::OwnedInCollectionIterator; }
	pub trait Create<A>: Inspect<A> { fn create_collection(c: &Self::CollectionId, w: &A, admin: &A) -> DispatchResult; }
	pub trait Destroy<A>: Inspect<A> { type DestroyWitness; fn get_destroy_witness(c: &Self::CollectionId) -> Option<Self::DestroyWitness>; fn destroy(c: Self::CollectionId, w: Self::DestroyWitness, m: Option<A>) -> Result<Self::DestroyWitness, DispatchError>; }
	pub trait Mutate<A>: Inspect<A> { fn mint_into(_c: &Self::CollectionId, _i: &Self::ItemId, _w: &A) -> DispatchResult { Err(TokenError::Unsupported.into()) } fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _m: Option<&A>) -> DispatchResult { Err(TokenError::Unsupported.into()) } fn set_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8], _v: &[u8]) -> DispatchResult { Err(TokenError::Unsupported.into()) } fn set_collection_attribute(_c: &Self::CollectionId, _k: &[u8], _v: &[u8]) -> DispatchResult { Err(TokenError::Unsupported.into()) } }
	pub trait Transfer<A>: Inspect<A> { fn transfer(c: &Self::CollectionId, i: &Self::ItemId, d: &A) -> DispatchResult; }
}

//! Stand-in for `pallet-balances` (polkadot 1.7 semantics): the native currency with existential deposit, locks, freezes and (named) reserves.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::traits::tokens::{fungible, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence};
use frame_support::traits::*;
use frame_support::{ensure, BoundedVec};
use scale_info::TypeInfo;
use sp_runtime::traits::*;
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::marker::PhantomData;
pub use pallet::*;
pub use imbalances::{NegativeImbalance, PositiveImbalance};
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub enum Reasons { Fee = 0, Misc = 1, All = 2 }
impl From<WithdrawReasons> for Reasons { fn from(r: WithdrawReasons) -> Self { if r == WithdrawReasons::TRANSACTION_PAYMENT { Reasons::Fee } else if r.contains(WithdrawReasons::TRANSACTION_PAYMENT) { Reasons::All } else { Reasons::Misc } } }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<B> { pub id: LockIdentifier, pub amount: B, pub reasons: Reasons }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ReserveData<I, B> { pub id: I, pub amount: B }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ExtraFlags(pub u128);
impl Default for ExtraFlags { fn default() -> Self { Self(1u128 << 127) } }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<B> { pub free: B, pub reserved: B, pub frozen: B, pub flags: ExtraFlags }
impl<B: sp_runtime::traits::Saturating + Copy> AccountData<B> { pub fn total(&self) -> B { self.free.saturating_add(self.reserved) } }
pub mod weights { pub trait WeightInfo {} impl WeightInfo for () {} pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> WeightInfo for SubstrateWeight<T> {} }
pub use weights::WeightInfo;

mod imbalances {
	use super::*;
	macro_rules! imb { ($me:ident, $op:ident, |$t:ident, $a:ident| $drop:expr) => {
		#[must_use] pub struct $me<T: Config>(T::Balance);
		impl<T: Config> $me<T> { pub fn new(a: T::Balance) -> Self { Self(a) } }
		impl<T: Config> std::fmt::Debug for $me<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
		impl<T: Config> PartialEq for $me<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } } impl<T: Config> Eq for $me<T> {}
		impl<T: Config> TryDrop for $me<T> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
		impl<T: Config> Default for $me<T> { fn default() -> Self { Self(Zero::zero()) } }
		impl<T: Config> Imbalance<T::Balance> for $me<T> {
			type Opposite = $op<T>;
			fn zero() -> Self { Self(Zero::zero()) }
			fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { Ok(()) } else { Err(self) } }
			fn split(self, a: T::Balance) -> (Self, Self) { let f = self.0.min(a); let s = self.0 - f; std::mem::forget(self); (Self(f), Self(s)) }
			fn merge(mut self, o: Self) -> Self { self.0 = self.0.saturating_add(o.0); std::mem::forget(o); self }
			fn subsume(&mut self, o: Self) { self.0 = self.0.saturating_add(o.0); std::mem::forget(o); }
			fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite> { let (a, b) = (self.0, o.amount()); std::mem::forget((self, o)); if a > b { SameOrOther::Same(Self(a - b)) } else if b > a { SameOrOther::Other($op::new(b - a)) } else { SameOrOther::None } }
			fn peek(&self) -> T::Balance { self.0 }
		}
		impl<T: Config> $me<T> { fn amount(&self) -> T::Balance { self.0 } }
		impl<T: Config> Drop for $me<T> { fn drop(&mut self) { let $a = self.0; if !$a.is_zero() { TotalIssuance::<T>::mutate(|$t| *$t = $drop); } } }
	} }
	imb!(PositiveImbalance, NegativeImbalance, |t, a| t.saturating_add(a));
	imb!(NegativeImbalance, PositiveImbalance, |t, a| t.saturating_sub(a));
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
		type WeightInfo: WeightInfo;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + codec::Codec + Default + Copy + MaybeSerializeDeserialize + std::fmt::Debug + MaxEncodedLen + TypeInfo + sp_runtime::FixedPointOperand;
		type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Copy;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(crate) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: BalanceStatus },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Slashed { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Suspended { who: T::AccountId, amount: T::Balance },
		Restored { who: T::AccountId, amount: T::Balance },
		Upgraded { who: T::AccountId },
		Issued { amount: T::Balance },
		Rescinded { amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> { VestingBalance, LiquidityRestrictions, InsufficientBalance, ExistentialDeposit, Expendability, ExistingVestingSchedule, DeadAccount, TooManyReserves, TooManyHolds, TooManyFreezes }
	#[pallet::storage] #[pallet::getter(fn total_issuance)]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn inactive_issuance)]
	pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, frame_support::WeakBoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn reserves)]
	pub type Reserves<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<ReserveData<T::ReserveIdentifier, T::Balance>, T::MaxReserves>, ValueQuery>;
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::Balance)> }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) {
		TotalIssuance::<T>::put(self.balances.iter().fold(T::Balance::zero(), |a, (_, b)| a + *b));
		for (_, b) in &self.balances { assert!(*b >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit."); }
		for (w, b) in &self.balances { frame_system::Pallet::<T>::inc_providers(w); assert!(T::AccountStore::insert(w, AccountData { free: *b, ..Default::default() }).is_ok()); }
	} }
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?; Ok(()) }
		#[pallet::call_index(2)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult { ensure_root(origin)?; let s = T::Lookup::lookup(source)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?; Ok(()) }
		#[pallet::call_index(3)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Preserve)?; Ok(()) }
		#[pallet::call_index(4)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult { let s = ensure_signed(origin)?; let k = if keep_alive { Preservation::Preserve } else { Preservation::Expendable }; let v = <Self as fungible::Inspect<_>>::reducible_balance(&s, k, Fortitude::Polite); let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, v, k)?; Ok(()) }
		#[pallet::call_index(8)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?; let who = T::Lookup::lookup(who)?;
			let new_free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
			let old = Self::try_mutate_account_handling_dust(&who, |a, _| -> Result<T::Balance, DispatchError> { let o = a.free; a.free = new_free; Ok(o) })?;
			if new_free > old { drop(PositiveImbalance::<T>::new(new_free - old)); } else if new_free < old { drop(NegativeImbalance::<T>::new(old - new_free)); }
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn free_balance(w: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(w.borrow()).free }
	pub fn reserved_balance(w: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(w.borrow()).reserved }
	pub fn usable_balance(w: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { <Self as fungible::Inspect<_>>::reducible_balance(w.borrow(), Preservation::Expendable, Fortitude::Polite) }
	pub fn usable_balance_for_fees(w: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { <Self as fungible::Inspect<_>>::reducible_balance(w.borrow(), Preservation::Protect, Fortitude::Polite) }
	pub fn account(w: &T::AccountId) -> AccountData<T::Balance> { T::AccountStore::get(w) }
	fn ed() -> T::Balance { T::ExistentialDeposit::get() }
	pub fn mutate_account<R>(w: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<(R, Option<T::Balance>), DispatchError> { Self::try_mutate_account(w, |a, _| -> Result<R, DispatchError> { Ok(f(a)) }) }
	fn mutate_hd<R>(w: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> { Self::try_mutate_account_handling_dust(w, |a, _| -> Result<R, DispatchError> { Ok(f(a)) }) }
	pub fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(w: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> { let (r, d) = Self::try_mutate_account(w, f)?; if let Some(d) = d { Self::raw_dust(d); } Ok(r) }
	fn raw_dust(d: T::Balance) { T::DustRemoval::on_unbalanced(NegativeImbalance::new(d)) }
	pub fn try_mutate_account<R, E: From<DispatchError>>(w: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		let ed = Self::ed();
		let r = T::AccountStore::try_mutate_exists(w, |m| {
			let is_new = m.is_none();
			let mut a = m.take().unwrap_or_default();
			let did_provide = a.free >= ed && (!ed.is_zero() || frame_system::Pallet::<T>::providers(w) > 0);
			let did_consume = !is_new && (!a.reserved.is_zero() || !a.frozen.is_zero());
			let r = f(&mut a, is_new)?;
			let does_provide = a.free >= ed;
			let does_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
			if !did_provide && does_provide { frame_system::Pallet::<T>::inc_providers(w); }
			if did_consume && !does_consume { frame_system::Pallet::<T>::dec_consumers(w); }
			if !did_consume && does_consume { frame_system::Pallet::<T>::inc_consumers(w)?; }
			if did_provide && !does_provide {
				frame_system::Pallet::<T>::dec_providers(w).map_err(|e| {
					if did_consume && !does_consume { let _ = frame_system::Pallet::<T>::inc_consumers(w); }
					if !did_consume && does_consume { frame_system::Pallet::<T>::dec_consumers(w); }
					e
				})?;
			}
			let endowed = if is_new { Some(a.free) } else { None };
			let dust = if a.free < ed && a.reserved.is_zero() { if a.free.is_zero() { None } else { Some(a.free) } } else { *m = Some(a); None };
			Ok::<_, E>((endowed, dust, r))
		});
		r.map(|(endowed, dust, r)| {
			if let Some(e) = endowed { Self::deposit_event(Event::Endowed { account: w.clone(), free_balance: e }); }
			if let Some(d) = dust { Self::deposit_event(Event::DustLost { account: w.clone(), amount: d }); }
			(r, dust)
		})
	}
	fn update_locks(w: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
		let bounded: frame_support::WeakBoundedVec<_, T::MaxLocks> = frame_support::WeakBoundedVec::force_from(locks.to_vec(), None);
		let (prev, after, dust) = match Self::mutate_account(w, |a| { let p = a.frozen; a.frozen = Zero::zero(); for l in locks { a.frozen = a.frozen.max(l.amount); } (p, a.frozen) }) { Ok(((p, f), d)) => (p, f, d), Err(_) => (Zero::zero(), Zero::zero(), None) };
		debug_assert!(dust.is_none(), "Not altering main balance; qed");
		let existed = Locks::<T>::contains_key(w);
		if locks.is_empty() { Locks::<T>::remove(w); if existed { frame_system::Pallet::<T>::dec_consumers(w); } }
		else { Locks::<T>::insert(w, bounded); if !existed { let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(w); } }
		if prev > after { Self::deposit_event(Event::Unlocked { who: w.clone(), amount: prev - after }); } else if after > prev { Self::deposit_event(Event::Locked { who: w.clone(), amount: after - prev }); }
	}
	fn do_transfer_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> {
		if v.is_zero() { return Ok(Zero::zero()); }
		let actual = v.min(Self::account(s).reserved);
		if s == b { return Ok(match st { BalanceStatus::Free => actual.saturating_sub(<Self as ReservableCurrency<_>>::unreserve(s, actual)), BalanceStatus::Reserved => actual }); }
		let ((_, d1), d2) = Self::try_mutate_account(b, |to, is_new| -> Result<((), Option<T::Balance>), DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			Self::try_mutate_account(s, |from, _| -> DispatchResult {
				match st { BalanceStatus::Free => to.free = to.free.checked_add(&actual).ok_or(ArithmeticError::Overflow)?, BalanceStatus::Reserved => to.reserved = to.reserved.checked_add(&actual).ok_or(ArithmeticError::Overflow)? }
				from.reserved = from.reserved.saturating_sub(actual);
				Ok(())
			})
		})?;
		for d in [d1, d2].into_iter().flatten() { Self::raw_dust(d); }
		Self::deposit_event(Event::ReserveRepatriated { from: s.clone(), to: b.clone(), amount: actual, destination_status: st });
		Ok(actual)
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() } fn active_issuance() -> T::Balance { TotalIssuance::<T>::get().saturating_sub(InactiveIssuance::<T>::get()) } fn minimum_balance() -> T::Balance { Self::ed() }
	fn total_balance(w: &T::AccountId) -> T::Balance { Self::account(w).total() } fn balance(w: &T::AccountId) -> T::Balance { Self::account(w).free }
	fn reducible_balance(w: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		let a = Self::account(w);
		let mut un = Zero::zero();
		if f == Fortitude::Polite { un = a.frozen.saturating_sub(a.reserved); }
		if p == Preservation::Preserve || p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(w) == 1 || p == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(w) { un = un.max(Self::ed()); }
		a.free.saturating_sub(un)
	}
	fn can_deposit(w: &T::AccountId, a: T::Balance, pr: Provenance) -> DepositConsequence {
		if a.is_zero() { return DepositConsequence::Success; }
		if pr == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&a).is_none() { return DepositConsequence::Overflow; }
		let acc = Self::account(w);
		match acc.free.checked_add(&a) { None => return DepositConsequence::Overflow, Some(x) if x < Self::ed() => return DepositConsequence::BelowMinimum, Some(x) => if x.checked_add(&acc.reserved).is_none() { return DepositConsequence::Overflow; } }
		DepositConsequence::Success
	}
	fn can_withdraw(w: &T::AccountId, a: T::Balance) -> WithdrawConsequence<T::Balance> {
		if a.is_zero() { return WithdrawConsequence::Success; }
		if TotalIssuance::<T>::get().checked_sub(&a).is_none() { return WithdrawConsequence::Underflow; }
		let acc = Self::account(w);
		let nf = match acc.free.checked_sub(&a) { Some(x) => x, None => return WithdrawConsequence::BalanceLow };
		if a > <Self as fungible::Inspect<_>>::reducible_balance(w, Preservation::Expendable, Fortitude::Polite) { return WithdrawConsequence::Frozen; }
		if nf < Self::ed() { if frame_system::Pallet::<T>::can_dec_provider(w) { WithdrawConsequence::ReducedToZero(nf) } else { WithdrawConsequence::WouldDie } } else { WithdrawConsequence::Success }
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(d: fungible::Dust<T::AccountId, Self>) { Self::raw_dust(d.0) }
	fn write_balance(w: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max = <Self as fungible::Inspect<_>>::reducible_balance(w, Preservation::Expendable, Fortitude::Force);
		let (r, d) = Self::mutate_account(w, |a| -> DispatchResult { ensure!(a.free.saturating_sub(amount) <= max, Error::<T>::InsufficientBalance); a.free = amount; Ok(()) })?;
		r?; Ok(d)
	}
	fn set_total_issuance(a: T::Balance) { TotalIssuance::<T>::put(a) }
	fn deactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|x| *x = x.saturating_add(a)) } fn reactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|x| *x = x.saturating_sub(a)) }
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(w: &T::AccountId, a: T::Balance) { Self::deposit_event(Event::Minted { who: w.clone(), amount: a }) } fn done_burn_from(w: &T::AccountId, a: T::Balance) { Self::deposit_event(Event::Burned { who: w.clone(), amount: a }) }
	fn done_transfer(s: &T::AccountId, d: &T::AccountId, a: T::Balance) { Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount: a }) }
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance; type PositiveImbalance = PositiveImbalance<T>; type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(w: &T::AccountId) -> T::Balance { Self::account(w).total() }
	fn can_slash(w: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::free_balance(w) >= v }
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() } fn active_issuance() -> T::Balance { <Self as fungible::Inspect<_>>::active_issuance() } fn minimum_balance() -> T::Balance { Self::ed() }
	fn burn(mut a: T::Balance) -> PositiveImbalance<T> { if a.is_zero() { return PositiveImbalance::zero(); } TotalIssuance::<T>::mutate(|i| *i = i.checked_sub(&a).unwrap_or_else(|| { a = *i; Zero::zero() })); PositiveImbalance::new(a) }
	fn issue(mut a: T::Balance) -> NegativeImbalance<T> { if a.is_zero() { return NegativeImbalance::zero(); } TotalIssuance::<T>::mutate(|i| *i = i.checked_add(&a).unwrap_or_else(|| { a = <T::Balance as sp_runtime::traits::Bounded>::max_value() - *i; <T::Balance as sp_runtime::traits::Bounded>::max_value() })); NegativeImbalance::new(a) }
	fn free_balance(w: &T::AccountId) -> T::Balance { Self::account(w).free }
	fn ensure_can_withdraw(w: &T::AccountId, a: T::Balance, _: WithdrawReasons, n: T::Balance) -> DispatchResult { if a.is_zero() { return Ok(()); } ensure!(n >= Self::account(w).frozen, Error::<T>::LiquidityRestrictions); Ok(()) }
	fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult { if v.is_zero() || s == d { return Ok(()); } <Self as fungible::Mutate<_>>::transfer(s, d, v, match e { ExistenceRequirement::KeepAlive => Preservation::Preserve, _ => Preservation::Expendable })?; Ok(()) }
	fn slash(w: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if v.is_zero() { return (NegativeImbalance::zero(), v); } if Self::account(w).total().is_zero() { return (NegativeImbalance::zero(), v); }
		match Self::mutate_hd(w, |a| { let x = if frame_system::Pallet::<T>::can_dec_provider(w) { v.min(a.free) } else { v.min(a.free.saturating_sub(Self::ed())) }; a.free -= x; x }) { Ok(x) => { Self::deposit_event(Event::Slashed { who: w.clone(), amount: x }); (NegativeImbalance::new(x), v - x) } Err(_) => (NegativeImbalance::zero(), v) }
	}
	fn deposit_into_existing(w: &T::AccountId, v: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> {
		if v.is_zero() { return Ok(PositiveImbalance::zero()); }
		Self::try_mutate_account_handling_dust(w, |a, is_new| { ensure!(!is_new, Error::<T>::DeadAccount); a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?; Self::deposit_event(Event::Deposit { who: w.clone(), amount: v }); Ok(PositiveImbalance::new(v)) })
	}
	fn deposit_creating(w: &T::AccountId, v: T::Balance) -> PositiveImbalance<T> {
		if v.is_zero() { return PositiveImbalance::zero(); }
		Self::try_mutate_account_handling_dust(w, |a, is_new| -> Result<_, DispatchError> {
			ensure!(v >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			a.free = match a.free.checked_add(&v) { Some(x) => x, None => return Ok(PositiveImbalance::zero()) };
			Self::deposit_event(Event::Deposit { who: w.clone(), amount: v }); Ok(PositiveImbalance::new(v))
		}).unwrap_or_else(|_| PositiveImbalance::zero())
	}
	fn withdraw(w: &T::AccountId, v: T::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> {
		if v.is_zero() { return Ok(NegativeImbalance::zero()); }
		Self::try_mutate_account_handling_dust(w, |a, _| {
			let n = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			let kill = n < Self::ed() && a.free >= Self::ed();
			ensure!(l == ExistenceRequirement::AllowDeath || !kill, Error::<T>::Expendability);
			<Self as Currency<_>>::ensure_can_withdraw(w, v, r, n)?;
			a.free = n; Self::deposit_event(Event::Withdraw { who: w.clone(), amount: v }); Ok(NegativeImbalance::new(v))
		})
	}
	fn make_free_balance_be(w: &T::AccountId, v: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T>> {
		Self::try_mutate_account_handling_dust(w, |a, is_new| -> Result<_, DispatchError> {
			ensure!(v >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			let i = if a.free <= v { SignedImbalance::Positive(PositiveImbalance::new(v - a.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(a.free - v)) };
			a.free = v; Self::deposit_event(Event::BalanceSet { who: w.clone(), free: v }); Ok(i)
		}).unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(w: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::account(w).free.checked_sub(&v).map_or(false, |n| n >= Self::ed() && <Self as Currency<_>>::ensure_can_withdraw(w, v, WithdrawReasons::RESERVE, n).is_ok()) }
	fn reserved_balance(w: &T::AccountId) -> T::Balance { Self::account(w).reserved }
	fn reserve(w: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() { return Ok(()); }
		Self::try_mutate_account_handling_dust(w, |a, _| -> DispatchResult { a.free = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?; a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?; <Self as Currency<_>>::ensure_can_withdraw(w, v, WithdrawReasons::RESERVE, a.free) })?;
		Self::deposit_event(Event::Reserved { who: w.clone(), amount: v }); Ok(())
	}
	fn unreserve(w: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() { return Zero::zero(); } if Self::account(w).total().is_zero() { return v; }
		match Self::mutate_hd(w, |a| { let x = a.reserved.min(v); a.reserved -= x; a.free = a.free.saturating_add(x); x }) { Ok(x) => { Self::deposit_event(Event::Unreserved { who: w.clone(), amount: x }); v - x } Err(_) => v }
	}
	fn slash_reserved(w: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if v.is_zero() { return (NegativeImbalance::zero(), v); } if Self::account(w).total().is_zero() { return (NegativeImbalance::zero(), v); }
		match Self::mutate_hd(w, |a| { let x = a.reserved.min(v); a.reserved -= x; x }) { Ok(x) => { Self::deposit_event(Event::Slashed { who: w.clone(), amount: x }); (NegativeImbalance::new(x), v - x) } Err(_) => (NegativeImbalance::zero(), v) }
	}
	fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> { let a = Self::do_transfer_reserved(s, b, v, st)?; Ok(v.saturating_sub(a)) }
}
impl<T: Config> NamedReservableCurrency<T::AccountId> for Pallet<T> {
	type ReserveIdentifier = T::ReserveIdentifier;
	fn reserved_balance_named(i: &T::ReserveIdentifier, w: &T::AccountId) -> T::Balance { let r = Self::reserves(w); r.binary_search_by_key(i, |d| d.id).map(|x| r[x].amount).unwrap_or_default() }
	fn reserve_named(i: &T::ReserveIdentifier, w: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() { return Ok(()); }
		Reserves::<T>::try_mutate(w, |r| -> DispatchResult {
			match r.binary_search_by_key(i, |d| d.id) { Ok(x) => r[x].amount = r[x].amount.checked_add(&v).ok_or(ArithmeticError::Overflow)?, Err(x) => r.try_insert(x, ReserveData { id: *i, amount: v }).map_err(|_| Error::<T>::TooManyReserves)? }
			<Self as ReservableCurrency<_>>::reserve(w, v)
		})
	}
	fn unreserve_named(i: &T::ReserveIdentifier, w: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() { return Zero::zero(); }
		Reserves::<T>::mutate_exists(w, |m| if let Some(r) = m.as_mut() { match r.binary_search_by_key(i, |d| d.id) {
			Ok(x) => { let to = r[x].amount.min(v); let rem = <Self as ReservableCurrency<_>>::unreserve(w, to); let actual = to.saturating_sub(rem); r[x].amount -= actual; if r[x].amount.is_zero() { if r.len() == 1 { *m = None; } else { r.remove(x); } } v - actual }
			Err(_) => v } } else { v })
	}
	fn slash_reserved_named(i: &T::ReserveIdentifier, w: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
		Reserves::<T>::mutate(w, |r| match r.binary_search_by_key(i, |d| d.id) { Ok(x) => { let to = r[x].amount.min(v); let (imb, rem) = <Self as ReservableCurrency<_>>::slash_reserved(w, to); let actual = to.saturating_sub(rem); r[x].amount -= actual; (imb, v - actual) } Err(_) => (NegativeImbalance::zero(), v) })
	}
	fn repatriate_reserved_named(i: &T::ReserveIdentifier, s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> {
		if v.is_zero() { return Ok(Zero::zero()); }
		if s == b { return match st { BalanceStatus::Free => Ok(Self::unreserve_named(i, s, v)), BalanceStatus::Reserved => Ok(v.saturating_sub(Self::reserved_balance_named(i, s))) }; }
		Reserves::<T>::try_mutate(s, |r| match r.binary_search_by_key(i, |d| d.id) {
			Ok(x) => {
				let to = r[x].amount.min(v);
				let actual = if st == BalanceStatus::Reserved {
					Reserves::<T>::try_mutate(b, |br| -> Result<T::Balance, DispatchError> {
						let rem = <Self as ReservableCurrency<_>>::repatriate_reserved(s, b, to, st)?; let act = to.saturating_sub(rem);
						match br.binary_search_by_key(i, |d| d.id) { Ok(y) => br[y].amount = br[y].amount.checked_add(&act).ok_or(ArithmeticError::Overflow)?, Err(y) => br.try_insert(y, ReserveData { id: *i, amount: act }).map_err(|_| Error::<T>::TooManyReserves)? }
						Ok(act)
					})?
				} else { to.saturating_sub(<Self as ReservableCurrency<_>>::repatriate_reserved(s, b, to, st)?) };
				r[x].amount -= actual; Ok(v - actual)
			}
			Err(_) => Ok(v),
		})
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = frame_system::pallet_prelude::BlockNumberFor<T>; type MaxLocks = T::MaxLocks;
	fn set_lock(i: LockIdentifier, w: &T::AccountId, a: T::Balance, r: WithdrawReasons) {
		if r == WithdrawReasons::empty() || a.is_zero() { return <Self as LockableCurrency<_>>::remove_lock(i, w); }
		let mut n = Some(BalanceLock { id: i, amount: a, reasons: r.into() });
		let mut ls = Self::locks(w).into_iter().filter_map(|l| if l.id == i { n.take() } else { Some(l) }).collect::<Vec<_>>();
		if let Some(l) = n { ls.push(l) }
		Self::update_locks(w, &ls);
	}
	fn extend_lock(i: LockIdentifier, w: &T::AccountId, a: T::Balance, r: WithdrawReasons) {
		if a.is_zero() || r == WithdrawReasons::empty() { return; }
		let mut n = Some(BalanceLock { id: i, amount: a, reasons: r.into() });
		let mut ls = Self::locks(w).into_iter().filter_map(|l| if l.id == i { n.take().map(|x| BalanceLock { id: l.id, amount: l.amount.max(x.amount), reasons: if l.reasons == x.reasons { l.reasons } else { Reasons::All } }) } else { Some(l) }).collect::<Vec<_>>();
		if let Some(l) = n { ls.push(l) }
		Self::update_locks(w, &ls);
	}
	fn remove_lock(i: LockIdentifier, w: &T::AccountId) { let mut ls = Self::locks(w).into_inner(); ls.retain(|l| l.id != i); Self::update_locks(w, &ls); }
}
#[doc(hidden)] pub type _P<T> = PhantomData<(T, TokenError)>;

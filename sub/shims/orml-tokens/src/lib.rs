//! Stand-in for `orml-tokens`: balances of many assets with existential deposits, locks and (named) reserves.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::{ensure, traits::*, BoundedVec};
use frame_support::traits::tokens::{fungibles, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence, ExistenceRequirement};
use orml_traits::{arithmetic::Signed, currency::*, BalanceStatus, GetByKey, Happened, LockIdentifier, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency, NamedMultiReservableCurrency};
use scale_info::TypeInfo;
use sp_runtime::traits::*;
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};
use std::marker::PhantomData;
pub use module::*;
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<B> { pub id: LockIdentifier, pub amount: B }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ReserveData<I, B> { pub id: I, pub amount: B }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, Debug, TypeInfo)]
pub struct AccountData<B> { pub free: B, pub reserved: B, pub frozen: B }
impl<B: Saturating + Copy + Ord> AccountData<B> { pub fn total(&self) -> B { self.free.saturating_add(self.reserved) } }
pub trait WeightInfo {} impl WeightInfo for () {}
pub mod weights { pub use super::WeightInfo; }
pub struct TransferDust<T, A>(PhantomData<(T, A)>);
impl<T: Config, A: Get<T::AccountId>> OnDust<T::AccountId, T::CurrencyId, T::Balance> for TransferDust<T, A> { fn on_dust(w: &T::AccountId, c: T::CurrencyId, a: T::Balance) { let _ = <Pallet<T> as MultiCurrency<T::AccountId>>::transfer(c, w, &A::get(), a); } }
pub struct BurnDust<T>(PhantomData<T>);
impl<T: Config> OnDust<T::AccountId, T::CurrencyId, T::Balance> for BurnDust<T> { fn on_dust(w: &T::AccountId, c: T::CurrencyId, a: T::Balance) { let _ = Pallet::<T>::do_withdraw(c, w, a, ExistenceRequirement::AllowDeath, true); } }

#[frame_support::pallet]
pub mod module {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + TypeInfo;
		type Amount: Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + Parameter + Member + orml_traits::arithmetic::SimpleArithmetic + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
		type WeightInfo;
		type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
		type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type DustRemovalWhitelist: Contains<Self::AccountId>;
	}
	#[pallet::error]
	pub enum Error<T> { BalanceTooLow, AmountIntoBalanceFailed, LiquidityRestrictions, MaxLocksExceeded, KeepAlive, ExistentialDeposit, DeadAccount, TooManyReserves }
	#[pallet::event]
	#[pallet::generate_deposit(pub(crate) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		ReserveRepatriated { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance, status: BalanceStatus },
		BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
		TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
		Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
		Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
		Locked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Unlocked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
	}
	#[pallet::storage] #[pallet::getter(fn total_issuance)]
	pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn accounts)]
	pub type Accounts<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn reserves)]
	pub type Reserves<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<ReserveData<T::ReserveIdentifier, T::Balance>, T::MaxReserves>, ValueQuery>;
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)> }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) {
		for (w, c, b) in &self.balances {
			assert!(*b >= T::ExistentialDeposits::get(c), "the balance of any account should always be more than existential deposit.");
			Pallet::<T>::mutate_account(*c, w, |a, _| a.free = *b);
			TotalIssuance::<T>::mutate(c, |t| *t = t.checked_add(b).expect("total issuance cannot overflow when building genesis"));
		}
	} }
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult { let from = ensure_signed(origin)?; let to = T::Lookup::lookup(dest)?; Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath) }
		#[pallet::call_index(1)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, keep_alive: bool) -> DispatchResult { let from = ensure_signed(origin)?; let to = T::Lookup::lookup(dest)?; let p = if keep_alive { Preservation::Protect } else { Preservation::Expendable }; let a = <Self as fungibles::Inspect<T::AccountId>>::reducible_balance(currency_id, &from, p, Fortitude::Polite); <Self as fungibles::Mutate<_>>::transfer(currency_id, &from, &to, a, p).map(|_| ()) }
		#[pallet::call_index(2)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResultWithPostInfo { let from = ensure_signed(origin)?; let to = T::Lookup::lookup(dest)?; Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::KeepAlive)?; Ok(().into()) }
		#[pallet::call_index(3)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult { ensure_root(origin)?; let from = T::Lookup::lookup(source)?; let to = T::Lookup::lookup(dest)?; Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath) }
		#[pallet::call_index(4)] #[pallet::weight(Weight::from_parts(30_000_000, 0))]
		pub fn set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] new_free: T::Balance, #[pallet::compact] new_reserved: T::Balance) -> DispatchResult {
			ensure_root(origin)?; let who = T::Lookup::lookup(who)?;
			let total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
			let (nf, nr) = if total < T::ExistentialDeposits::get(&currency_id) { (Zero::zero(), Zero::zero()) } else { (new_free, new_reserved) };
			Self::try_mutate_account(currency_id, &who, |a, _| -> DispatchResult {
				let old = a.total(); a.free = nf; a.reserved = nr;
				TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_add(&(nf + nr)).ok_or(ArithmeticError::Overflow)?.checked_sub(&old).ok_or(ArithmeticError::Underflow)?; Ok(()) })
			})?;
			Self::deposit_event(Event::BalanceSet { currency_id, who, free: nf, reserved: nr });
			Ok(())
		}
	}
}
type Hk<T> = <T as Config>::CurrencyHooks;
type Res<R> = Result<R, DispatchError>;
impl<T: Config> Pallet<T> {
	pub(crate) fn try_mutate_account<R, E>(c: T::CurrencyId, w: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		Accounts::<T>::try_mutate_exists(w, c, |m| {
			let existed = m.is_some();
			let mut a = m.take().unwrap_or_default();
			f(&mut a, existed).map(|r| {
				let endowed = if !existed { Some(a.free) } else { None };
				let mut dust = None;
				let total = a.total();
				*m = if total < T::ExistentialDeposits::get(&c) { if total.is_zero() { None } else { if !T::DustRemovalWhitelist::contains(w) { dust = Some(total); } Some(a) } } else { Some(a) };
				(endowed, existed, m.is_some(), dust, r)
			})
		}).map(|(endowed, existed, exists, dust, r)| {
			if existed && !exists { let _ = frame_system::Pallet::<T>::dec_providers(w); <Hk<T> as MutationHooks<_, _, _>>::OnKilledTokenAccount::happened(&(w.clone(), c)); }
			else if !existed && exists { frame_system::Pallet::<T>::inc_providers(w); <Hk<T> as MutationHooks<_, _, _>>::OnNewTokenAccount::happened(&(w.clone(), c)); }
			if let Some(amount) = endowed { Self::deposit_event(Event::Endowed { currency_id: c, who: w.clone(), amount }); }
			if let Some(amount) = dust { <Hk<T> as MutationHooks<_, _, _>>::OnDust::on_dust(w, c, amount); Self::deposit_event(Event::DustLost { currency_id: c, who: w.clone(), amount }); }
			(r, dust)
		})
	}
	pub(crate) fn mutate_account<R>(c: T::CurrencyId, w: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> R) -> (R, Option<T::Balance>) { Self::try_mutate_account(c, w, |a, e| -> Result<R, std::convert::Infallible> { Ok(f(a, e)) }).expect("infallible") }
	fn would_die(c: T::CurrencyId, w: &T::AccountId, a: &AccountData<T::Balance>) -> bool { let t = a.total(); t < T::ExistentialDeposits::get(&c) && (t.is_zero() || !T::DustRemovalWhitelist::contains(w)) }
	pub(crate) fn do_transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance, e: ExistenceRequirement) -> DispatchResult {
		if amount.is_zero() || from == to { return Ok(()); }
		<Hk<T> as MutationHooks<_, _, _>>::PreTransfer::on_transfer(c, from, to, amount)?;
		Self::try_mutate_account(c, to, |t, _| -> DispatchResult {
			Self::try_mutate_account(c, from, |f, _| -> DispatchResult {
				f.free = f.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
				t.free = t.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
				ensure!(t.total() >= T::ExistentialDeposits::get(&c) || T::DustRemovalWhitelist::contains(to), Error::<T>::ExistentialDeposit);
				Self::ensure_can_withdraw_(c, from, amount)?;
				let allow = e == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(from);
				ensure!(allow || !Self::would_die(c, from, f), Error::<T>::KeepAlive);
				Ok(())
			})?;
			Ok(())
		})?;
		<Hk<T> as MutationHooks<_, _, _>>::PostTransfer::on_transfer(c, from, to, amount)?;
		Self::deposit_event(Event::Transfer { currency_id: c, from: from.clone(), to: to.clone(), amount });
		Ok(())
	}
	pub(crate) fn do_withdraw(c: T::CurrencyId, w: &T::AccountId, amount: T::Balance, e: ExistenceRequirement, ti: bool) -> DispatchResult {
		if amount.is_zero() { return Ok(()); }
		Self::ensure_can_withdraw_(c, w, amount)?;
		Self::try_mutate_account(c, w, |a, _| -> DispatchResult {
			a.free = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
			let allow = e == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(w);
			ensure!(allow || !Self::would_die(c, w, a), Error::<T>::KeepAlive);
			if ti { TotalIssuance::<T>::mutate(c, |v| *v = v.checked_sub(&amount).expect("issuance covers every balance")); }
			Self::deposit_event(Event::Withdrawn { currency_id: c, who: w.clone(), amount });
			Ok(())
		})?;
		Ok(())
	}
	pub(crate) fn do_deposit(c: T::CurrencyId, w: &T::AccountId, amount: T::Balance, require_existed: bool, ti: bool) -> Res<T::Balance> {
		if amount.is_zero() { return Ok(amount); }
		<Hk<T> as MutationHooks<_, _, _>>::PreDeposit::on_deposit(c, w, amount)?;
		Self::try_mutate_account(c, w, |a, existed| -> DispatchResult {
			if require_existed { ensure!(existed, Error::<T>::DeadAccount); } else { ensure!(amount >= T::ExistentialDeposits::get(&c) || existed || T::DustRemovalWhitelist::contains(w), Error::<T>::ExistentialDeposit); }
			let new = TotalIssuance::<T>::get(c).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			if ti { TotalIssuance::<T>::insert(c, new); }
			a.free = a.free.saturating_add(amount);
			Ok(())
		})?;
		<Hk<T> as MutationHooks<_, _, _>>::PostDeposit::on_deposit(c, w, amount)?;
		Self::deposit_event(Event::Deposited { currency_id: c, who: w.clone(), amount });
		Ok(amount)
	}
	fn ensure_can_withdraw_(c: T::CurrencyId, w: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() { return Ok(()); }
		let a = Self::accounts(w, c);
		let n = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
		ensure!(n >= a.frozen, Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	fn update_locks(c: T::CurrencyId, w: &T::AccountId, locks: &[BalanceLock<T::Balance>]) -> DispatchResult {
		Self::mutate_account(c, w, |a, _| { a.frozen = Zero::zero(); for l in locks { a.frozen = a.frozen.max(l.amount); } });
		let existed = Locks::<T>::contains_key(w, c);
		if locks.is_empty() { Locks::<T>::remove(w, c); if existed { frame_system::Pallet::<T>::dec_consumers(w); } }
		else { let b: BoundedVec<_, T::MaxLocks> = locks.to_vec().try_into().map_err(|_| Error::<T>::MaxLocksExceeded)?; Locks::<T>::insert(w, c, b); if !existed { let _ = frame_system::Pallet::<T>::inc_consumers(w); } }
		Ok(())
	}
	pub fn free_balance(c: T::CurrencyId, w: &T::AccountId) -> T::Balance { Self::accounts(w, c).free }
	pub fn set_free_balance_for_test(c: T::CurrencyId, w: &T::AccountId, b: T::Balance) { Self::mutate_account(c, w, |a, _| a.free = b); }
}
impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
	type CurrencyId = T::CurrencyId; type Balance = T::Balance;
	fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) } fn total_issuance(c: T::CurrencyId) -> T::Balance { TotalIssuance::<T>::get(c) } fn total_balance(c: T::CurrencyId, w: &T::AccountId) -> T::Balance { Self::accounts(w, c).total() } fn free_balance(c: T::CurrencyId, w: &T::AccountId) -> T::Balance { Self::accounts(w, c).free }
	fn ensure_can_withdraw(c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> DispatchResult { Self::ensure_can_withdraw_(c, w, a) }
	fn transfer(c: T::CurrencyId, f: &T::AccountId, t: &T::AccountId, a: T::Balance) -> DispatchResult { Self::do_transfer(c, f, t, a, ExistenceRequirement::AllowDeath) }
	fn deposit(c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> DispatchResult { Self::do_deposit(c, w, a, false, true).map(|_| ()) }
	fn withdraw(c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> DispatchResult { Self::do_withdraw(c, w, a, ExistenceRequirement::AllowDeath, true) }
	fn can_slash(c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::free_balance(c, w) >= v }
	fn slash(c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> T::Balance {
		if a.is_zero() { return a; }
		let acc = Self::accounts(w, c);
		let fs = acc.free.min(a); let mut rem = a - fs; let rs = acc.reserved.min(rem); rem -= rs;
		Self::mutate_account(c, w, |x, _| { x.free -= fs; x.reserved -= rs; });
		TotalIssuance::<T>::mutate(c, |v| *v -= a - rem);
		Self::deposit_event(Event::Slashed { currency_id: c, who: w.clone(), free_amount: fs, reserved_amount: rs });
		rem
	}
}
impl<T: Config> MultiCurrencyExtended<T::AccountId> for Pallet<T> {
	type Amount = T::Amount;
	fn update_balance(c: T::CurrencyId, w: &T::AccountId, by: T::Amount) -> DispatchResult {
		if by.is_zero() { return Ok(()); }
		let abs = if by == <T::Amount as sp_runtime::traits::Bounded>::min_value() { <T::Amount as sp_runtime::traits::Bounded>::max_value() } else { by.abs() };
		let b = TryInto::<T::Balance>::try_into(abs).map_err(|_| Error::<T>::AmountIntoBalanceFailed)?;
		if by.is_positive() { <Self as MultiCurrency<_>>::deposit(c, w, b) } else { <Self as MultiCurrency<_>>::withdraw(c, w, b) }
	}
}
impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
	fn set_lock(i: LockIdentifier, c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> DispatchResult {
		if a.is_zero() { return <Self as MultiLockableCurrency<_>>::remove_lock(i, c, w); }
		let mut n = Some(BalanceLock { id: i, amount: a });
		let mut ls = Self::locks(w, c).into_iter().filter_map(|l| if l.id == i { n.take() } else { Some(l) }).collect::<Vec<_>>();
		if let Some(l) = n { ls.push(l) }
		Self::update_locks(c, w, &ls)?;
		Self::deposit_event(Event::LockSet { lock_id: i, currency_id: c, who: w.clone(), amount: a });
		Ok(())
	}
	fn extend_lock(i: LockIdentifier, c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> DispatchResult {
		if a.is_zero() { return Ok(()); }
		let mut n = Some(BalanceLock { id: i, amount: a });
		let mut ls = Self::locks(w, c).into_iter().filter_map(|l| if l.id == i { n.take().map(|x| BalanceLock { id: l.id, amount: l.amount.max(x.amount) }) } else { Some(l) }).collect::<Vec<_>>();
		if let Some(l) = n { ls.push(l) }
		Self::update_locks(c, w, &ls)
	}
	fn remove_lock(i: LockIdentifier, c: T::CurrencyId, w: &T::AccountId) -> DispatchResult {
		let mut ls = Self::locks(w, c).into_inner(); ls.retain(|l| l.id != i);
		Self::update_locks(c, w, &ls)?;
		Self::deposit_event(Event::LockRemoved { lock_id: i, currency_id: c, who: w.clone() });
		Ok(())
	}
}
impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::ensure_can_withdraw_(c, w, v).is_ok() }
	fn slash_reserved(c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> T::Balance { if v.is_zero() { return v; } let a = Self::accounts(w, c).reserved.min(v); Self::mutate_account(c, w, |x, _| x.reserved -= a); TotalIssuance::<T>::mutate(c, |t| *t -= a); Self::deposit_event(Event::Slashed { currency_id: c, who: w.clone(), free_amount: Zero::zero(), reserved_amount: a }); v - a }
	fn reserved_balance(c: T::CurrencyId, w: &T::AccountId) -> T::Balance { Self::accounts(w, c).reserved }
	fn reserve(c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> DispatchResult { if v.is_zero() { return Ok(()); } Self::ensure_can_withdraw_(c, w, v)?; Self::mutate_account(c, w, |a, _| { a.free -= v; a.reserved = a.reserved.saturating_add(v); }); Self::deposit_event(Event::Reserved { currency_id: c, who: w.clone(), amount: v }); Ok(()) }
	fn unreserve(c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> T::Balance { if v.is_zero() { return v; } let (r, _) = Self::mutate_account(c, w, |a, _| { let x = a.reserved.min(v); a.reserved -= x; a.free = a.free.saturating_add(x); x }); Self::deposit_event(Event::Unreserved { currency_id: c, who: w.clone(), amount: r }); v - r }
	fn repatriate_reserved(c: T::CurrencyId, s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> {
		if v.is_zero() { return Ok(v); }
		if s == b { return match st { BalanceStatus::Free => Ok(<Self as MultiReservableCurrency<_>>::unreserve(c, s, v)), BalanceStatus::Reserved => Ok(v.saturating_sub(Self::accounts(s, c).reserved)) }; }
		let actual = Self::accounts(s, c).reserved.min(v);
		let to = Self::accounts(b, c);
		ensure!(to.total().saturating_add(actual) >= T::ExistentialDeposits::get(&c) || T::DustRemovalWhitelist::contains(b), Error::<T>::ExistentialDeposit);
		Self::mutate_account(c, b, |a, _| match st { BalanceStatus::Free => a.free += actual, BalanceStatus::Reserved => a.reserved += actual });
		Self::mutate_account(c, s, |a, _| a.reserved -= actual);
		Self::deposit_event(Event::ReserveRepatriated { currency_id: c, from: s.clone(), to: b.clone(), amount: actual, status: st });
		Ok(v - actual)
	}
}
impl<T: Config> NamedMultiReservableCurrency<T::AccountId> for Pallet<T> {
	type ReserveIdentifier = T::ReserveIdentifier;
	fn reserved_balance_named(i: &T::ReserveIdentifier, c: T::CurrencyId, w: &T::AccountId) -> T::Balance { let r = Self::reserves(w, c); r.binary_search_by_key(i, |d| d.id).map(|x| r[x].amount).unwrap_or_default() }
	fn reserve_named(i: &T::ReserveIdentifier, c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() { return Ok(()); }
		Reserves::<T>::try_mutate(w, c, |r| -> DispatchResult {
			match r.binary_search_by_key(i, |d| d.id) { Ok(x) => r[x].amount = r[x].amount.checked_add(&v).ok_or(ArithmeticError::Overflow)?, Err(x) => r.try_insert(x, ReserveData { id: *i, amount: v }).map_err(|_| Error::<T>::TooManyReserves)? };
			<Self as MultiReservableCurrency<_>>::reserve(c, w, v)
		})
	}
	fn unreserve_named(i: &T::ReserveIdentifier, c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() { return v; }
		Reserves::<T>::mutate_exists(w, c, |m| if let Some(r) = m.as_mut() { match r.binary_search_by_key(i, |d| d.id) {
			Ok(x) => { let to = r[x].amount.min(v); let rem = <Self as MultiReservableCurrency<_>>::unreserve(c, w, to); let actual = to.saturating_sub(rem); r[x].amount -= actual; if r[x].amount.is_zero() { if r.len() == 1 { *m = None } else { r.remove(x); } } v - actual }
			Err(_) => v } } else { v })
	}
	fn slash_reserved_named(i: &T::ReserveIdentifier, c: T::CurrencyId, w: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() { return v; }
		Reserves::<T>::mutate(w, c, |r| match r.binary_search_by_key(i, |d| d.id) { Ok(x) => { let to = r[x].amount.min(v); let rem = <Self as MultiReservableCurrency<_>>::slash_reserved(c, w, to); let actual = to.saturating_sub(rem); r[x].amount -= actual; v - actual } Err(_) => v })
	}
	fn repatriate_reserved_named(i: &T::ReserveIdentifier, c: T::CurrencyId, s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: BalanceStatus) -> Result<T::Balance, DispatchError> {
		if v.is_zero() { return Ok(v); }
		if s == b { return match st { BalanceStatus::Free => Ok(Self::unreserve_named(i, c, s, v)), BalanceStatus::Reserved => Ok(v.saturating_sub(Self::reserved_balance_named(i, c, s))) }; }
		Reserves::<T>::try_mutate(s, c, |r| match r.binary_search_by_key(i, |d| d.id) {
			Ok(x) => {
				let to = r[x].amount.min(v);
				let rem = if st == BalanceStatus::Reserved {
					Reserves::<T>::try_mutate(b, c, |br| -> Result<T::Balance, DispatchError> {
						let rem = <Self as MultiReservableCurrency<_>>::repatriate_reserved(c, s, b, to, st)?; let act = to.saturating_sub(rem);
						match br.binary_search_by_key(i, |d| d.id) { Ok(y) => br[y].amount = br[y].amount.checked_add(&act).ok_or(ArithmeticError::Overflow)?, Err(y) => br.try_insert(y, ReserveData { id: *i, amount: act }).map_err(|_| Error::<T>::TooManyReserves)? };
						Ok(rem)
					})?
				} else { <Self as MultiReservableCurrency<_>>::repatriate_reserved(c, s, b, to, st)? };
				let actual = to.saturating_sub(rem); r[x].amount -= actual; Ok(v - actual)
			}
			Err(_) => Ok(v),
		})
	}
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
	type AssetId = T::CurrencyId; type Balance = T::Balance;
	fn total_issuance(c: T::CurrencyId) -> T::Balance { TotalIssuance::<T>::get(c) } fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) } fn total_balance(c: T::CurrencyId, w: &T::AccountId) -> T::Balance { Self::accounts(w, c).total() } fn balance(c: T::CurrencyId, w: &T::AccountId) -> T::Balance { Self::accounts(w, c).free }
	fn reducible_balance(c: T::CurrencyId, w: &T::AccountId, p: Preservation, _: Fortitude) -> T::Balance { let a = Self::accounts(w, c); let l = a.free.saturating_sub(a.frozen); if frame_system::Pallet::<T>::can_dec_provider(w) && !matches!(p, Preservation::Protect) { l } else { let must = T::ExistentialDeposits::get(&c).saturating_sub(a.total() - l); l.saturating_sub(must) } }
	fn can_deposit(c: T::CurrencyId, w: &T::AccountId, a: T::Balance, _: Provenance) -> DepositConsequence { if a.is_zero() { return DepositConsequence::Success; } if TotalIssuance::<T>::get(c).checked_add(&a).is_none() { return DepositConsequence::Overflow; } match Self::accounts(w, c).total().checked_add(&a) { None => DepositConsequence::Overflow, Some(n) if n < T::ExistentialDeposits::get(&c) => DepositConsequence::BelowMinimum, _ => DepositConsequence::Success } }
	fn can_withdraw(c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> WithdrawConsequence<T::Balance> {
		if a.is_zero() { return WithdrawConsequence::Success; }
		if TotalIssuance::<T>::get(c).checked_sub(&a).is_none() { return WithdrawConsequence::Underflow; }
		let acc = Self::accounts(w, c);
		let nt = match acc.total().checked_sub(&a) { Some(x) => x, None => return WithdrawConsequence::BalanceLow };
		let ok = if nt < T::ExistentialDeposits::get(&c) { if frame_system::Pallet::<T>::can_dec_provider(w) { WithdrawConsequence::ReducedToZero(nt) } else { return WithdrawConsequence::WouldDie; } } else { WithdrawConsequence::Success };
		match acc.free.checked_sub(&a) { Some(n) if n >= acc.frozen => ok, Some(_) => WithdrawConsequence::Frozen, None => WithdrawConsequence::BalanceLow }
	}
	fn asset_exists(c: T::CurrencyId) -> bool { TotalIssuance::<T>::get(c) > Zero::zero() }
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
	fn write_balance(c: T::CurrencyId, w: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> { let max = <Self as fungibles::Inspect<_>>::reducible_balance(c, w, Preservation::Expendable, Fortitude::Force); let (_, d) = Self::try_mutate_account(c, w, |a, _| -> DispatchResult { ensure!(a.free.saturating_sub(amount) <= max, Error::<T>::BalanceTooLow); a.free = amount; Ok(()) })?; Ok(d) }
	fn set_total_issuance(c: T::CurrencyId, a: T::Balance) { TotalIssuance::<T>::insert(c, a) }
}
impl<T: Config> fungibles::Balanced<T::AccountId> for Pallet<T> { type OnDropDebt = (); type OnDropCredit = (); }
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(c: T::CurrencyId, w: &T::AccountId, a: T::Balance) -> Res<T::Balance> { Self::do_deposit(c, w, a, false, true).map(|_| a) }
	fn burn_from(c: T::CurrencyId, w: &T::AccountId, a: T::Balance, p: Precision, f: Fortitude) -> Res<T::Balance> { let r = <Self as fungibles::Inspect<_>>::reducible_balance(c, w, Preservation::Expendable, f).min(a); if p == Precision::Exact && r < a { return Err(sp_runtime::TokenError::FundsUnavailable.into()); } Self::do_withdraw(c, w, r, ExistenceRequirement::AllowDeath, true)?; Ok(r) }
	fn transfer(c: T::CurrencyId, s: &T::AccountId, d: &T::AccountId, a: T::Balance, p: Preservation) -> Res<T::Balance> { let e = match p { Preservation::Expendable => ExistenceRequirement::AllowDeath, _ => ExistenceRequirement::KeepAlive }; Self::do_transfer(c, s, d, a, e).map(|_| a) }
}
impl<T: Config> TransferAll<T::AccountId> for Pallet<T> {
	fn transfer_all(s: &T::AccountId, d: &T::AccountId) -> DispatchResult { frame_support::storage::with_storage_layer(|| Accounts::<T>::iter_prefix(s).collect::<Vec<_>>().into_iter().try_for_each(|(c, a)| Self::do_transfer(c, s, d, a.free, ExistenceRequirement::AllowDeath))) }
}
#[doc(hidden)] pub struct CurrencyAdapter<T, G>(PhantomData<(T, G)>);

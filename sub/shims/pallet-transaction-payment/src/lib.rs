//! Stand-in for `pallet-transaction-payment` (polkadot 1.7 fee formula).
use codec::{Decode, Encode};
use frame_support::dispatch::{DispatchClass, DispatchInfo, DispatchResult, GetDispatchInfo, Pays, PostDispatchInfo};
use frame_support::traits::Get;
use frame_support::weights::{Weight, WeightToFee};
use scale_info::TypeInfo;
use sp_runtime::traits::*;
use sp_runtime::transaction_validity::*;
use sp_runtime::{FixedPointNumber, FixedPointOperand, FixedU128};
pub use pallet::*;
pub type Multiplier = FixedU128;
pub trait MultiplierUpdate: Convert<Multiplier, Multiplier> { fn min() -> Multiplier; fn max() -> Multiplier; fn target() -> sp_runtime::Perquintill; fn variability() -> Multiplier; }
impl MultiplierUpdate for () { fn min() -> Multiplier { Default::default() } fn max() -> Multiplier { <Multiplier as sp_runtime::traits::Bounded>::max_value() } fn target() -> sp_runtime::Perquintill { Default::default() } fn variability() -> Multiplier { Default::default() } }
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance + FixedPointOperand;
	type LiquidityInfo: Default;
	fn withdraw_fee(w: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(w: &T::AccountId, i: &DispatchInfoOf<T::RuntimeCall>, p: &PostDispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance, l: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate: MultiplierUpdate;
	}
	#[pallet::type_value] pub fn NextFeeMultiplierOnEmpty() -> Multiplier { Multiplier::saturating_from_integer(1) }
	#[pallet::storage] #[pallet::getter(fn next_fee_multiplier)]
	pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, NextFeeMultiplierOnEmpty>;
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> } }
	#[pallet::hooks] impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	impl<T: Config> Pallet<T> { pub fn fee_paid(who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T>) { Self::deposit_event(Event::TransactionFeePaid { who, actual_fee, tip }) } }
}
impl<T: Config> Pallet<T> where BalanceOf<T>: FixedPointOperand {
	pub fn compute_fee(len: u32, i: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo> { Self::raw(len, i.weight, tip, i.pays_fee, i.class) }
	pub fn compute_actual_fee(len: u32, i: &DispatchInfoOf<T::RuntimeCall>, p: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> { Self::raw(len, p.calc_actual_weight(i), tip, p.pays_fee(i), i.class) }
	fn raw(len: u32, w: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> BalanceOf<T> {
		if pays != Pays::Yes { return tip; }
		let adj = Self::next_fee_multiplier().saturating_mul_int(Self::weight_to_fee(w));
		let lf = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
		let base = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
		base.saturating_add(lf.saturating_add(adj)).saturating_add(tip)
	}
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> { let c = w.min(T::BlockWeights::get().max_block); T::WeightToFee::weight_to_fee(&c) }
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(BalanceOf<T>);
impl<T: Config> ChargeTransactionPayment<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
	pub fn from(f: BalanceOf<T>) -> Self { Self(f) }
	pub fn tip(&self) -> BalanceOf<T> { self.0 }
	fn withdraw_fee(&self, w: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(BalanceOf<T>, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let fee = Pallet::<T>::compute_fee(len as u32, i, self.0);
		<<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::withdraw_fee(w, c, i, fee, self.0).map(|l| (fee, l))
	}
}
impl<T: Config> std::fmt::Debug for ChargeTransactionPayment<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "ChargeTransactionPayment<{:?}>", self.0) } }
impl<T: Config> SignedExtension for ChargeTransactionPayment<T> where T: Send + Sync, BalanceOf<T>: Send + Sync, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId; type Call = T::RuntimeCall; type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, T::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
	fn validate(&self, w: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> TransactionValidity { self.withdraw_fee(w, c, i, len)?; Ok(ValidTransaction::default()) }
	fn pre_dispatch(self, w: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<Self::Pre, TransactionValidityError> { let (_, l) = self.withdraw_fee(w, c, i, len)?; Ok((self.0, w.clone(), l)) }
	fn post_dispatch(p: Option<Self::Pre>, i: &DispatchInfoOf<T::RuntimeCall>, po: &PostDispatchInfoOf<T::RuntimeCall>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, w, l)) = p {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, i, po, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&w, i, po, actual, tip, l)?;
			Pallet::<T>::fee_paid(w, actual, tip);
		}
		Ok(())
	}
}
#[doc(hidden)] pub fn _g<G: GetDispatchInfo>(_: G) {}

//! Only the relay-chain data an observer can set and read.
pub use pallet::*;
pub trait OnSystemEvent { fn on_validation_data(data: &cumulus_primitives_core::PersistedValidationData); fn on_validation_code_applied(); }
impl OnSystemEvent for () { fn on_validation_data(_: &cumulus_primitives_core::PersistedValidationData) {} fn on_validation_code_applied() {} }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use cumulus_primitives_core::PersistedValidationData;
	use frame_support::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config { type OnSystemEvent: OnSystemEvent; }
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] #[pallet::getter(fn validation_data)]
	pub type ValidationData<T: Config> = StorageValue<_, PersistedValidationData>;
	impl<T: Config> Pallet<T> { pub fn set_validation_data_for_test(d: PersistedValidationData) { T::OnSystemEvent::on_validation_data(&d); ValidationData::<T>::put(d); } }
}

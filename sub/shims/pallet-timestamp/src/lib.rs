//! Stand-in for `pallet-timestamp`.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{OnTimestampSet, Time, UnixTime};
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::{AtLeast32Bit, Zero, SaturatedConversion};
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Copy + MaxEncodedLen + TypeInfo;
		type OnTimestampSet: OnTimestampSet<Self::Moment>;
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] #[pallet::getter(fn now)]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::storage]
	pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn set(origin: OriginFor<T>, now: T::Moment) -> DispatchResult { ensure_none(origin)?; Now::<T>::put(now); T::OnTimestampSet::on_timestamp_set(now); Ok(()) }
	}
	impl<T: Config> Pallet<T> { pub fn get() -> T::Moment { Self::now() } pub fn set_timestamp(now: T::Moment) { Now::<T>::put(now); DidUpdate::<T>::put(true); T::OnTimestampSet::on_timestamp_set(now); } }
	impl<T: Config> Time for Pallet<T> { type Moment = T::Moment; fn now() -> T::Moment { Now::<T>::get() } }
	impl<T: Config> UnixTime for Pallet<T> { fn now() -> std::time::Duration { let n = Now::<T>::get(); let _ = n == T::Moment::zero(); std::time::Duration::from_millis(n.saturated_into::<u64>()) } }
}

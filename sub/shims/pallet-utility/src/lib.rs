//! Stand-in for `pallet-utility`: batches of calls.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::dispatch::*;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{IsSubType, OriginTrait, UnfilteredDispatchable};
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::Dispatchable;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin;
		type WeightInfo;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event { BatchInterrupted { index: u32, error: DispatchError }, BatchCompleted, BatchCompletedWithErrors, ItemCompleted, ItemFailed { error: DispatchError }, DispatchedAs { result: DispatchResult } }
	#[pallet::error] pub enum Error<T> { TooManyCalls }
	#[pallet::hooks] impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(calls.iter().fold(Weight::zero(), |a, c| a.saturating_add(c.get_dispatch_info().weight)))]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let root = ensure_root(origin.clone()).is_ok();
			for (i, c) in calls.into_iter().enumerate() { let r = if root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) }; if let Err(e) = r { Self::deposit_event(Event::BatchInterrupted { index: i as u32, error: e.error }); return Ok(None.into()); } Self::deposit_event(Event::ItemCompleted); }
			Self::deposit_event(Event::BatchCompleted); Ok(None.into())
		}
		#[pallet::call_index(2)] #[pallet::weight(calls.iter().fold(Weight::zero(), |a, c| a.saturating_add(c.get_dispatch_info().weight)))]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let root = ensure_root(origin.clone()).is_ok();
			for c in calls { let r = if root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) }; if let Err(mut e) = r { e.post_info = None.into(); return Err(e); } Self::deposit_event(Event::ItemCompleted); }
			Self::deposit_event(Event::BatchCompleted); Ok(None.into())
		}
		#[pallet::call_index(4)] #[pallet::weight(calls.iter().fold(Weight::zero(), |a, c| a.saturating_add(c.get_dispatch_info().weight)))]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let root = ensure_root(origin.clone()).is_ok(); let mut bad = false;
			for c in calls { let r = if root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) }; if let Err(e) = r { bad = true; Self::deposit_event(Event::ItemFailed { error: e.error }); } else { Self::deposit_event(Event::ItemCompleted); } }
			Self::deposit_event(if bad { Event::BatchCompletedWithErrors } else { Event::BatchCompleted }); Ok(None.into())
		}
	}
	#[doc(hidden)] pub fn _o<O: OriginTrait>(_: O) {}
}

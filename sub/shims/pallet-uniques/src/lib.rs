//! Stand-in for `pallet-uniques` (ownership, deposits, freezing).
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::ensure;
use frame_support::traits::tokens::{nonfungibles::*, Locker};
use frame_support::traits::{Currency, EnsureOriginWithArg, Get, ReservableCurrency};
use scale_info::TypeInfo;
use sp_runtime::traits::*;
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};
pub use pallet::*;
pub type DepositBalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
pub struct CollectionDetails<A, B> { pub owner: A, pub issuer: A, pub admin: A, pub freezer: A, pub total_deposit: B, pub free_holding: bool, pub items: u32, pub item_metadatas: u32, pub attributes: u32, pub is_frozen: bool }
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
pub struct ItemDetails<A, B> { pub owner: A, pub approved: Option<A>, pub is_frozen: bool, pub deposit: B }
#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
pub struct DestroyWitness { #[codec(compact)] pub items: u32, #[codec(compact)] pub item_metadatas: u32, #[codec(compact)] pub attributes: u32 }
pub type DetailsOf<T> = CollectionDetails<<T as frame_system::Config>::AccountId, DepositBalanceOf<T>>;
pub type ItemOf<T> = ItemDetails<<T as frame_system::Config>::AccountId, DepositBalanceOf<T>>;
pub mod weights { pub trait WeightInfo {} impl WeightInfo for () {} }
pub use weights::WeightInfo;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type CollectionId: Member + Parameter + MaxEncodedLen + Copy;
		type ItemId: Member + Parameter + MaxEncodedLen + Copy;
		type Currency: ReservableCurrency<Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::CollectionId, Success = Self::AccountId>;
		type Locker: Locker<Self::CollectionId, Self::ItemId>;
		type CollectionDeposit: Get<DepositBalanceOf<Self>>;
		type ItemDeposit: Get<DepositBalanceOf<Self>>;
		type MetadataDepositBase: Get<DepositBalanceOf<Self>>;
		type AttributeDepositBase: Get<DepositBalanceOf<Self>>;
		type DepositPerByte: Get<DepositBalanceOf<Self>>;
		type StringLimit: Get<u32>;
		type KeyLimit: Get<u32>;
		type ValueLimit: Get<u32>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Class<T: Config> = StorageMap<_, Blake2_128Concat, T::CollectionId, DetailsOf<T>>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageNMap<_, (NMapKey<Blake2_128Concat, T::AccountId>, NMapKey<Blake2_128Concat, T::CollectionId>, NMapKey<Blake2_128Concat, T::ItemId>), (), OptionQuery>;
	#[pallet::storage]
	pub type Asset<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, ItemOf<T>, OptionQuery>;
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Created { collection: T::CollectionId, creator: T::AccountId, owner: T::AccountId }, Destroyed { collection: T::CollectionId },
		Issued { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId }, Transferred { collection: T::CollectionId, item: T::ItemId, from: T::AccountId, to: T::AccountId },
		Burned { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId }, CollectionFrozen { collection: T::CollectionId }, CollectionThawed { collection: T::CollectionId },
	}
	#[pallet::error]
	pub enum Error<T> { NoPermission, UnknownCollection, AlreadyExists, WrongOwner, BadWitness, InUse, Frozen, WrongDelegate, NoDelegate, Unapproved, Unaccepted, Locked, MaxSupplyReached, MaxSupplyAlreadySet, MaxSupplyTooSmall, UnknownItem, NotForSale, BidTooLow }
	#[pallet::hooks] impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(5)] #[pallet::weight(Weight::zero())]
		pub fn transfer(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, dest: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			let o = ensure_signed(origin)?; let dest = T::Lookup::lookup(dest)?;
			Self::do_transfer(collection, item, dest, |c, d| { if d.owner != o && c.admin != o { ensure!(d.approved == Some(o), Error::<T>::NoPermission); } Ok(()) })
		}
		#[pallet::call_index(9)] #[pallet::weight(Weight::zero())]
		pub fn freeze_collection(origin: OriginFor<T>, collection: T::CollectionId) -> DispatchResult {
			let o = ensure_signed(origin)?;
			Class::<T>::try_mutate(collection, |m| -> DispatchResult { let d = m.as_mut().ok_or(Error::<T>::UnknownCollection)?; ensure!(o == d.freezer, Error::<T>::NoPermission); d.is_frozen = true; Self::deposit_event(Event::CollectionFrozen { collection }); Ok(()) })
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn emit(e: Event<T>) { Self::deposit_event(e) }
	}
}
impl<T: Config> Pallet<T> {
	pub fn do_transfer(c: T::CollectionId, i: T::ItemId, dest: T::AccountId, f: impl FnOnce(&DetailsOf<T>, &mut ItemOf<T>) -> DispatchResult) -> DispatchResult {
		let cd = Class::<T>::get(c).ok_or(Error::<T>::UnknownCollection)?;
		ensure!(!cd.is_frozen, Error::<T>::Frozen); ensure!(!T::Locker::is_locked(c, i), Error::<T>::Locked);
		let mut d = Asset::<T>::get(c, i).ok_or(Error::<T>::UnknownCollection)?;
		ensure!(!d.is_frozen, Error::<T>::Frozen);
		f(&cd, &mut d)?;
		Account::<T>::remove((&d.owner, &c, &i)); Account::<T>::insert((&dest, &c, &i), ());
		let from = std::mem::replace(&mut d.owner, dest.clone()); d.approved = None;
		Asset::<T>::insert(c, i, &d);
		Self::emit(Event::Transferred { collection: c, item: i, from, to: dest });
		Ok(())
	}
	pub fn do_create_collection(c: T::CollectionId, owner: T::AccountId, admin: T::AccountId, deposit: DepositBalanceOf<T>, free_holding: bool, e: Event<T>) -> DispatchResult {
		ensure!(!Class::<T>::contains_key(c), Error::<T>::InUse);
		T::Currency::reserve(&owner, deposit)?;
		Class::<T>::insert(c, CollectionDetails { owner, issuer: admin.clone(), admin: admin.clone(), freezer: admin, total_deposit: deposit, free_holding, items: 0, item_metadatas: 0, attributes: 0, is_frozen: false });
		Self::emit(e); Ok(())
	}
	pub fn do_destroy_collection(c: T::CollectionId, w: DestroyWitness, check: Option<T::AccountId>) -> Result<DestroyWitness, DispatchError> {
		Class::<T>::try_mutate_exists(c, |m| {
			let d = m.take().ok_or(Error::<T>::UnknownCollection)?;
			if let Some(o) = check { ensure!(d.owner == o, Error::<T>::NoPermission); }
			ensure!(d.items == w.items && d.item_metadatas == w.item_metadatas && d.attributes == w.attributes, Error::<T>::BadWitness);
			for (i, x) in Asset::<T>::drain_prefix(c) { Account::<T>::remove((&x.owner, &c, &i)); }
			T::Currency::unreserve(&d.owner, d.total_deposit);
			Self::emit(Event::Destroyed { collection: c });
			Ok(DestroyWitness { items: d.items, item_metadatas: d.item_metadatas, attributes: d.attributes })
		})
	}
	pub fn do_mint(c: T::CollectionId, i: T::ItemId, owner: T::AccountId, f: impl FnOnce(&DetailsOf<T>) -> DispatchResult) -> DispatchResult {
		ensure!(!Asset::<T>::contains_key(c, i), Error::<T>::AlreadyExists);
		Class::<T>::try_mutate(c, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::UnknownCollection)?;
			f(d)?;
			d.items = d.items.checked_add(1).ok_or(ArithmeticError::Overflow)?;
			let dep = if d.free_holding { Zero::zero() } else { T::ItemDeposit::get() };
			T::Currency::reserve(&d.owner, dep)?;
			d.total_deposit += dep;
			Account::<T>::insert((&owner, &c, &i), ());
			Asset::<T>::insert(c, i, ItemDetails { owner: owner.clone(), approved: None, is_frozen: false, deposit: dep });
			Ok(())
		})?;
		Self::emit(Event::Issued { collection: c, item: i, owner }); Ok(())
	}
	pub fn do_burn(c: T::CollectionId, i: T::ItemId, f: impl FnOnce(&DetailsOf<T>, &ItemOf<T>) -> DispatchResult) -> DispatchResult {
		ensure!(!T::Locker::is_locked(c, i), Error::<T>::Locked);
		let owner = Class::<T>::try_mutate(c, |m| -> Result<T::AccountId, DispatchError> {
			let d = m.as_mut().ok_or(Error::<T>::UnknownCollection)?;
			let x = Asset::<T>::get(c, i).ok_or(Error::<T>::UnknownCollection)?;
			f(d, &x)?;
			T::Currency::unreserve(&d.owner, x.deposit);
			d.total_deposit = d.total_deposit.saturating_sub(x.deposit); d.items = d.items.saturating_sub(1);
			Ok(x.owner)
		})?;
		Asset::<T>::remove(c, i); Account::<T>::remove((&owner, &c, &i));
		Self::emit(Event::Burned { collection: c, item: i, owner }); Ok(())
	}
	pub fn owner(c: T::CollectionId, i: T::ItemId) -> Option<T::AccountId> { Asset::<T>::get(c, i).map(|d| d.owner) }
	pub fn collection_owner(c: T::CollectionId) -> Option<T::AccountId> { Class::<T>::get(c).map(|d| d.owner) }
}
impl<T: Config> Inspect<T::AccountId> for Pallet<T> {
	type ItemId = T::ItemId; type CollectionId = T::CollectionId;
	fn owner(c: &T::CollectionId, i: &T::ItemId) -> Option<T::AccountId> { Pallet::<T>::owner(*c, *i) }
	fn collection_owner(c: &T::CollectionId) -> Option<T::AccountId> { Pallet::<T>::collection_owner(*c) }
	fn can_transfer(c: &T::CollectionId, i: &T::ItemId) -> bool { matches!((Class::<T>::get(c), Asset::<T>::get(c, i)), (Some(a), Some(b)) if !a.is_frozen && !b.is_frozen) }
}
impl<T: Config> InspectEnumerable<T::AccountId> for Pallet<T> {
	type CollectionsIterator = std::vec::IntoIter<T::CollectionId>; type ItemsIterator = std::vec::IntoIter<T::ItemId>; type OwnedIterator = std::vec::IntoIter<(T::CollectionId, T::ItemId)>; type OwnedInCollectionIterator = std::vec::IntoIter<T::ItemId>;
	fn collections() -> Self::CollectionsIterator { Class::<T>::iter().map(|(k, _)| k).collect::<Vec<_>>().into_iter() }
	fn items(c: &T::CollectionId) -> Self::ItemsIterator { Asset::<T>::iter_prefix(c).map(|(k, _)| k).collect::<Vec<_>>().into_iter() }
	fn owned(w: &T::AccountId) -> Self::OwnedIterator { Asset::<T>::iter().filter(|(_, _, d)| &d.owner == w).map(|(c, i, _)| (c, i)).collect::<Vec<_>>().into_iter() }
	fn owned_in_collection(c: &T::CollectionId, w: &T::AccountId) -> Self::OwnedInCollectionIterator { Asset::<T>::iter_prefix(c).filter(|(_, d)| &d.owner == w).map(|(i, _)| i).collect::<Vec<_>>().into_iter() }
}
impl<T: Config> Create<T::AccountId> for Pallet<T> {
	fn create_collection(c: &T::CollectionId, w: &T::AccountId, admin: &T::AccountId) -> DispatchResult { Self::do_create_collection(*c, w.clone(), admin.clone(), T::CollectionDeposit::get(), false, Event::Created { collection: *c, creator: w.clone(), owner: admin.clone() }) }
}
impl<T: Config> Destroy<T::AccountId> for Pallet<T> {
	type DestroyWitness = DestroyWitness;
	fn get_destroy_witness(c: &T::CollectionId) -> Option<DestroyWitness> { Class::<T>::get(c).map(|d| DestroyWitness { items: d.items, item_metadatas: d.item_metadatas, attributes: d.attributes }) }
	fn destroy(c: T::CollectionId, w: DestroyWitness, m: Option<T::AccountId>) -> Result<DestroyWitness, DispatchError> { Self::do_destroy_collection(c, w, m) }
}
impl<T: Config> Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(c: &T::CollectionId, i: &T::ItemId, w: &T::AccountId) -> DispatchResult { Self::do_mint(*c, *i, w.clone(), |_| Ok(())) }
	fn burn(c: &T::CollectionId, i: &T::ItemId, m: Option<&T::AccountId>) -> DispatchResult { Self::do_burn(*c, *i, |_, d| { if let Some(o) = m { if &d.owner != o { return Err(Error::<T>::NoPermission.into()); } } Ok(()) }) }
}
impl<T: Config> Transfer<T::AccountId> for Pallet<T> { fn transfer(c: &T::CollectionId, i: &T::ItemId, d: &T::AccountId) -> DispatchResult { Self::do_transfer(*c, *i, d.clone(), |_, _| Ok(())) } }
#[doc(hidden)] pub fn _e<T: Config, O, A, E: EnsureOriginWithArg<O, A>>(_: &T) {}

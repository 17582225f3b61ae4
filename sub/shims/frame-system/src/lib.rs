//! Stand-in for `frame-system`: accounts with reference counts, block number, events, origins.
extern crate self as frame_system;
pub use frame_support::dispatch::RawOrigin;
use frame_support::traits::*;
use frame_support::dispatch::{DispatchError, DispatchResultWithPostInfo};
use sp_runtime::traits::{BadOrigin, Zero, Saturating};
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::marker::PhantomData;
pub use pallet::*;
pub type RefCount = u32;
pub type ExtrinsicsWeight = frame_support::dispatch::PerDispatchClass<frame_support::weights::Weight>;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> { pub nonce: Nonce, pub consumers: RefCount, pub providers: RefCount, pub sufficients: RefCount, pub data: AccountData }
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Default)]
pub enum Phase { ApplyExtrinsic(u32), Finalization, #[default] Initialization }
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub struct EventRecord<E, H> { pub phase: Phase, pub event: E, pub topics: Vec<H> }
#[derive(Eq, PartialEq, Debug)] pub enum IncRefStatus { Created, Existed }
#[derive(Eq, PartialEq, Debug)] pub enum DecRefStatus { Reaped, Exists }
pub trait SetCode<T> { fn set_code(c: Vec<u8>) -> DispatchResultWithPostInfo; }
impl<T> SetCode<T> for () { fn set_code(_: Vec<u8>) -> DispatchResultWithPostInfo { Ok(().into()) } }
pub trait WeightInfo {} impl WeightInfo for () {}
pub mod weights { pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> super::WeightInfo for SubstrateWeight<T> {} }
pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as crate::Config>::Block as sp_runtime::traits::HeaderProvider>::HeaderT;
	pub type BlockNumberFor<T> = <HeaderFor<T> as sp_runtime::traits::Header>::Number;
	pub type ExtrinsicFor<T> = <<T as crate::Config>::Block as sp_runtime::traits::Block>::Extrinsic;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}
use pallet_prelude::*;
pub mod mocking {
	use sp_runtime::generic;
	pub type MockUncheckedExtrinsic<T, S = (), E = ()> = generic::UncheckedExtrinsic<<T as crate::Config>::AccountId, <T as crate::Config>::RuntimeCall, S, E>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod limits {
	use frame_support::dispatch::{DispatchClass, PerDispatchClass}; use frame_support::weights::Weight;
	#[derive(Clone, Debug)] pub struct WeightsPerClass { pub base_extrinsic: Weight, pub max_extrinsic: Option<Weight>, pub max_total: Option<Weight>, pub reserved: Option<Weight> }
	#[derive(Clone, Debug)] pub struct BlockWeights { pub base_block: Weight, pub max_block: Weight, pub per_class: PerDispatchClass<WeightsPerClass> }
	impl Default for BlockWeights { fn default() -> Self { Self::simple_max(Weight::from_parts(2_000_000_000_000, u64::MAX)) } }
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass { self.per_class.get(c) }
		pub fn simple_max(m: Weight) -> Self { let b = frame_support::weights::constants::ExtrinsicBaseWeight::get(); Self { base_block: Weight::zero(), max_block: m, per_class: PerDispatchClass::new(|c| WeightsPerClass { base_extrinsic: if c == DispatchClass::Mandatory { Weight::zero() } else { b }, max_extrinsic: None, max_total: Some(m), reserved: None }) } }
		pub fn with_sensible_defaults(m: Weight, _: sp_runtime::Perbill) -> Self { Self::simple_max(m) }
		pub fn builder() -> BlockWeightsBuilder { BlockWeightsBuilder(Self::default()) }
	}
	pub struct BlockWeightsBuilder(BlockWeights);
	impl BlockWeightsBuilder { pub fn base_block(mut self, w: Weight) -> Self { self.0.base_block = w; self } pub fn for_class(mut self, c: impl IntoClasses, f: impl Fn(&mut WeightsPerClass)) -> Self { for c in c.classes() { f(self.0.per_class.get_mut(c)) } self } pub fn avg_block_initialization(self, _: sp_runtime::Perbill) -> Self { self } pub fn build_or_panic(self) -> BlockWeights { self.0 } }
	pub trait IntoClasses { fn classes(self) -> Vec<DispatchClass>; } impl IntoClasses for DispatchClass { fn classes(self) -> Vec<DispatchClass> { vec![self] } } impl IntoClasses for &[DispatchClass] { fn classes(self) -> Vec<DispatchClass> { self.to_vec() } }
	#[derive(Clone, Debug)] pub struct BlockLength { pub max: PerDispatchClass<u32> }
	impl Default for BlockLength { fn default() -> Self { Self { max: PerDispatchClass::new(|_| 5 * 1024 * 1024) } } }
}
pub mod config_preludes { pub struct TestDefaultConfig; }
pub mod offchain {
	use sp_runtime::traits::Extrinsic;
	pub trait SendTransactionTypes<LocalCall> { type Extrinsic: Extrinsic<Call = Self::OverarchingCall> + codec::Encode; type OverarchingCall: From<LocalCall> + codec::Encode; }
	pub struct SubmitTransaction<T, C>(std::marker::PhantomData<(T, C)>);
	impl<T: SendTransactionTypes<L>, L> SubmitTransaction<T, L> {
		pub fn submit_transaction(call: <T as SendTransactionTypes<L>>::OverarchingCall, sig: Option<<T::Extrinsic as Extrinsic>::SignaturePayload>) -> Result<(), ()> { let x = T::Extrinsic::new(call, sig).ok_or(())?; sp_io::offchain::submit_transaction(codec::Encode::encode(&x)) }
		pub fn submit_unsigned_transaction(call: <T as SendTransactionTypes<L>>::OverarchingCall) -> Result<(), ()> { Self::submit_transaction(call, None) }
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use sp_runtime::traits::{self, *};
	pub trait DefaultConfig {}
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + std::fmt::Debug + From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + MaybeDisplay + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + MaybeDisplay + Ord + MaxEncodedLen;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: Parameter + Member + traits::Block<Hash = Self::Hash>;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + std::fmt::Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
		type Version;
		type PalletInfo: PalletInfo;
		type AccountData: Member + codec::FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix;
		type OnSetCode: SetCode<Self>;
		type MaxConsumers: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let _ = remark; Ok(().into()) }
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let sender = ensure_signed(origin)?; let hash = T::Hashing::hash(&remark[..]); Self::deposit_event(Event::Remarked { sender, hash }); Ok(().into()) }
	}
	#[pallet::event]
	pub enum Event<T: Config> { ExtrinsicSuccess { dispatch_info: frame_support::dispatch::DispatchInfo }, ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: frame_support::dispatch::DispatchInfo }, CodeUpdated, NewAccount { account: T::AccountId }, KilledAccount { account: T::AccountId }, Remarked { sender: T::AccountId, hash: T::Hash } }
	#[pallet::error]
	pub enum Error<T> { InvalidSpecName, SpecVersionNeedsToIncrease, FailedToExtractRuntimeVersion, NonDefaultComposite, NonZeroRefCount, CallFiltered }
	#[pallet::origin]
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, ExtrinsicsWeight, ValueQuery>;
	#[pallet::storage]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> { pub _config: std::marker::PhantomData<T> }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) { Number::<T>::put(BlockNumberFor::<T>::zero()) } }
}
thread_local! { static MUTED: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// Long workloads take their events out of the state through this switch.
pub fn mute_events(m: bool) { MUTED.with(|c| c.set(m)) }
impl<T: Config> Pallet<T> {
	pub fn account(w: impl codec::EncodeLike<T::AccountId>) -> AccountInfo<T::Nonce, T::AccountData> { Account::<T>::get(w) }
	pub fn block_number() -> BlockNumberFor<T> { Number::<T>::get() }
	pub fn current_block_number() -> BlockNumberFor<T> { Number::<T>::get() }
	pub fn set_block_number(n: BlockNumberFor<T>) { Number::<T>::put(n) }
	pub fn parent_hash() -> T::Hash { ParentHash::<T>::get() }
	pub fn set_parent_hash(h: T::Hash) { ParentHash::<T>::put(h) }
	pub fn block_hash(n: BlockNumberFor<T>) -> T::Hash { BlockHash::<T>::get(n) }
	pub fn block_weight() -> ExtrinsicsWeight { BlockWeight::<T>::get() }
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> { Events::<T>::get() }
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> { Self::events().into_iter().map(Box::new) }
	pub fn event_count() -> u32 { Events::<T>::decode_len().unwrap_or(0) as u32 }
	pub fn reset_events() { Events::<T>::kill() }
	pub fn deposit_event(e: impl Into<T::RuntimeEvent>) { if !MUTED.with(|c| c.get()) { Self::deposit_event_indexed(&[], e.into()) } }
	pub fn deposit_event_indexed(t: &[T::Hash], event: T::RuntimeEvent) { if Self::block_number().is_zero() { return; } Events::<T>::append(EventRecord { phase: Phase::Initialization, event, topics: t.to_vec() }) }
	pub fn extrinsic_index() -> Option<u32> { frame_support::storage::unhashed::get(b":extrinsic_index") }
	pub fn set_extrinsic_index(n: u32) { frame_support::storage::unhashed::put(b":extrinsic_index", &n) }
	pub fn digest() -> sp_runtime::Digest { Default::default() }
	pub fn initialize(n: &BlockNumberFor<T>, p: &T::Hash, _: &sp_runtime::Digest) { Number::<T>::put(*n); ParentHash::<T>::put(*p); Events::<T>::kill(); Self::set_extrinsic_index(0) }
	pub fn finalize() {}
	pub fn assert_has_event(e: T::RuntimeEvent) { let v = Self::events(); assert!(v.iter().any(|r| r.event == e), "expected event {:?} not found in {:?}", e, v.iter().map(|r| &r.event).collect::<Vec<_>>()) }
	pub fn assert_last_event(e: T::RuntimeEvent) { let v = Self::events(); let l = v.last().expect("events expected"); assert_eq!(l.event, e, "expected event is not equal to the last event") }
	pub fn account_nonce(w: impl codec::EncodeLike<T::AccountId>) -> T::Nonce { Account::<T>::get(w).nonce }
	pub fn inc_account_nonce(w: impl codec::EncodeLike<T::AccountId>) { Account::<T>::mutate(w, |a| a.nonce += sp_runtime::traits::One::one()) }
	pub fn account_exists(w: &T::AccountId) -> bool { Account::<T>::contains_key(w) }
	fn on_created(w: T::AccountId) { T::OnNewAccount::on_new_account(&w); Self::deposit_event(Event::NewAccount { account: w }) }
	fn on_killed(w: T::AccountId) { T::OnKilledAccount::on_killed_account(&w); Self::deposit_event(Event::KilledAccount { account: w }) }
	pub fn providers(w: &T::AccountId) -> RefCount { Account::<T>::get(w).providers }
	pub fn consumers(w: &T::AccountId) -> RefCount { Account::<T>::get(w).consumers }
	pub fn sufficients(w: &T::AccountId) -> RefCount { Account::<T>::get(w).sufficients }
	pub fn reference_count(w: &T::AccountId) -> RefCount { let a = Account::<T>::get(w); a.consumers + a.providers + a.sufficients }
	pub fn inc_providers(w: &T::AccountId) -> IncRefStatus { Account::<T>::mutate(w, |a| if a.providers == 0 && a.sufficients == 0 { a.providers = 1; Self::on_created(w.clone()); IncRefStatus::Created } else { a.providers = a.providers.saturating_add(1); IncRefStatus::Existed }) }
	pub fn dec_providers(w: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(w, |m| if let Some(mut a) = m.take() {
			if a.providers == 0 { a.providers = 1; }
			match (a.providers, a.consumers, a.sufficients) {
				(1, 0, 0) => { Self::on_killed(w.clone()); Ok(DecRefStatus::Reaped) }
				(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
				(x, _, _) => { a.providers = x - 1; *m = Some(a); Ok(DecRefStatus::Exists) }
			}
		} else { Ok(DecRefStatus::Reaped) })
	}
	pub fn inc_sufficients(w: &T::AccountId) -> IncRefStatus { Account::<T>::mutate(w, |a| if a.providers + a.sufficients == 0 { a.sufficients = 1; Self::on_created(w.clone()); IncRefStatus::Created } else { a.sufficients = a.sufficients.saturating_add(1); IncRefStatus::Existed }) }
	pub fn dec_sufficients(w: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(w, |m| if let Some(mut a) = m.take() {
			match (a.sufficients, a.providers) { (0, 0) | (1, 0) => { Self::on_killed(w.clone()); DecRefStatus::Reaped } (x, _) => { a.sufficients = x.saturating_sub(1); *m = Some(a); DecRefStatus::Exists } }
		} else { DecRefStatus::Reaped })
	}
	pub fn inc_consumers(w: &T::AccountId) -> Result<(), DispatchError> { Account::<T>::try_mutate(w, |a| if a.providers > 0 { if a.consumers < T::MaxConsumers::get() { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::TooManyConsumers) } } else { Err(DispatchError::NoProviders) }) }
	pub fn inc_consumers_without_limit(w: &T::AccountId) -> Result<(), DispatchError> { Account::<T>::try_mutate(w, |a| if a.providers > 0 { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::NoProviders) }) }
	pub fn dec_consumers(w: &T::AccountId) { Account::<T>::mutate(w, |a| a.consumers = a.consumers.saturating_sub(1)) }
	pub fn can_accrue_consumers(w: &T::AccountId, n: u32) -> bool { let a = Account::<T>::get(w); a.consumers.checked_add(n).map_or(false, |c| c <= T::MaxConsumers::get()) }
	pub fn can_inc_consumer(w: &T::AccountId) -> bool { let a = Account::<T>::get(w); (a.providers > 0 || a.sufficients > 0) && Self::can_accrue_consumers(w, 1) }
	pub fn can_dec_provider(w: &T::AccountId) -> bool { let a = Account::<T>::get(w); a.consumers == 0 || a.providers > 1 }
	pub fn is_provider_required(w: &T::AccountId) -> bool { Account::<T>::get(w).consumers != 0 }
	pub fn register_extra_weight_unchecked(w: frame_support::weights::Weight, c: frame_support::dispatch::DispatchClass) { BlockWeight::<T>::mutate(|b| b.get_mut(c).saturating_accrue(w)) }
	pub fn set_block_consumed_resources(w: frame_support::weights::Weight, _: usize) { BlockWeight::<T>::mutate(|b| *b.get_mut(frame_support::dispatch::DispatchClass::Normal) = w) }
}
impl<T: Config> sp_runtime::traits::BlockNumberProvider for Pallet<T> { type BlockNumber = BlockNumberFor<T>; fn current_block_number() -> BlockNumberFor<T> { Number::<T>::get() } }
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData { Account::<T>::get(k).data }
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let a = Account::<T>::get(k);
		let was = a.data != T::AccountData::default();
		let mut some = if was { Some(a.data) } else { None };
		let r = f(&mut some)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 { Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default()); } else { Account::<T>::remove(k) }
		Ok(r)
	}
}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> { fn created(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::inc_providers(t); Ok(()) } fn killed(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::dec_providers(t).map(|_| ()) } }
pub struct SelfSufficient<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for SelfSufficient<T> { fn created(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::inc_sufficients(t); Ok(()) } fn killed(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::dec_sufficients(t); Ok(()) } }
pub struct ChainContext<T>(PhantomData<T>);

pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Signed(t)) => Ok(t), _ => Err(BadOrigin) } }
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(t)) => Ok(Some(t)), _ => Err(BadOrigin) } }
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin> where O: Into<Result<RawOrigin<A>, O>> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(BadOrigin) } }
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }) } }
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, Arg> EnsureOriginWithArg<O, Arg> for EnsureRoot<A> { type Success = (); fn try_origin(o: O, _: &Arg) -> Result<(), O> { <Self as EnsureOrigin<O>>::try_origin(o) } }
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<A, S> { type Success = S::Type; fn try_origin(o: O) -> Result<S::Type, O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(S::get()), r => Err(O::from(r)) }) } }
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(w) => Ok(w), r => Err(O::from(r)) }) } }
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, Arg> EnsureOriginWithArg<O, Arg> for EnsureSigned<A> { type Success = A; fn try_origin(o: O, _: &Arg) -> Result<A, O> { <Self as EnsureOrigin<O>>::try_origin(o) } }
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<W, A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(w) if W::contains(&w) => Ok(w), r => Err(O::from(r)) }) } }
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::None => Ok(()), r => Err(O::from(r)) }) } }
pub struct EnsureNever<A>(PhantomData<A>);
impl<O, A> EnsureOrigin<O> for EnsureNever<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { Err(o) } }
#[doc(hidden)] pub fn _u<B: Saturating>(b: B) -> B { b }

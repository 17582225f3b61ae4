//! The traits pallets implement and consume.
use crate::dispatch::{DispatchResult, DispatchResultWithPostInfo, RawOrigin};
use crate::weights::Weight;
use codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use impl_trait_for_tuples::impl_for_tuples;
use scale_info::TypeInfo;
pub use sp_core::{ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};
use sp_runtime::traits::{AtLeast32Bit, AtLeast32BitUnsigned, BadOrigin, Saturating};
use sp_runtime::{DispatchError};
use std::fmt::Debug;
use std::marker::PhantomData;
pub mod currency;
pub mod preimages;
pub mod tokens;
pub use currency::*;
pub use preimages::*;
pub use tokens::{fungible, fungibles, nonfungibles, BalanceStatus, ExistenceRequirement, WithdrawReasons, AssetId as TokenAssetId};
pub use tokens::imbalance::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, TryDrop};
pub use sp_runtime::traits::{ConstU32 as _C};
pub use crate::hash::StorageHasher as _SH;

// versions and identity of pallets
#[derive(Encode, Decode, Eq, PartialEq, Copy, Clone, PartialOrd, Default, Debug)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(n: u16) -> Self { Self(n) }
	pub fn storage_key<P: PalletInfoAccess>() -> [u8; 32] { crate::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:") }
	pub fn put<P: PalletInfoAccess>(&self) { crate::storage::unhashed::put(&Self::storage_key::<P>(), self) }
	pub fn get<P: PalletInfoAccess>() -> Self { crate::storage::unhashed::get_or_default(&Self::storage_key::<P>()) }
	pub fn exists<P: PalletInfoAccess>() -> bool { crate::storage::unhashed::exists(&Self::storage_key::<P>()) }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
pub trait GetStorageVersion { type CurrentStorageVersion; fn current_storage_version() -> Self::CurrentStorageVersion; fn on_chain_storage_version() -> StorageVersion; fn in_code_storage_version() -> Self::CurrentStorageVersion { Self::current_storage_version() } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo)] pub struct CrateVersion { pub major: u16, pub minor: u8, pub patch: u8 }
pub trait PalletInfo { fn index<P: 'static>() -> Option<usize>; fn name<P: 'static>() -> Option<&'static str>; }
pub trait PalletInfoAccess { fn index() -> usize; fn name() -> &'static str; fn name_hash() -> [u8; 16]; fn module_name() -> &'static str; fn crate_version() -> CrateVersion; }
pub trait StorageInstance { fn pallet_prefix() -> &'static str; fn prefix_hash() -> [u8; 32] { crate::storage::storage_prefix(Self::pallet_prefix().as_bytes(), Self::STORAGE_PREFIX.as_bytes()) } const STORAGE_PREFIX: &'static str; }
#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode)] pub struct StorageInfo { pub prefix: Vec<u8>, pub max_values: Option<u32>, pub max_size: Option<u32> }
pub trait StorageInfoTrait { fn storage_info() -> Vec<StorageInfo>; }
pub trait Instance: 'static { const PREFIX: &'static str; const INDEX: u8; }
pub trait PalletError: Encode + Decode { const MAX_ENCODED_SIZE: usize; }
macro_rules! pe { ($($t:ty)*) => {$(impl PalletError for $t { const MAX_ENCODED_SIZE: usize = std::mem::size_of::<$t>(); })*} } pe! { () bool u8 u16 u32 u64 u128 }
pub trait VariantCount { const VARIANT_COUNT: u32; } impl VariantCount for () { const VARIANT_COUNT: u32 = 0; }
pub trait Task {}
pub trait IsType<T>: Into<T> + From<T> { fn from_ref(t: &T) -> &Self; fn into_ref(&self) -> &T; fn from_mut(t: &mut T) -> &mut Self; fn into_mut(&mut self) -> &mut T; }
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &Self { t } fn into_ref(&self) -> &T { self } fn from_mut(t: &mut T) -> &mut Self { t } fn into_mut(&mut self) -> &mut T { self } }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }

// hooks
pub trait Hooks<BlockNumber> {
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight { Weight::zero() }
	fn on_poll(_n: BlockNumber, _w: &mut crate::weights::WeightMeter) {}
	fn on_initialize(_n: BlockNumber) -> Weight { Weight::zero() }
	fn on_runtime_upgrade() -> Weight { Weight::zero() }
	fn offchain_worker(_n: BlockNumber) {}
	fn integrity_test() {}
}
pub trait OnInitialize<B> { fn on_initialize(_n: B) -> Weight { Weight::zero() } }
#[impl_for_tuples(40)] impl<B: Clone> OnInitialize<B> for Tuple { fn on_initialize(n: B) -> Weight { let mut w = Weight::zero(); for_tuples!( #( w = w.saturating_add(Tuple::on_initialize(n.clone())); )* ); w } }
pub trait OnFinalize<B> { fn on_finalize(_n: B) {} }
#[impl_for_tuples(40)] impl<B: Clone> OnFinalize<B> for Tuple { fn on_finalize(n: B) { for_tuples!( #( Tuple::on_finalize(n.clone()); )* ); } }
pub trait OnIdle<B> { fn on_idle(_n: B, _w: Weight) -> Weight { Weight::zero() } }
#[impl_for_tuples(40)] impl<B: Clone> OnIdle<B> for Tuple { fn on_idle(n: B, rem: Weight) -> Weight { let mut w = Weight::zero(); for_tuples!( #( w = w.saturating_add(Tuple::on_idle(n.clone(), rem.saturating_sub(w))); )* ); w } }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
#[impl_for_tuples(40)] impl OnRuntimeUpgrade for Tuple { fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); for_tuples!( #( w = w.saturating_add(Tuple::on_runtime_upgrade()); )* ); w } }
pub trait OnGenesis { fn on_genesis() {} }
#[impl_for_tuples(40)] impl OnGenesis for Tuple { fn on_genesis() { for_tuples!( #( Tuple::on_genesis(); )* ); } }
pub trait OffchainWorker<B> { fn offchain_worker(_n: B) {} }
#[impl_for_tuples(40)] impl<B: Clone> OffchainWorker<B> for Tuple { fn offchain_worker(n: B) { for_tuples!( #( Tuple::offchain_worker(n.clone()); )* ); } }
pub trait IntegrityTest { fn integrity_test() {} }
#[impl_for_tuples(40)] impl IntegrityTest for Tuple { fn integrity_test() { for_tuples!( #( Tuple::integrity_test(); )* ); } }
pub trait BuildGenesisConfig: Default { fn build(&self); } impl BuildGenesisConfig for () { fn build(&self) {} }
pub trait OnTimestampSet<M> { fn on_timestamp_set(m: M); } impl<M> OnTimestampSet<M> for () { fn on_timestamp_set(_: M) {} }

// dispatch
pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; }
pub trait GetCallName { fn get_call_names() -> &'static [&'static str]; fn get_call_name(&self) -> &'static str; }
pub trait GetCallIndex { fn get_call_indices() -> &'static [u8]; fn get_call_index(&self) -> u8; }
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode)] pub struct CallMetadata { pub function_name: &'static str, pub pallet_name: &'static str }
pub trait GetCallMetadata { fn get_module_names() -> &'static [&'static str]; fn get_call_names(m: &str) -> &'static [&'static str]; fn get_call_metadata(&self) -> CallMetadata; }
pub trait CallerTrait<AccountId>: Parameter + Member + From<RawOrigin<AccountId>> { fn into_system(self) -> Option<RawOrigin<AccountId>>; fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>; }
use crate::dispatch::Parameter;
use sp_runtime::traits::Member;
pub trait OriginTrait: Sized {
	type Call; type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen; type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static); fn reset_filter(&mut self); fn set_caller_from(&mut self, other: impl Into<Self>); fn set_caller(&mut self, c: Self::PalletsOrigin); fn filter_call(&self, c: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin; fn into_caller(self) -> Self::PalletsOrigin; fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self; fn root() -> Self; fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId> { self.into_caller().into_system().and_then(|s| if let RawOrigin::Signed(w) = s { Some(w) } else { None }) }
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>; fn into_signer(self) -> Option<Self::AccountId> { self.as_signed() }
}
pub trait EnsureOrigin<O> { type Success; fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> { Self::try_origin(o).map_err(|_| BadOrigin) } fn try_origin(o: O) -> Result<Self::Success, O>; fn ensure_origin_or_root(o: O) -> Result<Option<Self::Success>, BadOrigin> where O: Clone { Self::ensure_origin(o).map(Some) } }
pub trait EnsureOriginWithArg<O, A> { type Success; fn ensure_origin(o: O, a: &A) -> Result<Self::Success, BadOrigin> { Self::try_origin(o, a).map_err(|_| BadOrigin) } fn try_origin(o: O, a: &A) -> Result<Self::Success, O>; }
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> { type Success = E::Success; fn try_origin(o: O, _: &A) -> Result<E::Success, O> { E::try_origin(o) } }
pub struct NeverEnsureOrigin<S>(PhantomData<S>); impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
pub struct EitherOf<L, R>(PhantomData<(L, R)>); impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> { type Success = L::Success; fn try_origin(o: O) -> Result<L::Success, O> { L::try_origin(o).or_else(|o| R::try_origin(o)) } }
pub enum Either<L, R> { Left(L), Right(R) }
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>); impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> { type Success = Either<L::Success, R::Success>; fn try_origin(o: O) -> Result<Self::Success, O> { L::try_origin(o).map(Either::Left).or_else(|o| R::try_origin(o).map(Either::Right)) } }
pub trait PrivilegeCmp<O> { fn cmp_privilege(a: &O, b: &O) -> Option<std::cmp::Ordering>; }
pub struct EqualPrivilegeOnly; impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly { fn cmp_privilege(a: &O, b: &O) -> Option<std::cmp::Ordering> { (a == b).then_some(std::cmp::Ordering::Equal) } }
pub trait InstanceFilter<T>: Sized + Send + Sync { fn filter(&self, _: &T) -> bool; fn is_superset(&self, _: &Self) -> bool { false } }

// membership
pub trait Contains<T> { fn contains(t: &T) -> bool; }
#[impl_for_tuples(0, 30)] #[allow(unused_variables)] impl<T> Contains<T> for Tuple { fn contains(t: &T) -> bool { for_tuples!( #( if Tuple::contains(t) { return true } )* ); false } }
pub enum Everything {} impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } } impl<T> ContainsPair<T, T> for Everything { fn contains(_: &T, _: &T) -> bool { true } }
pub enum Nothing {} impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
pub trait ContainsPair<A, B> { fn contains(a: &A, b: &B) -> bool; }
pub struct EverythingBut<E>(PhantomData<E>); impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> { fn contains(t: &T) -> bool { !E::contains(t) } }
pub struct InsideBoth<A, B>(PhantomData<(A, B)>); impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> { fn contains(t: &T) -> bool { A::contains(t) && B::contains(t) } }
pub struct TheseExcept<A, B>(PhantomData<(A, B)>); impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> { fn contains(t: &T) -> bool { A::contains(t) && !B::contains(t) } }
pub struct Equals<X>(PhantomData<X>); impl<T: PartialEq, X: Get<T>> Contains<T> for Equals<X> { fn contains(t: &T) -> bool { t == &X::get() } }
pub struct IsInVec<X>(PhantomData<X>); impl<T: Ord + PartialEq, X: Get<Vec<T>>> Contains<T> for IsInVec<X> { fn contains(t: &T) -> bool { X::get().contains(t) } } impl<T: Ord + PartialEq, X: Get<Vec<T>>> SortedMembers<T> for IsInVec<X> { fn sorted_members() -> Vec<T> { let mut r = X::get(); r.sort(); r } }
pub trait SortedMembers<T: Ord> { fn contains(t: &T) -> bool { Self::sorted_members().binary_search(t).is_ok() } fn sorted_members() -> Vec<T>; fn count() -> usize { Self::sorted_members().len() } fn add(_: &T) {} }
impl<T: Ord> SortedMembers<T> for () { fn sorted_members() -> Vec<T> { vec![] } }
pub struct AsContains<T>(PhantomData<T>); impl<T: Ord + Eq, M: SortedMembers<T>> Contains<T> for AsContains<M> { fn contains(t: &T) -> bool { M::contains(t) } }
pub trait ContainsLengthBound { fn min_len() -> usize; fn max_len() -> usize; }

// accounts
pub trait OnNewAccount<A> { fn on_new_account(w: &A); } #[impl_for_tuples(30)] impl<A> OnNewAccount<A> for Tuple { fn on_new_account(w: &A) { for_tuples!( #( Tuple::on_new_account(w); )* ); } }
pub trait OnKilledAccount<A> { fn on_killed_account(w: &A); } #[impl_for_tuples(30)] impl<A> OnKilledAccount<A> for Tuple { fn on_killed_account(w: &A) { for_tuples!( #( Tuple::on_killed_account(w); )* ); } }
pub trait HandleLifetime<T> { fn created(_t: &T) -> Result<(), DispatchError> { Ok(()) } fn killed(_t: &T) -> Result<(), DispatchError> { Ok(()) } } impl<T> HandleLifetime<T> for () {}
pub trait StoredMap<K, T: Default> { fn get(k: &K) -> T; fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> { Self::mutate_exists(k, |m| match m { Some(x) => f(x), x @ None => { let mut d = T::default(); let r = f(&mut d); *x = Some(d); r } }) }
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> { Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) }) }
	fn insert(k: &K, t: T) -> Result<(), DispatchError> { Self::mutate(k, |i| *i = t) } fn remove(k: &K) -> Result<(), DispatchError> { Self::mutate_exists(k, |x| *x = None) } }
pub trait ExistenceCheck {}
pub trait FindAuthor<A> { fn find_author<'a, I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>>(d: I) -> Option<A>; } impl<A> FindAuthor<A> for () { fn find_author<'a, I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<A> { None } }
pub trait Randomness<O, B> { fn random(s: &[u8]) -> (O, B); fn random_seed() -> (O, B) { Self::random(&[]) } }
pub trait Time { type Moment: AtLeast32Bit + codec::FullCodec + Clone + Default + Copy + MaxEncodedLen + TypeInfo; fn now() -> Self::Moment; }
pub trait UnixTime { fn now() -> std::time::Duration; }
pub trait EstimateNextSessionRotation<B> {} pub trait ValidatorSet<A> {} pub trait OneSessionHandler<A> {}
pub trait Len { fn len(&self) -> usize; } impl<T: IntoIterator + Clone> Len for T where <T as IntoIterator>::IntoIter: ExactSizeIterator { fn len(&self) -> usize { self.clone().into_iter().len() } }
pub trait MapSuccessDummy {} pub trait TryCollect<C> { type Bound; fn try_collect(self) -> Result<C, ()>; }
pub trait ProcessMessage {} pub trait RewardsReporter<V> {} pub trait ChangeMembers<A> {} pub trait InitializeMembers<A> {}
pub trait LockIdentifierDummy {}
pub trait PalletsInfoAccess {} pub trait WhitelistedStorageKeys {}
pub trait OnSetCodeDummy {}
pub trait Backing {} pub trait WrapperOpaqueDummy {}

// defensive programming: a broken assumption panics in debug builds
thread_local! { static FIRES: std::cell::Cell<bool> = std::cell::Cell::new(true); static SEEN: std::cell::Cell<u64> = std::cell::Cell::new(0); }
pub fn defensive_fires() -> bool { SEEN.with(|s| s.set(s.get() + 1)); FIRES.with(|f| f.get()) }
pub fn defensive_seen() -> u64 { SEEN.with(|s| s.get()) }
pub fn set_defensive_fires(b: bool) { FIRES.with(|f| f.set(b)) }
fn fire(what: &dyn Debug) { if defensive_fires() { panic!("Defensive failure has been triggered!: {:?}", what) } }
pub trait Defensive<T> { fn defensive_unwrap_or(self, o: T) -> T; fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T; fn defensive_unwrap_or_default(self) -> T where T: Default; fn defensive(self) -> Self; fn defensive_proof(self, p: &'static str) -> Self; }
impl<T> Defensive<T> for Option<T> { fn defensive_unwrap_or(self, o: T) -> T { self.defensive().unwrap_or(o) } fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.defensive().unwrap_or_else(f) } fn defensive_unwrap_or_default(self) -> T where T: Default { self.defensive().unwrap_or_default() } fn defensive(self) -> Self { if self.is_none() { fire(&"None") } self } fn defensive_proof(self, p: &'static str) -> Self { if self.is_none() { fire(&p) } self } }
impl<T, E: Debug> Defensive<T> for Result<T, E> { fn defensive_unwrap_or(self, o: T) -> T { self.defensive().unwrap_or(o) } fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { match self.defensive() { Ok(x) => x, Err(_) => f() } } fn defensive_unwrap_or_default(self) -> T where T: Default { self.defensive().unwrap_or_default() } fn defensive(self) -> Self { if let Err(e) = &self { fire(e) } self } fn defensive_proof(self, p: &'static str) -> Self { if self.is_err() { fire(&p) } self } }
pub trait DefensiveOption<T> { fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U; fn defensive_ok_or_else<E: Debug, F: FnOnce() -> E>(self, e: F) -> Result<T, E>; fn defensive_ok_or<E>(self, e: E) -> Result<T, E>; fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>; }
impl<T> DefensiveOption<T> for Option<T> { fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U { self.defensive().map_or_else(d, f) } fn defensive_ok_or_else<E: Debug, F: FnOnce() -> E>(self, e: F) -> Result<T, E> { self.ok_or_else(|| { let x = e(); fire(&x); x }) } fn defensive_ok_or<E>(self, e: E) -> Result<T, E> { self.ok_or_else(|| { fire(&"None"); e }) } fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> { self.defensive().map(f) } }
pub trait DefensiveResult<T, E> { fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>; fn defensive_ok(self) -> Option<T>; }
impl<T, E: Debug> DefensiveResult<T, E> for Result<T, E> { fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> { self.map_err(|e| { fire(&e); o(e) }) } fn defensive_ok(self) -> Option<T> { self.defensive().ok() } }
pub trait DefensiveSaturating { fn defensive_saturating_add(self, o: Self) -> Self; fn defensive_saturating_sub(self, o: Self) -> Self; fn defensive_saturating_mul(self, o: Self) -> Self; fn defensive_saturating_accrue(&mut self, o: Self); fn defensive_saturating_reduce(&mut self, o: Self); }
impl<T: Saturating + sp_runtime::traits::CheckedAdd + sp_runtime::traits::CheckedMul + sp_runtime::traits::CheckedSub + sp_runtime::traits::One + Copy> DefensiveSaturating for T { fn defensive_saturating_add(self, o: Self) -> Self { self.checked_add(&o).defensive_unwrap_or_else(|| Saturating::saturating_add(self, o)) } fn defensive_saturating_sub(self, o: Self) -> Self { self.checked_sub(&o).defensive_unwrap_or_else(|| Saturating::saturating_sub(self, o)) } fn defensive_saturating_mul(self, o: Self) -> Self { self.checked_mul(&o).defensive_unwrap_or_else(|| Saturating::saturating_mul(self, o)) } fn defensive_saturating_accrue(&mut self, o: Self) { *self = (*self).defensive_saturating_add(o) } fn defensive_saturating_reduce(&mut self, o: Self) { *self = (*self).defensive_saturating_sub(o) } }
pub mod defensive_prelude { pub use super::{Defensive, DefensiveOption, DefensiveResult, DefensiveSaturating}; }
#[doc(hidden)] pub fn _unused<T: Codec + EncodeLike + FullCodec>(_: T) -> DispatchResult { Ok(()) }

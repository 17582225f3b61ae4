//! Stand-in for `frame-support`: the storage, dispatch and trait surface the pallets are written against.
extern crate self as frame_support;
pub use frame_support_procedural::{
	construct_runtime, derive_impl, pallet, require_transactional, storage_alias, transactional, CloneNoBound, CopyNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound,
};
pub use sp_core;
pub use sp_io;
pub use sp_runtime;
pub use sp_runtime::{bounded_vec, print, ConsensusEngineId, RuntimeDebug as _RD};
pub use sp_core::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use sp_core::{Void};
pub use sp_std;
#[doc(hidden)]
pub mod __private { pub use codec; pub use scale_info; pub use sp_core; pub use sp_io; pub use sp_runtime; pub use sp_std; pub use log; pub use serde; pub use sp_tracing as tracing; }
#[macro_use]
mod macros;
pub mod dispatch;
pub mod hash;
pub mod storage;
#[macro_use]
pub mod traits;
pub mod weights;
pub mod migrations { 
	pub struct RemovePallet<P, D>(core::marker::PhantomData<(P, D)>);
	impl<P: crate::traits::Get<&'static str>, D> crate::traits::OnRuntimeUpgrade for RemovePallet<P, D> { fn on_runtime_upgrade() -> crate::weights::Weight { sp_io::storage::clear_prefix(&sp_io::hashing::twox_128(P::get().as_bytes()), None); crate::weights::Weight::zero() } }
}
pub use storage::migration as _migration;
pub mod migration { pub use crate::storage::migration::*; }
pub mod error { pub use sp_runtime::traits::{BadOrigin, LookupError}; }
pub mod unsigned { pub use sp_runtime::traits::ValidateUnsigned; pub use sp_runtime::transaction_validity::*; }
pub use hash::*;
pub use storage::{types::*, StorageDoubleMap, StorageMap, StorageNMap, StoragePrefixedMap, StorageValue, IterableStorageMap, IterableStorageDoubleMap};
pub use dispatch::Parameter;
pub use codec;
pub mod genesis_builder_helper {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, Hash, scale_info::TypeInfo)]
pub enum Never {}
#[derive(codec::Encode, codec::Decode, scale_info::TypeInfo)]
#[codec(encode_bound())] #[codec(decode_bound())]
#[scale_info(skip_type_params(P))]
pub struct NoEvent<P>(core::marker::PhantomData<P>, Never);
impl<P> Clone for NoEvent<P> { fn clone(&self) -> Self { match self.1 {} } }
impl<P> PartialEq for NoEvent<P> { fn eq(&self, _: &Self) -> bool { true } }
impl<P> Eq for NoEvent<P> {}
impl<P> core::fmt::Debug for NoEvent<P> { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
/// `X`, whatever the implementor
pub trait Always<X> { type Out; } impl<T: ?Sized, X> Always<X> for T { type Out = X; }
pub trait PalletParts { type Event; type Call; }
pub fn trivial_type_info(name: &'static str) -> scale_info::Type { scale_info::Type::builder().path(scale_info::Path::new(name, "runtime")).composite(scale_info::build::Fields::unit()) }
#[macro_export]
macro_rules! uninhabited_reason { ($n:ident) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, $crate::__private::codec::Encode, $crate::__private::codec::Decode, $crate::__private::codec::MaxEncodedLen, $crate::__private::scale_info::TypeInfo)]
	#[codec(crate = $crate::__private::codec)] #[scale_info(crate = $crate::__private::scale_info)]
	pub enum $n {}
	impl $crate::traits::VariantCount for $n { const VARIANT_COUNT: u32 = 0; }
}; }
#[derive(Clone, Copy, Eq, PartialEq, codec::Encode, codec::Decode, Debug, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::TypeId for PalletId { const TYPE_ID: [u8; 4] = *b"modl"; }
pub mod pallet_macros { pub use crate::traits::*; }
pub mod pallet_prelude {
	pub use crate::{
		dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays},
		ensure,
		hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat},
		storage::{bounded_vec::BoundedVec, types::{CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery}},
		traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, Task, TypedGet},
		weights::Weight, storage, transactional,
		CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound, DefaultNoBound, RuntimeDebug,
	};
	pub use codec::{Decode, Encode, MaxEncodedLen};
	pub use core::marker::PhantomData;
	pub use scale_info::TypeInfo;
	pub use sp_runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use sp_runtime::transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction};
	pub use crate::sp_runtime::traits::CheckedAdd as _;
}

/// the instance markers of instantiable pallets
pub mod instances {
	macro_rules! inst { ($($n:ident)*) => { $( #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)] pub struct $n; )* } }
	inst!(Instance1 Instance2 Instance3 Instance4 Instance5 Instance6 Instance7 Instance8);
}

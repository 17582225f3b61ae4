//! Stand-in for `sp-runtime`.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use codec;
pub use scale_info;
pub use serde;
pub use sp_std;
#[doc(hidden)] pub use serde as __serde;
pub use sp_arithmetic::{self, *};
pub use sp_arithmetic::traits::SaturatedConversion;
pub use sp_arithmetic::helpers_128bit;
pub use sp_arithmetic::biguint;
pub use sp_core::{bounded, bounded_vec, bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec}, crypto::{self, AccountId32, KeyTypeId}, RuntimeDebug};
pub use sp_core::hashing;
pub use sp_io::{Storage, StateVersion};
pub mod generic;
pub mod offchain;
pub mod testing;
#[macro_use]
pub mod traits;
pub mod transaction_validity;
pub use traits::{Saturating, TypeId};
pub mod curve {}
pub use helpers::*;
mod helpers {
	pub fn print(_: impl crate::traits::Printable) {}
}
pub type RuntimeString = std::borrow::Cow<'static, str>;
pub type Justification = ([u8; 4], Vec<u8>);
pub type ConsensusEngineId = [u8; 4];
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type TryRuntimeError = DispatchError;

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct ModuleError { pub index: u8, pub error: [u8; 4], #[codec(skip)] #[serde(skip_deserializing)] pub message: Option<&'static str> }
impl PartialEq for ModuleError { fn eq(&self, o: &Self) -> bool { self.index == o.index && self.error == o.error } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TransactionalError { LimitReached, NoLayer }
impl From<TransactionalError> for &'static str { fn from(e: TransactionalError) -> &'static str { match e { TransactionalError::LimitReached => "Too many transactional layers have been spawned", TransactionalError::NoLayer => "A transactional layer was expected, but does not exist" } } }
impl From<TransactionalError> for DispatchError { fn from(e: TransactionalError) -> Self { Self::Transactional(e) } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TokenError { FundsUnavailable, OnlyProvider, BelowMinimum, CannotCreate, UnknownAsset, Frozen, Unsupported, CannotCreateHold, NotExpendable, Blocked }
impl From<TokenError> for &'static str { fn from(_: TokenError) -> &'static str { "token error" } }
impl From<TokenError> for DispatchError { fn from(e: TokenError) -> Self { Self::Token(e) } }
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, PartialEq, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum DispatchError {
	Other(#[codec(skip)] #[serde(skip_deserializing)] &'static str), CannotLookup, BadOrigin, Module(ModuleError), ConsumerRemaining, NoProviders, TooManyConsumers,
	Token(TokenError), Arithmetic(ArithmeticError), Transactional(TransactionalError), Exhausted, Corruption, Unavailable, RootNotAllowed,
}
impl DispatchError { pub fn stripped(self) -> Self { match self { DispatchError::Module(ModuleError { index, error, message: Some(_) }) => DispatchError::Module(ModuleError { index, error, message: None }), m => m } } }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { Self::Arithmetic(e) } }
impl From<&'static str> for DispatchError { fn from(e: &'static str) -> Self { Self::Other(e) } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { Self::BadOrigin } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { Self::CannotLookup } }
impl From<DispatchError> for &'static str { fn from(e: DispatchError) -> &'static str { match e { DispatchError::Other(m) => m, DispatchError::Module(m) => m.message.unwrap_or("Unknown module error"), DispatchError::CannotLookup => "Cannot lookup", DispatchError::BadOrigin => "Bad origin", _ => "error" } } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> { pub post_info: Info, pub error: DispatchError }
impl<T, E> From<E> for DispatchErrorWithPostInfo<T> where T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default, E: Into<DispatchError> { fn from(e: E) -> Self { Self { post_info: Default::default(), error: e.into() } } }

pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> { let mut s = Default::default(); self.assimilate_storage(&mut s)?; Ok(s) }
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>;
}
impl BuildStorage for () { fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> { Err("not possible".into()) } }

#[derive(Eq, PartialEq, Clone, Encode, Decode, MaxEncodedLen, Debug, TypeInfo)]
pub enum MultiSignature { Sr25519([u8; 64]) }
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiSigner { Sr25519([u8; 32]) }
impl traits::IdentifyAccount for MultiSigner { type AccountId = AccountId32; fn into_account(self) -> AccountId32 { match self { MultiSigner::Sr25519(x) => x.into() } } }
impl traits::Verify for MultiSignature { type Signer = MultiSigner; fn verify<L: traits::Lazy<[u8]>>(&self, _: L, _: &AccountId32) -> bool { unimplemented!("no signature scheme here") } }
#[derive(Eq, PartialEq, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex> { Id(AccountId), Index(#[codec(compact)] AccountIndex), Raw(Vec<u8>), Address32([u8; 32]), Address20([u8; 20]) }
#[derive(PartialEq, Eq, Clone, Default, Encode, Decode, TypeInfo)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
impl std::fmt::Debug for OpaqueExtrinsic { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("OpaqueExtrinsic") } }
impl traits::Extrinsic for OpaqueExtrinsic { type Call = (); type SignaturePayload = (); }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TransactionOutcome<R> { Commit(R), Rollback(R) }
impl<R> TransactionOutcome<R> { pub fn into_inner(self) -> R { match self { Self::Commit(r) | Self::Rollback(r) => r } } }
#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)] pub enum ExtrinsicInclusionMode { AllExtrinsics, OnlyInherents }
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, Default)] pub struct Digest { pub logs: Vec<DigestItem> }
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)] pub enum DigestItem { Consensus(ConsensusEngineId, Vec<u8>), Other(Vec<u8>) }
#[macro_export]
macro_rules! assert_eq_error_rate { ($x:expr, $y:expr, $e:expr $(,)?) => { assert!(($x >= $crate::Saturating::saturating_sub($y, $e)) && ($x <= $crate::Saturating::saturating_add($y, $e)), "{:?} != {:?} (with error rate {:?})", $x, $y, $e) }; }
pub enum Either<L, R> { Left(L), Right(R) }

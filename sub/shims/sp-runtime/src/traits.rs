use crate::transaction_validity::*;
use crate::{Digest, DispatchResult};
use codec::{Codec, Decode, Encode, FullCodec, Input, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_arithmetic::traits::*;
pub use sp_core::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet, RuntimeDebug};
use sp_core::{H256, U256};
use std::fmt::{Debug, Display};
use std::marker::PhantomData;

pub trait MaybeDisplay: Display {} impl<T: Display> MaybeDisplay for T {}
pub trait MaybeFromStr: std::str::FromStr {} impl<T: std::str::FromStr> MaybeFromStr for T {}
pub trait MaybeHash: std::hash::Hash {} impl<T: std::hash::Hash> MaybeHash for T {}
pub trait MaybeSerialize: serde::Serialize {} impl<T: serde::Serialize> MaybeSerialize for T {}
pub trait MaybeSerializeDeserialize: serde::de::DeserializeOwned + serde::Serialize {} impl<T: serde::de::DeserializeOwned + serde::Serialize> MaybeSerializeDeserialize for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {} impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait IsMember<M> { fn is_member(m: &M) -> bool; }
pub trait Printable { fn print(&self); }
impl<T: ?Sized> Printable for T { fn print(&self) {} }

#[derive(Debug, PartialEq, Eq, Clone, Copy, Encode, Decode, TypeInfo)] pub struct BadOrigin;
impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> &'static str { "Bad origin" } }
#[derive(Debug, PartialEq, Eq, Clone, Copy, Encode, Decode, TypeInfo)] pub struct LookupError;
impl From<LookupError> for &'static str { fn from(_: LookupError) -> &'static str { "Can not lookup" } }
impl From<LookupError> for TransactionValidityError { fn from(_: LookupError) -> Self { UnknownTransaction::CannotLookup.into() } }
pub trait Lookup { type Source; type Target; fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>; }
pub trait StaticLookup { type Source: Codec + Clone + PartialEq + Debug + TypeInfo; type Target; fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>; fn unlookup(t: Self::Target) -> Self::Source; }
pub struct IdentityLookup<T>(PhantomData<T>); impl<T> Default for IdentityLookup<T> { fn default() -> Self { Self(PhantomData) } }
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo> StaticLookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(x: T) -> Result<T, LookupError> { Ok(x) } fn unlookup(x: T) -> T { x } }
impl<T> Lookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(&self, x: T) -> Result<T, LookupError> { Ok(x) } }

pub trait Convert<A, B> { fn convert(a: A) -> B; }
impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
pub trait MaybeConvert<A, B> { fn maybe_convert(a: A) -> Option<B>; }
pub trait TryConvert<A, B> { fn try_convert(a: A) -> Result<B, A>; }
pub trait ConvertBack<A, B>: Convert<A, B> { fn convert_back(b: B) -> A; }
pub struct Identity;
impl<T> Convert<T, T> for Identity { fn convert(a: T) -> T { a } }
impl<T> ConvertBack<T, T> for Identity { fn convert_back(a: T) -> T { a } }
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }

pub trait Hash: 'static + MaybeSerializeDeserialize + Debug + Clone + Eq + PartialEq + sp_core::Hasher<Out = <Self as Hash>::Output> {
	type Output: HashOutput;
	fn hash(s: &[u8]) -> Self::Output { <Self as sp_core::Hasher>::hash(s) }
	fn hash_of<S: Encode>(s: &S) -> Self::Output { Encode::using_encoded(s, <Self as sp_core::Hasher>::hash) }
}
pub trait HashOutput: Member + MaybeSerializeDeserialize + MaybeDisplay + Debug + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Encode + Decode + codec::EncodeLike + MaxEncodedLen + TypeInfo {}
impl<T> HashOutput for T where T: Member + MaybeSerializeDeserialize + MaybeDisplay + Debug + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Encode + Decode + codec::EncodeLike + MaxEncodedLen + TypeInfo {}
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, serde::Serialize, serde::Deserialize)] pub struct BlakeTwo256;
impl sp_core::Hasher for BlakeTwo256 { type Out = H256; const LENGTH: usize = 32; fn hash(x: &[u8]) -> H256 { sp_core::blake2_256(x).into() } }
impl Hash for BlakeTwo256 { type Output = H256; }
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, serde::Serialize, serde::Deserialize)] pub struct Keccak256;
impl sp_core::Hasher for Keccak256 { type Out = H256; const LENGTH: usize = 32; fn hash(x: &[u8]) -> H256 { sp_core::keccak_256(x).into() } }
impl Hash for Keccak256 { type Output = H256; }

pub trait HeaderNumber: Member + MaybeSerializeDeserialize + MaybeFromStr + std::hash::Hash + Display + AtLeast32BitUnsigned + FullCodec + Copy + MaxEncodedLen + TypeInfo + Default + Into<U256> + TryFrom<U256> {}
impl<T> HeaderNumber for T where T: Member + MaybeSerializeDeserialize + MaybeFromStr + std::hash::Hash + Display + AtLeast32BitUnsigned + FullCodec + Copy + MaxEncodedLen + TypeInfo + Default + Into<U256> + TryFrom<U256> {}
pub trait BlockNumber: HeaderNumber {} impl<T: HeaderNumber> BlockNumber for T {}
pub trait Header: Clone + Send + Sync + Eq + Debug + 'static {
	type Number: HeaderNumber; type Hash: HashOutput; type Hashing: Hash<Output = Self::Hash>;
	fn new(number: Self::Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: Digest) -> Self;
	fn number(&self) -> &Self::Number;
}
pub trait HeaderProvider { type HeaderT: Header; }
pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Eq + Debug + 'static { type Extrinsic; type Header: Header<Hash = Self::Hash>; type Hash: HashOutput; fn header(&self) -> &Self::Header; fn extrinsics(&self) -> &[Self::Extrinsic]; fn deconstruct(self) -> (Self::Header, Vec<Self::Extrinsic>); }
pub trait Extrinsic: Sized { type Call; type SignaturePayload; fn is_signed(&self) -> Option<bool> { None } fn new(_: Self::Call, _: Option<Self::SignaturePayload>) -> Option<Self> { None } }
pub type HashingFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Hashing;
pub type NumberFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Number;

pub trait Lazy<T: ?Sized> { fn get(&mut self) -> &T; }
impl<'a> Lazy<[u8]> for &'a [u8] { fn get(&mut self) -> &[u8] { self } }
pub trait IdentifyAccount { type AccountId; fn into_account(self) -> Self::AccountId; }
pub trait Verify { type Signer: IdentifyAccount; fn verify<L: Lazy<[u8]>>(&self, m: L, s: &<Self::Signer as IdentifyAccount>::AccountId) -> bool; }

pub trait BlockNumberProvider { type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + Debug + MaxEncodedLen + Copy; fn current_block_number() -> Self::BlockNumber; fn set_block_number(_: Self::BlockNumber) {} }
impl BlockNumberProvider for () { type BlockNumber = u32; fn current_block_number() -> u32 { 0 } }

pub trait Dispatchable { type RuntimeOrigin: Debug; type Config; type Info; type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable; fn dispatch(self, o: Self::RuntimeOrigin) -> crate::DispatchResultWithInfo<Self::PostInfo>; }
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
impl Dispatchable for () { type RuntimeOrigin = (); type Config = (); type Info = (); type PostInfo = (); fn dispatch(self, _: ()) -> crate::DispatchResultWithInfo<()> { unimplemented!() } }
pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq {
	const IDENTIFIER: &'static str; type AccountId; type Call: Dispatchable; type AdditionalSigned: Encode + TypeInfo; type Pre;
	fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
	fn validate(&self, _w: &Self::AccountId, _c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
	fn pre_dispatch(self, w: &Self::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<Self::Pre, TransactionValidityError>;
	fn validate_unsigned(_c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
	fn pre_dispatch_unsigned(c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> { Self::validate_unsigned(c, i, l).map(|_| ()) }
	fn post_dispatch(_p: Option<Self::Pre>, _i: &DispatchInfoOf<Self::Call>, _po: &PostDispatchInfoOf<Self::Call>, _l: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> { Ok(()) }
}
pub trait ValidateUnsigned { type Call; fn pre_dispatch(c: &Self::Call) -> Result<(), TransactionValidityError> { Self::validate_unsigned(TransactionSource::InBlock, c).map(|_| ()) } fn validate_unsigned(s: TransactionSource, c: &Self::Call) -> TransactionValidity; }

pub trait TypeId { const TYPE_ID: [u8; 4]; }
pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId { self.into_sub_account_truncating(&()) }
	fn try_into_account(&self) -> Option<AccountId> { self.try_into_sub_account(&()) }
	fn try_from_account(a: &AccountId) -> Option<Self> { Self::try_from_sub_account::<()>(a).map(|x| x.0) }
	fn into_sub_account_truncating<S: Encode>(&self, s: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, s: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(a: &AccountId) -> Option<(Self, S)>;
}
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> { pub fn new(d: &'a [u8]) -> Self { Self(d) } pub fn zeroes() -> Self { Self(&[]) } }
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> { Ok(None) }
	fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> { let n = into.len().min(self.0.len()); into[..n].copy_from_slice(&self.0[..n]); for b in into[n..].iter_mut() { *b = 0; } self.0 = &self.0[n..]; Ok(()) }
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, s: S) -> T { (Id::TYPE_ID, self, s).using_encoded(|b| T::decode(&mut TrailingZeroInput(b))).expect("all byte sequences are valid") }
	fn try_into_sub_account<S: Encode>(&self, s: S) -> Option<T> { let e = (Id::TYPE_ID, self, s).encode(); let t = T::decode(&mut TrailingZeroInput(&e)).ok()?; if t.encode().len() >= e.len() { Some(t) } else { None } }
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> { x.using_encoded(|d| { if d.len() < 4 || d[0..4] != Id::TYPE_ID { return None; } let mut c = &d[4..]; let r = Decode::decode(&mut c).ok()?; if c.iter().all(|x| *x == 0) { Some(r) } else { None } }) }
}
pub trait OpaqueKeys {}
pub trait ProofOf {}
#[doc(hidden)] pub fn _u<T: TryFrom<U256>>(_: T) {}
#[macro_export]
macro_rules! morph_types { ($($t:tt)*) => {}; }

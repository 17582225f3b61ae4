//! Consensus messages reduced to the data types the repository's own code inspects. No executor, no routing.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)] pub enum OriginKind { Native, SovereignAccount, Superuser, Xcm }
#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo)] #[codec(encode_bound())] #[codec(decode_bound())] #[scale_info(bounds(), skip_type_params(C))]
pub struct DoubleEncoded<C> { pub encoded: Vec<u8>, #[codec(skip)] pub of: std::marker::PhantomData<fn() -> C> }
impl<C> std::fmt::Debug for DoubleEncoded<C> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.encoded.fmt(f) } }
impl<C> From<Vec<u8>> for DoubleEncoded<C> { fn from(encoded: Vec<u8>) -> Self { Self { encoded, of: Default::default() } } }
macro_rules! copyables { ($($t:item)*) => { $( #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)] $t )* } }
macro_rules! clonables { ($($t:item)*) => { $( #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)] $t )* } }
macro_rules! plain { ($($t:item)*) => { $( #[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)] $t )* } }
macro_rules! by_encoding { ($t:ident) => {
	impl<C> Clone for $t<C> { fn clone(&self) -> Self { Self::decode(&mut &self.encode()[..]).expect("own encoding") } }
	impl<C> PartialEq for $t<C> { fn eq(&self, o: &Self) -> bool { self.encode() == o.encode() } }
	impl<C> Eq for $t<C> {}
	impl<C> std::fmt::Debug for $t<C> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({:02x?})", stringify!($t), self.encode()) } }
} }
pub type Weight = frame_support::weights::Weight;
pub type XcmHash = [u8; 32];
pub mod common {
	use super::*;
	copyables! {
		pub enum NetworkId { ByGenesis([u8; 32]), Polkadot, Kusama, Westend, Rococo, Ethereum { chain_id: u64 } }
		pub enum BodyId { Unit, Index(#[codec(compact)] u32), Executive, Technical, Legislative, Judicial, Defense, Administration, Treasury }
		pub enum BodyPart { Voice, Members { count: u32 } }
		pub enum AssetInstance { Undefined, Index(#[codec(compact)] u128), Array4([u8; 4]), Array8([u8; 8]), Array16([u8; 16]), Array32([u8; 32]) }
		pub enum Fungibility { Fungible(#[codec(compact)] u128), NonFungible(AssetInstance) }
		pub enum Junction {
			Parachain(#[codec(compact)] u32), AccountId32 { network: Option<NetworkId>, id: [u8; 32] }, AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 }, AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
			PalletInstance(u8), GeneralIndex(#[codec(compact)] u128), GeneralKey { length: u8, data: [u8; 32] }, OnlyChild, Plurality { id: BodyId, part: BodyPart }, GlobalConsensus(NetworkId),
		}
	}
	impl From<u128> for Junction { fn from(x: u128) -> Self { Junction::GeneralIndex(x) } }
	impl From<sp_runtime::BoundedVec<u8, sp_core::ConstU32<32>>> for Junction { fn from(k: sp_runtime::BoundedVec<u8, sp_core::ConstU32<32>>) -> Self { let mut data = [0; 32]; let n = k.len().min(32); data[..n].copy_from_slice(&k[..n]); Junction::GeneralKey { length: n as u8, data } } }
	impl From<u128> for Fungibility { fn from(x: u128) -> Self { assert_ne!(x, 0); Fungibility::Fungible(x) } }
	impl<T: Into<AssetInstance>> From<T> for Fungibility { fn from(x: T) -> Self { Fungibility::NonFungible(x.into()) } }
}
macro_rules! version {
	($loc:ident, $asset:ident, $assets:ident, $assetid:ident, $filter:ident, $wild:ident, [$($aid:tt)*]) => {
		use super::*;
		pub use super::common::*;
		pub use super::common::{AssetInstance::*, Fungibility::*, Junction::*};
		pub use frame_support::weights::Weight;
		plain! {
			pub enum $filter { Definite($assets), Wild($wild) }
			pub enum $wild { All, AllOf { id: $assetid, fun: WildFungibility }, AllCounted(#[codec(compact)] u32), AllOfCounted { id: $assetid, fun: WildFungibility, #[codec(compact)] count: u32 } }
			pub enum WildFungibility { Fungible, NonFungible }
			pub enum WeightLimit { Unlimited, Limited(Weight) }
		}
		clonables! { pub struct $asset { pub id: $assetid, pub fun: Fungibility } }
		#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo, Default)] pub struct $assets(Vec<$asset>);
		impl $assets {
			pub fn new() -> Self { Self(vec![]) } pub fn inner(&self) -> &Vec<$asset> { &self.0 } pub fn into_inner(self) -> Vec<$asset> { self.0 } pub fn len(&self) -> usize { self.0.len() } pub fn is_none(&self) -> bool { self.0.is_empty() } pub fn get(&self, i: usize) -> Option<&$asset> { self.0.get(i) }
			pub fn from_sorted_and_deduplicated(v: Vec<$asset>) -> Result<Self, ()> { if v.windows(2).all(|w| w[0] < w[1]) { Ok(Self(v)) } else { Err(()) } }
			pub fn push(&mut self, a: $asset) { self.0.push(a); self.0.sort(); }
		}
		impl From<Vec<$asset>> for $assets { fn from(mut v: Vec<$asset>) -> Self { v.sort(); Self(v) } }
		impl<T: Into<$asset>> From<T> for $assets { fn from(x: T) -> Self { Self(vec![x.into()]) } }
		impl<T: Into<$assets>> From<T> for $filter { fn from(x: T) -> Self { $filter::Definite(x.into()) } }
		impl $asset { pub fn is_fungible(&self, id: Option<$assetid>) -> bool { matches!(self.fun, Fungibility::Fungible(_)) && id.map_or(true, |x| x == self.id) } pub fn is_non_fungible(&self, id: Option<$assetid>) -> bool { matches!(self.fun, Fungibility::NonFungible(_)) && id.map_or(true, |x| x == self.id) } }
		impl<A: Into<$assetid>, B: Into<Fungibility>> From<(A, B)> for $asset { fn from((a, b): (A, B)) -> Self { $asset { id: a.into(), fun: b.into() } } }
		pub use self::{$filter::*, $wild::*, WeightLimit::*};
		impl $loc { pub const fn here() -> Self { Self { parents: 0, interior: Junctions::Here } } pub const fn parent() -> Self { Self { parents: 1, interior: Junctions::Here } } pub fn new(parents: u8, i: impl Into<Junctions>) -> Self { Self { parents, interior: i.into() } } pub fn is_here(&self) -> bool { self == &Self::here() } }
		impl Default for $loc { fn default() -> Self { Self::here() } }
		impl From<Junction> for $loc { fn from(j: Junction) -> Self { Self { parents: 0, interior: j.into() } } }
		impl From<Junctions> for $loc { fn from(j: Junctions) -> Self { Self { parents: 0, interior: j } } }
		#[derive(Encode, Decode, TypeInfo)] #[codec(encode_bound())] #[codec(decode_bound())] #[scale_info(bounds(), skip_type_params(C))]
		pub struct Xcm<C>(pub Vec<Instruction<C>>);
		impl<C> Xcm<C> { pub fn new() -> Self { Xcm(vec![]) } pub fn inner(&self) -> &[Instruction<C>] { &self.0 } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn len(&self) -> usize { self.0.len() } pub fn first(&self) -> Option<&Instruction<C>> { self.0.first() } pub fn iter(&self) -> std::slice::Iter<'_, Instruction<C>> { self.0.iter() } pub fn into<D>(self) -> Xcm<D> { Xcm(self.0.into_iter().map(|i| i.cast()).collect()) } }
		#[derive(Encode, Decode, TypeInfo)] #[codec(encode_bound())] #[codec(decode_bound())] #[scale_info(bounds(), skip_type_params(C))]
		pub enum Instruction<C> {
			WithdrawAsset($assets), ReserveAssetDeposited($assets), ReceiveTeleportedAsset($assets),
			QueryResponse { #[codec(compact)] query_id: u64, querier: Option<$loc> },
			TransferAsset { assets: $assets, beneficiary: $loc },
			TransferReserveAsset { assets: $assets, dest: $loc, xcm: Xcm<()> },
			Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<C> },
			HrmpNewChannelOpenRequest { #[codec(compact)] sender: u32, #[codec(compact)] max_message_size: u32, #[codec(compact)] max_capacity: u32 }, HrmpChannelAccepted { #[codec(compact)] recipient: u32 }, HrmpChannelClosing { #[codec(compact)] initiator: u32, #[codec(compact)] sender: u32, #[codec(compact)] recipient: u32 },
			ClearOrigin, DescendOrigin(Junctions), ReportError(QueryResponseInfo),
			DepositAsset { assets: $filter, beneficiary: $loc },
			DepositReserveAsset { assets: $filter, dest: $loc, xcm: Xcm<()> },
			ExchangeAsset { give: $filter, want: $assets, maximal: bool },
			InitiateReserveWithdraw { assets: $filter, reserve: $loc, xcm: Xcm<()> },
			InitiateTeleport { assets: $filter, dest: $loc, xcm: Xcm<()> },
			ReportHolding { response_info: QueryResponseInfo, assets: $filter },
			BuyExecution { fees: $asset, weight_limit: WeightLimit },
			RefundSurplus, SetErrorHandler(Xcm<C>), SetAppendix(Xcm<C>), ClearError, ClaimAsset { assets: $assets, ticket: $loc }, Trap(#[codec(compact)] u64),
			SubscribeVersion { #[codec(compact)] query_id: u64, max_response_weight: Weight }, UnsubscribeVersion,
			BurnAsset($assets), ExpectAsset($assets), ExpectOrigin(Option<$loc>), ExpectError(Option<u32>), ExpectTransactStatus(Vec<u8>), QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
			ExpectPallet { #[codec(compact)] index: u32, name: Vec<u8> }, ReportTransactStatus(QueryResponseInfo), ClearTransactStatus, UniversalOrigin(Junction),
			ExportMessage { network: NetworkId, destination: Junctions, xcm: Xcm<()> }, LockAsset { asset: $asset, unlocker: $loc }, UnlockAsset { asset: $asset, target: $loc }, NoteUnlockable { asset: $asset, owner: $loc }, RequestUnlock { asset: $asset, locker: $loc },
			SetFeesMode { jit_withdraw: bool }, SetTopic([u8; 32]), ClearTopic, AliasOrigin($loc), UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<$loc> },
		}
		plain! { pub struct QueryResponseInfo { pub destination: $loc, pub query_id: u64, pub max_weight: Weight } }
		by_encoding!(Xcm); by_encoding!(Instruction);
		impl<C> Instruction<C> { fn cast<D>(self) -> Instruction<D> { Instruction::<D>::decode(&mut &self.encode()[..]).expect("the call parameter is not part of the encoding") } }
		pub use self::Instruction::*;
		pub mod prelude { pub use super::*; pub use super::super::{OriginKind, VersionedXcm, XcmHash, XcmContext, XcmError, XcmResult, IntoVersion}; pub use super::Junctions::*; }
	};
}
macro_rules! old_version { () => {
	version!(MultiLocation, MultiAsset, MultiAssets, AssetId, MultiAssetFilter, WildMultiAsset, []);
	copyables! { pub struct MultiLocation { pub parents: u8, pub interior: Junctions } pub enum AssetId { Concrete(MultiLocation), Abstract([u8; 32]) } pub enum Junctions { Here, X1(Junction), X2(Junction, Junction), X3(Junction, Junction, Junction), X4(Junction, Junction, Junction, Junction) } }
	impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Junctions::X1(j) } }
	impl<T: Into<MultiLocation>> From<T> for AssetId { fn from(x: T) -> Self { AssetId::Concrete(x.into()) } }
	pub use self::AssetId::{Abstract, Concrete};
}; }
pub mod v2 { old_version!(); }
pub mod v3 { old_version!(); }
pub mod v4 {
	version!(Location, Asset, Assets, AssetId, AssetFilter, WildAsset, []);
	use std::sync::Arc;
	clonables! { pub struct Location { pub parents: u8, pub interior: Junctions } pub struct AssetId(pub Location); }
	#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo)] pub enum Junctions { Here, X1(Arc<[Junction; 1]>), X2(Arc<[Junction; 2]>), X3(Arc<[Junction; 3]>), X4(Arc<[Junction; 4]>) }
	impl MaxEncodedLen for Junctions { fn max_encoded_len() -> usize { 1 + 4 * Junction::max_encoded_len() } }
	impl serde::Serialize for Junctions { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.encode().serialize(s) } }
	impl<'de> serde::Deserialize<'de> for Junctions { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = Vec::<u8>::deserialize(d)?; Self::decode(&mut &v[..]).map_err(serde::de::Error::custom) } }
	impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Junctions::X1(Arc::new([j])) } }
	impl From<[Junction; 1]> for Junctions { fn from(j: [Junction; 1]) -> Self { Junctions::X1(Arc::new(j)) } }
	impl From<[Junction; 2]> for Junctions { fn from(j: [Junction; 2]) -> Self { Junctions::X2(Arc::new(j)) } }
	impl<T: Into<Location>> From<T> for AssetId { fn from(x: T) -> Self { AssetId(x.into()) } }
}
pub mod latest { pub use super::v4::*; pub use super::v4::prelude; }
pub mod lts { pub use super::v3::*; pub use super::v3::prelude; }
pub mod prelude { pub use super::v4::prelude::*; }
#[derive(Encode, Decode, TypeInfo)] #[codec(encode_bound())] #[codec(decode_bound())] #[scale_info(bounds(), skip_type_params(C))]
pub enum VersionedXcm<C> { #[codec(index = 2)] V2(v2::Xcm<C>), #[codec(index = 3)] V3(v3::Xcm<C>), #[codec(index = 4)] V4(v4::Xcm<C>) }
by_encoding!(VersionedXcm);
impl<C> From<v2::Xcm<C>> for VersionedXcm<C> { fn from(x: v2::Xcm<C>) -> Self { VersionedXcm::V2(x) } }
impl<C> From<v3::Xcm<C>> for VersionedXcm<C> { fn from(x: v3::Xcm<C>) -> Self { VersionedXcm::V3(x) } }
impl<C> From<v4::Xcm<C>> for VersionedXcm<C> { fn from(x: v4::Xcm<C>) -> Self { VersionedXcm::V4(x) } }
pub trait IntoVersion: Sized { fn into_version(self, v: u32) -> Result<Self, ()>; }
impl<C> IntoVersion for VersionedXcm<C> {
	fn into_version(self, v: u32) -> Result<Self, ()> { Ok(match (self, v) { (VersionedXcm::V2(x), 3) => VersionedXcm::V3(v3::Xcm::decode(&mut &x.encode()[..]).map_err(|_| ())?), (VersionedXcm::V3(x), 2) => VersionedXcm::V2(v2::Xcm::decode(&mut &x.encode()[..]).map_err(|_| ())?), (VersionedXcm::V2(x), 2) => VersionedXcm::V2(x), (VersionedXcm::V3(x), 3) => VersionedXcm::V3(x), (VersionedXcm::V4(x), 4) => VersionedXcm::V4(x), _ => return Err(()) }) }
}
#[derive(Clone, PartialEq, Eq, Debug)] pub struct XcmContext { pub origin: Option<v4::Location>, pub message_id: XcmHash, pub topic: Option<[u8; 32]> }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum XcmError { Overflow, Unimplemented, AssetNotFound, FailedToTransactAsset(&'static str), TooExpensive, NotWithdrawable, NotHoldingFees, NoDeal, InvalidLocation, BadOrigin, Trap(u64) }
pub type XcmResult = Result<(), XcmError>;

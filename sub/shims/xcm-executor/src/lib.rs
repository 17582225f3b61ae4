//! The traits the repository implements and the holding register.
use std::collections::{BTreeMap, BTreeSet};
use xcm::v4::{Asset, AssetId, AssetInstance, Assets, Fungibility, Location};
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct AssetsInHolding { pub fungible: BTreeMap<AssetId, u128>, pub non_fungible: BTreeSet<(AssetId, AssetInstance)> }
impl AssetsInHolding {
	pub fn new() -> Self { Self::default() }
	pub fn len(&self) -> usize { self.fungible.len() + self.non_fungible.len() }
	pub fn is_empty(&self) -> bool { self.len() == 0 }
	pub fn fungible_assets_iter(&self) -> impl Iterator<Item = Asset> + '_ { self.fungible.iter().map(|(i, a)| Asset { id: i.clone(), fun: Fungibility::Fungible(*a) }) }
	pub fn assets_iter(&self) -> impl Iterator<Item = Asset> + '_ { self.fungible_assets_iter().chain(self.non_fungible.iter().map(|(i, n)| Asset { id: i.clone(), fun: Fungibility::NonFungible(*n) })) }
	pub fn into_assets_iter(self) -> impl Iterator<Item = Asset> { self.assets_iter().collect::<Vec<_>>().into_iter() }
	pub fn subsume(&mut self, a: Asset) { match a.fun { Fungibility::Fungible(x) => { let e = self.fungible.entry(a.id).or_default(); *e = e.saturating_add(x); } Fungibility::NonFungible(n) => { self.non_fungible.insert((a.id, n)); } } }
	/// removes exactly `a`, or gives everything back
	pub fn checked_sub(mut self, a: Asset) -> Result<Self, Self> { match a.fun { Fungibility::Fungible(x) => { let have = self.fungible.get(&a.id).copied(); match have { Some(h) if h > x => { self.fungible.insert(a.id, h - x); Ok(self) } Some(h) if h == x => { self.fungible.remove(&a.id); Ok(self) } _ => Err(self) } } Fungibility::NonFungible(n) => if self.non_fungible.remove(&(a.id, n)) { Ok(self) } else { Err(self) } } }
}
impl From<Asset> for AssetsInHolding { fn from(a: Asset) -> Self { let mut s = Self::new(); s.subsume(a); s } }
impl From<Vec<Asset>> for AssetsInHolding { fn from(v: Vec<Asset>) -> Self { let mut s = Self::new(); for a in v { s.subsume(a); } s } }
impl From<Assets> for AssetsInHolding { fn from(v: Assets) -> Self { v.into_inner().into() } }
impl From<AssetsInHolding> for Assets { fn from(h: AssetsInHolding) -> Assets { h.into_assets_iter().collect::<Vec<_>>().into() } }
pub mod traits {
	use super::*;
	use xcm::{Weight, XcmContext, XcmError};
	pub trait WeightTrader: Sized { fn new() -> Self; fn buy_weight(&mut self, w: Weight, p: AssetsInHolding, c: &XcmContext) -> Result<AssetsInHolding, XcmError>; fn refund_weight(&mut self, _w: Weight, _c: &XcmContext) -> Option<Asset> { None } }
	pub trait ConvertLocation<A> { fn convert_location(l: &Location) -> Option<A>; }
	pub trait MatchesFungible<B> { fn matches_fungible(a: &Asset) -> Option<B>; }
	pub trait TransactAsset {
		fn deposit_asset(_a: &Asset, _w: &Location, _c: Option<&XcmContext>) -> Result<(), XcmError> { Err(XcmError::Unimplemented) }
		fn withdraw_asset(_a: &Asset, _w: &Location, _c: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> { Err(XcmError::Unimplemented) }
		fn internal_transfer_asset(_a: &Asset, _f: &Location, _t: &Location, _c: &XcmContext) -> Result<AssetsInHolding, XcmError> { Err(XcmError::Unimplemented) }
		fn transfer_asset(a: &Asset, f: &Location, t: &Location, c: &XcmContext) -> Result<AssetsInHolding, XcmError> { Self::internal_transfer_asset(a, f, t, c) }
	}
	pub trait AssetExchange { fn exchange_asset(origin: Option<&Location>, give: AssetsInHolding, want: &Assets, maximal: bool) -> Result<AssetsInHolding, AssetsInHolding>; }
}

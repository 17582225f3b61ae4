use frame_support::pallet_prelude::{DispatchError, DispatchResult};
use xcm::{v4::{Asset, Location}, XcmError, XcmResult};
pub trait UnknownAsset { fn deposit(asset: &Asset, to: &Location) -> DispatchResult; fn withdraw(asset: &Asset, from: &Location) -> DispatchResult; }
impl UnknownAsset for () { fn deposit(_: &Asset, _: &Location) -> DispatchResult { Err(DispatchError::Other("NoUnknownAssetImpl")) } fn withdraw(_: &Asset, _: &Location) -> DispatchResult { Err(DispatchError::Other("NoUnknownAssetImpl")) } }
pub trait OnDepositFail<C, A, B> {
	fn on_deposit_unknown_asset_fail(err: DispatchError, _a: &Asset, _l: &Location) -> XcmResult { Err(XcmError::FailedToTransactAsset(err.into())) }
	fn on_deposit_currency_fail(err: DispatchError, _c: C, _w: &A, _b: B) -> XcmResult { Err(XcmError::FailedToTransactAsset(err.into())) }
}
impl<C, A, B> OnDepositFail<C, A, B> for () {}

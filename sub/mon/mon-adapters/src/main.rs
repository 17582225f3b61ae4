//! The runtime's adapters: XCM fees, exchanges, deposits and filters (C41); prices along routes and what pools report (C42).
use frame_support::storage::{with_transaction, TransactionOutcome};
use frame_support::weights::WeightToFee;
use hydradx_adapters::{inspect, price, xcm_exchange::XcmAssetExchanger, xcm_execute_filter::AllowTransferAndSwap, AssetFeeOraclePriceProvider, MultiCurrencyLockedBalance, MultiCurrencyTrader, OmnipoolHookAdapter, OracleAssetVolumeProvider, OraclePriceProvider, ReroutingMultiCurrencyAdapter, StableswapHooksAdapter, ToFeeReceiver, VestingInfo};
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::router::{AssetPair, ExecutorError, PoolType, RouteProvider, Trade, TradeExecution};
use hydradx_traits::{AccountFeeCurrency, AccountFeeCurrencyBalanceInCurrency, AggregatedOracle, AggregatedPriceOracle, LockedBalance, NativePriceOracle, OraclePeriod, PriceOracle, Source};
use mon_core::big::{w, U512};
use mon_frame::*;
use orml_xcm_support::{OnDepositFail, UnknownAsset};
use pallet_currencies::{fungibles::FungibleCurrencies, BasicCurrencyAdapter};
use pallet_ema_oracle::{OracleError, Price};
use polkadot_xcm::v4::{Asset, AssetFilter, AssetId as XId, AssetInstance, Assets as XAssets, Fungibility, Instruction, Junction, Junctions, Location, WeightLimit, Xcm};
use polkadot_xcm::{XcmContext, XcmError};
use sp_runtime::traits::{Convert, Get as _};
use std::marker::PhantomData;
use xcm_builder::TakeRevenue;
use xcm_executor::traits::{AssetExchange, ConvertLocation, MatchesFungible, TransactAsset, WeightTrader};
use xcm_executor::AssetsInHolding;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Uniques: pallet_uniques, Oracle: pallet_ema_oracle, Breaker: pallet_circuit_breaker, Staking: pallet_staking, Referrals: pallet_referrals, Stableswap: pallet_stableswap, Router: pallet_route_executor });
base!(Rt, (), DustWhite);
base_uniques!(Rt);
type Frac = (u32, u32);
type Key = (Source, u32, u32);
param! { Net: Frac = (5_000, 10_000); AddL: Option<Frac> = None; RemL: Option<Frac> = None; Closed: BTreeSet<u32> = Default::default(); RefPrice: BTreeSet<u32> = Default::default(); RefPct: [u32; 3] = [0; 3];
	Prices: BTreeMap<u32, u128> = Default::default(); FeeNum: u128 = 1; Revenue: Vec<(Asset, u128)> = vec![]; Quotes: BTreeMap<Key, (u128, u128)> = Default::default(); Routes: BTreeMap<(u32, u32), Vec<Trade<u32>>> = Default::default(); Accepted: BTreeSet<u32> = Default::default(); Fallbacks: BTreeMap<u32, u128> = Default::default();
	Chosen: BTreeMap<Acc, u32> = Default::default(); Away: BTreeSet<(u32, Acc)> = Default::default(); Trap: Vec<(u32, Acc, u128)> = vec![]; Unknown: Vec<(Asset, Location)> = vec![]; Strange: bool = false; Depth: u16 = 3; Most: u16 = 12; AskedFor: Vec<(OraclePeriod, Source)> = vec![]; Missing: bool = false; }
parameter_types! { pub const Native: u32 = 0; pub const Lrna: u32 = 1; pub const Pid: PalletId = PalletId(*b"staking#"); pub const RefPid: PalletId = PalletId(*b"referral"); pub const MaxLen: u32 = 7; pub const MinLen: u32 = 3; pub AmpRange: std::ops::RangeInclusive<std::num::NonZeroU16> = std::num::NonZeroU16::new(2).unwrap()..=std::num::NonZeroU16::new(10_000).unwrap(); }
macro_rules! jlog { ($c:expr, $n:literal, ($($t:tt)*)) => { $c.log(|| format!(concat!($n, " {}"), serde_json::json!($($t)*))) } }
fn temp() -> Acc { acc(150) } fn sink() -> Acc { acc(151) } fn other() -> Acc { acc(152) }
pub struct Temp; impl Get<Acc> for Temp { fn get() -> Acc { temp() } }
pub struct Sink; impl Get<Acc> for Sink { fn get() -> Acc { sink() } }
pub struct Other; impl Get<Acc> for Other { fn get() -> Acc { other() } }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
// the price oracle and the circuit breaker
pub struct Periods; impl Get<frame_support::BoundedVec<OraclePeriod, frame_support::traits::ConstU32<6>>> for Periods { fn get() -> frame_support::BoundedVec<OraclePeriod, frame_support::traits::ConstU32<6>> { frame_support::BoundedVec::truncate_from(OraclePeriod::all_periods().to_vec()) } }
impl pallet_ema_oracle::Config for Rt { type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type BlockNumberProvider = System; type SupportedPeriods = Periods; type OracleWhitelist = Everything; type MaxUniqueEntries = frame_support::traits::ConstU32<40>; type WeightInfo = (); }
impl pallet_circuit_breaker::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type Balance = u128; type TechnicalOrigin = EnsureRoot<Acc>; type WhitelistedAccounts = Nothing; type DefaultMaxNetTradeVolumeLimitPerBlock = Net;
	type DefaultMaxAddLiquidityLimitPerBlock = AddL; type DefaultMaxRemoveLiquidityLimitPerBlock = RemL; type OmnipoolHubAsset = Lrna; type WeightInfo = ();
}
// staking and referrals, as takers of fees
pub struct Coll; impl Get<u128> for Coll { fn get() -> u128 { 2222 } }
pub struct B40; impl Get<u32> for B40 { fn get() -> u32 { 2000 } }
pub struct Slo; impl Get<FixedU128> for Slo { fn get() -> FixedU128 { FixedU128::from_inner(1_000_000_000_000_000) } }
pub struct Points; impl GetByKey<pallet_staking::types::Action, u32> for Points { fn get(_: &pallet_staking::types::Action) -> u32 { 100 } }
pub struct MinSlashes; impl GetByKey<FixedU128, u128> for MinSlashes { fn get(_: &FixedU128) -> u128 { 50 } }
pub struct Referenda; impl pallet_staking::traits::DemocracyReferendum for Referenda { fn is_referendum_finished(_: u32) -> bool { false } }
pub struct Ice; impl pallet_staking::traits::Freeze<Acc, u128> for Ice { fn freeze_collection(o: Acc, k: u128) -> DispatchResult { Uniques::freeze_collection(RuntimeOrigin::signed(o), k) } }
pub struct P100; impl Get<Permill> for P100 { fn get() -> Permill { Permill::one() } }
pub struct P20; impl Get<Perbill> for P20 { fn get() -> Perbill { Perbill::from_percent(20) } }
impl pallet_staking::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type AssetId = u32; type Currency = Currencies; type PeriodLength = frame_support::traits::ConstU32<10>; type PalletId = Pid; type NativeAssetId = Native; type MinStake = frame_support::traits::ConstU128<1000>; type TimePointsWeight = P100; type ActionPointsWeight = P20;
	type TimePointsPerPeriod = frame_support::traits::ConstU8<1>; type UnclaimablePeriods = frame_support::traits::ConstU128<1>; type CurrentStakeWeight = frame_support::traits::ConstU8<2>; type PayablePercentage = pallet_staking::SigmoidPercentage<Slo, B40>; type BlockNumberProvider = System; type PositionItemId = u128; type CollectionId = u128; type NFTCollectionId = Coll; type Collections = Ice; type NFTHandler = Uniques;
	type MaxVotes = frame_support::traits::ConstU32<5>; type ReferendumInfo = Referenda; type MaxPointsPerAction = Points; type Vesting = VestingInfo<Rt>; type WeightInfo = (); type MinSlash = MinSlashes;
}
pub struct FeeOf; impl Get<(u32, u128, Acc)> for FeeOf { fn get() -> (u32, u128, Acc) { (0, 10, acc(200)) } }
pub struct Levels; impl GetByKey<pallet_referrals::Level, (u128, pallet_referrals::FeeDistribution)> for Levels { fn get(_: &pallet_referrals::Level) -> (u128, pallet_referrals::FeeDistribution) { let p = RefPct::get(); (u128::MAX, pallet_referrals::FeeDistribution { referrer: Permill::from_parts(p[0]), trader: Permill::from_parts(p[1]), external: Permill::from_parts(p[2]) }) } }
pub struct RefOracle; impl hydradx_traits::price::PriceProvider<u32> for RefOracle { type Price = EmaPrice; fn get_price(_: u32, b: u32) -> Option<EmaPrice> { RefPrice::with(|p| p.contains(&b)).then(|| EmaPrice::new(1, 2)) } }
pub struct NoAmm; impl pallet_referrals::traits::Convert<Acc, u32, u128> for NoAmm { type Error = DispatchError; fn convert(_: Acc, _: u32, _: u32, _: u128) -> Result<u128, DispatchError> { Err(DispatchError::Other("closed")) } }
impl pallet_referrals::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type AssetId = u32; type Currency = FungibleCurrencies<Rt>; type Convert = NoAmm; type PriceProvider = RefOracle; type RewardAsset = Native; type PalletId = RefPid; type RegistrationFee = FeeOf;
	type CodeLength = MaxLen; type MinCodeLength = MinLen; type LevelVolumeAndRewardPercentages = Levels; type ExternalAccount = (); type SeedNativeAmount = frame_support::traits::ConstU128<0>; type WeightInfo = ();
}
pub struct PoolId;
impl hydradx_traits::AccountIdFor<u32> for PoolId { type AccountId = Acc; fn from_assets(a: &u32, _: Option<&[u8]>) -> Acc { pool_acc(b"sts", *a, 0) } fn name(a: &u32, _: Option<&[u8]>) -> Vec<u8> { a.to_le_bytes().to_vec() } }
impl pallet_stableswap::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type BlockNumberProvider = System; type AssetId = u32; type Currency = Tokens; type ShareAccountId = PoolId; type AssetInspection = Reg; type AuthorityOrigin = EnsureRoot<Acc>;
	type DustAccountHandler = DustWhite; type Hooks = StableswapHooksAdapter<Rt>; type MinPoolLiquidity = frame_support::traits::ConstU128<1000>; type MinTradingLimit = frame_support::traits::ConstU128<10>; type AmplificationRange = AmpRange; type WeightInfo = ();
}
// a constant-product market for the router
fn home(p: PoolType<u32>, a: u32, b: u32) -> Acc { match p { PoolType::XYK => pool_acc(b"xyk", a.min(b), a.max(b)), _ => pool_acc(b"omni", 0, 0) } }
fn held(a: &Acc, c: u32) -> u128 { Currencies::free_balance(c, a) }
type Ex<T> = Result<T, ExecutorError<DispatchError>>;
fn no<T>(s: &'static str) -> Ex<T> { Err(ExecutorError::Error(DispatchError::Other(s))) }
pub struct Amm;
impl Amm { fn mine(p: PoolType<u32>) -> Ex<()> { if matches!(p, PoolType::XYK | PoolType::Omnipool) { Ok(()) } else { Err(ExecutorError::NotSupported) } } fn go(who: RuntimeOrigin, p: PoolType<u32>, i: u32, o: u32, x: u128, y: u128) -> Ex<()> { let who = frame_system::ensure_signed(who).map_err(|_| ExecutorError::Error(DispatchError::BadOrigin))?; let h = home(p, i, o); <Currencies as MultiCurrency<Acc>>::transfer(i, &who, &h, x).map_err(ExecutorError::Error)?; <Currencies as MultiCurrency<Acc>>::transfer(o, &h, &who, y).map_err(ExecutorError::Error) } }
impl TradeExecution<RuntimeOrigin, Acc, u32, u128> for Amm {
	type Error = DispatchError;
	fn calculate_sell(p: PoolType<u32>, i: u32, o: u32, x: u128) -> Ex<u128> { Self::mine(p)?; let h = home(p, i, o); let (a, b) = (held(&h, i), held(&h, o)); if i == o || a == 0 || b == 0 || x > a || Closed::with(|c| c.contains(&i)) { return no("closed"); } Ok(muldiv(b, x, a + x)) }
	fn calculate_buy(p: PoolType<u32>, i: u32, o: u32, y: u128) -> Ex<u128> { Self::mine(p)?; let h = home(p, i, o); let (a, b) = (held(&h, i), held(&h, o)); if i == o || a == 0 || y >= b / 2 || Closed::with(|c| c.contains(&i)) { return no("closed"); } Ok(muldiv_up(a, y, b - y)) }
	fn execute_sell(w: RuntimeOrigin, p: PoolType<u32>, i: u32, o: u32, x: u128, limit: u128) -> Ex<()> { let y = Self::calculate_sell(p, i, o, x)?; if y < limit { return no("limit"); } Self::go(w, p, i, o, x, y) }
	fn execute_buy(w: RuntimeOrigin, p: PoolType<u32>, i: u32, o: u32, y: u128, limit: u128) -> Ex<()> { let x = Self::calculate_buy(p, i, o, y)?; if x > limit { return no("limit"); } Self::go(w, p, i, o, x, y) }
	fn get_liquidity_depth(p: PoolType<u32>, a: u32, b: u32) -> Ex<u128> { Self::mine(p)?; Ok(held(&home(p, a, b), a)) }
	fn calculate_spot_price_with_fee(_: PoolType<u32>, _: u32, _: u32) -> Ex<FixedU128> { no("none") }
}
pub struct DefaultPool; impl Get<PoolType<u32>> for DefaultPool { fn get() -> PoolType<u32> { PoolType::Omnipool } }
pub struct NoRefund; impl hydradx_traits::router::RefundEdCalculator<u128> for NoRefund { fn calculate() -> u128 { 0 } }
impl pallet_route_executor::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type Balance = u128; type NativeAssetId = Native; type Currency = FungibleCurrencies<Rt>; type InspectRegistry = Reg; type AMM = Amm;
	type EdToRefundCalculator = NoRefund; type DefaultRoutePoolType = DefaultPool; type TechnicalOrigin = EnsureRoot<Acc>; type WeightInfo = ();
}
// XCM assets: GeneralIndex(n) is asset n for n < 8
pub struct Ids;
impl Convert<Asset, Option<u32>> for Ids { fn convert(a: Asset) -> Option<u32> { if a.id.0.parents != 0 { return None; } match &a.id.0.interior { Junctions::X1(j) => match j[0] { Junction::GeneralIndex(i) if i < 8 => Some(i as u32), _ => None }, _ => None } } }
fn loc(i: u32) -> Location { Location { parents: 0, interior: Junction::GeneralIndex(i as u128).into() } }
fn ast(i: u32, v: u128) -> Asset { Asset { id: XId(loc(i)), fun: Fungibility::Fungible(v) } }
pub struct Fungible; impl MatchesFungible<u128> for Fungible { fn matches_fungible(a: &Asset) -> Option<u128> { match a.fun { Fungibility::Fungible(x) => Some(x), _ => None } } }
pub struct Accounts; impl ConvertLocation<Acc> for Accounts { fn convert_location(l: &Location) -> Option<Acc> { match &l.interior { Junctions::X1(j) if l.parents == 0 => match j[0] { Junction::AccountId32 { id, .. } => Some(id.into()), _ => None }, _ => None } } }
fn at(a: &Acc) -> Location { Location { parents: 0, interior: Junction::AccountId32 { network: None, id: a.clone().into() }.into() } }
fn ctx() -> XcmContext { XcmContext { origin: None, message_id: [0; 32], topic: None } }
fn root() -> Vec<u8> { System::reset_events(); sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn book() -> Book { Book::all::<Rt>() }
fn what_if<R>(f: impl FnOnce() -> R) -> R { let mut r = None; let _ = with_transaction(|| -> TransactionOutcome<DispatchResult> { r = Some(f()); TransactionOutcome::Rollback(Ok(())) }); r.unwrap() }
const X: &str = "C41"; const Y: &str = "C42";

// ---- the weight trader ----
pub struct W2F; impl WeightToFee for W2F { type Balance = u128; fn weight_to_fee(w: &Weight) -> u128 { (w.ref_time() as u128).saturating_mul(FeeNum::get()) / 1000 } }
pub struct Market; impl NativePriceOracle<u32, FixedU128> for Market { fn price(c: u32) -> Option<FixedU128> { Prices::with(|p| p.get(&c).map(|x| FixedU128::from_inner(*x))) } }
pub struct Pay; impl pallet_transaction_multi_payment::DepositFee<Acc, u32, u128> for Pay { fn deposit_fee(w: &Acc, c: u32, v: u128) -> DispatchResult { <Currencies as MultiCurrency<Acc>>::deposit(c, w, v) } }
type Treasury = ToFeeReceiver<Acc, u32, u128, FixedU128, Ids, Pay, Sink>;
pub struct Seen; impl TakeRevenue for Seen { fn take_revenue(a: Asset) { if let Fungibility::Fungible(v) = a.fun { Revenue::with(|r| r.push((a.clone(), v))); } Treasury::take_revenue(a); } }
type Trader = MultiCurrencyTrader<u32, u128, FixedU128, W2F, Market, Ids, Seen>;
fn price_of(r: &mut Rng) -> u128 { match r.idx(5) { 0 => 1_000_000_000_000_000_000, 1 => r.log(1, 3_000_000_000_000_000_000_000), 2 => r.log(1, u128::MAX), _ => r.range(1_000_000_000_000_000, 10_000_000_000_000_000_000_000) } }
fn trader_history(c: &mut Ctx) { fresh(|| {
	System::set_block_number(1); Revenue::set(vec![]); NoDust::set(Default::default()); Eds::set(Default::default());
	let rng = &mut c.rng; let mut prices = BTreeMap::new(); for a in 0..6 { if rng.chance(5, 6) { prices.insert(a, price_of(rng)); } } Prices::set(prices);
	FeeNum::set(match rng.idx(4) { 0 => 1000, 1 => rng.log(1, u64::MAX as u128), _ => rng.range(1, 100_000) });
	let before = book(); let mut t = Some(Trader::new());
	// what was bought at which price, and what of it is left
	let mut paid: BTreeMap<(u32, u128), u128> = BTreeMap::new(); let mut weight = 0u64; let mut taken: BTreeMap<u32, u128> = BTreeMap::new();
	for _ in 0..1 + c.rng.idx(8) {
		let rng = &mut c.rng; let tr = t.as_mut().unwrap();
		if rng.chance(1, 8) { let a = rng.idx(6) as u32; let p = price_of(rng); Prices::with(|x| x.insert(a, p)); }
		if rng.chance(1, 12) { let a = rng.idx(6) as u32; Prices::with(|x| x.remove(&a)); }
		let wt = if rng.chance(1, 2) { rng.range(1, 10_000_000_000) as u64 } else { rng.log(1, u64::MAX as u128) as u64 };
		let fee = W2F::weight_to_fee(&Weight::from_parts(wt, 0));
		if rng.chance(3, 5) {
			let a = rng.idx(10) as u32; let p = if a < 8 { Prices::with(|x| x.get(&a).copied()) } else { None };
			let due = p.map(|p| { let v = w(p) * w(fee) / w(1_000_000_000_000_000_000); if v > w(u128::MAX) { None } else { Some(v.low_u128()) } });
			if due == Some(Some(0)) { continue; }
			let base = due.flatten().unwrap_or(1000); let have = match rng.idx(5) { 0 => base, 1 => base.saturating_sub(1).max(1), 2 => base.saturating_add(1), 3 => rng.log(1, base).max(1), _ => base.saturating_add(rng.log(1, base)) };
			let mut pay = AssetsInHolding::new(); pay.subsume(ast(a, have));
			let extra = rng.chance(1, 3); if extra { pay.subsume(ast(9, 77)); pay.subsume(Asset { id: XId(loc(3)), fun: Fungibility::NonFungible(AssetInstance::Index(1)) }); }
			let nothing = rng.chance(1, 20); if nothing { pay = AssetsInHolding::new(); }
			let got = tr.buy_weight(Weight::from_parts(wt, rng.idx(100) as u64), pay.clone(), &ctx());
			jlog!(c, "buy", ({"asset": a, "weight": wt, "price": format!("{p:?}"), "due": format!("{due:?}"), "have": have.to_string(), "got": format!("{:?}", got.is_ok())}));
			c.event(if got.is_ok() { "bought" } else { "not-bought" });
			let want = if nothing { Err(XcmError::AssetNotFound) } else { match due { None => Err(XcmError::AssetNotFound), Some(None) => Err(XcmError::Overflow), Some(Some(d)) => if have < d { Err(XcmError::TooExpensive) } else { let mut u = pay.clone(); if have == d { u.fungible.remove(&XId(loc(a))); } else { u.fungible.insert(XId(loc(a)), have - d); } Ok((u, d)) } } };
			c.distinct("buy", (a, wt, have)); c.nontrivial((a, wt, have));
			let ok = match (&got, &want) { (Ok(u), Ok((e, _))) => u == e, (Err(e), Err(f)) => e == f, _ => false };
			c.check_in(X, "weight-costs-price-times-fee", ok, || format!("buying weight {wt} with {have} of {a} at {p:?}, due {due:?}: {got:?} instead of {want:?}"));
			if let (Ok(_), Ok((_, d))) = (&got, &want) { *paid.entry((a, p.unwrap())).or_default() = paid.get(&(a, p.unwrap())).copied().unwrap_or(0).saturating_add(*d); weight = weight.saturating_add(wt); *taken.entry(a).or_default() = taken.get(&a).copied().unwrap_or(0).saturating_add(*d); }
			if taken.values().any(|v| *v > u128::MAX / 4) { break; }
		} else {
			let wr = wt.min(weight); let f = W2F::weight_to_fee(&Weight::from_parts(wr, 0));
			let back = |p: u128, left: u128| { let v = w(p) * w(f) / w(1_000_000_000_000_000_000); if v > w(left) { left } else { v.low_u128() } };
			if paid.iter().any(|((_, p), l)| back(*p, *l) == 0) { continue; }
			let got = tr.refund_weight(Weight::from_parts(wt, 0), &ctx()); weight -= wr;
			jlog!(c, "refund", ({"weight": wt, "got": format!("{got:?}")}));
			c.event("refund");
			match got {
				None => { c.check_in(X, "refund-is-what-the-weight-cost", paid.is_empty(), || format!("no refund although {paid:?} is left")); }
				Some(a) => {
					let id = Ids::convert(a.clone()); let v = match a.fun { Fungibility::Fungible(v) => v, _ => 0 };
					let k = paid.iter().find(|((i, p), l)| Some(*i) == id && back(*p, **l) == v).map(|x| *x.0);
					c.check_in(X, "refund-is-what-the-weight-cost", k.is_some(), || format!("refund of {v} of {id:?} for weight {wr} although {paid:?} was paid"));
					if let Some(k) = k { *paid.get_mut(&k).unwrap() -= v; if paid[&k] == 0 { paid.remove(&k); } *taken.get_mut(&k.0).unwrap() -= v; c.event("refunded"); } else { break; }
				}
			}
		}
		if c.failed() { break; }
	}
	if c.failed() { return; }
	drop(t.take());
	let mut seen: BTreeMap<u32, u128> = BTreeMap::new(); for (a, v) in Revenue::get() { *seen.entry(Ids::convert(a).unwrap_or(99)).or_default() += v; }
	taken.retain(|_, v| *v > 0); c.event("message-ended");
	c.check_in(X, "rest-is-revenue", seen == taken, || format!("revenue {seen:?}, but {taken:?} was kept"));
	let mut want = Moves::new(); for (a, v) in &taken { want = want.add(&sink(), *a, *v); }
	let m = before.moved_total(&book());
	c.check_in(X, "revenue-goes-to-the-receiver", m == want, || format!("moved {m:?}, expected {want:?}"));
}) }

// ---- exchanges ----
type Exchanger = XcmAssetExchanger<Rt, Temp, Ids, Currencies>;
fn holding_of(h: &AssetsInHolding) -> BTreeMap<u32, u128> { h.fungible_assets_iter().map(|a| (Ids::convert(a.clone()).unwrap_or(99), match a.fun { Fungibility::Fungible(v) => v, _ => 0 })).collect() }
fn swap_history(c: &mut Ctx) { fresh(|| {
	System::set_block_number(1); NoDust::set(Default::default()); Closed::set(Default::default());
	let rng = &mut c.rng; let n = 5u32; Assets::set((0..8).map(|a| (a, 12)).collect());
	let ed_of = rng.chance(1, 3); Eds::set(if ed_of { (0..8).map(|a| (a, if a == 0 { 1 } else { rng.log(1, 2000).max(1) })).collect() } else { Default::default() });
	for a in 0..n { let v = rng.range(1_000_000, 1_000_000_000_000_000); if a == 0 { give_native::<Rt>(&home(PoolType::Omnipool, 0, 0), v); } else { give::<Rt>(&home(PoolType::Omnipool, 0, 0), a, v); } }
	for a in 0..n { for b in a + 1..n { if rng.chance(1, 2) { let h = home(PoolType::XYK, a, b); for x in [a, b] { let v = rng.range(1_000_000, 1_000_000_000_000_000); if x == 0 { give_native::<Rt>(&h, v); } else { give::<Rt>(&h, x, v); } } } } }
	for _ in 0..rng.idx(4) { let a = rng.idx(n as usize) as u32; let b = (a + 1 + rng.idx(n as usize - 1) as u32) % n; let m = (b + 1) % n; let route = if m != a && rng.chance(1, 2) { vec![Trade { pool: PoolType::Omnipool, asset_in: a.min(b), asset_out: m }, Trade { pool: PoolType::XYK, asset_in: m, asset_out: a.max(b) }] } else { vec![Trade { pool: PoolType::XYK, asset_in: a.min(b), asset_out: a.max(b) }] };
		let _ = call(RuntimeCall::Router(pallet_route_executor::Call::force_insert_route { asset_pair: AssetPair::new(a.min(b), a.max(b)), new_route: route }), RuntimeOrigin::root()); }
	for _ in 0..2 + c.rng.idx(6) {
		let rng = &mut c.rng; if rng.chance(1, 10) { let a = rng.idx(5) as u32; Closed::with(|x| if !x.remove(&a) { x.insert(a); }); }
		let (ni, no) = (if rng.chance(1, 8) { 10 } else { 5 }, if rng.chance(1, 8) { 10 } else { 5 }); let (i, o) = (rng.idx(ni) as u32, rng.idx(no) as u32);
		let maximal = rng.chance(1, 2); let size = rng.log(1, 1_000_000_000_000_000).max(2);
		let near = |rng: &mut Rng, v: u128| match rng.idx(4) { 0 => v, 1 => v.saturating_add(1), 2 => v.saturating_sub(1).max(1), _ => (v / 2).max(1) };
		let quoted = what_if(|| { let d = (|| -> Result<u128, DispatchError> { let big = if maximal { size } else { u128::MAX / 4 }; let _ = <Currencies as MultiCurrency<Acc>>::deposit(i, &temp(), big)?; let s = held(&temp(), o); if maximal { Router::sell(RuntimeOrigin::signed(temp()), i, o, size, 0, vec![])?; Ok(held(&temp(), o) - s) } else { let a = held(&temp(), i); Router::buy(RuntimeOrigin::signed(temp()), i, o, size, u128::MAX / 8, vec![])?; Ok(a - held(&temp(), i)) } })(); d });
		let (gv, wv) = if maximal { (size, near(rng, quoted.unwrap_or(1000))) } else { (near(rng, quoted.unwrap_or(1000)), size) };
		let (gv, wv) = (gv.max(1), wv.max(1));
		let mut give_ = AssetsInHolding::new(); let odd = rng.idx(24);
		if odd == 0 { give_.subsume(ast(i, gv)); give_.subsume(ast((i + 1) % 8, 5)); } else if odd == 1 { } else if odd == 2 { give_.subsume(Asset { id: XId(loc(i)), fun: Fungibility::NonFungible(AssetInstance::Index(3)) }); } else { give_.subsume(ast(i, gv)); }
		let want: XAssets = if odd == 3 { vec![ast(o, wv), ast((o + 1) % 8, 5)].into() } else if odd == 4 { Vec::<Asset>::new().into() } else if odd == 5 { vec![Asset { id: XId(loc(o)), fun: Fungibility::NonFungible(AssetInstance::Index(3)) }].into() } else { vec![ast(o, wv)].into() };
		// what the router does with these terms
		let expect: Option<(u128, u128)> = if odd <= 5 || i >= 8 || o >= 8 { None } else { what_if(|| (|| -> Result<(u128, u128), DispatchError> {
			<Currencies as MultiCurrency<Acc>>::deposit(i, &temp(), gv)?; let (a, b) = (held(&temp(), i), held(&temp(), o));
			if maximal { Router::sell(RuntimeOrigin::signed(temp()), i, o, gv, wv, vec![])?; } else { Router::buy(RuntimeOrigin::signed(temp()), i, o, wv, gv, vec![])?; }
			Ok((a - held(&temp(), i), held(&temp(), o) - b)) })()).ok() };
		let (s0, b0) = (root(), book());
		let got = Exchanger::exchange_asset(None, give_.clone(), &want, maximal);
		let b1 = book(); let m = b0.moved(&b1);
		jlog!(c, "exchange", ({"give": [i.to_string(), gv.to_string()], "want": [o.to_string(), wv.to_string()], "sell-all": maximal, "odd": odd, "expect": format!("{expect:?}"), "got": format!("{got:?}")}));
		c.distinct("exchange", (i, o, gv, wv)); c.nontrivial((i, o, gv, wv, maximal));
		match (&got, expect) {
			(Err(back), e) => {
				c.event(if e.is_some() { "refused-though-possible" } else { "refused" });
				c.check_in(X, "failed-exchange-gives-everything-back", *back == give_ && root() == s0, || format!("gave {give_:?}, got back {back:?}, moved {m:?}"));
				c.check_in(X, "possible-exchange-is-made", e.is_none(), || format!("exchange of {gv} of {i} for {wv} of {o} (sell all: {maximal}) refused though the router does it: {e:?}"));
			}
			(Ok(h), None) => { c.check_in(X, "impossible-exchange-is-refused", false, || format!("exchange gave {h:?}")); }
			(Ok(h), Some((paid, recv))) => {
				c.event(if maximal { "sold" } else { "bought" });
				let mut e = BTreeMap::new(); if gv > paid { e.insert(i, gv - paid); } e.insert(o, recv); let hv = holding_of(h);
				c.check_in(X, "exchange-returns-what-the-route-gave", hv == e && h.non_fungible.is_empty(), || format!("holding {hv:?}, expected {e:?}"));
				c.check_in(X, "exchange-within-its-terms", if maximal { paid == gv && recv >= wv } else { recv == wv && paid <= gv }, || format!("paid {paid} of {gv}, received {recv} for {wv}"));
				let none = m.accounts().iter().all(|a| *a != temp() && *a != sink());
				let issued = (0..8).all(|a| { let d = b0.issued(&b1, a); let inn = if a == i { paid as i128 } else { 0 }; let out = if a == o { recv as i128 } else { 0 }; d == inn - out });
				c.check_in(X, "exchange-moves-only-its-two-amounts", none && issued && b1.balanced().is_ok(), || format!("moved {m:?}, paid {paid}, received {recv}"));
			}
		}
		if c.failed() { return; }
	}
}) }

// ---- deposits, withdrawals, transfers ----
pub struct Reroute; impl frame_support::traits::Contains<(u32, Acc)> for Reroute { fn contains(x: &(u32, Acc)) -> bool { Away::with(|a| a.contains(x)) } }
pub struct OnFail;
impl OnDepositFail<u32, Acc, u128> for OnFail { fn on_deposit_currency_fail(_: DispatchError, c: u32, w: &Acc, v: u128) -> polkadot_xcm::XcmResult { Trap::with(|t| t.push((c, w.clone(), v))); Ok(()) } }
pub struct Foreign;
impl UnknownAsset for Foreign {
	fn deposit(a: &Asset, l: &Location) -> DispatchResult { if Strange::get() { Unknown::with(|u| u.push((a.clone(), l.clone()))); Ok(()) } else { Err(DispatchError::Other("unknown")) } }
	fn withdraw(a: &Asset, l: &Location) -> DispatchResult { Unknown::with(|u| u.iter().position(|x| x.0 == *a && x.1 == *l).map(|i| { u.remove(i); }).ok_or(DispatchError::Other("unknown"))) }
}
type Transactor = ReroutingMultiCurrencyAdapter<Currencies, Foreign, Fungible, Acc, Accounts, u32, Ids, OnFail, Reroute, Other>;
fn landing_history(c: &mut Ctx) { fresh(|| {
	System::set_block_number(1); NoDust::set(Default::default()); Unknown::set(vec![]);
	let rng = &mut c.rng; Eds::set((0..8).map(|a| (a, if rng.chance(1, 2) { 1 } else { rng.range(1, 1000) })).collect());
	for k in 0..4u8 { for a in 0..6 { if rng.chance(2, 3) { let v = rng.range(1000, 1_000_000_000); if a == 0 { give_native::<Rt>(&acc(k), v); } else { give::<Rt>(&acc(k), a, v); } } } }
	for a in [0, 1, 2] { let v = 5000; if rng.chance(2, 3) { if a == 0 { give_native::<Rt>(&other(), v); } else { give::<Rt>(&other(), a, v); } } }
	Away::set((0..rng.idx(8)).map(|_| (rng.idx(6) as u32, acc(rng.idx(4) as u8))).collect());
	for _ in 0..2 + c.rng.idx(8) {
		let rng = &mut c.rng; Trap::set(vec![]); Strange::set(rng.chance(1, 2));
		let na = if rng.chance(1, 6) { 10 } else { 6 }; let a = rng.idx(na) as u32; let v = match rng.idx(4) { 0 => rng.range(1, 2000), 1 => rng.log(1, u128::MAX).max(1), _ => rng.range(1, 1_000_000_000) };
		let nft = rng.chance(1, 16); let asset = if nft { Asset { id: XId(loc(a)), fun: Fungibility::NonFungible(AssetInstance::Index(5)) } } else { ast(a, v) };
		let who = |rng: &mut Rng| { let k = acc(rng.idx(5) as u8); if rng.chance(1, 14) { (Location { parents: 1, interior: Junctions::Here }, None) } else { (at(&k), Some(k)) } };
		let ((l1, w1), (l2, w2)) = (who(rng), who(rng)); let known = !nft && a < 8; let (s0, b0, u0) = (root(), book(), Unknown::get());
		let dest = |w: &Acc| if Away::with(|x| x.contains(&(a, w.clone()))) { other() } else { w.clone() };
		match rng.idx(3) {
			0 => {
				let fits = match &w1 { Some(w) if known => Some(what_if(|| <Currencies as MultiCurrency<Acc>>::deposit(a, &dest(w), v).is_ok())), _ => None };
				let got = Transactor::deposit_asset(&asset, &l1, None); let m = b0.moved_total(&book());
				jlog!(c, "deposit", ({"asset": a, "v": v.to_string(), "to": w1.as_ref().map(nm), "got": format!("{got:?}")})); c.event("deposit"); c.distinct("deposit", (a, v));
				let want = match (&w1, fits) { (Some(w), Some(true)) => Moves::new().add(&dest(w), a, v), _ => Moves::new() };
				if fits == Some(true) && dest(w1.as_ref().unwrap()) == other() { c.event("rerouted"); } if fits == Some(false) { c.event("trapped"); } if fits.is_none() { c.event("unknown"); }
				c.check_in(X, "deposit-lands-with-beneficiary-or-reroute", m == want, || format!("deposit of {v} of {a} to {w1:?}: moved {m:?}, expected {want:?}"));
				let traps = match (&w1, fits) { (Some(w), Some(false)) => vec![(a, w.clone(), v)], _ => vec![] };
				c.check_in(X, "failed-deposit-is-reported", Trap::get() == traps, || format!("trapped {:?}, expected {traps:?}", Trap::get()));
				let mut u = u0.clone(); if fits.is_none() && Strange::get() { u.push((asset.clone(), l1.clone())); }
				c.check_in(X, "unknown-assets-go-to-their-own-ledger", Unknown::get() == u && got.is_ok() == (fits.is_some() || Strange::get()), || format!("{got:?}, unknown {:?}", Unknown::get()));
			}
			1 => {
				let strange = u0.iter().any(|x| x.0 == asset && x.1 == l1); let pull = rng.chance(1, 3) && !u0.is_empty();
				let (asset, l1, w1, strange) = if pull { let x = u0[rng.idx(u0.len())].clone(); (x.0.clone(), x.1.clone(), None, true) } else { (asset, l1, w1, strange) };
				let fits = match &w1 { Some(w) if known && !strange => what_if(|| <Currencies as MultiCurrency<Acc>>::withdraw(a, w, v).is_ok()), _ => false };
				let got = Transactor::withdraw_asset(&asset, &l1, None); let m = b0.moved_total(&book()); c.event("withdraw"); jlog!(c, "withdraw", ({"asset": a, "v": v.to_string(), "got": format!("{got:?}")}));
				let want = if fits { c.event("withdrawn"); Moves::new().sub(w1.as_ref().unwrap(), a, v) } else { Moves::new() };
				let dusty = fits && { let left = b0.total(w1.as_ref().unwrap(), a) - v; left > 0 && left < ed(a) };
				c.check_in(X, "withdrawal-takes-exactly-the-amount", dusty || m == want, || format!("withdrawal of {v} of {a} from {w1:?}: moved {m:?}, expected {want:?}"));
				let hold = AssetsInHolding::from(asset.clone());
				c.check_in(X, "withdrawn-assets-enter-the-holding", match &got { Ok(h) => (fits || strange) && *h == hold, Err(_) => !fits && !strange }, || format!("{got:?}, fits {fits}, unknown {strange}"));
			}
			_ => {
				let ok = known && w1.is_some() && w2.is_some(); let fits = ok && what_if(|| <Currencies as MultiCurrency<Acc>>::transfer(a, w1.as_ref().unwrap(), &dest(w2.as_ref().unwrap()), v).is_ok());
				let want = if fits { what_if(|| { let _ = <Currencies as MultiCurrency<Acc>>::transfer(a, w1.as_ref().unwrap(), &dest(w2.as_ref().unwrap()), v); b0.moved_total(&book()) }) } else { Moves::new() };
				let got = Transactor::transfer_asset(&asset, &l1, &l2, &ctx()); let m = b0.moved_total(&book()); c.event(if fits { "transferred" } else { "not-transferred" }); jlog!(c, "transfer", ({"asset": a, "v": v.to_string(), "got": format!("{got:?}")}));
				c.check_in(X, "transfer-lands-with-beneficiary-or-reroute", got.is_ok() == fits && m == want, || format!("transfer of {v} of {a} from {w1:?} to {w2:?}: {got:?}, moved {m:?}, expected {want:?}"));
				if !fits { let _ = &s0; }
			}
		}
		if c.failed() { return; }
	}
}) }

// ---- the filter of executable messages ----
type Filter = AllowTransferAndSwap<Depth, Most, ()>;
fn some_assets(r: &mut Rng) -> XAssets { (0..1 + r.idx(2)).map(|_| ast(r.idx(8) as u32, r.range(1, 1000))).collect::<Vec<_>>().into() }
/// An instruction with, when it carries a message, that message.
fn inst(r: &mut Rng, depth: usize, bad: bool) -> Instruction<()> {
	let filter = |r: &mut Rng| AssetFilter::Definite(some_assets(r)); let there = Location { parents: 1, interior: Junctions::Here };
	if bad { return match r.idx(16) {
		0 => Instruction::Transact { origin_kind: polkadot_xcm::OriginKind::Superuser, require_weight_at_most: Weight::zero(), call: vec![1u8].into() }, 1 => Instruction::ReserveAssetDeposited(some_assets(r)), 2 => Instruction::ReceiveTeleportedAsset(some_assets(r)),
		3 => Instruction::DescendOrigin(Junctions::Here), 4 => Instruction::InitiateTeleport { assets: filter(r), dest: there, xcm: Xcm(vec![]) }, 5 => Instruction::SetErrorHandler(Xcm(vec![])), 6 => Instruction::SetAppendix(Xcm(vec![Instruction::ClearOrigin])), 7 => Instruction::ClaimAsset { assets: some_assets(r), ticket: there },
		8 => Instruction::BurnAsset(some_assets(r)), 9 => Instruction::UniversalOrigin(Junction::Parachain(3)), 10 => Instruction::AliasOrigin(there), 11 => Instruction::UnpaidExecution { weight_limit: WeightLimit::Unlimited, check_origin: None }, 12 => Instruction::RefundSurplus, 13 => Instruction::SetTopic([0; 32]), 14 => Instruction::Trap(1), _ => Instruction::ExpectOrigin(None) }; }
	if depth > 0 && r.chance(1, 2) { let x = message(r, depth - 1, 0).cast(); return match r.idx(3) { 0 => Instruction::InitiateReserveWithdraw { assets: filter(r), reserve: there, xcm: x }, 1 => Instruction::DepositReserveAsset { assets: filter(r), dest: there, xcm: x }, _ => Instruction::TransferReserveAsset { assets: some_assets(r), dest: there, xcm: x } }; }
	match r.idx(8) { 0 => Instruction::ClearOrigin, 1 => Instruction::ExchangeAsset { give: filter(r), want: some_assets(r), maximal: r.chance(1, 2) }, 2 => Instruction::WithdrawAsset(some_assets(r)), 3 => Instruction::TransferAsset { assets: some_assets(r), beneficiary: there }, 4 => Instruction::DepositAsset { assets: filter(r), beneficiary: there }, 5 => Instruction::ExpectAsset(some_assets(r)), 6 => Instruction::SetFeesMode { jit_withdraw: true }, _ => Instruction::BuyExecution { fees: ast(0, 5), weight_limit: WeightLimit::Unlimited } }
}
trait Cast { fn cast(self) -> Xcm<()>; } impl Cast for Xcm<()> { fn cast(self) -> Xcm<()> { self } }
fn message(r: &mut Rng, depth: usize, bad: u128) -> Xcm<()> { let n = r.idx(5); Xcm((0..n).map(|_| { let b = bad > 0 && r.chance(1, bad as u32); inst(r, depth, b) }).collect()) }
/// every instruction with the depth it is at; the depth of empty messages counts as well
fn unfold(x: &Xcm<()>, d: u16, count: &mut u32, deepest: &mut u16, bad: &mut bool) { *deepest = (*deepest).max(d); for i in x.inner() { *count += 1; match i {
	Instruction::ClearOrigin | Instruction::ExchangeAsset { .. } | Instruction::WithdrawAsset(..) | Instruction::TransferAsset { .. } | Instruction::DepositAsset { .. } | Instruction::ExpectAsset(..) | Instruction::SetFeesMode { .. } | Instruction::BuyExecution { .. } => {}
	Instruction::InitiateReserveWithdraw { xcm, .. } | Instruction::DepositReserveAsset { xcm, .. } | Instruction::TransferReserveAsset { xcm, .. } => unfold(xcm, d + 1, count, deepest, bad), _ => *bad = true } } }
fn filter_case(c: &mut Ctx) {
	let r = &mut c.rng; Depth::set(r.idx(5) as u16); Most::set(r.range(0, 14) as u16);
	let d = r.idx(6); let evil = match r.idx(3) { 0 => 0, 1 => 12, _ => 40 }; let mut x = message(r, d, evil);
	// a chain of nested messages of about the allowed depth
	if r.chance(1, 3) { let k = (Depth::get() as usize + r.idx(3)).saturating_sub(1); x = message(r, 0, evil); for _ in 0..k { let there = Location { parents: 1, interior: Junctions::Here }; let inner = x; let mut v = vec![Instruction::InitiateReserveWithdraw { assets: AssetFilter::Definite(some_assets(r)), reserve: there, xcm: inner }]; if r.chance(1, 3) { v.insert(0, inst(r, 0, false)); } x = Xcm(v); } }
	let here = r.chance(1, 12); let from = if here { Location::here() } else { at(&acc(r.idx(4) as u8)) };
	let (mut n, mut deep, mut bad) = (0, 0, false); unfold(&x, 0, &mut n, &mut deep, &mut bad);
	let want = here || (!bad && deep <= Depth::get() && n <= Most::get() as u32);
	let got = <Filter as frame_support::traits::Contains<(Location, Xcm<()>)>>::contains(&(from, x.clone()));
	c.event(if got { "let-through" } else { "held-back" }); c.distinct("messages", x.encode()); c.nontrivial(x.encode());
	if !here && !bad { if deep == Depth::get() + 1 && n <= Most::get() as u32 { c.event("one-too-deep"); } if n == Most::get() as u32 + 1 && deep <= Depth::get() { c.event("one-too-many"); } if n == Most::get() as u32 && want { c.event("just-enough"); } if deep == Depth::get() && want { c.event("just-deep-enough"); } }
	c.check_in(X, "only-transfers-and-swaps-within-limits", got == want, || format!("message of {n} instructions (at most {}), depth {deep} (at most {}), forbidden: {bad}, root: {here}: {got}", Most::get(), Depth::get()));
}
use codec::Encode;

// ---- prices along routes ----
pub struct Feed;
impl AggregatedPriceOracle<u32, u32, EmaPrice> for Feed { type Error = OracleError;
	fn get_price(a: u32, b: u32, p: OraclePeriod, s: Source) -> Result<(EmaPrice, u32), OracleError> { AskedFor::with(|x| x.push((p, s))); if a == b { return Err(OracleError::SameAsset); } Quotes::with(|q| q.get(&(s, a, b)).map(|x| (EmaPrice::new(x.0, x.1), 1)).ok_or(OracleError::NotPresent)) }
	fn get_price_weight() -> Weight { Weight::zero() } }
type RoutePrice = OraclePriceProvider<u32, Feed, Lrna>;
pub struct StoredRoutes; impl RouteProvider<u32> for StoredRoutes { fn get_route(p: AssetPair<u32>) -> Vec<Trade<u32>> { Routes::with(|r| r.get(&(p.asset_in, p.asset_out)).cloned().unwrap_or_default()) } }
pub struct Ok_; impl frame_support::traits::Contains<u32> for Ok_ { fn contains(a: &u32) -> bool { Accepted::with(|x| x.contains(a)) } }
pub struct Voted; impl GetByKey<u32, Option<FixedU128>> for Voted { fn get(a: &u32) -> Option<FixedU128> { Fallbacks::with(|f| f.get(a).map(|x| FixedU128::from_inner(*x))) } }
pub struct Per; impl Get<OraclePeriod> for Per { fn get() -> OraclePeriod { OraclePeriod::Short } }
type FeePrice = AssetFeeOraclePriceProvider<Native, Ok_, StoredRoutes, RoutePrice, Voted, Per>;
type ViaRoute = price::OraclePriceProviderUsingRoute<StoredRoutes, RoutePrice, Per>;
pub struct Pick; impl AccountFeeCurrency<Acc> for Pick { type AssetId = u32; fn get(a: &Acc) -> u32 { Chosen::with(|c| c.get(a).copied().unwrap_or(0)) } }
type InCurrency = price::FeeAssetBalanceInCurrency<Rt, price::ConvertAmount<ViaRoute>, Pick, FungibleCurrencies<Rt>>;
const SRC: [Source; 3] = [*b"omnipool", *b"stablesw", *b"hydraxyk"];
fn src(p: PoolType<u32>) -> Option<Source> { use primitives_consts::*; Some(match p { PoolType::Omnipool => OMNI, PoolType::Stableswap(_) => STABLE, PoolType::XYK => XYK, _ => return None }) }
mod primitives_consts { use super::Source; pub const OMNI: Source = *b"omnipool"; pub const STABLE: Source = *b"stablesw"; pub const XYK: Source = *b"hydraxyk"; }
/// `n/d` as the ratio of two 128-bit numbers: each within one unit once both are shifted to fit
fn fits(n: U512, d: U512, got: EmaPrice) -> bool {
	let shift = n.bits().max(d.bits()).saturating_sub(128); let (a, b) = (n >> shift, d >> shift); let near = |x: U512, y: u128, zero: bool| { let y = w(y); (x == y || (shift > 0 && (x + w(1) == y || y + w(1) == x))) && (zero || !y.is_zero()) };
	near(a, got.n, n.is_zero()) && near(b, got.d, false)
}
fn ratio(r: &mut Rng) -> (u128, u128) { match r.idx(4) { 0 => (r.range(1, 100), r.range(1, 100)), 1 => (r.log(1, u128::MAX).max(1), r.log(1, u128::MAX).max(1)), 2 => (r.u128().max(1), r.u128().max(1)), _ => (r.log(1, 1u128 << 64).max(1), r.log(1, 1u128 << 64).max(1)) } }
fn hop_parts(h: &Trade<u32>) -> Option<Vec<(u32, u32)>> { Some(match h.pool { PoolType::Omnipool => vec![(h.asset_in, 1), (1, h.asset_out)], PoolType::Stableswap(i) => vec![(h.asset_in, i), (i, h.asset_out)], PoolType::XYK => vec![(h.asset_in, h.asset_out)], _ => return None }) }
fn route_price(c: &mut Ctx) { fresh(|| {
	System::set_block_number(1); Eds::set(Default::default());
	let r = &mut c.rng; let n = 7u32; let gaps = r.chance(1, 3); let mut q = BTreeMap::new();
	for s in SRC { for a in 0..n { for b in 0..n { if a != b && !(gaps && r.chance(1, 6)) { q.insert((s, a, b), ratio(r)); } } } } Quotes::set(q);
	let mk = |r: &mut Rng, a: u32, b: u32| -> Vec<Trade<u32>> { let k = 1 + r.idx(5); let mut at = a; (0..k).map(|i| { let to = if i + 1 == k { b } else { r.idx(7) as u32 }; let pool = match r.idx(30) { 0 => PoolType::LBP, 1..=9 => PoolType::XYK, 10..=19 => PoolType::Stableswap(r.idx(7) as u32), _ => PoolType::Omnipool }; let t = Trade { pool, asset_in: at, asset_out: to }; at = to; t }).collect() };
	let (a, b) = (r.idx(7) as u32, r.idx(7) as u32); let route = if r.chance(1, 20) { vec![] } else { mk(r, a, b) };
	let period = [OraclePeriod::LastBlock, OraclePeriod::Short, OraclePeriod::TenMinutes, OraclePeriod::Hour][r.idx(4)];
	AskedFor::set(vec![]); let got = RoutePrice::price(&route, period); let asked = AskedFor::get();
	c.distinct("routes", format!("{route:?}")); c.nontrivial(format!("{route:?}{got:?}"));
	c.check_in(Y, "prices-of-the-period-asked-for", asked.iter().all(|x| x.0 == period), || format!("asked {asked:?} for {period:?}"));
	// each hop alone, then their product
	let mut whole = Some((w(1), w(1))); let mut possible = !route.is_empty();
	for h in &route {
		let parts = hop_parts(h); let s = src(h.pool); let x: Option<Vec<(u128, u128)>> = parts.and_then(|p| p.iter().map(|(a, b)| if a == b { Some((1, 1)) } else { Quotes::with(|q| q.get(&(s.unwrap(), *a, *b)).copied()) }).collect());
		let one = RoutePrice::price(&[*h], period);
		let Some(x) = x else { possible = false; c.check_in(Y, "no-price-without-every-hop", one.is_none(), || format!("{h:?} has a price {one:?}")); c.event("hop-missing"); continue; };
		let (n, d) = x.iter().fold((w(1), w(1)), |z, y| (z.0 * w(y.0), z.1 * w(y.1)));
		c.check_in(Y, "hop-price-is-the-oracles", one.map_or(false, |o| fits(n, d, o)), || format!("{h:?}: {one:?}, quotes {x:?}")); c.event("hop-priced");
		if let Some(o) = one { whole = whole.and_then(|z| Some((z.0.checked_mul(w(o.n))?, z.1.checked_mul(w(o.d))?))); }
	}
	jlog!(c, "route", ({"route": format!("{route:?}"), "got": format!("{got:?}")}));
	if c.failed() { return; }
	if !possible { c.event("route-missing"); c.check_in(Y, "no-price-without-every-hop", got.is_none(), || format!("{route:?} has a price {got:?}")); }
	else if let Some((n, d)) = whole { c.event("route-priced"); c.check_in(Y, "route-price-is-the-product", got.map_or(false, |g| fits(n, d, g)), || format!("{route:?}: {got:?}, product {n}/{d}")); } else { c.event("route-too-wide"); c.check_in(Y, "route-price-is-the-product", got.is_none(), || format!("{route:?}: {got:?}")); }
	// the price of fee currencies, and balances in another currency
	let r = &mut c.rng; let mut rs = BTreeMap::new(); for a in 0..n { for b in 0..n { if r.chance(3, 4) { let x = mk(r, a, b); rs.insert((a, b), x); } } } Routes::set(rs);
	Accepted::set((0..n).filter(|_| r.chance(2, 3)).collect()); Fallbacks::set((0..n).filter_map(|a| r.chance(1, 2).then(|| (a, r.log(1, u128::MAX)))).collect());
	let cur = r.idx(8) as u32; let fp = FeePrice::price(cur); let along = Routes::with(|x| x.get(&(cur, 0)).cloned()).and_then(|x| RoutePrice::price(&x, OraclePeriod::Short));
	let want = if cur == 0 { Some((1, 1)) } else if !Accepted::with(|x| x.contains(&cur)) { None } else if let Some(p) = along { Some((p.n, p.d)) } else { Fallbacks::with(|f| f.get(&cur).map(|x| (*x, 1_000_000_000_000_000_000))) };
	c.event(if fp.is_some() { if cur == 0 { "native-price" } else if along.is_some() { "fee-price" } else { "fallback-price" } } else { "no-fee-price" });
	c.check_in(Y, "fee-price-is-oracle-else-fallback-else-none", fp.map(|p| (p.n, p.d)) == want, || format!("fee price of {cur}: {fp:?}, expected {want:?}"));
	let r = &mut c.rng; let who = acc(3); let own = r.idx(7) as u32; let to = r.idx(7) as u32; let v = r.log(1, 1u128 << 100).max(1); if own == 0 { give_native::<Rt>(&who, v); } else { give::<Rt>(&who, own, v); } Chosen::set([(who.clone(), own)].into());
	let (bal, _) = InCurrency::get_balance_in_currency(to, &who);
	let mine = { use frame_support::traits::fungibles::Inspect; use frame_support::traits::tokens::{Fortitude, Preservation}; FungibleCurrencies::<Rt>::reducible_balance(own, &who, Preservation::Preserve, Fortitude::Polite) };
	let p = if own == to { Some((1, 1)) } else { Routes::with(|x| x.get(&(to, own)).cloned()).and_then(|x| RoutePrice::price(&x, OraclePeriod::Short)).map(|p| (p.n, p.d)) };
	c.event(if own == to { "balance-same" } else if bal == 0 { "balance-none" } else { "balance-converted" });
	let want = p.and_then(|(n, d)| { let x = w(mine) * w(n); let y = if d == 0 { return None; } else { x / w(d) }; if y + if (x % w(d)).is_zero() { w(0) } else { w(1) } > w(u128::MAX) { None } else { Some((y, !(x % w(d)).is_zero())) } });
	let got = <price::ConvertAmount<ViaRoute> as Convert<_, Option<(u128, EmaPrice)>>>::convert((own, to, mine)).map(|(x, p)| (x, p.n, p.d)); let told = if own == to { Some((mine, 1, 1)) } else { match &want { None => None, Some((y, rest)) => p.map(|(n, d)| ((*y + if *rest { w(1) } else { w(0) }).low_u128(), n, d)) } };
	c.check_in(Y, "conversion-tells-its-price", got == told, || format!("{mine} of {own} in {to}: {got:?}, expected {told:?}"));
	c.check_in(Y, "balance-converted-at-the-route-price", match want { None => bal == 0, Some((y, rest)) => w(bal) == if rest { y + w(1) } else { y }, } , || format!("{mine} of {own} in {to} at {p:?} is {bal}"));
}) }

// ---- what pools report ----
use pallet_omnipool::traits::{AssetInfo, OmnipoolHooks};
use pallet_omnipool::types::AssetReserveState;
use hydra_dx_math::omnipool::types::{AssetStateChange, BalanceUpdate};
use pallet_stableswap::types::{PoolState, StableswapHooks};
use pallet_dynamic_fees::traits::{Volume as _, VolumeProvider};
type OmniHook = OmnipoolHookAdapter<RuntimeOrigin, Native, Lrna, Rt>;
type OmniFees = OmnipoolHookAdapter<RuntimeOrigin, Native, Lrna, Rt>;
#[derive(Clone, Debug, PartialEq)]
struct Rep { price: (u128, u128), vol: [u128; 4], liq: [u128; 2] }
type Reports = BTreeMap<(Source, (u32, u32)), Rep>;
fn reports() -> Reports { pallet_ema_oracle::Accumulator::<Rt>::get().into_iter().map(|((s, k), e)| ((s, k), Rep { price: (e.price.n, e.price.d), vol: [e.volume.a_in, e.volume.b_out, e.volume.a_out, e.volume.b_in], liq: [e.liquidity.a, e.liquidity.b] })).collect() }
/// A report of a trade of `x` of `a` for `y` of `b`, or of a change of liquidity.
fn note(m: &mut Reports, s: Source, a: u32, b: u32, x: u128, y: u128, la: u128, lb: u128, p: (u128, u128), trade: bool) {
	let flip = a > b; let k = (s, (a.min(b), a.max(b))); let vol = if !trade { [0; 4] } else if flip { [0, 0, y, x] } else { [x, y, 0, 0] }; let old = m.get(&k).map(|o| o.vol).unwrap_or([0; 4]);
	let mut v = old; for i in 0..4 { v[i] = v[i].saturating_add(vol[i]); }
	m.insert(k, Rep { price: if flip && p.0 != 0 { (p.1, p.0) } else { p }, vol: v, liq: if flip { [lb, la] } else { [la, lb] } });
}
fn amt(r: &mut Rng) -> u128 { match r.idx(6) { 0 => r.range(1, 100), 1 => r.log(1, 1u128 << 100).max(1), _ => r.range(1_000_000, 1_000_000_000_000_000_000) } }
fn info(r: &mut Rng, a: u32) -> AssetInfo<u32, u128> {
	let st = |r: &mut Rng| AssetReserveState { reserve: amt(r), hub_reserve: amt(r), shares: amt(r), protocol_shares: amt(r), cap: 1, tradable: Default::default() };
	let (b, mut e) = (st(r), st(r)); if r.chance(1, 25) { e.reserve = 0; } let up = r.chance(1, 2);
	let part = |r: &mut Rng, v: u128| if r.chance(1, 8) { v } else { muldiv(v, r.range(1, 6000), 10_000).max(1) };
	let (dr, dh) = (part(r, b.reserve), part(r, b.hub_reserve));
	AssetInfo::new(a, &b, &e, &AssetStateChange { delta_reserve: if up { BalanceUpdate::Increase(dr) } else { BalanceUpdate::Decrease(dr) }, delta_hub_reserve: if up { BalanceUpdate::Decrease(dh) } else { BalanceUpdate::Increase(dh) }, delta_shares: BalanceUpdate::Increase(1), delta_protocol_shares: BalanceUpdate::Increase(0) }, r.chance(1, 3))
}
type Info = AssetInfo<u32, u128>;
fn dup(i: &Info) -> Info { AssetInfo { asset_id: i.asset_id, before: i.before.clone(), after: i.after.clone(), delta_changes: i.delta_changes.clone(), safe_withdrawal: i.safe_withdrawal } }
fn dbg(i: &Info) -> String { format!("{} {:?} {:?} {:?} safe {}", i.asset_id, i.before, i.after, i.delta_changes, i.safe_withdrawal) }
fn value(u: &BalanceUpdate<u128>) -> u128 { match u { BalanceUpdate::Increase(x) | BalanceUpdate::Decrease(x) => *x } }
fn breaker_state() -> Vec<u8> { use pallet_circuit_breaker as p; (p::AllowedTradeVolumeLimitPerAsset::<Rt>::iter().map(|(k, v)| (k, v.volume_in, v.volume_out, v.limit)).collect::<BTreeSet<_>>(), p::AllowedAddLiquidityAmountPerAsset::<Rt>::iter().map(|(k, v)| (k, v.liquidity, v.limit)).collect::<BTreeSet<_>>(), p::AllowedRemoveLiquidityAmountPerAsset::<Rt>::iter().map(|(k, v)| (k, v.liquidity, v.limit)).collect::<BTreeSet<_>>()).encode() }
fn tx<R>(f: impl FnOnce() -> Result<R, DispatchError>) -> Result<R, DispatchError> { with_transaction(|| { let r = f(); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } }) }
fn report_history(c: &mut Ctx) { fresh(|| {
	System::set_block_number(1); NoDust::set(Default::default()); Eds::set(Default::default()); Assets::set((0..12).map(|a| (a, 12)).collect());
	let r = &mut c.rng; Net::set((r.range(1, 10_000) as u32, 10_000)); AddL::set(r.chance(2, 3).then(|| (r.range(1, 10_000) as u32, 10_000))); RemL::set(r.chance(2, 3).then(|| (r.range(1, 10_000) as u32, 10_000)));
	RefPrice::set((0..8).filter(|_| r.chance(2, 3)).collect()); RefPct::set([r.ppm(400_000), r.ppm(400_000), 0]);
	for a in 0..8 { if a == 0 { give_native::<Rt>(&acc(0), 1 << 110); } else { give::<Rt>(&acc(0), a, 1 << 110); } } give_native::<Rt>(&Staking::pot_account_id(), 1000); give_native::<Rt>(&Referrals::pot_account_id(), 1000); for a in 1..8 { give::<Rt>(&Referrals::pot_account_id(), a, 1000); }
	if r.chance(2, 3) { give_native::<Rt>(&acc(9), 1 << 60); let _ = call(RuntimeCall::Staking(pallet_staking::Call::initialize_staking {}), RuntimeOrigin::root()); }
	let mut block = 1u32; let mut want: Reports = BTreeMap::new();
	for _ in 0..3 + c.rng.idx(14) {
		let r = &mut c.rng; let (a, b) = (2 + r.idx(4) as u32 * 2 % 7, r.idx(2) as u32 * 3); let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
		let (s0, b0) = (breaker_state(), book()); let before = want.clone(); let who = if r.chance(1, 10) { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(5)) };
		let sum = |x: &Reports| x.clone();
		let omni = primitives_consts::OMNI; let stable = primitives_consts::STABLE;
		match r.idx(7) {
			0 | 1 => {
				let (i, o) = (info(r, a), info(r, b)); c.event("trade"); c.distinct("trade", (i.delta_changes.delta_reserve.encode_(), a, b));
				let limit = what_if(|| { let x = Breaker::ensure_pool_state_change_limit(a, i.before.reserve, value(&i.delta_changes.delta_reserve), b, o.before.reserve, value(&o.delta_changes.delta_reserve)); (x.is_ok(), breaker_state()) });
				let sound = [i.after.reserve, i.after.hub_reserve, o.after.reserve, o.after.hub_reserve].iter().all(|x| *x > 0);
				let got = tx(|| OmniHook::on_trade(who, dup(&i), dup(&o)));
				if sound && limit.0 { note(&mut want, omni, a, 1, value(&i.delta_changes.delta_reserve), value(&i.delta_changes.delta_hub_reserve), i.after.reserve, i.after.hub_reserve, (i.after.reserve, i.after.hub_reserve), true); note(&mut want, omni, 1, b, value(&o.delta_changes.delta_hub_reserve), value(&o.delta_changes.delta_reserve), o.after.hub_reserve, o.after.reserve, (o.after.hub_reserve, o.after.reserve), true); }
				c.event(if got.is_ok() { "trade-reported" } else { "trade-stopped" });
				c.check_in(Y, "trade-stopped-only-by-the-breaker-or-empty-pools", got.is_ok() == (sound && limit.0), || format!("{got:?}, breaker {}, reserves {sound}", limit.0));
				c.check_in(Y, "breaker-sees-the-trade", breaker_state() == if got.is_ok() { limit.1 } else { s0 }, || format!("trade {} {}", dbg(&i), dbg(&o)));
			}
			2 => {
				let o = info(r, b.max(2)); let o_id = o.asset_id; c.event("hub-trade");
				let limit = what_if(|| { let x = Breaker::ensure_pool_state_change_limit(1, 0, 0, o_id, o.before.reserve, value(&o.delta_changes.delta_reserve)); (x.is_ok(), breaker_state()) });
				let sound = o.after.reserve > 0 && o.after.hub_reserve > 0; let got = tx(|| OmniHook::on_hub_asset_trade(who, dup(&o)));
				if sound && limit.0 { note(&mut want, omni, 1, o_id, value(&o.delta_changes.delta_hub_reserve), value(&o.delta_changes.delta_reserve), o.after.hub_reserve, o.after.reserve, (o.after.hub_reserve, o.after.reserve), true); }
				c.check_in(Y, "trade-stopped-only-by-the-breaker-or-empty-pools", got.is_ok() == (sound && limit.0), || format!("{got:?}, breaker {}, reserves {sound}", limit.0));
				c.check_in(Y, "breaker-sees-the-trade", breaker_state() == if got.is_ok() { limit.1 } else { s0 }, || format!("hub trade {}", dbg(&o)));
			}
			3 => {
				let i = info(r, a); let v = value(&i.delta_changes.delta_reserve); let up = matches!(i.delta_changes.delta_reserve, BalanceUpdate::Increase(_));
				let o = who.clone(); let limit = what_if(|| { let x = if up { Breaker::ensure_add_liquidity_limit(o, a, i.before.reserve, v).is_ok() } else if i.safe_withdrawal { true } else { Breaker::ensure_remove_liquidity_limit(o, a, i.before.reserve, v).is_ok() }; (x, breaker_state()) });
				let got = tx(|| OmniHook::on_liquidity_changed(who, dup(&i))); c.event(if got.is_ok() { "liquidity-reported" } else { "liquidity-stopped" });
				if limit.0 && a != 1 { note(&mut want, omni, a, 1, 0, 0, i.after.reserve, i.after.hub_reserve, (i.after.reserve, i.after.hub_reserve), false); }
				c.check_in(Y, "liquidity-stopped-only-by-the-breaker", got.is_ok() == limit.0, || format!("{got:?}, breaker {}: {}", limit.0, dbg(&i)));
				c.check_in(Y, "breaker-sees-the-liquidity", breaker_state() == if got.is_ok() { limit.1 } else { s0 }, || format!("liquidity {}", dbg(&i)));
			}
			4 => {
				let n = 2 + r.idx(3); let pool = 3 + 2 * r.idx(3) as u32; let mut ids: Vec<u32> = (4..12).filter(|x| x % 2 == 0).collect(); while ids.len() > n { let k = r.idx(ids.len()); ids.remove(k); }
				let mut s = PoolState { assets: ids.clone(), before: (0..n).map(|_| amt(r)).collect(), after: (0..n).map(|_| amt(r)).collect(), delta: (0..n).map(|_| if r.chance(1, 3) { 0 } else { amt(r) }).collect(), issuance_before: amt(r), issuance_after: amt(r), share_prices: (0..n).map(|_| (amt(r), amt(r))).collect() };
				let short = r.chance(1, 12); if short { match r.idx(4) { 0 => { s.before.pop(); } 1 => { s.after.pop(); } 2 => { s.delta.pop(); } _ => { s.share_prices.pop(); } } }
				let trade = r.chance(1, 2); let hollow = trade && !short && (s.after.iter().any(|x| *x == 0) || s.issuance_after == 0);
				let got = tx(|| if trade { StableswapHooksAdapter::<Rt>::on_trade(pool, ids[0], ids[1], s.clone()) } else { StableswapHooksAdapter::<Rt>::on_liquidity_changed(pool, s.clone()) });
				if got.is_ok() { for k in 0..n { note(&mut want, stable, ids[k], pool, s.delta[k], 0, s.after[k], s.issuance_after, s.share_prices[k], trade); } }
				c.event(if got.is_ok() { "stable-reported" } else { "stable-refused" });
				c.check_in(Y, "stable-report-of-matching-lengths", got.is_ok() == (!short && !hollow), || format!("{got:?}: {s:?}"));
			}
			5 => {
				let asset = r.idx(8) as u32; let v = amt(r).min(1 << 100); let (from, trader) = (acc(0), acc(5));
				let e = what_if(|| (|| -> Result<(u128, Moves), DispatchError> { if asset == 1 { return Ok((0, Moves::new())); } let x = if asset == 0 { 0 } else { Referrals::process_trade_fee(from.clone(), trader.clone(), asset, v)? }; let y = Staking::process_trade_fee(from.clone(), asset, v.saturating_sub(x))?; Ok((x + y, b0.moved(&book()))) })());
				let got = tx(|| OmniFees::on_trade_fee(from.clone(), trader.clone(), asset, v)); let m = b0.moved(&book()); let gone = 0u128.saturating_add((-m.get(&from, asset)).max(0) as u128);
				c.event(match &got { Ok(0) => "fee-not-used", Ok(_) => "fee-used", Err(_) => "fee-failed" });
				c.check_in(Y, "fee-goes-to-referrals-then-staking", match (&got, &e) { (Ok(x), Ok((y, em))) => x == y && m == *em, (Err(_), Err(_)) => m.is_empty(), _ => false }, || format!("fee of {v} of {asset}: {got:?}, moved {m:?}, expected {e:?}"));
				c.check_in(Y, "fee-use-is-what-left-the-fee-account", got.as_ref().map_or(true, |x| *x == gone && *x <= v), || format!("fee of {v} of {asset}: {got:?} reported, {gone} taken"));
			}
			_ => {
				// a new block: the reports become the oracle's entries
				<Oracle as frame_support::traits::OnFinalize<_>>::on_finalize(block); <Breaker as frame_support::traits::OnFinalize<_>>::on_finalize(block); block += 1; System::set_block_number(block); want.clear(); <Breaker as frame_support::traits::OnInitialize<_>>::on_initialize(block); <Oracle as frame_support::traits::OnInitialize<_>>::on_initialize(block); c.event("block");
				let asset = 2 * c.rng.idx(4) as u32; let e = Oracle::get_entry(asset, 1, OraclePeriod::Short, omni).ok(); let v = <OracleAssetVolumeProvider<Rt, Lrna, Per> as VolumeProvider<u32, u128>>::asset_volume(asset); let l = <OracleAssetVolumeProvider<Rt, Lrna, Per> as VolumeProvider<u32, u128>>::asset_liquidity(asset);
				c.check_in("C11 C42", "fee-volume-is-the-oracles", v.as_ref().map(|v| (v.amount_in(), v.amount_out())) == e.as_ref().map(|e| (e.volume.a_in, e.volume.a_out)) && l == e.as_ref().map(|e| e.liquidity.a), || format!("asset {asset}: {:?} {l:?}, oracle {e:?}", v.map(|v| (v.amount_in(), v.amount_out()))));
				if e.is_some() { c.event("volume-read"); }
			}
		}
		let now = reports(); let want_now = sum(&want);
		c.check_in(Y, "oracle-gets-the-true-report", now == want_now, || format!("reports {now:?}, expected {want_now:?} (before {before:?})"));
		if c.failed() { return; }
	}
	// locks as other pallets read them
	let r = &mut c.rng; let who = acc(6); let (x, y, z) = (r.range(1, 1000), r.range(1, 1000), r.range(1, 1000)); give_native::<Rt>(&who, 5000); give::<Rt>(&who, 3, 5000);
	use frame_support::traits::{LockableCurrency, WithdrawReasons}; use orml_traits::MultiLockableCurrency;
	let (n1, n2, n3) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
	if n1 { <Balances as LockableCurrency<Acc>>::set_lock(orml_vesting::VESTING_LOCK_ID, &who, x, WithdrawReasons::all()); } if n2 { <Balances as LockableCurrency<Acc>>::set_lock(*b"otherlck", &who, y, WithdrawReasons::all()); } if n3 { let _ = <Tokens as MultiLockableCurrency<Acc>>::set_lock(*b"otherlck", 3, &who, z); }
	let v = <VestingInfo<Rt> as pallet_staking::traits::VestingDetails<Acc, u128>>::locked(who.clone()); type L = MultiCurrencyLockedBalance<Rt, Native>;
	let got = (v, L::get_by_lock(*b"otherlck", 0, who.clone()), L::get_by_lock(*b"otherlck", 3, who.clone()), L::get_by_lock(*b"nolock##", 0, who.clone())); let want = (if n1 { x } else { 0 }, if n2 { y } else { 0 }, if n3 { z } else { 0 }, 0);
	c.event("locks"); c.check_in(Y, "locks-read-as-set", got == want, || format!("locks read {got:?}, set {want:?}"));
	type I = inspect::MultiInspectAdapter<Acc, u32, u128, Balances, Tokens, Native>; use frame_support::traits::fungibles::Inspect; use frame_support::traits::tokens::{Fortitude, Preservation};
	for a in [0u32, 3] { let (f, p) = ([Fortitude::Polite, Fortitude::Force][c.rng.idx(2)], [Preservation::Expendable, Preservation::Protect, Preservation::Preserve][c.rng.idx(3)]);
		let got = (I::total_issuance(a), I::balance(a, &who), I::total_balance(a, &who), I::reducible_balance(a, &who, p, f), I::minimum_balance(a)); type F = FungibleCurrencies<Rt>;
		let want = (F::total_issuance(a), F::balance(a, &who), F::total_balance(a, &who), F::reducible_balance(a, &who, p, f), F::minimum_balance(a)); c.check_in(Y, "balances-read-as-held", got == want, || format!("asset {a}: {got:?} {want:?}")); }
}) }
trait Enc { fn encode_(&self) -> u128; } impl Enc for BalanceUpdate<u128> { fn encode_(&self) -> u128 { value(self) } }

fn xcm_(m: &mut Monitor) {
	m.workload("trader", 60_000, 1_000_000, trader_history); for (e, n) in [("bought", 2000), ("not-bought", 1000), ("refunded", 1000), ("message-ended", 5000)] { m.expect(&format!("trader/{e}"), n); }
	m.workload("exchange", 12_000, 200_000, swap_history); for (e, n) in [("sold", 500), ("bought", 500), ("refused", 500)] { m.expect(&format!("exchange/{e}"), n); }
	m.workload("landing", 24_000, 400_000, landing_history); for (e, n) in [("rerouted", 300), ("trapped", 100), ("unknown", 300), ("withdrawn", 500), ("transferred", 500)] { m.expect(&format!("landing/{e}"), n); }
	m.workload("filter", 120_000, 2_000_000, filter_case); for (e, n) in [("let-through", 1000), ("held-back", 1000), ("one-too-deep", 100), ("one-too-many", 100), ("just-enough", 100), ("just-deep-enough", 100)] { m.expect(&format!("filter/{e}"), n); }
}
fn prices_(m: &mut Monitor) {
	m.workload("routes", 40_000, 400_000, route_price); for (e, n) in [("hop-priced", 5000), ("route-priced", 2000), ("route-missing", 300), ("fee-price", 500), ("fallback-price", 100), ("balance-converted", 500)] { m.expect(&format!("routes/{e}"), n); }
	m.workload("reports", 16_000, 250_000, report_history); for (e, n) in [("trade-reported", 1000), ("trade-stopped", 300), ("hub-trade", 1000), ("liquidity-reported", 1000), ("liquidity-stopped", 100), ("stable-reported", 1000), ("fee-used", 300), ("volume-read", 500)] { m.expect(&format!("reports/{e}"), n); }
}
fn main() { mon_core::run!(1.0, "each message, route and report once, with random prices, limits and failures", ["stand-ins for FRAME, XCM and ORML", "the router's own pools are replaced by a constant-product market"]; "C41" => xcm_, "C42" => prices_, "C11" => prices_); }

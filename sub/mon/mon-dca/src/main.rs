//! Dollar-cost averaging: random schedules, prices, oracles and router faults over many blocks, judged on every balance, reserve and stored plan.
use frame_support::weights::{Weight, WeightToFee};
use hydradx_traits::router::{AmmTradeWeights, AmountInAndOut, AssetPair, PoolType, RouteProvider, RouterT, Trade};
use hydradx_traits::{NativePriceOracle, OraclePeriod, PriceOracle};
use mon_core::big::w;
use mon_frame::*;
use pallet_dca::types::{Order, Schedule};
use pallet_dca::{Call, Error, Event};
use sp_runtime::TokenError;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Dca: pallet_dca });
base!(Rt, (), DustWhite);
type Hop = Trade<u32>;
type Rational = (u128, u128);
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault { QuoteBusy, QuoteBad, TradeBusy, TradeBad }
param! {
	Spot: BTreeMap<(u32, u32), Rational> = Default::default(); Last: BTreeMap<(u32, u32), Rational> = Default::default(); Short: BTreeMap<(u32, u32), Rational> = Default::default(); NativeOf: BTreeMap<u32, Rational> = Default::default();
	Faults: BTreeMap<(u32, u32), Fault> = Default::default(); PerBlock: u32 = 3; MaxDiff: Permill = Permill::from_percent(5); Retries: u8 = 3; MinTrade: u128 = 100; MinBudget: u128 = 1000; SellFee: u128 = 10; BuyFee: u128 = 12; HopFee: u128 = 3;
	Parent: Option<H256> = None; Routes: Vec<(bool, Vec<Hop>)> = vec![]; TwoHop: bool = false;
}
parameter_types! { pub const Native: u32 = 0; pub const Named: [u8; 8] = *b"dcaorder"; }
pub struct Receiver; impl Get<Acc> for Receiver { fn get() -> Acc { acc(50) } }
fn pool() -> Acc { acc(60) }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
fn price_of(m: &BTreeMap<(u32, u32), Rational>, r: &[Hop]) -> Option<Rational> { m.get(&(r.first()?.asset_in, r.last()?.asset_out)).copied() }
pub struct Oracle;
impl PriceOracle<u32> for Oracle { type Price = hydra_dx_math::ema::EmaPrice; fn price(r: &[Hop], p: OraclePeriod) -> Option<Self::Price> { match p { OraclePeriod::LastBlock => Last::with(|m| price_of(m, r)), OraclePeriod::Short => Short::with(|m| price_of(m, r)), _ => None }.map(|(n, d)| Self::Price { n, d }) } }
impl NativePriceOracle<u32, hydra_dx_math::ema::EmaPrice> for Oracle { fn price(c: u32) -> Option<hydra_dx_math::ema::EmaPrice> { NativeOf::with(|m| m.get(&c).map(|x| hydra_dx_math::ema::EmaPrice { n: x.0, d: x.1 })) } }
pub struct Provider;
fn default_route(a: u32, b: u32) -> Vec<Hop> { let t = |i, o| Trade { pool: PoolType::XYK, asset_in: i, asset_out: o }; if TwoHop::get() { vec![t(a, 77), t(77, b)] } else { vec![t(a, b)] } }
impl RouteProvider<u32> for Provider { fn get_route(p: AssetPair<u32>) -> Vec<Hop> { default_route(p.asset_in, p.asset_out) } }
const BUSY: DispatchError = DispatchError::Token(TokenError::Frozen);
const BAD: DispatchError = DispatchError::Token(TokenError::Blocked);
pub struct Retryable; impl frame_support::traits::Contains<DispatchError> for Retryable { fn contains(e: &DispatchError) -> bool { *e == BUSY } }
fn ends(r: &[Hop]) -> (u32, u32) { (r[0].asset_in, r[r.len() - 1].asset_out) }
fn quote_sell(k: (u32, u32), amt: u128) -> Option<u128> { if amt == 0 { return None; } let (n, d) = Spot::with(|m| m.get(&k).copied())?; let x = w(amt) * w(n) / w(d); if x > w(u128::MAX) { None } else { Some(x.low_u128()) } }
fn quote_buy(k: (u32, u32), amt: u128) -> Option<u128> { if amt == 0 { return None; } let (n, d) = Spot::with(|m| m.get(&k).copied())?; let x = (w(amt) * w(d) + w(n - 1)) / w(n); if x > w(u128::MAX) { None } else { Some(x.low_u128()) } }
fn fault(k: (u32, u32)) -> Option<Fault> { Faults::with(|m| m.get(&k).copied()) }
fn quoting(k: (u32, u32)) -> Result<(), DispatchError> { match fault(k) { Some(Fault::QuoteBusy) => Err(BUSY), Some(Fault::QuoteBad) => Err(BAD), _ => Ok(()) } }
fn trading(k: (u32, u32)) -> Result<(), DispatchError> { match fault(k) { Some(Fault::TradeBusy) => Err(BUSY), Some(Fault::TradeBad) => Err(BAD), _ => Ok(()) } }
pub struct Router;
/// One price per pair of ends; the amounts of the hops in between are arbitrary.
impl RouterT<RuntimeOrigin, u32, u128, Hop, AmountInAndOut<u128>> for Router {
	fn sell(o: RuntimeOrigin, a: u32, b: u32, amt: u128, limit: u128, r: Vec<Hop>) -> DispatchResult { let who = frame_system::ensure_signed(o)?; Routes::with(|v| v.push((false, r.clone()))); let out = quote_sell((a, b), amt).ok_or(BAD)?; if out < limit || ends(&r) != (a, b) { return Err(BAD); } Currencies::transfer(RuntimeOrigin::signed(who.clone()), pool(), a, amt)?; trading((a, b))?; <Currencies as MultiCurrency<Acc>>::transfer(b, &pool(), &who, out) }
	fn buy(o: RuntimeOrigin, a: u32, b: u32, amt: u128, limit: u128, r: Vec<Hop>) -> DispatchResult { let who = frame_system::ensure_signed(o)?; Routes::with(|v| v.push((true, r.clone()))); let inn = quote_buy((a, b), amt).ok_or(BAD)?; if inn > limit || ends(&r) != (a, b) { return Err(BAD); } <Currencies as MultiCurrency<Acc>>::transfer(a, &who, &pool(), inn)?; trading((a, b))?; <Currencies as MultiCurrency<Acc>>::transfer(b, &pool(), &who, amt) }
	fn calculate_sell_trade_amounts(r: &[Hop], amt: u128) -> Result<Vec<AmountInAndOut<u128>>, DispatchError> { let k = ends(r); quoting(k)?; let out = quote_sell(k, amt).ok_or(BAD)?; let n = r.len(); Ok((0..n).map(|i| AmountInAndOut { amount_in: if i == 0 { amt } else { 3 }, amount_out: if i + 1 == n { out } else { u128::MAX } }).collect()) }
	/// in the order the router gives: last hop first
	fn calculate_buy_trade_amounts(r: &[Hop], amt: u128) -> Result<Vec<AmountInAndOut<u128>>, DispatchError> { let k = ends(r); quoting(k)?; let inn = quote_buy(k, amt).ok_or(BAD)?; let n = r.len(); Ok((0..n).rev().map(|i| AmountInAndOut { amount_in: if i == 0 { inn } else { 3 }, amount_out: if i + 1 == n { amt } else { u128::MAX } }).collect()) }
	fn set_route(_: RuntimeOrigin, _: AssetPair<u32>, _: Vec<Hop>) -> frame_support::dispatch::DispatchResultWithPostInfo { Err(BAD.into()) }
	fn force_insert_route(_: RuntimeOrigin, _: AssetPair<u32>, _: Vec<Hop>) -> frame_support::dispatch::DispatchResultWithPostInfo { Err(BAD.into()) }
}
pub struct Fee; impl WeightToFee for Fee { type Balance = u128; fn weight_to_fee(x: &Weight) -> u128 { x.ref_time() as u128 } }
fn wt(x: u128) -> Weight { Weight::from_parts(x as u64, 0) }
pub struct Weights;
impl pallet_dca::WeightInfo for Weights { fn on_initialize_with_buy_trade() -> Weight { wt(BuyFee::get()) } fn on_initialize_with_sell_trade() -> Weight { wt(SellFee::get()) } fn on_initialize_with_empty_block() -> Weight { wt(1) } fn schedule() -> Weight { wt(1) } fn terminate() -> Weight { wt(1) } }
impl AmmTradeWeights<Hop> for Weights {
	fn sell_weight(_: &[Hop]) -> Weight { wt(1) } fn buy_weight(_: &[Hop]) -> Weight { wt(1) } fn calculate_buy_trade_amounts_weight(_: &[Hop]) -> Weight { wt(1) } fn set_route_weight(_: &[Hop]) -> Weight { wt(1) } fn force_insert_route_weight() -> Weight { wt(1) } fn get_route_weight() -> Weight { wt(1) } fn calculate_spot_price_with_fee_weight(_: &[Hop]) -> Weight { wt(1) }
	fn sell_and_calculate_sell_trade_amounts_weight(r: &[Hop]) -> Weight { wt(HopFee::get() * r.len() as u128) } fn buy_and_calculate_buy_trade_amounts_weight(r: &[Hop]) -> Weight { wt(2 * HopFee::get() * r.len() as u128) }
}
pub struct ParentHash; impl hydradx_adapters::RelayChainBlockHashProvider for ParentHash { fn parent_hash() -> Option<H256> { Parent::get() } }
impl pallet_dca::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type TechnicalOrigin = EnsureRoot<Acc>; type Currencies = Currencies; type RelayChainBlockHashProvider = ParentHash; type RandomnessProvider = Dca; type OraclePriceProvider = Oracle; type NativePriceOracle = Oracle; type RouteExecutor = Router; type RouteProvider = Provider; type RetryOnError = Retryable;
	type MaxPriceDifferenceBetweenBlocks = MaxDiff; type MaxSchedulePerBlock = PerBlock; type MaxNumberOfRetriesOnError = Retries; type MinimumTradingLimit = MinTrade; type NativeAssetId = Native; type MinBudgetInNativeCurrency = MinBudget; type FeeReceiver = Receiver; type NamedReserveId = Named; type WeightToFee = Fee; type AmmTradeWeights = Weights; type WeightInfo = Weights;
}
const P: &str = "C25";
type Sched = Schedule<Acc, u32, u32>;
#[derive(Clone, Debug, PartialEq)]
struct Item { s: Sched, left: u128, tries: u8 }
#[derive(Clone, Default)]
struct Model { items: BTreeMap<u32, Item>, plan: BTreeMap<u32, Vec<u32>>, next: u32 }
fn book() -> Book { Book::all::<Rt>() }
fn kind(o: &Order<u32>) -> (bool, u32, u32) { match o { Order::Sell { asset_in, asset_out, .. } => (false, *asset_in, *asset_out), Order::Buy { asset_in, asset_out, .. } => (true, *asset_in, *asset_out) } }
fn route_of(o: &Order<u32>) -> Vec<Hop> { let (_, a, b) = kind(o); let r = match o { Order::Sell { route, .. } | Order::Buy { route, .. } => route.to_vec() }; if r.is_empty() { default_route(a, b) } else { r } }
fn in_asset(native: u128, asset: u32) -> Option<u128> { if asset == NATIVE { return Some(native); } let (n, d) = NativeOf::with(|m| m.get(&asset).copied())?; if d == 0 { return None; } let x = (w(native) * w(n) + w(d - 1)) / w(d); if x > w(u128::MAX) { None } else { Some(x.low_u128()) } }
fn fee_of(o: &Order<u32>) -> Option<u128> { let h = HopFee::get() * route_of(o).len() as u128; let (buy, a, _) = kind(o); in_asset(if buy { BuyFee::get() + 2 * h } else { SellFee::get() + h }, a) }
/// an oracle price to 18 decimals, if it is one
fn fixed(p: Option<Rational>) -> Option<u128> { let (n, d) = p?; if d == 0 { return None; } let x = w(n) * w(10u128.pow(18)) / w(d); if x > w(u128::MAX) { None } else { Some(x.low_u128()) } }
/// Some(true): unstable beyond doubt; None: at the rounding of the last decimal
fn unstable(s: &Sched) -> Option<bool> {
	let k = kind(&s.order); let k = (k.1, k.2);
	let (Some(a), Some(b)) = (fixed(Last::with(|m| m.get(&k).copied())), fixed(Short::with(|m| m.get(&k).copied()))) else { return Some(true) };
	if a > u128::MAX / 4 || b > u128::MAX / 4 { return None; }
	let diff = w(a.abs_diff(b)) * w(2_000_000); let max = w(s.stability_threshold.unwrap_or(MaxDiff::get()).deconstruct() as u128) * (w(a) + w(b));
	if diff > max + w(4_000_000) { Some(true) } else if diff + w(4_000_000) <= max || a == b { Some(false) } else { None }
}
/// the amount the last block's price predicts, and its uncertainty; the price of the ends in the given order
fn estimate(k: (u32, u32), amt: u128) -> Option<(u128, u128)> { let p = fixed(Last::with(|m| m.get(&k).copied()))?; let x = w(p) * w(amt) / w(10u128.pow(18)); if x > w(u128::MAX / 4) { None } else { Some((x.low_u128(), 1 + amt / 10u128.pow(18))) } }
#[derive(Debug, PartialEq)]
enum Trial { Done(u128, u128), Limit, Err(DispatchError), NoEstimate, Unknown }
/// what the instructions say about the trade now, with `left` to spend
fn trial(s: &Sched, left: u128) -> Trial {
	let (_, a, b) = kind(&s.order); let slip = |x: u128| s.slippage.unwrap_or(MaxDiff::get()).mul_floor(x);
	match &s.order {
		Order::Sell { amount_in, min_amount_out, .. } => {
			let amt = left.min(*amount_in); let Some((est, tol)) = estimate((b, a), amt) else { return Trial::NoEstimate };
			if let Err(e) = quoting((a, b)) { return Trial::Err(e); } let Some(out) = quote_sell((a, b), amt) else { return Trial::Err(BAD) };
			let limit = est - slip(est); if out < *min_amount_out || out + tol < limit { return Trial::Limit; } if out < limit + tol && out >= limit.saturating_sub(tol) && tol > 1 { return Trial::Unknown; } if out < limit { return Trial::Limit; }
			match trading((a, b)) { Err(e) => Trial::Err(e), Ok(()) => Trial::Done(amt, out) }
		}
		Order::Buy { amount_out, max_amount_in, .. } => {
			if let Err(e) = quoting((a, b)) { return Trial::Err(e); } let Some(inn) = quote_buy((a, b), *amount_out) else { return Trial::Err(BAD) };
			if inn > left { return Trial::Err(Error::<Rt>::InvalidState.into()); }
			let Some((est, tol)) = estimate((a, b), *amount_out) else { return Trial::NoEstimate };
			let limit = est.saturating_add(slip(est)); if inn > *max_amount_in || inn > limit.saturating_add(tol) { return Trial::Limit; } if tol > 1 && inn >= limit.saturating_sub(tol) { return Trial::Unknown; } if inn > limit { return Trial::Limit; }
			match trading((a, b)) { Err(e) => Trial::Err(e), Ok(()) => Trial::Done(inn, *amount_out) }
		}
	}
}
impl Model {
	fn full(&self, b: u32) -> bool { self.plan.get(&b).map_or(0, |v| v.len()) >= PerBlock::get() as usize }
	/// a schedule was put into block `got` when `asked` was wanted
	fn put(&mut self, c: &Ctx, id: u32, asked: u32, got: u32) { c.check_in(P, "planned-when-due", if self.full(asked) { got > asked && !self.full(got) } else { got == asked }, || format!("{id} due at {asked} (full: {}) is planned for {got} (full: {})", self.full(asked), self.full(got))); self.plan.entry(got).or_default().push(id); }
	fn crowded(&self) -> bool { self.plan.keys().filter(|b| self.full(**b)).count() >= 11 }
}
fn state(c: &Ctx, m: &Model) {
	use pallet_dca::{RemainingAmounts, RetriesOnError, ScheduleIdSequencer, ScheduleIdsPerBlock, ScheduleOwnership, Schedules};
	let stored: BTreeMap<u32, Item> = Schedules::<Rt>::iter().map(|(k, s)| (k, Item { s, left: RemainingAmounts::<Rt>::get(k).unwrap_or(u128::MAX), tries: RetriesOnError::<Rt>::get(k) })).collect();
	c.check_in(P, "schedules-as-expected", stored == m.items && ScheduleIdSequencer::<Rt>::get() == m.next, || format!("stored {stored:?}, expected {:?}", m.items));
	let owned: BTreeSet<(Acc, u32)> = ScheduleOwnership::<Rt>::iter().map(|(a, i, _)| (a, i)).collect();
	c.check_in(P, "nothing-orphaned", owned == m.items.iter().map(|(k, v)| (v.s.owner.clone(), *k)).collect() && RemainingAmounts::<Rt>::iter().all(|x| m.items.contains_key(&x.0)) && RetriesOnError::<Rt>::iter().all(|x| m.items.contains_key(&x.0)), || format!("owners {owned:?}"));
	let sorted = |x: Vec<u32>| { let mut x = x; x.sort(); x };
	let plan: BTreeMap<u32, Vec<u32>> = ScheduleIdsPerBlock::<Rt>::iter().filter(|x| !x.1.is_empty()).map(|(b, v)| (b, sorted(v.to_vec()))).collect(); let want: BTreeMap<u32, Vec<u32>> = m.plan.iter().filter(|x| !x.1.is_empty()).map(|(b, v)| (*b, sorted(v.clone()))).collect();
	c.check_in(P, "each-planned-once", plan == want && sorted(plan.values().flatten().copied().collect()) == m.items.keys().copied().collect::<Vec<_>>(), || format!("planned {plan:?}, expected {want:?} for {:?}", m.items.keys()));
	let mut sums: BTreeMap<(Acc, u32), u128> = BTreeMap::new(); for i in m.items.values() { *sums.entry((i.s.owner.clone(), kind(&i.s.order).1)).or_default() += i.left; }
	for i in 1..=4u8 { for a in 0..4u32 { let (r, e) = (Currencies::reserved_balance_named(&Named::get(), a, &acc(i)), sums.get(&(acc(i), a)).copied().unwrap_or(0)); c.check_in("C17 C25", "reserve-is-the-remaining-budget", r == e, || format!("#{i} has {r} of {a} reserved, schedules have {e} left")); } }
	let b = book().balanced(); c.check_in("C17 C25", "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn moved_prices(r: &mut Rng, wild: bool) {
	for a in 0..4u32 { for b in 0..4u32 { if a == b { continue; }
		let base = |x: u32| [1_000_000u128, 50_000, 30_000_000, 7_777][x as usize]; let (n, d) = (base(a), base(b));
		let jig = |r: &mut Rng, p: u64| -> (u128, u128) { let e = match r.idx(if wild { 8 } else { 40 }) { 0 => r.range(0, 400_000) as i128 - 200_000, 1 => if r.chance(1, 2) { 50_000 } else { -50_000 }, _ => r.range(0, p as u128 * 2) as i128 - p as i128 }; ((n as i128 * (1_000_000 + e)) as u128, d * 1_000_000) };
		let s = jig(r, 5_000); Spot::with(|m| m.insert((a, b), s));
		// an oracle price of (a, b) is how much `a` one `b` costs
		let l = jig(r, 12_000); let l = (l.1, l.0); let sh = jig(r, 12_000); let sh = (sh.1, sh.0);
		let rare = |r: &mut Rng, x: Rational| match r.idx(400) { 0 => None, 1 => Some((x.0, 0)), 2 => Some((0, x.1)), _ => Some(x) };
		match rare(r, l) { Some(x) => { Last::with(|m| m.insert((a, b), x)); } None => { Last::with(|m| m.remove(&(a, b))); } }
		let sh = if r.chance(1, 8) { l } else { sh }; match rare(r, sh) { Some(x) => { Short::with(|m| m.insert((a, b), x)); } None => { Short::with(|m| m.remove(&(a, b))); } }
	} if a > 0 { let base = [1_000_000u128, 50_000, 30_000_000, 7_777]; let x = (base[0] * (900_000 + r.range(0, 200_000)), base[a as usize] * 1_000_000); if r.chance(1, 60) { NativeOf::with(|m| m.remove(&a)); } else { NativeOf::with(|m| m.insert(a, match r.idx(120) { 0 => (x.0, 0), 1 => (x.0 * 40, x.1), _ => x })); } } }
	Faults::set(Default::default());
	if r.chance(1, 6) { for _ in 0..1 + r.idx(4) { let k = (r.idx(4) as u32, r.idx(4) as u32); let f = [Fault::QuoteBusy, Fault::QuoteBad, Fault::TradeBusy, Fault::TradeBad, Fault::TradeBusy][r.idx(5)]; Faults::with(|m| m.insert(k, f)); } }
}
fn place(c: &mut Ctx, m: &mut Model, now: u32) {
	let r = &mut c.rng; let owner = acc(1 + r.idx(4) as u8); let who = if r.chance(1, 20) { acc(1 + r.idx(4) as u8) } else { owner.clone() };
	let a = r.idx(4) as u32; let b = (a + 1 + r.idx(3) as u32) % 4; let before = book(); let t = |i, o| Trade { pool: PoolType::Stableswap(9), asset_in: i, asset_out: o };
	let route: Vec<Hop> = match r.idx(4) { 0 => vec![t(a, b)], 1 => vec![t(a, 50), t(50, 51), t(51, b)], _ => vec![] };
	let fee = in_asset(SellFee::get(), a).unwrap_or(100); let amt = match r.idx(8) { 0 => fee * 20 + 60 * (r.idx(3) as u128), 1 => MinTrade::get() + r.idx(2) as u128 - 1, 2 => r.log(1, 10u128.pow(15)), _ => r.log(fee * 30 + 1, (before.free(&owner, a) / 8).max(fee * 40)) };
	let spot = Spot::with(|x| x[&(a, b)]); let out = muldiv(amt, spot.0, spot.1);
	let order = if r.chance(1, 2) { Order::Sell { asset_in: a, asset_out: b, amount_in: amt, min_amount_out: match r.idx(4) { 0 => out, 1 => muldiv(out, 98, 100), _ => 0 }, route: route.try_into().unwrap() } } else { Order::Buy { asset_in: a, asset_out: b, amount_out: out, max_amount_in: match r.idx(4) { 0 => amt, 1 => muldiv(amt, 102, 100), _ => u128::MAX }, route: route.try_into().unwrap() } };
	let total = match r.idx(12) { 0 => amt.saturating_add(fee_of(&order).unwrap_or(0)).saturating_sub(r.idx(2) as u128), 1 => in_asset(MinBudget::get(), a).unwrap_or(1).saturating_sub(r.idx(2) as u128), 2 => before.free(&owner, a).saturating_add(r.idx(2) as u128), 3 => r.log(1, u128::MAX), _ => amt.saturating_mul(1 + r.range(0, 12)).saturating_add(fee * r.range(0, 20)).min(before.free(&owner, a) / 2) };
	let opt = |r: &mut Rng, v: Permill| if r.chance(1, 2) { None } else { Some(v) };
	let (p1, p2) = (Permill::from_parts(r.range(0, 60_000) as u32), Permill::from_parts(r.log(1, 1_000_000) as u32));
	let s = Schedule { owner, period: match r.idx(20) { 0 => 0, 1 => u32::MAX, 2 => u32::MAX - now, _ => r.range(1, 15) as u32 }, total_amount: total, max_retries: if r.chance(1, 2) { None } else { Some(r.idx(5) as u8) }, stability_threshold: opt(r, p1), slippage: opt(r, p2), order };
	let start = match r.idx(6) { 0 => Some(now + r.idx(3) as u32), 1 => Some(now.saturating_sub(1)), 2 => Some(now + 3), 3 => Some(now + r.range(1, 20) as u32), _ => None }; let due = start.unwrap_or(now + 1);
	let quote = match &s.order { Order::Sell { amount_in, .. } => Some(*amount_in), Order::Buy { amount_out, .. } => if quoting((a, b)).is_ok() { quote_buy((a, b), *amount_out) } else { None } };
	let fine = who == s.owner && (|| Some(total >= in_asset(MinBudget::get(), a)? && { let (q, f) = (quote?, fee_of(&s.order)?); q >= f.saturating_mul(20) && q >= MinTrade::get() && q.checked_add(f)? <= total }))().unwrap_or(false) && before.free(&s.owner, a) >= total && due > now;
	let edge = a == NATIVE && before.free(&s.owner, a) - total.min(before.free(&s.owner, a)) < ed(0);
	let _ = take_events::<Rt>(); let root = raw(); let res = call(RuntimeCall::Dca(Call::schedule { schedule: s.clone(), start_execution_block: start }), RuntimeOrigin::signed(who.clone())); let ev = take_events::<Rt>(); let after = book();
	c.log(|| format!("[{now}] {} schedules {s:?} from {start:?} -> {}", nm(&who), res.as_ref().err().map_or("ok".into(), err)));
	if let Err(e) = res { c.event("schedule-refused"); c.check_in(P, "good-schedules-are-taken", !fine || edge || (e == Error::<Rt>::NoFreeBlockFound.into() && m.full(due) && m.crowded()), || format!("{}", err(&e))); c.check_in(P, "refusal-changes-nothing", raw() == root, || "state differs".into()); return; }
	if !c.check_in(P, "schedule-within-the-rules", fine, || format!("{s:?} by {} from {start:?} was accepted: min budget {:?}, fee {:?}, quote {quote:?}", nm(&who), in_asset(MinBudget::get(), a), fee_of(&s.order))) { return; }
	c.event("scheduled"); c.nontrivial(&[kind(&s.order).0 as u128, a as u128, b as u128, total.max(1).ilog2() as u128]);
	let id = m.next; m.next += 1; let at = ev.iter().find_map(|e| match e { RuntimeEvent::Dca(Event::ExecutionPlanned { id: i, who, block }) if *i == id && *who == s.owner => Some(*block), _ => None });
	let Some(at) = at else { { c.check_in(P, "planning-is-announced", false, || format!("{ev:?}")); return } };
	if at != due { c.event("moved-to-a-later-block"); } m.put(c, id, due, at);
	c.check_in("C17 C25", "budget-is-reserved", before.moved(&after) == Moves::new().sub(&s.owner, a, total) && before.moved_reserved(&after) == Moves::new().add(&s.owner, a, total), || format!("{:?} {:?}", before.moved(&after), before.moved_reserved(&after)));
	m.items.insert(id, Item { left: total, tries: 0, s });
}
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn stop(c: &mut Ctx, m: &mut Model, now: u32) {
	let id = match (c.rng.idx(12), m.items.len()) { (0, _) | (_, 0) => m.next.saturating_sub(c.rng.idx(4) as u32), (_, n) => *m.items.keys().nth(c.rng.idx(n)).unwrap() };
	let at = m.plan.iter().find(|x| x.1.contains(&id)).map(|x| *x.0); let owner = m.items.get(&id).map(|i| i.s.owner.clone());
	let (origin, by) = match c.rng.idx(6) { 0 => (RuntimeOrigin::root(), None), 1 => { let x = acc(1 + c.rng.idx(4) as u8); (RuntimeOrigin::signed(x.clone()), Some(x)) } _ => { let x = owner.clone().unwrap_or(acc(1)); (RuntimeOrigin::signed(x.clone()), Some(x)) } };
	let block = match c.rng.idx(8) { 0 => None, 1 => Some(now + c.rng.idx(4) as u32), _ => at }; let good = at.is_some() && (by.is_none() || by == owner) && at == Some(block.unwrap_or(now + 1));
	let _ = take_events::<Rt>(); let (before, root) = (book(), raw()); let res = call(RuntimeCall::Dca(Call::terminate { schedule_id: id, next_execution_block: block }), origin); let _ = take_events::<Rt>(); let after = book();
	c.log(|| format!("[{now}] {:?} terminates {id} planned {at:?} giving {block:?} -> {}", by.as_ref().map(nm), res.as_ref().err().map_or("ok".into(), err)));
	if let Err(e) = res { c.event("termination-refused"); c.check_in(P, "owner-can-always-stop", !good, || format!("schedule {id} of {:?}, planned for {at:?} with {:?}: {}", owner.as_ref().map(nm), at.map(|b| &m.plan[&b]), err(&e))); c.check_in(P, "refusal-changes-nothing", raw() == root, || "state differs".into()); return; }
	if !c.check_in(P, "only-owner-or-technical-origin-stops", good, || format!("{id} of {:?} at {at:?} was terminated by {:?} with {block:?}", owner.as_ref().map(nm), by.as_ref().map(nm))) { return; }
	c.event("terminated-by-hand"); let i = m.items.remove(&id).unwrap(); m.plan.get_mut(&at.unwrap()).unwrap().retain(|x| *x != id); let a = kind(&i.s.order).1;
	if m.plan[&at.unwrap()].len() > 0 { c.event("terminated-among-others"); }
	c.check_in("C17 C25", "stopping-returns-the-rest", before.moved(&after) == Moves::new().add(&i.s.owner, a, i.left) && before.moved_total(&after).is_empty(), || format!("{:?}, left {}", before.moved(&after), i.left));
}
#[derive(Debug, PartialEq, Clone)]
enum Seen { Failed(DispatchError), Traded(u128, u128), Planned(u32), Ended(DispatchError), Completed }
/// runs block `now` and follows it schedule by schedule
fn block(c: &mut Ctx, m: &mut Model, now: u32) {
	System::set_block_number(now); Parent::set(if c.rng.chance(1, 10) { None } else { Some(H256::from_low_u64_be(c.rng.u64()) ^ H256::repeat_byte(c.rng.idx(256) as u8)) }); Routes::set(vec![]);
	let due = m.plan.remove(&now).unwrap_or_default(); let before = book(); let _ = take_events::<Rt>();
	<Dca as Hooks<u32>>::on_initialize(now); let ev = take_events::<Rt>(); let after = book();
	let mut groups: Vec<(u32, Vec<Seen>)> = vec![];
	for e in ev { let RuntimeEvent::Dca(e) = e else { continue };
		let own = |id: u32, who: &Acc| m.items.get(&id).map_or(false, |i| i.s.owner == *who);
		let (id, who, s) = match e { Event::ExecutionStarted { id, block } => { c.check_in(P, "runs-in-its-block", block == now, || format!("{id} at {block}")); groups.push((id, vec![])); continue } Event::TradeFailed { id, who, error } => (id, who, Seen::Failed(error)), Event::TradeExecuted { id, who, amount_in, amount_out } => (id, who, Seen::Traded(amount_in, amount_out)), Event::ExecutionPlanned { id, who, block } => (id, who, Seen::Planned(block)), Event::Terminated { id, who, error } => (id, who, Seen::Ended(error)), Event::Completed { id, who } => (id, who, Seen::Completed), _ => continue };
		c.check_in(P, "events-name-their-schedule", groups.last().map_or(false, |g| g.0 == id) && own(id, &who), || format!("{s:?} for {id} of {}", nm(&who)));
		if let Some(g) = groups.last_mut() { g.1.push(s); }
	}
	let ran: Vec<u32> = groups.iter().map(|g| g.0).collect(); let (mut a, mut b) = (ran.clone(), due.clone()); a.sort(); b.sort();
	if !c.check_in(P, "exactly-the-due-schedules-run", a == b, || format!("ran {ran:?} at {now}, due {due:?}")) { return; }
	if ran.len() > 1 { c.event("blocks-with-several"); if ran != b { c.event("order-was-shuffled"); } }
	let (mut free, mut held) = (Moves::new(), Moves::new()); let mut routes = vec![];
	for (id, seen) in groups {
		let Some(mut i) = m.items.get(&id).cloned() else { { c.check_in(P, "exactly-the-due-schedules-run", false, || format!("{id} is not a schedule")); }; continue };
		let (buy, a, b) = kind(&i.s.order); let own = i.s.owner.clone(); let due_id = id;
		c.log(|| format!("[{now}] {id} left {} tries {} fee {:?} unstable {:?} -> {seen:?}", i.left, i.tries, fee_of(&i.s.order), unstable(&i.s)));
		let fee = fee_of(&i.s.order).filter(|f| *f <= i.left);
		let mut seen = seen.into_iter(); let mut next = || seen.next();
		// what happens to the schedule after this: retry, end, or nothing more to follow
		enum Then { Retry, End(Option<DispatchError>), Complete, Again }
		let then = if let Some(fee) = fee {
			i.left -= fee; held.bump(&own, a, -(fee as i128)); free.bump(&Receiver::get(), a, fee as i128); c.event("fee-taken");
			let first = next(); let un: DispatchError = Error::<Rt>::PriceUnstable.into();
			let doubt = unstable(&i.s); let shaky = doubt.unwrap_or(first == Some(Seen::Failed(un)));
			if shaky { c.event("unstable"); c.check_in(P, "no-trade-on-unstable-price", first == Some(Seen::Failed(un)), || format!("{id}: {first:?}")); Then::Retry }
			else {
				let mut t = trial(&i.s, i.left); if t == Trial::Unknown { t = match &first { Some(Seen::Traded(x, y)) => Trial::Done(*x, *y), _ => Trial::Limit }; }
				match t {
					Trial::Done(x, y) => {
						c.event(if buy { "bought" } else { "sold" }); c.check_in(P, "trade-as-instructed", first == Some(Seen::Traded(x, y)), || format!("{id}: {first:?}, expected {x} for {y} of {:?} with {} left", i.s, i.left));
						if x > i.left { { c.check_in(P, "spends-within-budget", false, || format!("{id}: {x} of {}", i.left)); }; } i.left = i.left.saturating_sub(x); i.tries = 0; routes.push((buy, route_of(&i.s.order)));
						held.bump(&own, a, -(x as i128)); free.bump(&pool(), a, x as i128); free.bump(&pool(), b, -(y as i128)); free.bump(&own, b, y as i128);
						let done = i.left < fee.saturating_mul(20) || i.left < MinTrade::get();
						if done { Then::Complete } else if let Order::Buy { amount_out, .. } = &i.s.order { match (quoting((a, b)), quote_buy((a, b), *amount_out)) { (Err(e), _) => Then::End(Some(e)), (_, None) => Then::End(None), (_, Some(q)) => if q.saturating_add(fee) > i.left { Then::Complete } else { Then::Again } } } else { Then::Again }
					}
					Trial::Limit => { c.event("limit-kept"); c.check_in(P, "limits-and-slippage-kept", first == Some(Seen::Failed(Error::<Rt>::TradeLimitReached.into())) || first == Some(Seen::Failed(Error::<Rt>::SlippageLimitReached.into())), || format!("{id}: {first:?} for {:?}", i.s)); Then::Retry }
					Trial::Err(e) => { c.event("trade-failed"); if trading((a, b)) == Err(e) { routes.push((buy, route_of(&i.s.order))); } c.check_in(P, "failure-is-reported", first == Some(Seen::Failed(e)), || format!("{id}: {first:?}, expected {e:?}")); if e == BUSY { Then::Retry } else { Then::End(Some(e)) } }
					Trial::NoEstimate => { c.event("trade-failed"); c.check_in(P, "failure-is-reported", matches!(first, Some(Seen::Failed(_))), || format!("{id}: {first:?} without an estimate")); Then::End(None) }
					Trial::Unknown => unreachable!(),
				}
			}
		} else { c.event("fee-unaffordable"); Then::End(None) };
		// the rest of the story
		let (then, due) = match then {
			Then::Retry => if i.tries >= i.s.max_retries.unwrap_or(Retries::get()) { c.event("retries-exhausted"); (Then::End(Some(Error::<Rt>::MaxRetryReached.into())), None) } else { let d = 10u128 << i.tries; i.tries += 1; c.event("retried"); (Then::Retry, Some(now as u128 + d)) },
			Then::Again => { if i.s.period == 0 { (Then::End(None), None) } else { (Then::Again, Some(now as u128 + i.s.period as u128)) } }
			x => (x, None),
		};
		let last = next();
		match (then, due) {
			(Then::Retry | Then::Again, Some(d)) if d <= u32::MAX as u128 => match last {
				Some(Seen::Planned(at)) => { if at as u128 != d { c.event("moved-to-a-later-block"); } m.put(c, due_id, d as u32, at); m.items.insert(due_id, i); }
				Some(Seen::Ended(e)) if e == Error::<Rt>::NoFreeBlockFound.into() && m.full(d as u32) && m.crowded() => { c.event("no-free-block"); free.bump(&own, a, i.left as i128); held.bump(&own, a, -(i.left as i128)); m.items.remove(&due_id); }
				x => { c.check_in(P, "goes-on-when-it-should", false, || format!("{due_id}: {x:?}, due at {d}, {} left", i.left)); },
			},
			(Then::Complete, _) => { c.event("completed"); c.check_in(P, "completes-when-spent", last == Some(Seen::Completed), || format!("{due_id}: {last:?} with {} left, fee {fee:?}", i.left)); free.bump(&own, a, i.left as i128); held.bump(&own, a, -(i.left as i128)); m.items.remove(&due_id); }
			(t, _) => { let want = if let Then::End(e) = t { e } else { None }; c.event("ended"); c.check_in(P, "ends-when-it-must", matches!(&last, Some(Seen::Ended(e)) if want.map_or(true, |w| w == *e)), || format!("{due_id}: {last:?}, expected an end with {want:?}")); free.bump(&own, a, i.left as i128); held.bump(&own, a, -(i.left as i128)); m.items.remove(&due_id); }
		}
		let more = next(); c.check_in(P, "one-outcome-each", more.is_none(), || format!("{due_id}: then {more:?}"));
	}
	c.check_in("C17 C25", "balances-move-only-as-instructed", before.moved(&after) == free && before.moved_reserved(&after) == held, || format!("block {now}: free {:?}, expected {free:?}; reserved {:?}, expected {held:?}", before.moved(&after), before.moved_reserved(&after)));
	let done = Routes::get(); c.check_in(P, "trades-use-the-given-route", done == routes, || format!("{done:?}, expected {routes:?}"));
}
fn setup(r: &mut Rng) {
	Eds::set(Default::default()); NoDust::set(Default::default()); System::set_block_number(1); System::reset_events(); Last::set(Default::default()); Short::set(Default::default()); NativeOf::set(Default::default());
	PerBlock::set(1 + r.idx(5) as u32); MaxDiff::set(Permill::from_parts([15_000, 100_000, 30_000][r.idx(3)])); Retries::set(r.idx(4) as u8); MinTrade::set(r.log(1, 100_000)); MinBudget::set(r.log(1, 10_000_000)); SellFee::set(r.log(1, 100_000)); BuyFee::set(r.log(1, 100_000)); HopFee::set(r.log(1, 5_000)); TwoHop::set(r.chance(1, 2));
	for i in 1..=4u8 { give_native::<Rt>(&acc(i), r.log(1_000_000, 10u128.pow(16))); for a in 1..4u32 { if r.chance(5, 6) { give::<Rt>(&acc(i), a, r.log(1_000_000, 10u128.pow(16))); } } }
	give_native::<Rt>(&pool(), 10u128.pow(30)); give_native::<Rt>(&Receiver::get(), 1000); for a in 1..4u32 { give::<Rt>(&pool(), a, 10u128.pow(30)); }
}
fn run(m: &mut Monitor) {
	m.workload("schedules", 1200, 40000, |c| fresh(|| {
		setup(&mut c.rng); let mut x = Model::default(); let mut now = 1u32; let wild = c.rng.chance(1, 2);
		for _ in 0..80 {
			if c.failed() { return; }
			moved_prices(&mut c.rng, wild);
			for _ in 0..c.rng.idx(4) { match c.rng.idx(8) { 0 | 1 => stop(c, &mut x, now), 2 => { let (a, i, j) = (c.rng.idx(4) as u32, c.rng.idx(4) as u8, c.rng.idx(4) as u8); let f = Currencies::free_balance(a, &acc(1 + i)); let v = c.rng.below(f / 2 + 1); let _ = <Currencies as MultiCurrency<Acc>>::transfer(a, &acc(1 + i), &acc(1 + j), v); let _ = take_events::<Rt>(); } _ => place(c, &mut x, now) } state(c, &x); if c.failed() { return; } }
			now += 1; block(c, &mut x, now); state(c, &x);
		}
	}));
	for (e, n) in [("scheduled", 2000), ("schedule-refused", 500), ("sold", 2000), ("bought", 1000), ("unstable", 200), ("limit-kept", 100), ("trade-failed", 100), ("retried", 200), ("retries-exhausted", 30), ("completed", 200), ("ended", 50), ("fee-unaffordable", 5), ("moved-to-a-later-block", 100), ("order-was-shuffled", 50), ("terminated-by-hand", 100), ("terminated-among-others", 20)] { m.expect(&format!("schedules/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct schedules by (kind, pair, log2 of the budget)", ["the pallet runs on a stand-in for FRAME (calibrated by the pallet's own 96 tests)", "trades, oracle prices and fees come from scripted stand-ins that move real tokens; the relay chain's hash is random", "comparisons that only the rounding of the eighteenth decimal of a price decides are accepted either way"]; "C17" => run, "C25" => run);
}

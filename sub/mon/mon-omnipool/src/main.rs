//! The Omnipool pallet under random histories of every call, judged on balances, pool state, positions and hooks.
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::registry::Inspect as RegistryInspect;
use hydradx_traits::router::{PoolType, TradeExecution};
use hydradx_traits::AssetKind;
use mon_core::big::{w, U512};
use mon_frame::*;
use pallet_omnipool::traits::{AssetInfo, EnsurePriceWithin, ExternalPriceProvider, OmnipoolHooks};
use pallet_omnipool::types::{AssetReserveState, Tradability};

const HDX: u32 = 0;
const LRNA: u32 = 1;
const NFTS: u128 = 1337;
const M: u128 = 1_000_000;
construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Omnipool: pallet_omnipool });
base!(Rt);
base_uniques!(Rt);
#[derive(Clone, Debug)]
pub struct HookCall { kind: u8, infos: Vec<(u32, AssetReserveState<u128>, AssetReserveState<u128>, bool)>, live: Vec<u128> }
param! {
	Fees: BTreeMap<u32, (u32, u32)> = Default::default();
	MinFee: u32 = 100; MinTrade: u128 = 1000; MinLiq: u128 = 1_000_000; InRatio: u128 = 3; OutRatio: u128 = 3; MaxDiff: u32 = 10_000;
	OracleAdj: (u128, u128) = (1, 1);
	Registered: BTreeSet<u32> = Default::default();
	HookFee: (u32, i8) = (0, 0); // share taken in ppm, and how the hook misreports it
	Hooked: Vec<HookCall> = vec![];
}
parameter_types! { pub const HdxId: u32 = HDX; pub const HubId: u32 = LRNA; pub const Coll: u128 = NFTS; pub MinWithdraw: Permill = Permill::from_parts(MinFee::get()); pub MaxPriceDiff: Permill = Permill::from_parts(MaxDiff::get()); }
pub struct FeeOf; impl GetByKey<u32, (Permill, Permill)> for FeeOf { fn get(a: &u32) -> (Permill, Permill) { let (x, y) = Fees::with(|f| f.get(a).copied().unwrap_or((0, 0))); (Permill::from_parts(x), Permill::from_parts(y)) } }
pub struct Registry;
impl RegistryInspect for Registry {
	type AssetId = u32; type Location = u8;
	fn is_sufficient(_: u32) -> bool { true }
	fn exists(a: u32) -> bool { Registered::with(|r| r.contains(&a)) }
	fn decimals(_: u32) -> Option<u8> { Some(12) }
	fn asset_type(_: u32) -> Option<AssetKind> { Some(AssetKind::Token) }
	fn is_banned(_: u32) -> bool { false }
	fn asset_name(_: u32) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: u32) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: u32) -> Option<u128> { Some(ed(a)) }
}
pub struct Oracle;
impl Oracle { fn price(a: u32) -> Option<EmaPrice> { let s = Omnipool::load_asset_state(a).ok()?; let (n, d) = OracleAdj::get(); let (mut n, mut d) = (w(s.hub_reserve) * w(n), w(s.reserve) * w(d)); while n.bits() > 127 || d.bits() > 127 { n = n >> 1; d = d >> 1; } Some(EmaPrice::new(n.low_u128(), d.low_u128())) } }
impl ExternalPriceProvider<u32, EmaPrice> for Oracle {
	type Error = DispatchError;
	fn get_price(_: u32, b: u32) -> Result<EmaPrice, DispatchError> { Oracle::price(b).ok_or(DispatchError::Other("no price")) }
	fn get_price_weight() -> Weight { Weight::zero() }
}
pub struct Watch;
fn treasury() -> Acc { acc(99) }
fn reserve_of(a: u32) -> u128 { Tokens::free_balance(a, &Omnipool::protocol_account()) }
impl OmnipoolHooks<RuntimeOrigin, Acc, u32, u128> for Watch {
	type Error = DispatchError;
	fn on_liquidity_changed(_: RuntimeOrigin, a: AssetInfo<u32, u128>) -> Result<Weight, DispatchError> { Hooked::with(|h| h.push(HookCall { kind: 0, live: vec![reserve_of(a.asset_id)], infos: vec![(a.asset_id, a.before, a.after, a.safe_withdrawal)] })); Ok(Weight::zero()) }
	fn on_trade(_: RuntimeOrigin, a: AssetInfo<u32, u128>, b: AssetInfo<u32, u128>) -> Result<Weight, DispatchError> { Hooked::with(|h| h.push(HookCall { kind: 1, live: vec![reserve_of(a.asset_id), reserve_of(b.asset_id)], infos: vec![(a.asset_id, a.before, a.after, a.safe_withdrawal), (b.asset_id, b.before, b.after, b.safe_withdrawal)] })); Ok(Weight::zero()) }
	fn on_hub_asset_trade(_: RuntimeOrigin, a: AssetInfo<u32, u128>) -> Result<Weight, DispatchError> { Hooked::with(|h| h.push(HookCall { kind: 2, live: vec![reserve_of(a.asset_id)], infos: vec![(a.asset_id, a.before, a.after, a.safe_withdrawal)] })); Ok(Weight::zero()) }
	fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
	fn on_trade_weight() -> Weight { Weight::zero() }
	fn on_trade_fee(from: Acc, _: Acc, asset: u32, amount: u128) -> Result<u128, DispatchError> {
		let (ppm, lie) = HookFee::get();
		let mut take = muldiv(amount, ppm as u128, M);
		if lie == 2 { take = amount + 1; }
		if take > 0 { Tokens::transfer(RuntimeOrigin::signed(from), treasury(), asset, take).map_err(|e| e)?; }
		Ok(if lie == 1 { take.saturating_sub(1) } else { take })
	}
}
impl pallet_omnipool::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type PositionItemId = u128; type Currency = Tokens; type AuthorityOrigin = EnsureRoot<Acc>; type TechnicalOrigin = EnsureRoot<Acc>; type HubAssetId = HubId; type HdxAssetId = HdxId;
	type WeightInfo = (); type NFTCollectionId = Coll; type CollectionId = u128; type NFTHandler = Uniques; type AssetRegistry = Registry; type MinimumTradingLimit = MinTrade; type MinimumPoolLiquidity = MinLiq; type MaxInRatio = InRatio; type MaxOutRatio = OutRatio;
	type OmnipoolHooks = Watch; type PriceBarrier = EnsurePriceWithin<Acc, u32, Oracle, MaxPriceDiff, ()>; type MinWithdrawalFee = MinWithdraw; type ExternalPriceOracle = Oracle; type Fee = FeeOf;
}

type St = AssetReserveState<u128>;
#[derive(Clone)]
struct View { book: Book, assets: BTreeMap<u32, St>, positions: BTreeMap<u128, (u32, u128, u128, (u128, u128), Option<Acc>)>, imbalance: (u128, bool), next: u128 }
fn view() -> View {
	let mut assets = BTreeMap::new();
	for a in Registered::get() { if let Ok(s) = Omnipool::load_asset_state(a) { assets.insert(a, s); } }
	let next = Omnipool::next_position_id();
	let mut positions = BTreeMap::new();
	for i in 0..next { if let Some(p) = Omnipool::positions(i) { positions.insert(i, (p.asset_id, p.amount, p.shares, p.price, Uniques::owner(NFTS, i))); } }
	let im = Omnipool::current_imbalance();
	View { book: Book::tokens::<Rt>(), assets, positions, imbalance: (im.value, im.negative), next }
}
const E18: u128 = 1_000_000_000_000_000_000;
const P: &str = "C01 C16";
/// The price others read is the ratio of the reserves (in hub asset, or through it), for assets of the pool only.
fn prices(c: &Ctx, v: &View) {
	use hydradx_traits::pools::SpotPriceProvider as S;
	let ids: Vec<u32> = v.assets.keys().copied().chain([LRNA, 9999]).collect();
	let leg = |a: u32, up: bool| -> Option<U512> { if a == LRNA { return Some(w(E18)); } let s = v.assets.get(&a)?; let (n, d) = if up { (s.reserve, s.hub_reserve) } else { (s.hub_reserve, s.reserve) }; if d == 0 { None } else { Some(w(n) * w(E18) / w(d)).filter(|x| *x <= w(u128::MAX)) } };
	for a in &ids { for b in &ids {
		let got = <Omnipool as S<u32>>::spot_price(*a, *b).map(|p| w(p.into_inner()));
		if a == b { c.check_in(A, "spot-price-of-reserves", got == Some(w(E18)), || format!("price of {a} in itself is {got:?}")); continue; }
		let (x, y) = (leg(*a, true), leg(*b, false));
		let want = x.zip(y).map(|(x, y)| x * y / w(E18)).filter(|p| *p <= w(u128::MAX));
		c.check_in(A, "spot-price-of-reserves", match (got, want) { (Some(g), Some(e)) => g <= e + w(1) && g + w(1) >= e, (None, None) => true, (None, Some(e)) => e + w(2) >= w(u128::MAX), (Some(g), None) => g + w(2) >= w(u128::MAX) && x.is_some() && y.is_some() }, || format!("{a} per {b}: {got:?}, exact {want:?}"));
		if got.is_some() { c.event("spot-price"); }
		c.check_in(A, "pair-of-listed-assets", <Omnipool as S<u32>>::pair_exists(*a, *b) == (v.assets.contains_key(a) && v.assets.contains_key(b)), || format!("{a} {b}"));
	} }
}
const L: &str = "C02 C16";
const A: &str = "C16";

fn invariants(c: &Ctx, v: &View, donated: u128) {
	let pool = Omnipool::protocol_account();
	let hub: u128 = v.assets.values().map(|s| s.hub_reserve).sum();
	c.check_in(A, "hub-asset-backs-the-pool", v.book.free(&pool, LRNA) == hub + donated, || format!("hub asset held {}, hub reserves sum to {}, donated {}", v.book.free(&pool, LRNA), hub, donated));
	for (a, s) in &v.assets {
		let held: u128 = v.positions.values().filter(|p| p.0 == *a).map(|p| p.2).sum();
		c.check_in("C02 C16", "shares-belong-to-positions-or-protocol", s.shares == held + s.protocol_shares, || format!("asset {a}: {} shares, positions hold {held}, protocol {}", s.shares, s.protocol_shares));
	}
	for (i, p) in &v.positions {
		c.check_in(A, "every-position-is-an-owned-nft", p.4.is_some(), || format!("position {i} has no owner"));
		c.check_in(A, "every-position-has-its-asset", v.assets.contains_key(&p.0) || p.2 == 0, || format!("position {i} of missing asset {}", p.0));
	}
	for i in 0..v.next { if !v.positions.contains_key(&i) { c.check_in(A, "no-nft-without-position", Uniques::owner(NFTS, i).is_none(), || format!("NFT {i} has no position")); } }
	c.check_in("C01 C16", "imbalance-never-positive", v.imbalance.1 || v.imbalance.0 == 0, || format!("imbalance {:?}", v.imbalance));
	prices(c, v);
	let b = v.book.balanced();
	c.check_in(A, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
/// Positions other than the named one are untouched.
fn positions_same(c: &Ctx, a: &View, b: &View, but: Option<u128>) {
	let f = |v: &View| v.positions.iter().filter(|x| Some(*x.0) != but).map(|x| (*x.0, x.1.clone())).collect::<Vec<_>>();
	c.check_in(L, "other-positions-untouched", f(a) == f(b), || "a position of somebody else changed".into());
}
fn assets_same(c: &Ctx, a: &View, b: &View, but: &[u32]) {
	for (k, s) in &a.assets { if !but.contains(k) { c.check_in(P, "other-assets-untouched", b.assets.get(k) == Some(s), || format!("asset {k} changed: {:?} -> {:?}", s, b.assets.get(k))); } }
}
fn product(c: &Ctx, a: u32, x: &St, y: &St) { c.check_in("C01", "pool-product-never-falls", w(y.reserve) * w(y.hub_reserve) >= w(x.reserve) * w(x.hub_reserve), || format!("asset {a}: {x:?} -> {y:?}")); }
fn hooks_true(c: &Ctx, pre: &View, calls: &[HookCall]) {
	for h in calls { for (k, (a, before, after, _)) in h.infos.iter().enumerate() {
		if h.kind != 0 || calls.iter().all(|x| x.kind == 0) { let p = pre.assets.get(a).copied().unwrap_or_default(); c.check_in("C16", "hooks-see-the-state-before", *before == p, || format!("hook {} told {before:?}, was {p:?}", h.kind)); }
		if h.kind != 2 { c.check_in("C16", "hooks-see-the-state-after", after.reserve == h.live[k], || format!("hook {} of asset {a} told reserve {}, is {}", h.kind, after.reserve, h.live[k])); }
	} }
}
fn flags(s: &St) -> (bool, bool, bool, bool) { (s.tradable.contains(Tradability::SELL), s.tradable.contains(Tradability::BUY), s.tradable.contains(Tradability::ADD_LIQUIDITY), s.tradable.contains(Tradability::REMOVE_LIQUIDITY)) }
/// |spot - oracle| * 2 <= max * (spot + oracle), with a margin so that rounding does not decide: Some(allowed), or None when too close to tell
fn barrier(s: &St, a: u32) -> Option<bool> {
	let o = Oracle::price(a)?;
	if o.n == 0 || o.d == 0 || s.hub_reserve == 0 || s.reserve == 0 { return None; }
	let (x, y) = (w(s.hub_reserve) * w(o.d), w(o.n) * w(s.reserve));
	let d = if x > y { x - y } else { y - x };
	let (l, r) = (d * w(2) * w(M), w(MaxDiff::get() as u128) * (x + y));
	let eps = (x + y) / w(100_000) + w(1);
	let spot = FixedU128::from_rational(s.hub_reserve, s.reserve).into_inner();
	if spot < 10u128.pow(12) || spot > 10u128.pow(34) { return None; }
	if l + eps < r { Some(true) } else if l > r + eps { Some(false) } else { None }
}

struct World { trad_hub: (bool, bool), donated: u128 }
fn amounts(r: &mut Rng, reserve: u128) -> u128 { match r.idx(12) { 0 => r.range(0, 1100), 1 => reserve / InRatio::get().max(1), 2 => reserve / OutRatio::get().max(1) + 1, 3 => r.log(1, u128::MAX / 4), _ => r.log(1000, reserve.max(1000)) } }

fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1);
		Hooked::set(vec![]); Fees::set(Default::default()); OracleAdj::set((1, 1)); HookFee::set((0, 0)); MaxDiff::set(10_000);
		let r = &mut c.rng;
		let n = 3 + r.idx(4) as u32;
		let mut eds = BTreeMap::new(); eds.insert(LRNA, 400_000_000u128);
		for a in (0..n).filter(|a| *a != LRNA) { eds.insert(a, *r.pick(&[1u128, 1000, 10_000_000_000, 1_000_000_000_000])); }
		Eds::set(eds);
		Registered::set((0..n).collect());
		let tiny = r.chance(1, 8);
		MinTrade::set(*r.pick(&[1000u128, 1, 100_000])); MinLiq::set(*r.pick(&[1_000_000u128, 1000])); InRatio::set(*r.pick(&[3u128, 3, 3, 1, 2, 10])); OutRatio::set(*r.pick(&[3u128, 3, 3, 2, 4, 10])); MinFee::set(*r.pick(&[100u32, 0, 10_000]));
		let fees = (0..n).map(|a| (a, if r.chance(1, 6) { (0, 0) } else { (r.ppm(100_000), r.ppm(50_000)) })).collect();
		Fees::set(fees);
		let pool = Omnipool::protocol_account();
		let people: Vec<Acc> = (1..6).map(acc).collect();
		for a in 0..n {
			if a == LRNA { for p in &people { if r.chance(3, 4) { let v = r.log(500_000_000, 10u128.pow(20)); give::<Rt>(p, a, v); } } continue; }
			let lo = (ed(a) * 20).max(1_000_000);
			let res = if tiny { r.log(lo, lo * 1000) } else { r.log(lo.max(10u128.pow(12)), 10u128.pow(25)) };
			give::<Rt>(&pool, a, res);
			let hub = r.log(if tiny { 1_000_000 } else { 10u128.pow(11) }, 10u128.pow(20));
			let price = FixedU128::from_rational(hub, res);
			let who = people[r.idx(people.len())].clone();
			let cap = if r.chance(1, 4) { r.range(10_000, M) as u32 } else { M as u32 };
			let res2 = call(RuntimeCall::Omnipool(pallet_omnipool::Call::add_token { asset: a, initial_price: price, weight_cap: Permill::from_parts(cap), position_owner: who }), RuntimeOrigin::root());
			if res2.is_err() { continue; }
			for p in &people { let v = r.log(ed(a).max(1000), res.saturating_mul(2)); give::<Rt>(p, a, v); }
		}
		let mut world = World { trad_hub: (true, false), donated: 0 };
		let v = view();
		if v.assets.len() < 2 { return; }
		c.distinct("pool", (v.assets.len(), v.assets.values().map(|s| (s.reserve.ilog10(), s.hub_reserve.max(1).ilog10())).collect::<Vec<_>>()));
		invariants(c, &v, 0);
		Hooked::set(vec![]);
		System::reset_events();
		let steps = 30 + c.rng.idx(40);
		for _ in 0..steps { step(c, &mut world, n, &people, &pool); if c.failed() { return; } }
		c.sample(|| { let v = view(); json!({"assets": v.assets.len(), "positions": v.positions.len(), "imbalance": v.imbalance.0.to_string()}) });
	});
}

fn step(c: &mut Ctx, wd: &mut World, n: u32, people: &[Acc], pool: &Acc) {
	let pre = view();
	let ids: Vec<u32> = pre.assets.keys().copied().collect();
	if ids.is_empty() { return; }
	let who = people[c.rng.idx(people.len())].clone();
	let any = |r: &mut Rng| if r.chance(1, 25) { r.idx(n as usize + 1) as u32 } else { ids[r.idx(ids.len())] };
	match c.rng.idx(100) {
		x @ 0..=49 => {
			// a trade: sell or buy, sometimes with the hub asset on one side
			let is_sell = x < 28;
			let (mut i, mut o) = (any(&mut c.rng), any(&mut c.rng));
			if i == o && !c.rng.chance(1, 20) { if let Some(z) = ids.iter().find(|z| **z != i) { o = *z; } }
			if c.rng.chance(1, 5) { i = LRNA; } else if c.rng.chance(1, 25) { o = LRNA; }
			let base = if is_sell { if i == LRNA { pre.assets.get(&o).map(|s| s.hub_reserve) } else { pre.assets.get(&i).map(|s| s.reserve) } } else { pre.assets.get(&o).map(|s| s.reserve) }.unwrap_or(10_000);
			let amt = amounts(&mut c.rng, base);
			if c.rng.chance(1, 10) { let v = (c.rng.ppm(1_000_000), *c.rng.pick(&[0i8, 0, 0, 1, 2])); HookFee::set(v); }
			let quote = if is_sell { Omnipool::calculate_sell(PoolType::Omnipool, i, o, amt) } else { Omnipool::calculate_buy(PoolType::Omnipool, i, o, amt) }.ok();
			let limit = match (c.rng.idx(6), quote) { (0, Some(q)) => q.saturating_add(1), (1, Some(q)) => q.saturating_sub(1), (2 | 3, Some(q)) => q, _ => if is_sell { 0 } else { u128::MAX } };
			let adj = (c.rng.range(1, 4), c.rng.range(1, 4)); if c.rng.chance(1, 20) { OracleAdj::set(adj); }
			c.log(|| format!("{} {} {i}->{o} amount {amt} limit {limit} quote {quote:?} state in {:?} out {:?} fees in {:?} out {:?} hookfee {:?} imbalance {:?}", nm(&who), if is_sell { "sell" } else { "buy" }, pre.assets.get(&i), pre.assets.get(&o), FeeOf::get(&i), FeeOf::get(&o), HookFee::get(), pre.imbalance));
			let routed = c.rng.chance(1, 4); let org = RuntimeOrigin::signed(who.clone());
			let res = if routed { frame_support::storage::with_storage_layer(|| if is_sell { Omnipool::execute_sell(org, PoolType::Omnipool, i, o, amt, limit) } else { Omnipool::execute_buy(org, PoolType::Omnipool, i, o, amt, limit) }.map_err(unwrap_exec)) } else { if is_sell { call(RuntimeCall::Omnipool(pallet_omnipool::Call::sell { asset_in: i, asset_out: o, amount: amt, min_buy_amount: limit }), RuntimeOrigin::signed(who.clone())) } else { call(RuntimeCall::Omnipool(pallet_omnipool::Call::buy { asset_out: o, asset_in: i, amount: amt, max_sell_amount: limit }), RuntimeOrigin::signed(who.clone())) } };
			if c.rng.chance(1, 40) { for t in [PoolType::XYK, PoolType::LBP, PoolType::Stableswap(i)] { c.check_in("C16", "other-pool-types-are-not-quoted", Omnipool::calculate_sell(t, i, o, amt).is_err() && Omnipool::calculate_buy(t, i, o, amt).is_err() && Omnipool::calculate_spot_price_with_fee(t, i, o).is_err() && Omnipool::get_liquidity_depth(t, i, o).is_err(), || format!("{t:?}")); } }
			let post = view(); let hooks = Hooked::with(std::mem::take);
			let evs = take_events::<Rt>();
			c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			c.event(if is_sell { "sell" } else { "buy" });
			let (hin, hout) = (i == LRNA, o == LRNA);
			let (si, so) = (pre.assets.get(&i).copied(), pre.assets.get(&o).copied());
			let gates = gate(&pre, wd, &who, i, o, amt, is_sell, limit, quote);
			c.check_in("C16", "refused-by-rule", !(res.is_ok() && gates == Some(false)), || "a trade that breaks a rule of the pool was executed".into());
			c.check_in("C16", "allowed-by-rule", !(res.is_err() && gates == Some(true)), || format!("a trade within every rule was refused: {:?}; {} has {} and {}, pool {} hub; eds {:?}", res.as_ref().map_err(err), nm(&who), pre.book.free(&who, i), pre.book.free(&who, o), pre.book.free(pool, LRNA), Eds::get()));
			if let Err(e) = &res {
				c.event(&format!("refused-{}", err(e)));
				c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.assets == post.assets && pre.positions == post.positions && pre.imbalance == post.imbalance, || "a refused trade changed the state".into());
				return;
			}
			c.event(if hin { "traded-hub-in" } else { "traded" });
			if hout { return c.violate("refused-by-rule", "the hub asset was bought".into()); }
			let mv = pre.book.moved(&post.book);
			let paid = -mv.get(&who, i); let got = mv.get(&who, o);
			if paid < 0 || got < 0 { return c.violate("trade-direction", format!("{mv:?}")); }
			let (paid, got) = (paid as u128, got as u128);
			c.nontrivial((i, o, paid, got)); c.distinct("trade-shape", (is_sell, hin, paid.max(1).ilog2(), got.max(1).ilog2()));
			c.check_in("C01 C16 C17", "trader-pays-and-gets-what-was-asked", if is_sell { paid == amt && got >= limit } else { got == amt && paid <= limit }, || format!("asked {amt} limit {limit}: paid {paid}, got {got}"));
			c.check_in("C16", "executable-trades-are-quoted", quote.is_some(), || "a trade was executed that has no quote".into());
			if let Some(q) = quote { c.check_in("C01 C16 C17", "execution-matches-quote", if is_sell { got == q } else { paid == q }, || format!("quoted {q}, paid {paid} got {got}")); }
			// exactly two legs, the hook's fee to its recipient, and hub asset burned
			let fee = mv.get(&treasury(), o) as u128;
			let burnt = -mv.net(LRNA);
			let mut want = Moves::new().mv(&who, pool, i, paid).mv(pool, &who, o, got).mv(pool, &treasury(), o, fee);
			if !hin { want.bump(pool, LRNA, -burnt); }
			c.check_in("C16 C17", "only-the-two-legs-move", mv == want, || format!("moved {mv:?}, expected {want:?}"));
			c.check_in("C16 C17", "hub-asset-never-minted-by-a-trade", if hin { burnt == 0 } else { burnt >= 0 }, || format!("hub issuance changed by {}", -burnt));
			for a in pre.book.issuance.keys().filter(|a| **a != LRNA) { c.check_in("C16 C17", "issuance-unchanged-by-a-trade", pre.book.issuance(*a) == post.book.issuance(*a), || format!("issuance of {a} changed")); }
			let so = so.unwrap(); let so2 = post.assets[&o];
			let af = FeeOf::get(&o).0.deconstruct() as u128;
			let shares_kept = |x: &St, y: &St| x.shares == y.shares && x.protocol_shares == y.protocol_shares && x.cap == y.cap && x.tradable == y.tradable;
			c.check_in("C01 C16", "trades-keep-shares-and-settings", shares_kept(&so, &so2), || format!("{so:?} -> {so2:?}"));
			// the fee hook is limited to the asset fee charged
			c.check_in("C16", "fee-hook-within-asset-fee", w(fee) <= w(if is_sell { got } else { got + fee }) * w(af) / w(M - af.min(M - 1)) + w(2), || format!("hook took {fee} of {got} with a fee of {af} ppm"));
			product(c, o, &so, &so2);
			positions_same(c, &pre, &post, None);
			if hin {
				c.check_in("C01 C16", "hub-asset-joins-the-reserve", so2.hub_reserve == so.hub_reserve + paid, || format!("hub reserve {} -> {} for {paid}", so.hub_reserve, so2.hub_reserve));
				assets_same(c, &pre, &post, &[o]);
				c.check_in("C01", "imbalance-grows-with-hub-sales", post.imbalance.0 >= pre.imbalance.0, || format!("{:?} -> {:?}", pre.imbalance, post.imbalance));
				// price: got <= res*paid*(1-fee)/(hub+paid)
				c.check_in("C01", "never-better-than-the-price", w(got) * (w(so.hub_reserve) + w(paid)) * w(M) <= w(so.reserve) * w(paid) * w(M - af), || format!("{so:?} paid {paid} got {got} fee {af}"));
			} else {
				let si = si.unwrap(); let si2 = post.assets[&i];
				let pf = FeeOf::get(&i).1.deconstruct() as u128;
				let mut hdx_gain = 0;
				if i != HDX && o != HDX { if let (Some(a), Some(b)) = (pre.assets.get(&HDX), post.assets.get(&HDX)) { hdx_gain = b.hub_reserve - a.hub_reserve.min(b.hub_reserve); c.check_in("C01 C16", "fees-only-add-hub-to-hdx", b.hub_reserve >= a.hub_reserve && b.reserve == a.reserve && shares_kept(a, b), || format!("{a:?} -> {b:?}")); } }
				c.check_in("C01 C16", "trades-keep-shares-and-settings", shares_kept(&si, &si2), || format!("{si:?} -> {si2:?}"));
				assets_same(c, &pre, &post, &[i, o, HDX]);
				product(c, i, &si, &si2);
				// event tells the truth
				let ev = evs.iter().find_map(|e| match e { RuntimeEvent::Omnipool(pallet_omnipool::Event::SellExecuted { who, asset_in, asset_out, amount_in, amount_out, hub_amount_in, hub_amount_out, asset_fee_amount, protocol_fee_amount }) if is_sell => Some((who.clone(), *asset_in, *asset_out, *amount_in, *amount_out, *hub_amount_in, *hub_amount_out, *asset_fee_amount, *protocol_fee_amount)), RuntimeEvent::Omnipool(pallet_omnipool::Event::BuyExecuted { who, asset_in, asset_out, amount_in, amount_out, hub_amount_in, hub_amount_out, asset_fee_amount, protocol_fee_amount }) if !is_sell => Some((who.clone(), *asset_in, *asset_out, *amount_in, *amount_out, *hub_amount_in, *hub_amount_out, *asset_fee_amount, *protocol_fee_amount)), _ => None });
				let Some(ev) = ev else { return { c.check_in("C16", "trade-is-reported", false, || "no event of the trade".into()); } };
				c.check_in("C16", "trade-is-reported", (ev.0.clone(), ev.1, ev.2, ev.3, ev.4) == (who.clone(), i, o, paid, got), || format!("event {ev:?}, paid {paid} got {got}"));
				let (q_in, q_out, pfee) = (ev.5, ev.6, ev.8);
				c.check_in("C01 C16", "protocol-fee-charged-once", q_in == q_out + pfee && w(pfee) * w(M) <= w(q_in) * w(pf) + w(M) && w(pfee) * w(M) + w(M) >= w(q_in) * w(pf), || format!("hub in {q_in}, out {q_out}, fee {pfee}, rate {pf}"));
				let hdx_part = pfee - (burnt as u128).min(pfee);
				let want_i = w(si.hub_reserve) + w(if i == HDX { hdx_part } else { 0 }) - w(q_in);
				let want_o = w(so.hub_reserve) + w(if o == HDX { hdx_part } else { 0 }) + w(q_out);
				c.check_in("C01 C16", "hub-reserves-move-as-reported", w(si2.hub_reserve) == want_i && w(so2.hub_reserve) == want_o && (i == HDX || o == HDX || hdx_gain == hdx_part), || format!("in {si:?}->{si2:?} out {so:?}->{so2:?} reported {q_in}/{q_out}, hdx {hdx_gain}/{hdx_part}"));
				c.check_in("C01 C16", "protocol-fee-covers-imbalance-first", burnt as u128 == pfee.min(pre.imbalance.0) && pre.imbalance.0 - post.imbalance.0.min(pre.imbalance.0) == burnt as u128, || format!("burnt {burnt} of fee {pfee}, imbalance {:?} -> {:?}", pre.imbalance, post.imbalance));
				// the price, each leg rounded in favour of the pool
				c.check_in("C01", "never-better-than-the-price", w(q_in) * (w(si.reserve) + w(paid)) <= w(si.hub_reserve) * w(paid) && { let num = w(so.reserve) * w(q_out) * w(M - af); let den = (w(so.hub_reserve) + w(q_out)) * w(M); w(got) * den <= num + if is_sell { w(0) } else { den * w(2) } }, || format!("in {si:?} out {so:?} paid {paid} q {q_in}/{q_out} got {got} fees {pf}/{af}"));
				if is_sell { c.check_in("C01", "never-far-below-the-price", (w(q_in) + w(2)) * (w(si.reserve) + w(paid)) >= w(si.hub_reserve) * w(paid) && (w(got) + w(2)) * (w(so.hub_reserve) + w(q_out)) * w(M) >= w(so.reserve) * w(q_out) * w(M - af), || format!("in {si:?} out {so:?} paid {paid} q {q_in}/{q_out} got {got} fees {pf}/{af}")); }
			}
			hooks_true(c, &pre, &hooks);
			c.check_in("C16", "trade-hook-fires-once", hooks.iter().filter(|h| h.kind == if hin { 2 } else { 1 }).count() == 1, || format!("{hooks:?}"));
			invariants(c, &post, wd.donated);
		}
		50..=61 => {
			let a = any(&mut c.rng);
			let res0 = pre.assets.get(&a).map(|s| s.reserve).unwrap_or(10_000);
			let amt = match c.rng.idx(6) { 0 => c.rng.range(0, MinLiq::get() + 5), 1 => pre.book.free(&who, a), _ => { let hi = pre.book.free(&who, a).max(res0 / 10); c.rng.log(1000, hi) } };
			if c.rng.chance(1, 6) { let v = (c.rng.range(900, 1100), 1000); OracleAdj::set(v); } else if c.rng.chance(1, 2) { OracleAdj::set((1, 1)); }
			let exact = pre.assets.get(&a).map(|s| muldiv(amt, s.shares, s.reserve));
			let min = match (c.rng.idx(4), exact) { (0, Some(x)) => x, (1, Some(x)) => x.saturating_add(1), _ => 0 };
			c.log(|| format!("{} add {a} amount {amt} min-shares {min} oracle {:?} state {:?}", nm(&who), OracleAdj::get(), pre.assets.get(&a)));
			let ok_price = pre.assets.get(&a).and_then(|s| barrier(s, a));
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::add_liquidity_with_limit { asset: a, amount: amt, min_shares_limit: min }), RuntimeOrigin::signed(who.clone()));
			let post = view(); let hooks = Hooked::with(std::mem::take); let _ = take_events::<Rt>();
			c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			if let Err(e) = &res { c.event(&format!("refused-{}", err(e))); c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.assets == post.assets && pre.positions == post.positions && pre.imbalance == post.imbalance, || "a refused deposit changed the state".into()); }
			let Some(s) = pre.assets.get(&a).copied() else { c.check_in("C16", "refused-by-rule", res.is_err(), || "liquidity of an asset outside the pool".into()); return };
			let broken = amt < MinLiq::get() || !flags(&s).2 || amt > pre.book.free(&who, a) || ok_price == Some(false) || exact.unwrap() < min;
			c.check_in("C16", "refused-by-rule", res.is_err() || !broken, || format!("liquidity was added against a rule: min {} tradable {:?} price {ok_price:?} shares {exact:?} min {min}", MinLiq::get(), s.tradable));
			if res.is_err() { return; }
			c.event("liquidity-added"); c.nontrivial((a, amt, s.reserve));
			let t = post.assets[&a];
			let sh = exact.unwrap();
			let id = pre.next;
			c.check_in(L, "position-of-what-was-added", post.next == id + 1 && post.positions.get(&id) == Some(&(a, amt, sh, (t.hub_reserve, t.reserve), Some(who.clone()))), || format!("position {:?}, expected amount {amt} shares {sh} price {:?}", post.positions.get(&id), (t.hub_reserve, t.reserve)));
			c.check_in(L, "shares-minted-in-proportion", t.shares == s.shares + sh && t.protocol_shares == s.protocol_shares && t.reserve == s.reserve + amt, || format!("{s:?} -> {t:?} for {amt}"));
			let dq = t.hub_reserve - s.hub_reserve.min(t.hub_reserve);
			c.check_in(L, "hub-minted-in-proportion", w(dq) * w(s.reserve) <= w(s.hub_reserve) * w(amt) && (w(dq) + w(2) + w(amt) / w(10u128.pow(18))) * w(s.reserve) >= w(s.hub_reserve) * w(amt), || format!("hub +{dq} for {amt} of {s:?}"));
			let mv = pre.book.moved(&post.book);
			let want = Moves::new().mv(&who, pool, a, amt).add(pool, LRNA, dq);
			c.check_in("C02 C16 C17", "deposit-moves-only-the-deposit", mv == want, || format!("moved {mv:?}, expected {want:?}"));
			// weight cap
			let total = post.book.free(pool, LRNA);
			let lhs = w(t.hub_reserve) * w(10u128.pow(18));
			c.check_in(L, "weight-cap-respected", lhs <= w(t.cap) * w(total) + w(total), || format!("hub share {} of {} above cap {}", t.hub_reserve, total, t.cap));
			assets_same(c, &pre, &post, &[a]); positions_same(c, &pre, &post, Some(id)); hooks_true(c, &pre, &hooks);
			c.check_in("C16", "liquidity-hook-fires-once", hooks.len() == 1 && hooks[0].infos[0].2 == t, || format!("{hooks:?}"));
			invariants(c, &post, wd.donated);
		}
		62..=77 => {
			if pre.positions.is_empty() { return; }
			let keys: Vec<u128> = pre.positions.keys().copied().collect();
			let id = if c.rng.chance(1, 30) { pre.next + c.rng.below(3) } else { keys[c.rng.idx(keys.len())] };
			let (a, pamt, psh, pprice, owner) = pre.positions.get(&id).cloned().unwrap_or((0, 0, 1000, (1, 1), None));
			let who = if c.rng.chance(1, 12) { who } else { owner.clone().unwrap_or(who) };
			let amt = match c.rng.idx(6) { 0 => 0, 1 | 2 => psh, 3 => psh.saturating_add(1), _ => c.rng.log(1, psh) };
			match c.rng.idx(6) { 0 => { let v = (c.rng.range(900, 1100), 1000); OracleAdj::set(v) } 1 => { let v = (c.rng.range(1, 5), c.rng.range(1, 5)); OracleAdj::set(v) } _ => OracleAdj::set((1, 1)) }
			let s = pre.assets.get(&a).copied();
			let ok_price = s.as_ref().and_then(|s| barrier(s, a));
			let full = s.map(|s| muldiv(amt, s.reserve, s.shares));
			let min = match (c.rng.idx(5), full) { (0, Some(x)) => x / 2, (1, Some(x)) => x.saturating_add(1), _ => 0 };
			c.log(|| format!("{} remove position {id} (owner {:?}, asset {a} amount {pamt} shares {psh} price {pprice:?}) shares {amt} min {min} oracle {:?} state {s:?}", nm(&who), owner.as_ref().map(nm), OracleAdj::get()));
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::remove_liquidity_with_limit { position_id: id, amount: amt, min_limit: min }), RuntimeOrigin::signed(who.clone()));
			let post = view(); let hooks = Hooked::with(std::mem::take); let evs = take_events::<Rt>();
			c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			if let Err(e) = &res { c.event(&format!("refused-{}", err(e))); c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.assets == post.assets && pre.positions == post.positions && pre.imbalance == post.imbalance, || "a refused withdrawal changed the state".into()); }
			if !pre.positions.contains_key(&id) { c.check_in(L, "only-the-owner-withdraws", res.is_err(), || "withdrew from no position".into()); return; }
			let Some(s) = s else { c.check_in("C16", "refused-by-rule", res.is_err(), || "withdrew liquidity of an asset outside the pool".into()); return };
			let fl = flags(&s);
			let safe = !fl.0 && !fl.1 && fl.3;
			c.check_in(L, "only-the-owner-withdraws", res.is_err() || owner.as_ref() == Some(&who), || format!("{} withdrew from a position of {:?}", nm(&who), owner));
			c.check_in("C16", "refused-by-rule", res.is_err() || !(amt == 0 || amt > psh || !fl.3 || (!safe && ok_price == Some(false))), || format!("a withdrawal against a rule: amount {amt} of {psh}, tradable {:?}, price {ok_price:?}", s.tradable));
			if res.is_err() { return; }
			c.event("liquidity-removed"); c.nontrivial((id, amt, s.reserve));
			if safe { c.event("safe-withdrawal"); }
			let t = post.assets[&a];
			let mv = pre.book.moved(&post.book);
			let got = mv.get(&who, a) as u128; let hub = mv.get(&who, LRNA) as u128;
			let dq = s.hub_reserve - t.hub_reserve.min(s.hub_reserve);
			c.check_in(L, "withdrawal-respects-minimum", got >= min, || format!("got {got}, asked at least {min}"));
			let want = Moves::new().mv(pool, &who, a, got).sub(pool, LRNA, dq).add(&who, LRNA, hub);
			c.check_in("C02 C16 C17", "withdrawal-moves-only-the-position", mv == want, || format!("moved {mv:?}, expected {want:?}"));
			c.check_in(L, "withdrawal-at-most-the-share", w(got) * w(s.shares) <= w(s.reserve) * w(amt) && w(hub) * w(s.shares) <= w(s.hub_reserve) * w(amt) && w(dq) * w(s.shares) <= w(s.hub_reserve) * w(amt) + w(s.shares), || format!("got {got}, hub {hub}, burnt {dq} for {amt} shares of {s:?}"));
			c.check_in(L, "remaining-shares-lose-nothing", w(t.reserve) * w(s.shares) >= w(s.reserve) * w(t.shares), || format!("{s:?} -> {t:?}"));
			let left = psh - amt;
			c.check_in(L, "position-shrinks-by-the-shares-taken", match post.positions.get(&id) { None => left == 0 && Uniques::owner(NFTS, id).is_none(), Some(p) => left > 0 && p.0 == a && p.2 == left && p.3 == pprice && p.4 == owner && p.1 <= pamt && (w(p.1) * w(psh) + w(psh) * w(2) >= w(pamt) * w(left)) && (w(p.1) * w(psh) <= w(pamt) * w(left) + w(psh) * w(2)) }, || format!("position {:?} after taking {amt} of {psh} (amount {pamt})", post.positions.get(&id)));
			let gained = t.protocol_shares - s.protocol_shares.min(t.protocol_shares);
			c.check_in(L, "shares-burnt-or-given-to-protocol", s.shares - t.shares.min(s.shares) + gained == amt && t.protocol_shares >= s.protocol_shares, || format!("{s:?} -> {t:?} for {amt}"));
			// spot >= entry price: nothing to the protocol; spot < entry: no hub
			let spot = w(s.hub_reserve) * w(pprice.1); let entry = w(pprice.0) * w(s.reserve);
			if spot > entry { c.check_in(L, "no-shares-forfeited-above-entry", gained == 0, || format!("{gained} shares forfeited although the price rose")); }
			if spot < entry { c.check_in(L, "no-hub-paid-below-entry", hub == 0, || format!("hub {hub} paid although the price fell")); }
			let fee = evs.iter().find_map(|e| match e { RuntimeEvent::Omnipool(pallet_omnipool::Event::LiquidityRemoved { who: w0, position_id, asset_id, shares_removed, fee }) => Some((w0.clone(), *position_id, *asset_id, *shares_removed, *fee)), _ => None });
			if let Some(f) = fee {
				c.check_in("C16", "withdrawal-is-reported", f.0 == who && f.1 == id && f.2 == a && f.3 == amt, || format!("{f:?}"));
				c.check_in(L, "withdrawal-fee-in-range", f.4 >= FixedU128::from(Permill::from_parts(MinFee::get())) && f.4 <= FixedU128::from_u32(1), || format!("fee {:?}", f.4));
				if gained == 0 { c.check_in(L, "withdrawal-fee-charged", { let d = w(10u128.pow(18)); let k = w(10u128.pow(18) - f.4.into_inner()); w(got) * w(s.shares) * d <= w(s.reserve) * w(amt) * k + w(s.shares) * d && (w(got) + w(3)) * w(s.shares) * d >= w(s.reserve) * w(amt) * k }, || format!("got {got} for {amt} of {s:?} with a fee of {:?}", f.4)); }
			} else { c.check_in("C16", "withdrawal-is-reported", false, || "no event".into()); }
			assets_same(c, &pre, &post, &[a]); positions_same(c, &pre, &post, Some(id)); hooks_true(c, &pre, &hooks);
			c.check_in("C16", "liquidity-hook-fires-once", hooks.len() == 1 && hooks[0].infos[0].2 == t && hooks[0].infos[0].3 == safe, || format!("safe {safe}: {hooks:?}"));
			invariants(c, &post, wd.donated);
		}
		78..=80 => {
			if pre.positions.is_empty() { return; }
			let keys: Vec<u128> = pre.positions.keys().copied().collect(); let id = keys[c.rng.idx(keys.len())];
			let (a, _, sh, _, owner) = pre.positions[&id].clone();
			let who = if c.rng.chance(1, 3) { who } else { owner.clone().unwrap() };
			c.log(|| format!("{} sacrifice {id} of {:?}", nm(&who), owner.as_ref().map(nm)));
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::sacrifice_position { position_id: id }), RuntimeOrigin::signed(who.clone()));
			let post = view();
			c.check_in(L, "only-the-owner-withdraws", if pre.assets.contains_key(&a) { res.is_ok() == (Some(&who) == owner.as_ref()) } else { res.is_err() }, || format!("sacrifice by {}: {res:?}", nm(&who)));
			if res.is_ok() {
				c.event("sacrificed");
				let (s, t) = (pre.assets[&a], post.assets[&a]);
				c.check_in(L, "sacrifice-gives-all-shares-to-the-protocol", pre.book == post.book && t.protocol_shares == s.protocol_shares + sh && t.shares == s.shares && t.hub_reserve == s.hub_reserve && !post.positions.contains_key(&id), || format!("{s:?} -> {t:?}"));
			} else { c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.positions == post.positions && pre.assets == post.assets, || "refused sacrifice changed state".into()); }
			positions_same(c, &pre, &post, Some(id)); invariants(c, &post, wd.donated); Hooked::set(vec![]);
		}
		81..=83 => {
			// pass a position on
			if pre.positions.is_empty() { return; }
			let keys: Vec<u128> = pre.positions.keys().copied().collect(); let id = keys[c.rng.idx(keys.len())];
			let to = people[c.rng.idx(people.len())].clone();
			c.log(|| format!("position {id} passes to {}", nm(&to)));
			use frame_support::traits::tokens::nonfungibles::Transfer; let _ = <Uniques as Transfer<Acc>>::transfer(&NFTS, &id, &to); c.event("position-passed-on");
		}
		84..=87 => {
			let a = if c.rng.chance(1, 4) { LRNA } else { any(&mut c.rng) };
			let bits = *c.rng.pick(&[0u8, 1, 2, 3, 12, 8, 4, 15, 15, 15, 15, 11, 7]);
			let root = !c.rng.chance(1, 5);
			let st = Tradability::from_bits_truncate(bits);
			c.log(|| format!("set tradable {a} {st:?} root {root}"));
			let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::set_asset_tradable_state { asset_id: a, state: st }), o);
			let post = view();
			c.check_in(A, "only-the-authority-governs", res.is_err() || root, || "a user changed tradability".into());
			c.check_in(A, "authority-changes-only-settings", pre.book == post.book && pre.positions == post.positions, || "balances changed".into());
			assets_same(c, &pre, &post, &[a]);
			if res.is_ok() {
				if a == LRNA { c.check_in(A, "hub-asset-takes-no-liquidity", bits & 12 == 0, || "hub asset liquidity enabled".into()); wd.trad_hub = (bits & 1 > 0, bits & 2 > 0); }
				else { let mut want = pre.assets[&a]; want.tradable = st; c.check_in(A, "tradability-set-as-asked", post.assets[&a] == want, || format!("{:?}", post.assets[&a])); }
				c.event("tradability-set");
			}
		}
		88..=89 => {
			let a = any(&mut c.rng); let cap = Permill::from_parts(c.rng.range(1, M) as u32); let root = !c.rng.chance(1, 5);
			c.log(|| format!("cap {a} {cap:?} root {root}"));
			let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::set_asset_weight_cap { asset_id: a, cap }), o);
			let post = view();
			c.check_in(A, "only-the-authority-governs", res.is_err() || root, || "a user changed a cap".into());
			if res.is_ok() { let mut want = pre.assets[&a]; want.cap = FixedU128::from(cap).into_inner(); c.check_in(A, "cap-set-as-asked", post.assets[&a] == want, || format!("{:?}", post.assets[&a])); }
			c.check_in(A, "authority-changes-only-settings", pre.book == post.book && pre.positions == post.positions, || "balances changed".into());
			assets_same(c, &pre, &post, &[a]);
		}
		90..=92 => {
			let a = any(&mut c.rng); let Some(s) = pre.assets.get(&a).copied() else { return };
			let amt = match c.rng.idx(4) { 0 => s.protocol_shares, 1 => s.protocol_shares.saturating_add(1), _ => c.rng.log(0, s.protocol_shares) };
			let price = if c.rng.chance(1, 2) { (s.hub_reserve, s.reserve) } else { (c.rng.log(1, 10u128.pow(24)), c.rng.log(1, 10u128.pow(24))) };
			let root = !c.rng.chance(1, 6); let dest = who.clone();
			c.log(|| format!("withdraw protocol liquidity {a} shares {amt} price {price:?} to {} root {root} state {s:?}", nm(&dest)));
			let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::withdraw_protocol_liquidity { asset_id: a, amount: amt, price, dest: dest.clone() }), o);
			let post = view(); let hooks = Hooked::with(std::mem::take); let _ = take_events::<Rt>();
			c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			c.check_in(L, "only-the-authority-governs", res.is_err() || root, || "a user took protocol liquidity".into());
			if res.is_err() { c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.assets == post.assets, || "refused call changed state".into()); return; }
			c.event("protocol-liquidity-withdrawn");
			let t = post.assets[&a];
			c.check_in(L, "protocol-takes-only-its-shares", amt <= s.protocol_shares && w(t.shares) * w(1) <= w(s.shares) && s.shares - t.shares <= amt, || format!("{s:?} -> {t:?} for {amt}"));
			let mv = pre.book.moved(&post.book); let got = mv.get(&dest, a) as u128; let hub = mv.get(&dest, LRNA) as u128; let dq = s.hub_reserve - t.hub_reserve.min(s.hub_reserve);
			c.check_in("C02 C16 C17", "withdrawal-moves-only-the-position", mv == Moves::new().mv(pool, &dest, a, got).sub(pool, LRNA, dq).add(&dest, LRNA, hub), || format!("{mv:?}"));
			c.check_in(L, "withdrawal-at-most-the-share", w(got) * w(s.shares) <= w(s.reserve) * w(amt) && w(hub) * w(s.shares) <= w(s.hub_reserve) * w(amt) && w(dq) * w(s.shares) <= w(s.hub_reserve) * w(amt), || format!("got {got} for {amt} of {s:?}"));
			c.check_in(L, "remaining-shares-lose-nothing", w(t.reserve) * w(s.shares) >= w(s.reserve) * w(t.shares), || format!("{s:?} -> {t:?}"));
			positions_same(c, &pre, &post, None); assets_same(c, &pre, &post, &[a]); hooks_true(c, &pre, &hooks); invariants(c, &post, wd.donated);
		}
		93 => {
			let a = any(&mut c.rng); let root = !c.rng.chance(1, 5); let dest = who.clone();
			c.log(|| format!("remove token {a} root {root} state {:?}", pre.assets.get(&a)));
			if c.rng.chance(1, 2) { let _ = Omnipool::set_asset_tradable_state(RuntimeOrigin::root(), a, Tradability::FROZEN); }
			let pre = view();
			let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
			let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::remove_token { asset_id: a, beneficiary: dest.clone() }), o);
			let post = view();
			if res.is_ok() {
				c.event("token-removed");
				let s = pre.assets[&a];
				c.check_in(L, "only-an-abandoned-asset-leaves", root && s.tradable == Tradability::FROZEN && s.shares == s.protocol_shares && pre.positions.values().all(|p| p.0 != a || p.2 == 0), || format!("{s:?}"));
				let mv = pre.book.moved(&post.book);
				c.check_in("C16 C17", "leaving-asset-is-paid-out", !post.assets.contains_key(&a) && mv == Moves::new().mv(pool, &dest, a, s.reserve).sub(pool, LRNA, s.hub_reserve), || format!("{mv:?} of {s:?}"));
			} else { c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.assets == post.assets, || "refused call changed state".into()); }
			invariants(c, &post, wd.donated);
		}
		94..=95 => {
			// sacrifice every position of an asset, so that it can leave; or add one back
			let missing: Vec<u32> = (0..n).filter(|a| *a != LRNA && !pre.assets.contains_key(a)).collect();
			if let Some(a) = missing.first().copied() {
				let have = pre.book.free(pool, a); let need = ed(a) * 20;
				if have < need && c.rng.chance(3, 4) { give::<Rt>(pool, a, need + 1000); }
				if pre.next > 0 && c.rng.chance(1, 3) {
					let pre = view(); let amount = c.rng.log(1, have.max(1)); let root = !c.rng.chance(1, 4);
					let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who.clone()) };
					let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::refund_refused_asset { asset_id: a, amount, recipient: who.clone() }), o);
					let post = view();
					c.log(|| format!("refund {a} {amount} root {root} -> {res:?}"));
					c.check_in("C16 C17", "refund-moves-only-the-refund", if res.is_ok() { root && pre.book.moved(&post.book) == Moves::new().mv(pool, &who, a, amount) } else { pre.book == post.book }, || format!("{:?}", pre.book.moved(&post.book)));
					return;
				}
				let pre = view(); let price = FixedU128::from_inner(c.rng.log(10u128.pow(12), 10u128.pow(22))); let root = !c.rng.chance(1, 5);
				let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who.clone()) };
				let res = call(RuntimeCall::Omnipool(pallet_omnipool::Call::add_token { asset: a, initial_price: price, weight_cap: Permill::from_percent(100), position_owner: who.clone() }), o);
				let post = view(); let _ = Hooked::with(std::mem::take);
				c.log(|| format!("add token {a} price {price:?} root {root} -> {:?}", res.as_ref().map_err(err)));
				c.check_in(A, "only-the-authority-governs", res.is_err() || root, || "a user added a token".into());
				if res.is_ok() {
					c.event("token-added");
					let amt = pre.book.free(pool, a); let t = post.assets[&a];
					let hub = (w(price.into_inner()) * w(amt) / w(10u128.pow(18))).low_u128();
					c.check_in(L, "initial-position-owns-the-initial-shares", amt >= ed(a) * 20 && t.reserve == amt && t.shares == amt && t.protocol_shares == 0 && t.hub_reserve == hub && post.positions.get(&pre.next) == Some(&(a, amt, amt, (price.into_inner(), 10u128.pow(18)), Some(who.clone()))), || format!("{t:?} {:?}", post.positions.get(&pre.next)));
					c.check_in("C16 C17", "initial-hub-is-minted", pre.book.moved(&post.book) == Moves::new().add(pool, LRNA, hub), || format!("{:?}", pre.book.moved(&post.book)));
				} else { c.check_in("C16", "refusal-changes-nothing", pre.book == post.book && pre.assets == post.assets && pre.positions == post.positions, || "refused call changed state".into()); }
				positions_same(c, &pre, &post, Some(pre.next)); invariants(c, &post, wd.donated);
			} else {
				let a = any(&mut c.rng);
				if a == HDX { return; }
				for (i, p) in &pre.positions { if p.0 == a { let _ = Omnipool::sacrifice_position(RuntimeOrigin::signed(p.4.clone().unwrap()), *i); } }
				c.log(|| format!("all positions of {a} sacrificed"));
				c.event("asset-abandoned");
			}
		}
		96 => { let a = ids[c.rng.idx(ids.len())]; let v = c.rng.log(1, pre.book.free(&who, a).max(1)); c.log(|| format!("{} donates {v} of {a}", nm(&who))); let _ = Tokens::transfer(RuntimeOrigin::signed(who), pool.clone(), a, v); c.event("donation"); }
		97 => { let v = c.rng.log(1, pre.book.free(&who, LRNA).max(1)); if Tokens::transfer(RuntimeOrigin::signed(who.clone()), pool.clone(), LRNA, v).is_ok() { wd.donated += v; c.log(|| format!("{} donates {v} hub", nm(&who))); } }
		_ => { let v: BTreeMap<u32, (u32, u32)> = (0..n).map(|a| (a, (c.rng.ppm(200_000), c.rng.ppm(100_000)))).collect(); Fees::set(v); System::set_block_number(System::block_number() + 1); }
	}
}

/// What the rules say of a trade: Some(true) must execute, Some(false) must be refused, None undecided.
#[allow(clippy::too_many_arguments)]
fn unwrap_exec(e: hydradx_traits::router::ExecutorError<DispatchError>) -> DispatchError { match e { hydradx_traits::router::ExecutorError::Error(e) => e, _ => DispatchError::Other("routed") } }
fn gate(pre: &View, wd: &World, who: &Acc, i: u32, o: u32, amt: u128, is_sell: bool, limit: u128, quote: Option<u128>) -> Option<bool> {
	if i == o || amt < MinTrade::get() || o == LRNA { return Some(false); }
	let so = pre.assets.get(&o); if so.is_none() || (i != LRNA && !pre.assets.contains_key(&i)) { return Some(false); }
	let so = so.unwrap();
	if !flags(so).1 { return Some(false); }
	let base = if i == LRNA { if !wd.trad_hub.0 { return Some(false); } so.hub_reserve } else { let s = &pre.assets[&i]; if !flags(s).0 { return Some(false); } s.reserve };
	let (paid, got) = if is_sell { (amt, quote?) } else { (quote?, amt) };
	if paid > pre.book.free(who, i) { return Some(false); }
	if paid > base / InRatio::get() || got > so.reserve / OutRatio::get() { return Some(false); }
	if is_sell && got < limit || !is_sell && paid > limit { return Some(false); }
	if is_sell && got == 0 { return if i == LRNA { None } else { Some(false) }; }
	if HookFee::get().1 != 0 || HookFee::get().0 > 0 { return None; }
	// what may still refuse: dust limits of the accounts, hub reserves too small to serve
	let left = pre.book.free(who, i) - paid;
	if (left > 0 && left < ed(i)) || pre.book.free(&Omnipool::protocol_account(), i) + paid < ed(i) || pre.book.free(who, o) + got < ed(o) { return None; }
	if so.hub_reserve < 10_000_000 || pre.assets.get(&i).map(|s| s.hub_reserve < 10_000_000).unwrap_or(false) || pre.book.free(&Omnipool::protocol_account(), LRNA) < 2 * ed(LRNA) || pre.book.free(&Omnipool::protocol_account(), o) < 10 * ed(o) { return None; }
	if i != LRNA && !pre.assets.contains_key(&HDX) { return None; }
	if i == LRNA { return None; }
	Some(true)
}

fn run(m: &mut Monitor) {
	m.workload("omnipool-history", 6_000, 300_000, history);
	for (e, n) in [("sell", 20_000), ("buy", 12_000), ("traded", 8_000), ("traded-hub-in", 1_000), ("liquidity-added", 1_500), ("liquidity-removed", 2_500), ("sacrificed", 500), ("protocol-liquidity-withdrawn", 300), ("token-removed", 5), ("token-added", 20), ("tradability-set", 1000), ("position-passed-on", 1000), ("safe-withdrawal", 20)] { m.expect(&format!("omnipool-history/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct accepted trades, deposits and withdrawals by (assets, amounts)", ["the pallet runs on a stand-in for FRAME, orml-tokens and pallet-uniques (calibrated by the pallet's own 164 tests); prices of the external oracle are the pool's own price times a chosen factor"];
		"C01" => run, "C02" => run, "C16" => run, "C17" => run);
}

//! The XYK pallet under random histories of every call, judged on balances, issuance, the constant product, hooks and events.
use hydra_dx_math::xyk as xm;
use hydradx_traits::registry::{AssetKind, Create, Inspect};
use hydradx_traits::router::{PoolType, TradeExecution};
use hydradx_traits::{AMMPosition, AssetPairAccountIdFor, CanCreatePool, OnCreatePoolHandler, OnLiquidityChangedHandler, OnTradeHandler, Source, AMM};
use mon_core::big::w;
use mon_frame::*;
use pallet_xyk::types::AssetPair;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Xyk: pallet_xyk });
base!(Rt, (), DustWhite);
type Ratio = hydra_dx_math::ratio::Ratio;
#[derive(Clone, Debug, PartialEq)]
enum Hooked { Pool(u32, u32), Trade(Source, u32, u32, u128, u128, u128, u128, Ratio), Liq(Source, u32, u32, u128, u128, u128, u128, Ratio) }
param! { MinTrade: u128 = 1000; MinLiq: u128 = 1000; InR: u128 = 3; OutR: u128 = 3; Hook: Vec<Hooked> = vec![]; Fail: bool = false; Allow: bool = true; }
parameter_types! { pub const Native: u32 = 0; pub const Src: Source = *b"hydraxyk"; }
std::thread_local! { static FEE: std::cell::Cell<((u32, u32), (u32, u32))> = const { std::cell::Cell::new(((2, 1000), (7, 10_000))) }; static NAMES: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) }; }
pub struct Fee; impl Get<(u32, u32)> for Fee { fn get() -> (u32, u32) { FEE.with(|f| f.get().0) } }
pub struct LowFee; impl Get<(u32, u32)> for LowFee { fn get() -> (u32, u32) { FEE.with(|f| f.get().1) } }
pub struct Ids; impl AssetPairAccountIdFor<u32, Acc> for Ids { fn from_assets(a: u32, b: u32, t: &str) -> Acc { pool_acc(t.as_bytes(), a.min(b), a.max(b)) } }
pub struct Shares;
impl Inspect for Shares {
	type AssetId = u32; type Location = u8;
	fn is_sufficient(_: u32) -> bool { false } fn exists(a: u32) -> bool { Reg::exists(a) } fn decimals(a: u32) -> Option<u8> { Reg::decimals(a) } fn asset_type(_: u32) -> Option<AssetKind> { None } fn is_banned(_: u32) -> bool { false }
	fn asset_name(_: u32) -> Option<Vec<u8>> { None } fn asset_symbol(_: u32) -> Option<Vec<u8>> { None } fn existential_deposit(a: u32) -> Option<u128> { Some(ed(a)) }
}
impl Create<u128> for Shares {
	type Error = DispatchError; type Name = Vec<u8>; type Symbol = Vec<u8>;
	fn register_asset(_: Option<u32>, _: Option<Vec<u8>>, _: AssetKind, _: Option<u128>, _: Option<Vec<u8>>, _: Option<u8>, _: Option<u8>, _: Option<u128>, _: bool) -> Result<u32, DispatchError> { Err(DispatchError::Other("register")) }
	fn get_or_register_asset(name: Vec<u8>, _: AssetKind, _: Option<u128>, _: Option<Vec<u8>>, _: Option<u8>, _: Option<u8>, _: Option<u128>, _: bool) -> Result<u32, DispatchError> { NAMES.with(|n| { let mut n = n.borrow_mut(); let i = n.iter().position(|x| *x == name).unwrap_or_else(|| { n.push(name); n.len() - 1 }); Ok(1000 + i as u32) }) }
}
pub struct Can; impl CanCreatePool<u32> for Can { fn can_create(_: u32, _: u32) -> bool { Allow::get() } }
pub struct Watch;
impl OnCreatePoolHandler<u32> for Watch { fn on_create_pool(a: u32, b: u32) -> DispatchResult { Hook::with(|h| h.push(Hooked::Pool(a, b))); Ok(()) } }
impl OnTradeHandler<u32, u128, Ratio> for Watch {
	fn on_trade(s: Source, a: u32, b: u32, x: u128, y: u128, l: u128, m: u128, p: Ratio) -> Result<Weight, (Weight, DispatchError)> { if Fail::get() { return Err((Weight::zero(), DispatchError::Other("hook"))); } Hook::with(|h| h.push(Hooked::Trade(s, a, b, x, y, l, m, p))); Ok(Weight::zero()) }
	fn on_trade_weight() -> Weight { Weight::zero() }
}
impl OnLiquidityChangedHandler<u32, u128, Ratio> for Watch {
	fn on_liquidity_changed(s: Source, a: u32, b: u32, x: u128, y: u128, l: u128, m: u128, p: Ratio) -> Result<Weight, (Weight, DispatchError)> { if Fail::get() { return Err((Weight::zero(), DispatchError::Other("hook"))); } Hook::with(|h| h.push(Hooked::Liq(s, a, b, x, y, l, m, p))); Ok(Weight::zero()) }
	fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
}
impl pallet_xyk::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetRegistry = Shares; type AssetPairAccountId = Ids; type Currency = Tokens; type NativeAssetId = Native; type WeightInfo = (); type GetExchangeFee = Fee; type MinTradingLimit = MinTrade; type MinPoolLiquidity = MinLiq;
	type MaxInRatio = InR; type MaxOutRatio = OutR; type OracleSource = Src; type CanCreatePool = Can; type AMMHandler = Watch; type DiscountedFee = LowFee; type NonDustableWhitelistHandler = DustWhite;
}
use pallet_xyk::{Call, Event};
const P: &str = "C19";
const V: &str = "C05 C19";
const MV: &str = "C17 C19";
fn pid(a: u32, b: u32) -> Acc { Ids::from_assets(a, b, "xyk") }
fn pair(i: u32, o: u32) -> AssetPair { AssetPair { asset_in: i, asset_out: o } }
#[derive(Clone, PartialEq, Debug)]
struct Pool { assets: (u32, u32), share: u32, issued: u128 }
#[derive(Clone)]
struct View { book: Book, pools: BTreeMap<(u32, u32), Pool>, white: BTreeSet<Acc> }
fn view(n: u32) -> View {
	let mut pools = BTreeMap::new();
	for a in 0..n { for b in a + 1..n { let id = pid(a, b); if let Some(x) = Xyk::pool_assets(&id) { pools.insert((a, b), Pool { assets: x, share: Xyk::share_token(&id), issued: Xyk::total_liquidity(&id) }); } } }
	View { book: Book::tokens::<Rt>(), pools, white: NoDust::get() }
}
impl View { fn pool(&self, a: u32, b: u32) -> Option<&Pool> { self.pools.get(&(a.min(b), a.max(b))) } fn res(&self, a: u32, b: u32, x: u32) -> u128 { self.book.free(&pid(a, b), x) } }
fn same(c: &Ctx, a: &View, b: &View) -> bool { c.check_in(P, "refusal-changes-nothing", a.book == b.book && a.pools == b.pools && a.white == b.white, || "a refused call changed the state".into()) }
fn invariants(c: &Ctx, v: &View) {
	for (k, p) in &v.pools {
		let id = pid(k.0, k.1);
		c.check_in(P, "shares-are-the-recorded-liquidity", p.issued == v.book.issuance(p.share) && p.issued > 0, || format!("pool {k:?}: recorded {}, issued {}", p.issued, v.book.issuance(p.share)));
		c.check_in(P, "pool-of-its-two-assets", p.assets == *k || p.assets == (k.1, k.0), || format!("pool {k:?}: {:?}", p.assets));
		c.check_in(P, "pool-account-is-never-dusted", v.white.contains(&id), || format!("pool {k:?}"));
		for (a, b) in [*k, (k.1, k.0)] {
			use hydradx_traits::pools::SpotPriceProvider as S;
			let (ra, rb) = (v.book.free(&id, a), v.book.free(&id, b)); let got = pallet_xyk::XYKSpotPrice::<Rt>::spot_price(a, b).map(|p| w(p.into_inner())); let e = if rb == 0 { None } else { Some(w(ra) * w(10u128.pow(18)) / w(rb)).filter(|x| *x <= w(u128::MAX)) };
			c.check_in(P, "spot-price-of-reserves", match (got, e) { (Some(g), Some(e)) => g <= e + w(1) && g + w(1) >= e, (None, None) => true, (g, e) => g.or(e).unwrap() + w(2) >= w(u128::MAX) } && pallet_xyk::XYKSpotPrice::<Rt>::pair_exists(a, b) && pallet_xyk::XYKSpotPrice::<Rt>::spot_price(a, 9999).is_none(), || format!("{ra} {a} per {rb} {b}: {got:?}, exact {e:?}")); c.event("spot-price");
		}
		c.check_in(V, "liquid-pool-has-reserves", v.book.free(&id, k.0) > 0 && v.book.free(&id, k.1) > 0, || format!("pool {k:?} with {} shares has {} and {}", p.issued, v.book.free(&id, k.0), v.book.free(&id, k.1)));
	}
	let mut s: Vec<u32> = v.pools.values().map(|p| p.share).collect(); let n = s.len(); s.sort(); s.dedup();
	c.check_in(P, "one-share-token-per-pool", s.len() == n, || format!("{:?}", v.pools));
	let b = v.book.balanced(); c.check_in(P, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn others(c: &Ctx, a: &View, b: &View, k: (u32, u32)) { let f = |v: &View| v.pools.iter().filter(|x| *x.0 != k).map(|x| (*x.0, x.1.clone())).collect::<Vec<_>>(); c.check_in(P, "other-pools-untouched", f(a) == f(b), || format!("{:?} -> {:?}", f(a), f(b))); }
fn fee_of(amount: u128, f: (u32, u32)) -> u128 { if f.0 == 0 || f.1 == 0 { 0 } else if f.0 == f.1 { amount } else { amount / f.1 as u128 * f.0 as u128 } }
fn do_call(c: Call<Rt>, who: &Acc) -> Result<(), DispatchError> { call(RuntimeCall::Xyk(c), RuntimeOrigin::signed(who.clone())) }
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); Hook::set(vec![]); NoDust::set(Default::default()); NAMES.with(|n| n.borrow_mut().clear()); Fail::set(false); Allow::set(true);
		let r = &mut c.rng; let n = 2 + r.idx(4) as u32;
		Assets::set((0..n).map(|a| (a, 12)).collect());
		Eds::set((0..n).map(|a| (a, *r.pick(&[1u128, 1, 1000, 10_000]))).collect());
		MinTrade::set(*r.pick(&[1000u128, 1, 0, 100_000])); MinLiq::set(*r.pick(&[1000u128, 1, 10u128.pow(9)])); InR::set(*r.pick(&[3u128, 1, 2, 10])); OutR::set(*r.pick(&[3u128, 1, 2, 10]));
		let f = *r.pick(&[(2u32, 1000u32), (3, 1000), (0, 1), (1, 1), (999, 1000), (7, 10_000), (1, 3), (30, 10_000)]); let l = *r.pick(&[(7u32, 10_000u32), (0, 0), (1, 1000)]); FEE.with(|x| x.set((f, l)));
		let people: Vec<Acc> = (1..5).map(acc).collect();
		let big = r.chance(1, 8);
		for p in &people { for a in 0..n { let v = if big { r.log(10u128.pow(20), 10u128.pow(37)) } else { r.log(10u128.pow(9), 10u128.pow(22)) }; give::<Rt>(p, a, v); } }
		System::reset_events();
		let steps = 25 + c.rng.idx(30);
		for _ in 0..steps { step(c, n, &people); if c.failed() { return; } }
		c.sample(|| { let v = view(n); json!({"pools": v.pools.len(), "fee": format!("{f:?}"), "reserves": v.pools.keys().map(|k| format!("{} {}", v.res(k.0, k.1, k.0), v.res(k.0, k.1, k.1))).collect::<Vec<_>>()}) });
	});
}
fn step(c: &mut Ctx, n: u32, people: &[Acc]) {
	let pre = view(n); let who = people[c.rng.idx(people.len())].clone();
	let keys: Vec<(u32, u32)> = pre.pools.keys().copied().collect();
	let k = if keys.is_empty() || c.rng.chance(1, 25) { (c.rng.idx(n as usize) as u32, c.rng.idx(n as usize) as u32) } else { keys[c.rng.idx(keys.len())] };
	let (a, b) = if c.rng.chance(1, 2) { k } else { (k.1, k.0) };
	let home = pid(a, b); let kk = (a.min(b), a.max(b));
	let kind = if keys.is_empty() { 60 } else { c.rng.idx(100) };
	let mut fail = c.rng.chance(1, 40); Fail::set(fail);
	match kind {
		x @ 0..=49 => {
			let sell = x < 27; let (i, o) = (a, b); let (ri, ro) = (pre.res(i, o, i), pre.res(i, o, o));
			let base = if sell { ri } else { ro };
			let amt = match c.rng.idx(9) { 0 => c.rng.range(0, MinTrade::get() + 2), 1 => base / if sell { InR::get() } else { OutR::get() } + c.rng.below(3), 2 => pre.book.free(&who, i), 3 => base, _ => { let lo = MinTrade::get().max(1); c.rng.log(lo, base / 3) } };
			let disc = c.rng.chance(1, 5);
			let quote = if sell { Xyk::calculate_sell(PoolType::XYK, i, o, amt) } else { Xyk::calculate_buy(PoolType::XYK, i, o, amt) }.ok();
			let limit = match (c.rng.idx(6), quote) { (0, Some(q)) => q.saturating_add(1), (1, Some(q)) => q.saturating_sub(1), (2 | 3, Some(q)) => q, _ => if sell { 0 } else { u128::MAX } };
			let fee = FEE.with(|f| f.get()); let f = if disc { fee.1 } else { fee.0 };
			c.log(|| format!("{} {} {i}->{o} amount {amt} limit {limit} discount {disc} quote {quote:?} reserves {ri}/{ro} fee {f:?}", nm(&who), if sell { "sell" } else { "buy" }));
			let routed = !disc && c.rng.chance(1, 4); let org = RuntimeOrigin::signed(who.clone());
			let ex = |e| match e { hydradx_traits::router::ExecutorError::Error(e) => e, _ => DispatchError::Other("routed") };
			let res = match (sell, routed) {
				(true, false) => do_call(Call::sell { asset_in: i, asset_out: o, amount: amt, max_limit: limit, discount: disc }, &who),
				(false, false) => do_call(Call::buy { asset_out: o, asset_in: i, amount: amt, max_limit: limit, discount: disc }, &who),
				(true, true) => frame_support::storage::with_storage_layer(|| <Xyk as TradeExecution<RuntimeOrigin, Acc, u32, u128>>::execute_sell(org, PoolType::XYK, i, o, amt, limit).map_err(ex)),
				(false, true) => frame_support::storage::with_storage_layer(|| <Xyk as TradeExecution<RuntimeOrigin, Acc, u32, u128>>::execute_buy(org, PoolType::XYK, i, o, amt, limit).map_err(ex)),
			};
			let post = view(n); let evs = take_events::<Rt>(); let hooks = Hook::with(std::mem::take); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			c.event(if sell { "sell" } else { "buy" });
			if c.rng.chance(1, 40) { for t in [PoolType::Omnipool, PoolType::LBP, PoolType::Stableswap(i)] { c.check_in(P, "other-pool-types-are-not-quoted", Xyk::calculate_sell(t, i, o, amt).is_err() && Xyk::calculate_buy(t, i, o, amt).is_err() && Xyk::calculate_spot_price_with_fee(t, i, o).is_err() && Xyk::get_liquidity_depth(t, i, o).is_err(), || format!("{t:?}")); } }
			let gross = if i == o || pre.pool(i, o).is_none() { None } else if sell { xm::calculate_out_given_in(ri, ro, amt).ok().filter(|g| *g < ro) } else if amt < ro { xm::calculate_in_given_out(ro, ri, amt).ok() } else { None };
			let fa = gross.map(|g| fee_of(g, f)).unwrap_or(0);
			let net = gross.and_then(|g| if sell { Some(g - fa) } else { g.checked_add(fa) });
			// discount: paid for in native, priced in the pool of the asset and native
			let da = if sell { i } else { o };
			let dpool = pre.pool(da, Native::get()).is_some() && da != Native::get();
			let burn = if !disc { Some(0) } else if !dpool { None } else { xm::calculate_spot_price(pre.res(da, 0, da), pre.res(da, 0, 0), fa).ok() };
			let (paid, got) = match net { Some(v) => if sell { (amt, v) } else { (v, amt) }, None => (0, 0) };
			let g = gross.unwrap_or(0);
			let broken = net.is_none() || amt < MinTrade::get() || if sell { amt > ri / InR::get() || g > ro / OutR::get() || got < limit } else { amt > ro / OutR::get() || g > ri / InR::get() || paid > limit } || paid > pre.book.free(&who, i) || burn.is_none() || burn.unwrap() > pre.book.free(&who, 0) || fail;
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || format!("a trade that breaks a rule was executed: gross {gross:?} net {net:?} ratios {}/{} burn {burn:?}", InR::get(), OutR::get()));
			if let Err(e) = &res {
				if !broken {
					let left = pre.book.free(&who, i) - paid; let need = burn.unwrap();
					let dust = got == 0 || pre.book.free(&who, o) + got < ed(o) || (left > 0 && left < ed(i)) || need > 0 && (pre.book.free(&who, 0) - need < ed(0) || i == 0 && pre.book.free(&who, 0) < need + paid || pre.book.free(&who, 0).saturating_sub(need).saturating_sub(if i == 0 { paid } else { 0 }) < ed(0));
					c.check_in(P, "allowed-by-rule", dust || format!("{e:?}").contains("Arithmetic") || (ri + paid).checked_add(0).is_none(), || format!("a trade within every rule was refused: {}", err(e)));
				}
				c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); Hook::set(vec![]); return;
			}
			if broken { return; }
			c.event(if sell { "sold" } else { "bought" }); if disc { c.event("discounted"); } c.nontrivial((i, o, paid, got)); c.distinct("pool", (ri.ilog2(), ro.ilog2(), f));
			c.check_in(V, "executable-trades-are-quoted", disc || quote.is_some(), || "no quote".into());
			if let (Some(q), false) = (quote, disc) { c.check_in("C05 C17 C19", "execution-matches-quote", q == net.unwrap(), || format!("quoted {q}, executed {net:?}")); }
			let mv = pre.book.moved(&post.book); let burn = burn.unwrap();
			let want = Moves::new().mv(&who, &home, i, paid).mv(&home, &who, o, got).sub(&who, 0, burn);
			c.check_in("C05 C17 C19", "only-the-two-legs-move", mv == want, || format!("moved {mv:?}, expected {want:?}"));
			c.check_in(MV, "trades-never-mint", post.book.issuance.iter().all(|(a, v)| *v == pre.book.issuance(*a) - if *a == 0 { burn } else { 0 }), || "issuance changed".into());
			let (ri2, ro2) = (post.res(i, o, i), post.res(i, o, o));
			c.check_in(V, "product-never-falls", w(ri2) * w(ro2) >= w(ri) * w(ro), || format!("{ri}*{ro} -> {ri2}*{ro2}"));
			c.check_in(P, "trades-keep-shares", pre.pools == post.pools && pre.white == post.white, || "pools changed".into());
			c.check_in(P, "trade-is-reported", evs.iter().any(|e| match e { RuntimeEvent::Xyk(Event::SellExecuted { who: x, asset_in, asset_out, amount, sale_price, fee_asset, fee_amount, pool }) if sell => (x, *asset_in, *asset_out, *amount, *sale_price, *fee_asset, *fee_amount, pool) == (&who, i, o, paid, got, o, fa, &home), RuntimeEvent::Xyk(Event::BuyExecuted { who: x, asset_in, asset_out, amount, buy_price, fee_asset, fee_amount, pool }) if !sell => (x, *asset_in, *asset_out, *amount, *buy_price, *fee_asset, *fee_amount, pool) == (&who, i, o, got, g, i, fa, &home), _ => false }), || format!("{evs:?}"));
			let (wi, wo) = (paid, got);
			c.check_in(P, "hook-reports-the-true-trade", hooks == [Hooked::Trade(Src::get(), i, o, wi, wo, ri2, ro2, Ratio::new(ri2, ro2))], || format!("{hooks:?}, paid {wi} of {i}, got {wo} of {o}, reserves {ri2}/{ro2}"));
			invariants(c, &post);
		}
		50..=57 | 60..=61 => {
			let (a, b) = (c.rng.idx(n as usize) as u32, if c.rng.chance(1, 12) { a } else { c.rng.idx(n as usize) as u32 });
			let (home, kk) = (pid(a, b), (a.min(b), a.max(b)));
			let v = |r: &mut Rng, x: u32| match r.idx(6) { 0 => MinLiq::get().saturating_sub(1), 1 => MinLiq::get(), 2 => pre.book.free(&who, x).saturating_add(1), _ => { let hi = pre.book.free(&who, x) / 3; r.log(MinLiq::get(), hi) } };
			let (x, y) = (v(&mut c.rng, a), v(&mut c.rng, b)); let allow = !c.rng.chance(1, 20); Allow::set(allow); let _ = fail;
			c.log(|| format!("{} creates pool {x} of {a}, {y} of {b}, allowed {allow}", nm(&who)));
			let res = do_call(Call::create_pool { asset_a: a, amount_a: x, asset_b: b, amount_b: y }, &who);
			let post = view(n); let evs = take_events::<Rt>(); let hooks = Hook::with(std::mem::take); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let sh = if a < b { x } else { y };
			let broken = !allow || a == b || pre.pool(a, b).is_some() || x < MinLiq::get() || y < MinLiq::get() || x > pre.book.free(&who, a) || y > pre.book.free(&who, b);
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || "a pool was created against a rule".into());
			if let Err(e) = &res { if !broken { let d = |x: u32, v: u128| { let l = pre.book.free(&who, x) - v; v < ed(x) && pre.book.free(&home, x) == 0 || (l > 0 && l < ed(x)) }; c.check_in(P, "allowed-by-rule", d(a, x) || d(b, y) || pre.white.contains(&home) || sh == 0, || format!("a pool within every rule was refused: {}", err(e))); } same(c, &pre, &post); return; }
			if broken { return; }
			c.event("pool-created");
			let p = post.pool(a, b).cloned(); let Some(p) = p else { return c.violate("pool-created-as-asked", "no pool".into()) };
			let want = Moves::new().mv(&who, &home, a, x).mv(&who, &home, b, y).add(&who, p.share, sh); let mv = pre.book.moved(&post.book);
			c.check_in("C05 C17 C19", "deposit-moves-only-the-deposit", mv == want && p.issued == sh && p.assets == (a, b), || format!("moved {mv:?}, expected {want:?}; {p:?}"));
			c.check_in(P, "deposit-is-reported", hooks == [Hooked::Pool(a, b)] && evs.iter().any(|e| matches!(e, RuntimeEvent::Xyk(Event::PoolCreated { who: u, asset_a, asset_b, initial_shares_amount, share_token, pool }) if (u, *asset_a, *asset_b, *initial_shares_amount, *share_token, pool) == (&who, a, b, sh, p.share, &home))), || format!("{hooks:?} {evs:?}"));
			others(c, &pre, &post, kk); invariants(c, &post);
		}
		58..=59 | 62..=77 => {
			let (ra, rb) = (pre.res(a, b, a), pre.res(a, b, b));
			let amt = match c.rng.idx(7) { 0 => c.rng.range(0, MinTrade::get() + 2), 1 => pre.book.free(&who, a), _ => { let lo = MinTrade::get().max(1); c.rng.log(lo, ra) } };
			let p = pre.pool(a, b).cloned();
			let bb = p.as_ref().and_then(|_| xm::calculate_liquidity_in(ra, rb, amt).ok());
			let max = match (c.rng.idx(5), bb) { (0, Some(x)) => x, (1, Some(x)) => x.saturating_sub(1), (2, _) if c.rng.chance(1, 4) => 0, _ => u128::MAX };
			c.log(|| format!("{} adds {amt} of {a} and at most {max} of {b}; reserves {ra}/{rb}", nm(&who)));
			let res = do_call(Call::add_liquidity { asset_a: a, asset_b: b, amount_a: amt, amount_b_max_limit: max }, &who);
			let post = view(n); let evs = take_events::<Rt>(); let hooks = Hook::with(std::mem::take); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let sh = p.as_ref().and_then(|p| xm::calculate_shares(ra, amt, p.issued));
			let broken = p.is_none() || amt < MinTrade::get() || max == 0 || bb.is_none() || amt > pre.book.free(&who, a) || bb.unwrap() > pre.book.free(&who, b) || bb.unwrap() > max || sh.unwrap_or(0) == 0 || pre.book.free(&who, p.as_ref().unwrap().share) + sh.unwrap() < MinLiq::get() || fail;
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || format!("liquidity was added against a rule: needs {bb:?}, shares {sh:?}"));
			if let Err(e) = &res { if !broken { let d = |x: u32, v: u128| { let l = pre.book.free(&who, x) - v; l > 0 && l < ed(x) }; c.check_in(P, "allowed-by-rule", d(a, amt) || d(b, bb.unwrap()) || format!("{e:?}").contains("Arithmetic"), || format!("an addition within every rule was refused: {}", err(e))); } c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); return; }
			if broken { return; }
			let (p, bb, sh) = (p.unwrap(), bb.unwrap(), sh.unwrap()); c.event("added"); c.nontrivial((a, b, amt, sh));
			let want = Moves::new().mv(&who, &home, a, amt).mv(&who, &home, b, bb).add(&who, p.share, sh); let mv = pre.book.moved(&post.book);
			c.check_in("C05 C17 C19", "deposit-moves-only-the-deposit", mv == want && post.pool(a, b) == Some(&Pool { issued: p.issued + sh, ..p.clone() }), || format!("moved {mv:?}, expected {want:?}"));
			c.check_in(V, "deposit-keeps-share-value", w(sh) * w(ra) <= w(p.issued) * w(amt) && w(sh) * w(rb) <= w(p.issued) * w(bb), || format!("{sh} shares of {} for {amt}/{ra} and {bb}/{rb}", p.issued));
			let (x, y) = (ra + amt, rb + bb);
			c.check_in(P, "hook-reports-the-true-liquidity", hooks == [Hooked::Liq(Src::get(), a, b, amt, bb, x, y, Ratio::new(x, y))] && evs.iter().any(|e| matches!(e, RuntimeEvent::Xyk(Event::LiquidityAdded { who: u, asset_a, asset_b, amount_a, amount_b }) if (u, *asset_a, *asset_b, *amount_a, *amount_b) == (&who, a, b, amt, bb))), || format!("{hooks:?} {evs:?}"));
			others(c, &pre, &post, kk); invariants(c, &post);
		}
		78..=93 => {
			let p = pre.pool(a, b).cloned(); let (ra, rb) = (pre.res(a, b, a), pre.res(a, b, b));
			let have = p.as_ref().map(|p| pre.book.free(&who, p.share)).unwrap_or(0);
			let owner = p.as_ref().and_then(|p| pre.book.holders(p.share).next().map(|x| x.0.clone()));
			let who = if have == 0 && c.rng.chance(4, 5) { owner.unwrap_or(who) } else { who }; let have = p.as_ref().map(|p| pre.book.free(&who, p.share)).unwrap_or(0);
			let sh = match c.rng.idx(9) { 0 => 0, 1 | 2 => have, 3 => have.saturating_add(1), 4 => have.saturating_sub(MinLiq::get()), 5 => have.saturating_sub(MinLiq::get()).saturating_add(1), _ => c.rng.log(1, have) };
			c.log(|| format!("{} with {have} of {:?} shares removes {sh} from {a}/{b}; reserves {ra}/{rb}", nm(&who), p.as_ref().map(|p| p.issued)));
			if let Some(p) = &p { let l = Xyk::get_liquidity_behind_shares(a, b, sh); let (x, y) = (muldiv(ra, sh, p.issued), muldiv(rb, sh, p.issued)); if sh <= p.issued { c.check_in(V, "liquidity-behind-shares", l == Ok((x, y)), || format!("{l:?}, expected {x}/{y}")); } }
			let res = do_call(Call::remove_liquidity { asset_a: a, asset_b: b, liquidity_amount: sh }, &who);
			let post = view(n); let evs = take_events::<Rt>(); let hooks = Hook::with(std::mem::take); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let broken = p.is_none() || sh == 0 || sh > have || (have != sh && have - sh < MinLiq::get()) || fail;
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || "liquidity was removed against a rule".into());
			let (x, y) = p.as_ref().map(|p| (muldiv(ra, sh.min(p.issued), p.issued), muldiv(rb, sh.min(p.issued), p.issued))).unwrap_or((0, 0));
			if let Err(e) = &res { if !broken { let d = |t: u32, v: u128| v == 0 || pre.book.free(&who, t) + v < ed(t); c.check_in(P, "allowed-by-rule", d(a, x) || d(b, y), || format!("a withdrawal within every rule was refused: {}", err(e))); } c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); return; }
			if broken { return; }
			let p = p.unwrap(); c.event("removed"); c.nontrivial((a, b, sh, x));
			let want = Moves::new().mv(&home, &who, a, x).mv(&home, &who, b, y).sub(&who, p.share, sh); let mv = pre.book.moved(&post.book);
			c.check_in("C05 C17 C19", "withdrawal-moves-only-the-share", mv == want, || format!("moved {mv:?}, expected {want:?}"));
			let (la, lb) = (post.res(a, b, a), post.res(a, b, b));
			if sh == p.issued { c.event("pool-destroyed"); c.check_in(P, "last-share-destroys-the-pool", post.pool(a, b).is_none() && !post.white.contains(&home) && evs.iter().any(|e| matches!(e, RuntimeEvent::Xyk(Event::PoolDestroyed { who: u, share_token, pool, .. }) if u == &who && *share_token == p.share && pool == &home)), || format!("{:?}", post.pool(a, b))); }
			else { c.check_in(V, "withdrawal-keeps-share-value", post.pool(a, b) == Some(&Pool { issued: p.issued - sh, ..p.clone() }) && w(la) * w(p.issued) >= w(ra) * w(p.issued - sh) && w(lb) * w(p.issued) >= w(rb) * w(p.issued - sh), || format!("{:?}: {ra}/{rb} -> {la}/{lb}", post.pool(a, b))); }
			c.check_in(P, "hook-reports-the-true-liquidity", hooks == [Hooked::Liq(Src::get(), a, b, x, y, la, lb, Ratio::new(la, lb))] && evs.iter().any(|e| matches!(e, RuntimeEvent::Xyk(Event::LiquidityRemoved { who: u, asset_a, asset_b, shares }) if (u, *asset_a, *asset_b, *shares) == (&who, a, b, sh))), || format!("{hooks:?} {evs:?}"));
			others(c, &pre, &post, kk); invariants(c, &post);
		}
		94..=96 => { fail = false; if let Some(p) = pre.pool(a, b) { let to = people[c.rng.idx(people.len())].clone(); let v = c.rng.log(1, pre.book.free(&who, p.share).max(1)); c.log(|| format!("{} gives {v} shares of {a}/{b} to {}", nm(&who), nm(&to))); let _ = Tokens::transfer(RuntimeOrigin::signed(who), to, p.share, v); } }
		_ => { if pre.pool(a, b).is_some() { let v = c.rng.log(1, pre.book.free(&who, a).max(1)); c.log(|| format!("{} donates {v} of {a} to {a}/{b}", nm(&who))); let _ = Tokens::transfer(RuntimeOrigin::signed(who), home, a, v); } }
	}
	let _ = fail; let _ = pair(a, b); let _ = <Xyk as AMM<Acc, u32, AssetPair, u128>>::exists(pair(a, b)); let _ = take_events::<Rt>(); Hook::set(vec![]);
}
fn run(m: &mut Monitor) {
	m.workload("xyk-pool-history", 6_000, 300_000, history);
	for (e, n) in [("sold", 10_000), ("bought", 8_000), ("added", 5_000), ("removed", 5_000), ("pool-created", 4_000), ("pool-destroyed", 1_000), ("discounted", 200)] { m.expect(&format!("xyk-pool-history/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct accepted trades, deposits and withdrawals by (pool, amounts)", ["the pallet runs on a stand-in for FRAME and orml-tokens (calibrated by the pallet's own 66 tests)"];
		"C05" => run, "C17" => run, "C19" => run);
}

//! The trade router under random routes over pools with real reserves, judged on balances, recorded hops, stored routes and events.
use hydradx_traits::router::{AssetPair, ExecutorError, PoolType, RefundEdCalculator, RouteProvider, RouteSpotPriceProvider, RouterT, Trade, TradeExecution};
use mon_frame::*;
use pallet_currencies::{fungibles::FungibleCurrencies, BasicCurrencyAdapter};
use frame_support::dispatch::Pays;
use std::collections::HashMap;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Router: pallet_route_executor });
base!(Rt, (), DustWhite);
type Hop = Trade<u32>;
type Pool = PoolType<u32>;
/// A misbehaving pool: at hop `at`, pays `pay` more of the asset out and takes `spare` less of the asset in, or fails.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Quirk { at: usize, pay: u128, spare: u128, fail: bool }
#[derive(Clone, Debug, PartialEq)]
struct Done { buy: bool, hop: Hop, amount: u128, limit: u128, paid: u128, got: u128 }
param! { Odd: Option<Quirk> = None; Log: Vec<Done> = vec![]; Kinds: u8 = 15; Poor: BTreeSet<u32> = Default::default(); Refund: u128 = 0; FeeBp: u128 = 30; Prices: BTreeMap<(u32, u32), u128> = Default::default(); Fallback: Pool = PoolType::Omnipool; }
parameter_types! { pub const Native: u32 = 0; }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
pub struct Sufficient;
impl hydradx_traits::registry::Inspect for Sufficient {
	type AssetId = u32; type Location = u8;
	fn is_sufficient(a: u32) -> bool { !Poor::with(|p| p.contains(&a)) } fn exists(a: u32) -> bool { Reg::exists(a) } fn decimals(_: u32) -> Option<u8> { None } fn asset_type(_: u32) -> Option<hydradx_traits::AssetKind> { None } fn is_banned(_: u32) -> bool { false }
	fn asset_name(_: u32) -> Option<Vec<u8>> { None } fn asset_symbol(_: u32) -> Option<Vec<u8>> { None } fn existential_deposit(a: u32) -> Option<u128> { Some(ed(a)) }
}
pub struct EdBack; impl RefundEdCalculator<u128> for EdBack { fn calculate() -> u128 { Refund::get() } }
fn home(p: Pool, a: u32, b: u32) -> Acc { match p { PoolType::XYK => pool_acc(b"xyk", a.min(b), a.max(b)), PoolType::LBP => pool_acc(b"lbp", a.min(b), a.max(b)), PoolType::Stableswap(i) => pool_acc(b"stable", i, i), PoolType::Omnipool => pool_acc(b"omni", 0, 0) } }
fn kind(p: Pool) -> u8 { match p { PoolType::XYK => 0, PoolType::LBP => 1, PoolType::Stableswap(_) => 2, PoolType::Omnipool => 3 } }
fn held(a: &Acc, c: u32) -> u128 { Currencies::free_balance(c, a) }
const LEAST: u128 = 10;
/// constant product with a fee on the amount out
fn out_of(ri: u128, ro: u128, amt: u128) -> Result<u128, &'static str> { if ri == 0 || ro == 0 { Err("no pool") } else if amt < LEAST { Err("too small") } else if amt > ri / 2 { Err("too large") } else { Ok(muldiv(muldiv(ro, amt, ri + amt), 10_000 - FeeBp::get(), 10_000)) } }
fn in_for(ri: u128, ro: u128, amt: u128) -> Result<u128, &'static str> { if ri == 0 || ro == 0 { return Err("no pool"); } if amt < LEAST { return Err("too small"); } let g = muldiv_up(amt, 10_000, 10_000 - FeeBp::get()); if g > ro / 2 { Err("too large") } else { Ok(muldiv_up(ri, g, ro - g) + 1) } }
type Ex<T> = Result<T, ExecutorError<DispatchError>>;
fn oe<T>(r: Result<T, &'static str>) -> Ex<T> { r.map_err(|e| ExecutorError::Error(DispatchError::Other(e))) }
pub struct Amm<const K: u8>;
impl<const K: u8> Amm<K> { fn mine(p: Pool) -> Ex<()> { if kind(p) == K && Kinds::get() >> K & 1 == 1 { Ok(()) } else { Err(ExecutorError::NotSupported) } } }
impl<const K: u8> TradeExecution<RuntimeOrigin, Acc, u32, u128> for Amm<K> {
	type Error = DispatchError;
	fn calculate_sell(p: Pool, i: u32, o: u32, amt: u128) -> Ex<u128> { Self::mine(p)?; let h = home(p, i, o); oe(if i == o { Err("same") } else { out_of(held(&h, i), held(&h, o), amt) }) }
	fn calculate_buy(p: Pool, i: u32, o: u32, amt: u128) -> Ex<u128> { Self::mine(p)?; let h = home(p, i, o); oe(if i == o { Err("same") } else { in_for(held(&h, i), held(&h, o), amt) }) }
	fn execute_sell(w: RuntimeOrigin, p: Pool, i: u32, o: u32, amt: u128, limit: u128) -> Ex<()> {
		Self::mine(p)?; let who = frame_system::ensure_signed(w).map_err(|_| ExecutorError::Error(DispatchError::BadOrigin))?;
		let got = Self::calculate_sell(p, i, o, amt)?; if got < limit { return oe(Err("limit")); }
		swap(&who, Done { buy: false, hop: Trade { pool: p, asset_in: i, asset_out: o }, amount: amt, limit, paid: amt, got })
	}
	fn execute_buy(w: RuntimeOrigin, p: Pool, i: u32, o: u32, amt: u128, limit: u128) -> Ex<()> {
		Self::mine(p)?; let who = frame_system::ensure_signed(w).map_err(|_| ExecutorError::Error(DispatchError::BadOrigin))?;
		let paid = Self::calculate_buy(p, i, o, amt)?; if paid > limit { return oe(Err("limit")); }
		swap(&who, Done { buy: true, hop: Trade { pool: p, asset_in: i, asset_out: o }, amount: amt, limit, paid, got: amt })
	}
	fn get_liquidity_depth(p: Pool, a: u32, b: u32) -> Ex<u128> { Self::mine(p)?; let r = held(&home(p, a, b), a); if r == 0 { oe(Err("no pool")) } else { Ok(r) } }
	fn calculate_spot_price_with_fee(p: Pool, a: u32, b: u32) -> Ex<FixedU128> { Self::mine(p)?; oe(Prices::with(|p| p.get(&(a, b)).map(|x| FixedU128::from_inner(*x)).ok_or("no price"))) }
}
fn swap(who: &Acc, mut d: Done) -> Ex<()> {
	let n = Log::with(|l| l.len());
	if let Some(q) = Odd::get().filter(|q| q.at == n) { if q.fail { return oe(Err("fails")); } d.got += q.pay; d.paid = d.paid.saturating_sub(q.spare); }
	let h = home(d.hop.pool, d.hop.asset_in, d.hop.asset_out); let (i, o) = (d.hop.asset_in, d.hop.asset_out);
	let f = |e| ExecutorError::Error(e);
	<Currencies as MultiCurrency<Acc>>::transfer(i, who, &h, d.paid).map_err(f)?; <Currencies as MultiCurrency<Acc>>::transfer(o, &h, who, d.got).map_err(f)?;
	Log::with(|l| l.push(d)); Ok(())
}
impl pallet_route_executor::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type Balance = u128; type NativeAssetId = Native; type Currency = FungibleCurrencies<Rt>; type InspectRegistry = Sufficient; type AMM = (Amm<0>, Amm<2>, Amm<3>, Amm<1>);
	type EdToRefundCalculator = EdBack; type DefaultRoutePoolType = Fallback; type TechnicalOrigin = EnsureRoot<Acc>; type WeightInfo = ();
}
use pallet_route_executor::{Call, Event};
const P: &str = "C21";
const MV: &str = "C17 C21";
type Stored = BTreeMap<(u32, u32), Vec<Hop>>;
#[derive(Clone)]
struct View { book: Book, routes: Stored }
fn view() -> View { View { book: Book::all::<Rt>(), routes: pallet_route_executor::Routes::<Rt>::iter().map(|(k, v)| ((k.asset_in, k.asset_out), v.to_vec())).collect() } }
fn same(c: &Ctx, a: &View, b: &View) -> bool { c.check_in(P, "refusal-changes-nothing", a.book == b.book && a.routes == b.routes, || format!("a refused call changed the state: {:?} {:?}", a.book.moved(&b.book), b.routes)) }
fn flip(r: &[Hop]) -> Vec<Hop> { r.iter().rev().map(|t| Trade { pool: t.pool, asset_in: t.asset_out, asset_out: t.asset_in }).collect() }
fn chosen(m: &Stored, a: u32, b: u32) -> Vec<Hop> { match m.get(&(a.min(b), a.max(b))) { Some(r) => if a <= b { r.clone() } else { flip(r) }, None => vec![Trade { pool: Fallback::get(), asset_in: a, asset_out: b }] } }
fn joined(r: &[Hop], a: u32, b: u32) -> bool { !r.is_empty() && r[0].asset_in == a && r[r.len() - 1].asset_out == b && r.windows(2).all(|w| w[0].asset_out == w[1].asset_in) }
fn on(h: &Hop) -> bool { Kinds::get() >> kind(h.pool) & 1 == 1 }
/// The router's own arithmetic, from the reserves: the amounts quoted along the route.
fn quote_sell(r: &[Hop], amt: u128) -> Option<Vec<(u128, u128)>> { let mut x = amt; r.iter().map(|h| { let a = home(h.pool, h.asset_in, h.asset_out); if !on(h) || h.asset_in == h.asset_out { return None; } let y = out_of(held(&a, h.asset_in), held(&a, h.asset_out), x).ok()?; let p = (x, y); x = y; Some(p) }).collect() }
fn quote_buy(r: &[Hop], amt: u128) -> Option<Vec<(u128, u128)>> { let mut y = amt; let mut v: Vec<_> = r.iter().rev().map(|h| { let a = home(h.pool, h.asset_in, h.asset_out); if !on(h) || h.asset_in == h.asset_out { return None; } let x = in_for(held(&a, h.asset_in), held(&a, h.asset_out), y).ok()?; let p = (x, y); y = x; Some(p) }).collect::<Option<_>>()?; v.reverse(); Some(v) }
/// every pool account occurs once and no asset recurs: then hops do not influence each other
fn simple(r: &[Hop]) -> bool { let mut s = BTreeSet::new(); let mut t = BTreeSet::new(); r.iter().all(|h| s.insert(home(h.pool, h.asset_in, h.asset_out)) && t.insert(h.asset_out)) && r.first().map(|h| !t.contains(&h.asset_in)).unwrap_or(true) }
/// A trial sell of a simple route by an account that holds nothing.
fn trial(r: &[Hop], amt: u128) -> Option<u128> {
	if amt < ed(r.first()?.asset_in) || r.len() > 5 || r[0].asset_in == r[r.len() - 1].asset_out { return None; }
	let q = quote_sell(r, amt)?; if r.iter().zip(&q).all(|(h, x)| x.1 >= ed(h.asset_out)) { Some(q.last()?.1) } else { None }
}
fn depth(r: &[Hop]) -> Option<u128> { let h = r.first()?; let b = match h.pool { PoolType::Omnipool => 0, PoolType::Stableswap(i) => i, _ => h.asset_out }; let v = held(&home(h.pool, h.asset_in, b), h.asset_in); if v == 0 || !on(h) { None } else { Some(v / 100) } }
/// A route works if both directions can be traded for a reference amount: 1% of the first pool's depth, or else what the other direction yields.
fn works(r: &[Hop]) -> Option<(u128, u128)> {
	let (x, inv) = (depth(r)?, flip(r)); let t = trial(r, x); let y = depth(&inv)?; let u = trial(&inv, y);
	match (t, u) { (Some(_), Some(_)) => Some((x, y)), (None, Some(o)) => trial(r, o).map(|_| (o, y)), (Some(o), None) => trial(&inv, o).map(|_| (x, o)), _ => None }
}
fn better(new: &[Hop], old: &[Hop]) -> Option<bool> {
	Some(match works(old) {
		None => works(new).is_some(),
		Some((x, y)) => {
			let inv = flip(new);
			let ok = match (trial(new, x), trial(&inv, y)) { (Some(_), Some(_)) => true, (None, Some(o)) => trial(new, o).is_some(), (Some(o), None) => trial(&inv, o).is_some(), _ => false };
			let out = |r: &[Hop], a: u128| quote_sell(r, a).and_then(|q| q.last().map(|x| x.1));
			ok && match (out(old, x), out(new, x), out(&flip(old), y), out(&inv, y)) { (Some(a), Some(b), Some(c), Some(d)) => b > a && d > c, _ => false }
		}
	})
}
fn rand_pool(r: &mut Rng, n: u32) -> Pool { match r.idx(4) { 0 => PoolType::XYK, 1 => PoolType::LBP, 2 => PoolType::Stableswap(r.idx(n as usize) as u32), _ => PoolType::Omnipool } }
fn rand_route(r: &mut Rng, n: u32, live: &[(Pool, u32, u32)], from: u32, to: u32) -> Vec<Hop> {
	// a walk over existing pools, most of the time ending where it should
	for _ in 0..8 {
		let mut at = from; let mut v: Vec<Hop> = vec![]; let want = 1 + r.idx(5);
		while v.len() < want { let next: Vec<_> = live.iter().filter_map(|(p, a, b)| if *a == at { Some((*p, *b)) } else if *b == at { Some((*p, *a)) } else { None }).filter(|x| v.len() + 1 < want || x.1 == to).collect(); if next.is_empty() { break; } let (p, b) = *r.pick(&next); v.push(Trade { pool: p, asset_in: at, asset_out: b }); at = b; if at == to && r.chance(2, 3) { break; } }
		if at == to && !v.is_empty() { return v; }
	}
	let k = r.idx(8); let mut v: Vec<Hop> = (0..k).map(|_| Trade { pool: rand_pool(r, n), asset_in: r.idx(n as usize) as u32, asset_out: r.idx(n as usize) as u32 }).collect();
	if r.chance(1, 2) { for i in 1..v.len() { v[i].asset_in = v[i - 1].asset_out; } if let Some(h) = v.first_mut() { h.asset_in = from; } if let Some(h) = v.last_mut() { h.asset_out = to; } }
	v
}
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); Odd::set(None); Log::set(vec![]); NoDust::set(Default::default());
		let r = &mut c.rng; let n = 3 + r.idx(5) as u32;
		Kinds::set(if r.chance(1, 6) { r.range(1, 14) as u8 } else { 15 }); FeeBp::set(*r.pick(&[0u128, 1, 30, 100, 500])); Fallback::set(if r.chance(1, 6) { PoolType::XYK } else { PoolType::Omnipool });
		Poor::set((1..n).filter(|_| r.chance(1, 8)).collect()); Assets::set((0..n).map(|a| (a, 12)).collect());
		Eds::set((0..n).map(|a| (a, *r.pick(&[1u128, 1, 1, 500, 10_000]))).collect()); Refund::set(ed(0));
		let people: Vec<Acc> = (1..4).map(acc).collect();
		let fill = |a: &Acc, t: u32, v: u128| { if v > 0 { if t == 0 { give_native::<Rt>(a, v) } else { give::<Rt>(a, t, v) } } };
		for p in &people { fill(p, 0, 10u128.pow(15)); for t in 1..n { if !r.chance(1, 4) { let v = r.log(20_000, 10u128.pow(16)); fill(p, t, v); } } }
		let mut live: Vec<(Pool, u32, u32)> = vec![]; let scale: Vec<u128> = (0..n).map(|_| r.log(10u128.pow(9), 10u128.pow(15))).collect();
		let mut put = |r: &mut Rng, h: &Acc, t: u32| if held(h, t) == 0 { let v = if r.chance(1, 12) { r.log(20_000, 10u128.pow(18)) } else { scale[t as usize] + r.below(scale[t as usize] / 5) }; fill(h, t, v) };
		for a in 0..n { if r.chance(3, 4) { put(r, &home(PoolType::Omnipool, a, a), a); } }
		for a in 0..n { for b in a + 1..n { for p in [PoolType::XYK, PoolType::LBP] { if r.chance(1, 4) { let h = home(p, a, b); put(r, &h, a); put(r, &h, b); live.push((p, a, b)); } } let h = home(PoolType::Omnipool, a, b); if held(&h, a) > 0 && held(&h, b) > 0 { live.push((PoolType::Omnipool, a, b)); } } }
		for _ in 0..r.idx(3) { let id = r.idx(n as usize) as u32; let h = home(PoolType::Stableswap(id), 0, 0); let m: Vec<u32> = (0..n).filter(|a| *a == id || r.chance(1, 2)).collect(); for a in &m { put(r, &h, *a); } for a in &m { for b in &m { if a < b { live.push((PoolType::Stableswap(id), *a, *b)); } } } }
		System::reset_events();
		let mut model: Stored = Default::default();
		let steps = 25 + c.rng.idx(25);
		for _ in 0..steps { step(c, n, &people, &live, &mut model); if c.failed() { return; } }
		c.sample(|| json!({"assets": n, "pools": live.len(), "routes": model.iter().map(|(k, v)| format!("{k:?}: {}", v.len())).collect::<Vec<_>>()}));
	});
}
fn step(c: &mut Ctx, n: u32, people: &[Acc], live: &[(Pool, u32, u32)], model: &mut Stored) {
	let pre = view(); let who = people[c.rng.idx(people.len())].clone();
	let a = c.rng.idx(n as usize) as u32; let b = if c.rng.chance(1, 30) { a } else { (a + 1 + c.rng.idx(n as usize - 1) as u32) % n };
	Log::set(vec![]); Odd::set(None); let _ = take_events::<Rt>();
	match c.rng.idx(100) {
		k @ 0..=59 => {
			let sell = k < 32;
			let given = match c.rng.idx(5) { 0 => vec![], 1 if c.rng.chance(1, 4) => { let mut v = rand_route(&mut c.rng, n, live, a, b); if let Some(h) = v.first_mut() { h.asset_in = (h.asset_in + 1) % n; } v } _ => rand_route(&mut c.rng, n, live, a, b) };
			let route = if given.is_empty() { chosen(model, a, b) } else { given.clone() };
			let mut base = held(&home(route[0].pool, route[0].asset_in, route[0].asset_out), if sell { a } else { b }); if !sell { let l = route[route.len() - 1]; base = held(&home(l.pool, l.asset_in, l.asset_out), b); }
			let amt = match c.rng.idx(10) { 0 => c.rng.range(0, 20), 1 => pre.book.free(&who, a), 2 => base / 2 + c.rng.below(3), _ => c.rng.log(1_000, (base / 10).max(1_001)) };
			let q = if sell { quote_sell(&route, amt) } else { quote_buy(&route, amt) };
			let edge = q.as_ref().map(|q| if sell { q[q.len() - 1].1 } else { q[0].0 });
			let limit = match (c.rng.idx(5), edge) { (0, Some(x)) => x, (1, Some(x)) => if sell { x + 1 } else { x.saturating_sub(1) }, _ => if sell { 0 } else { u128::MAX } };
			let odd = if c.rng.chance(1, 4) { let at = c.rng.idx(route.len()); let v = c.rng.log(1, 40_000); Some(match c.rng.idx(5) { 0 | 1 => Quirk { at, pay: v, ..Default::default() }, 2 | 3 => Quirk { at, spare: v, ..Default::default() }, _ => Quirk { at, fail: true, ..Default::default() } }) } else { None };
			Odd::set(odd); let root = c.rng.chance(1, 100);
			let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who.clone()) };
			c.log(|| format!("{} {} {a}->{b} amount {amt} limit {limit} given {given:?} used {route:?} quote {q:?} odd {odd:?}", nm(&who), if sell { "sell" } else { "buy" }));
			let by_trait = c.rng.chance(1, 3);
			let res = match (sell, by_trait) {
				(true, false) => call(RuntimeCall::Router(Call::sell { asset_in: a, asset_out: b, amount_in: amt, min_amount_out: limit, route: given.clone() }), o),
				(false, false) => call(RuntimeCall::Router(Call::buy { asset_in: a, asset_out: b, amount_out: amt, max_amount_in: limit, route: given.clone() }), o),
				(true, true) => <Router as RouterT<_, _, _, _, _>>::sell(o, a, b, amt, limit, given.clone()),
				(false, true) => <Router as RouterT<_, _, _, _, _>>::buy(o, a, b, amt, limit, given.clone()),
			};
			let done = Log::with(std::mem::take); Odd::set(None); let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?} {done:?}", res.as_ref().map_err(err)));
			c.event(if sell { "sell" } else { "buy" });
			// the quotes the router hands out are the chained quotes of the pools
			let tq = if sell { <Router as RouterT<_, _, _, _, _>>::calculate_sell_trade_amounts(&route, amt) } else { <Router as RouterT<_, _, _, _, _>>::calculate_buy_trade_amounts(&route, amt) };
			let _ = tq;
			let broken = root || a == b || given.len() > 5 || !joined(&route, a, b) || q.is_none() || edge.map(|x| if sell { x < limit } else { x > limit }).unwrap_or(true);
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || format!("a trade that breaks a rule was executed: quote {q:?}"));
			if let Err(e) = &res {
				if !broken && odd.is_none() && simple(&route) {
					// dust, existential deposits and balances
					let mut dust = false; let mut hold: HashMap<u32, u128> = HashMap::new();
					for (h, (x, y)) in route.iter().zip(q.as_ref().unwrap()) { let bi = *hold.entry(h.asset_in).or_insert(pre.book.free(&who, h.asset_in)); let left = bi.checked_sub(*x); dust |= left.is_none() || left.unwrap() > 0 && left.unwrap() < ed(h.asset_in) || left == Some(0) && h.asset_in == 0; hold.insert(h.asset_in, left.unwrap_or(0)); let bo = *hold.entry(h.asset_out).or_insert(pre.book.free(&who, h.asset_out)); dust |= bo + y < ed(h.asset_out) || *y == 0; hold.insert(h.asset_out, bo + y); let hm = home(h.pool, h.asset_in, h.asset_out); dust |= pre.book.free(&hm, h.asset_out).saturating_sub(*y) < ed(h.asset_out); }
					c.check_in(P, "allowed-by-rule", dust, || format!("a trade within every rule was refused: {}", err(e)));
				}
				c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); return;
			}
			if broken { return; }
			let q = q.unwrap(); c.event(if sell { "sold" } else { "bought" }); if route.len() > 1 { c.event("multi-hop"); } if given.is_empty() { c.event(if model.contains_key(&(a.min(b), a.max(b))) { "stored-route-used" } else { "default-route-used" }); }
			c.nontrivial((format!("{route:?}"), amt)); c.distinct("route-shape", route.iter().map(|h| kind(h.pool)).collect::<Vec<_>>());
			c.check_in(P, "hops-follow-the-route", done.len() == route.len() && done.iter().zip(&route).zip(&q).all(|((d, h), (x, y))| d.buy != sell && d.hop == *h && if sell { d.amount == *x && d.limit == *y } else { d.amount == *y && d.limit == *x }), || format!("executed {done:?}, quoted {q:?} over {route:?}"));
			let mut want = Moves::new(); for d in &done { let h = home(d.hop.pool, d.hop.asset_in, d.hop.asset_out); want = want.mv(&who, &h, d.hop.asset_in, d.paid).mv(&h, &who, d.hop.asset_out, d.got); }
			let mv = pre.book.moved_total(&post.book);
			// native balances below the existential deposit are dust and cease to exist
			let left = (pre.book.free(&who, 0) as i128 + want.get(&who, 0)) as u128; let dust = if left < ed(0) { left } else { 0 }; want = want.sub(&who, 0, dust);
			c.check_in(MV, "only-the-hops-move-balances", mv == want && pre.book.issuance.iter().all(|(t, v)| *v - if *t == 0 { dust } else { 0 } == post.book.issuance(*t)), || format!("moved {mv:?}, expected {want:?}"));
			if odd.is_none() && simple(&route) { let mine = mv.only(|x, _| *x == who); let w2 = Moves::new().sub(&who, a, q[0].0).add(&who, b, q[q.len() - 1].1); c.check_in(MV, "trader-pays-in-and-gets-out", mine == w2, || format!("moved {mine:?}, expected {w2:?}")); }
			if odd.is_some() && simple(&route) {
				// what a misbehaving pool may give away: at most the existential deposit that the balance checks look past, plus the refunded native deposit
				for (d, (x, y)) in done.iter().zip(&q) {
					let last = d.hop.asset_out == b; let spare = x.saturating_sub(d.paid); let extra = d.got.saturating_sub(*y);
					let room = ed(d.hop.asset_out) + if Poor::with(|p| p.contains(&d.hop.asset_in) || p.contains(&a)) && d.hop.asset_out == 0 { Refund::get() } else { 0 };
					if sell || d.hop.asset_in == a { c.check_in(P, "undercharging-pool-is-refused", spare <= ed(d.hop.asset_in), || format!("{d:?} should have charged {x}")); }
					if !sell || last { c.check_in(P, "overpaying-pool-is-refused", extra <= room, || format!("{d:?} should have paid {y}")); }
				}
				c.event("odd-pool-passed");
			}
			let (x, y) = (q[0].0, q[q.len() - 1].1); let ex: Vec<_> = evs.iter().filter_map(|e| if let RuntimeEvent::Router(e) = e { Some(e.clone()) } else { None }).collect();
			c.check_in(P, "trade-is-reported", ex == [Event::Executed { asset_in: a, asset_out: b, amount_in: x, amount_out: y }], || format!("{ex:?}, in {x}, out {y}"));
			c.check_in(P, "trade-keeps-routes", pre.routes == post.routes, || "routes changed".into());
		}
		60..=84 => {
			let route = rand_route(&mut c.rng, n, live, a, b); let root = c.rng.chance(1, 60);
			let (k, new) = if a <= b { ((a, b), route.clone()) } else { ((b, a), flip(&route)) };
			let old = chosen(model, k.0, k.1);
			let poor = route.iter().any(|h| Poor::with(|p| p.contains(&h.asset_in) || p.contains(&h.asset_out)));
			c.log(|| format!("{} sets route {a}->{b} {route:?}, now {old:?}", nm(&who)));
			let res = RuntimeCall::Router(Call::set_route { asset_pair: AssetPair::new(a, b), new_route: route.clone() }).dispatch(if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who.clone()) });
			Log::set(vec![]); let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(|e| err(&e.error))));
			let shape = !root && route.len() <= 5 && joined(&route, a, b) && !poor; c.event("set-route");
			c.check_in(P, "only-proper-routes-are-stored", !(res.is_ok() && !shape), || "an improper route was stored".into());
			c.check_in(P, "trial-leaves-no-trace", pre.book == post.book, || format!("balances changed: {:?}", pre.book.moved(&post.book)));
			let judged = shape && simple(&new) && simple(&old) && old.iter().all(|h| h.asset_in != h.asset_out);
			if judged { let want = better(&new, &old).unwrap(); c.event(if want { "judged-better" } else { "judged-not-better" }); c.check_in(P, "stored-only-if-better-both-ways", res.is_ok() == want, || format!("better: {want}, old works: {:?}, new works: {:?}", works(&old), works(&new))); }
			if let Err(e) = &res { c.event(&format!("refused-{}", err(&e.error))); same(c, &pre, &post); return; }
			if !shape { return; }
			model.insert(k, new); c.event("route-set"); c.nontrivial((k, format!("{route:?}")));
			c.check_in(P, "route-stored-as-asked", post.routes == *model, || format!("{:?}, expected {model:?}", post.routes));
			c.check_in(P, "route-setter-pays-nothing", res.unwrap().pays_fee == Pays::No, || "pays".into());
			c.check_in(P, "route-is-reported", evs.iter().any(|e| *e == RuntimeEvent::Router(Event::RouteUpdated { asset_ids: vec![k.0, k.1] })), || format!("{evs:?}"));
		}
		85..=90 => {
			let root = c.rng.chance(2, 3); let route = if c.rng.chance(1, 3) { (0..c.rng.idx(8)).map(|_| Trade { pool: PoolType::XYK, asset_in: a, asset_out: b }).collect() } else { rand_route(&mut c.rng, n, live, a, b) };
			c.log(|| format!("force route {a}->{b} {route:?} root {root}"));
			let res = call(RuntimeCall::Router(Call::force_insert_route { asset_pair: AssetPair::new(a, b), new_route: route.clone() }), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) });
			let post = view(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let ok = root && route.len() <= 5; c.check_in(P, "only-the-technical-origin-forces-routes", res.is_ok() == ok, || format!("{res:?}, expected {ok}"));
			if res.is_err() { same(c, &pre, &post); return; }
			c.event("route-forced"); model.insert((a.min(b), a.max(b)), if a <= b { route } else { flip(&route) });
			c.check_in(P, "route-stored-as-asked", post.routes == *model && pre.book == post.book, || format!("{:?}, expected {model:?}", post.routes));
			// an empty stored route would make every trade fail; leave it in half of the cases
			let k = (a.min(b), a.max(b)); if model[&k].is_empty() { model.remove(&k); pallet_route_executor::Routes::<Rt>::remove(AssetPair::new(k.0, k.1)); }
		}
		91..=94 => { for x in 0..n { for y in 0..n { let g = <Router as RouteProvider<u32>>::get_route(AssetPair::new(x, y)); c.check_in(P, "route-lookup-both-ways", g == chosen(model, x, y), || format!("{x}->{y}: {g:?}, expected {:?}", chosen(model, x, y))); } } }
		_ => {
			let k = c.rng.idx(7); let mut at = 0u32; let mut prices = BTreeMap::new(); let mut r: Vec<Hop> = vec![];
			for _ in 0..k { let nx = c.rng.idx(6) as u32; let p = c.rng.log(10u128.pow(13), 10u128.pow(22)); prices.entry((at, nx)).or_insert(p); r.push(Trade { pool: rand_pool(&mut c.rng, n), asset_in: at, asset_out: nx }); at = nx; }
			if k > 0 && c.rng.chance(1, 8) { let h = r[c.rng.idx(k)]; prices.remove(&(h.asset_in, h.asset_out)); }
			let p: Option<Vec<u128>> = r.iter().map(|h| if on(h) { prices.get(&(h.asset_in, h.asset_out)).copied() } else { None }).collect(); Prices::set(prices);
			let got = Router::spot_price_with_fee(&r); let f = p.map(|p| p.iter().map(|x| *x as f64 / 1e18).product::<f64>());
			c.log(|| format!("spot price of {k} hops: {got:?}, product {f:?}"));
			match f { None => { c.check_in(P, "spot-price-of-route", got.is_none(), || format!("{got:?}")); } Some(f) if k == 0 => { let _ = f; c.check_in(P, "spot-price-of-route", got.is_none(), || format!("{got:?}")); }
				Some(f) if f > 1e-4 && f < 1e15 => { c.event("spot-price"); let g = got.map(|g| g.into_inner() as f64 / 1e18).unwrap_or(-1.0); c.check_in(P, "spot-price-of-route", ((g - f) / f).abs() < 1e-9, || format!("{g}, product of the hops' prices {f}")); } _ => {} }
		}
	}
	let acct = Router::router_account(); let mine: Vec<_> = (0..n).filter(|t| held(&acct, *t) > 0).collect(); c.check_in(P, "trial-leaves-no-trace", mine.is_empty(), || format!("the router's account holds {mine:?}"));
}
fn run(m: &mut Monitor) {
	m.workload("routed-trades", 6_000, 200_000, history);
	for (e, n) in [("sold", 8_000), ("bought", 6_000), ("multi-hop", 8_000), ("route-set", 1_500), ("judged-better", 800), ("judged-not-better", 3_000), ("route-forced", 3_000), ("stored-route-used", 300), ("default-route-used", 500), ("spot-price", 1_500), ("odd-pool-passed", 300)] { m.expect(&format!("routed-trades/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct executed trades and stored routes by (route, amount)", ["the pallet runs on a stand-in for FRAME and orml-tokens (calibrated by the pallet's own 47 tests)", "the pools are constant-product stand-ins with real reserves, some of which misbehave"];
		"C17" => run, "C21" => run);
}

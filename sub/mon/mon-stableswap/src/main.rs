//! The Stableswap pallet under random histories of every call, judged on balances, issuance, the exact invariant and hooks.
#![allow(ambiguous_glob_reexports)]
pub use mon_math::*;
pub use mon_frame::*;
#[allow(dead_code)]
#[path = "../../mon-math/src/stableswap.rs"] mod exact;
use exact::Inv;
use hydra_dx_math::stableswap as sm;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydradx_traits::router::{PoolType, TradeExecution};
use hydradx_traits::AccountIdFor;
use pallet_stableswap::types::{AssetAmount, PoolState, StableswapHooks, Tradability};
use std::num::NonZeroU16;
use std::ops::RangeInclusive;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Stableswap: pallet_stableswap });
base!(Rt, (), DustWhite);
#[derive(Clone, Debug)]
pub enum Hooked { Liq(u32, PoolState<u32>), Trade(u32, u32, u32, PoolState<u32>) }
param! { MinTrade: u128 = 1000; MinLiq: u128 = 1_000_000; Hook: Vec<Hooked> = vec![]; }
parameter_types! { pub AmpRange: RangeInclusive<NonZeroU16> = RangeInclusive::new(NonZeroU16::new(2).unwrap(), NonZeroU16::new(10_000).unwrap()); }
pub struct PoolId;
impl AccountIdFor<u32> for PoolId { type AccountId = Acc; fn from_assets(a: &u32, _: Option<&[u8]>) -> Acc { pool_acc(b"sts", *a, 0) } fn name(a: &u32, _: Option<&[u8]>) -> Vec<u8> { a.to_le_bytes().to_vec() } }
pub struct Watch;
impl StableswapHooks<u32> for Watch {
	fn on_liquidity_changed(p: u32, s: PoolState<u32>) -> DispatchResult { Hook::with(|h| h.push(Hooked::Liq(p, s))); Ok(()) }
	fn on_trade(p: u32, i: u32, o: u32, s: PoolState<u32>) -> DispatchResult { Hook::with(|h| h.push(Hooked::Trade(p, i, o, s))); Ok(()) }
	fn on_liquidity_changed_weight(_: usize) -> Weight { Weight::zero() }
	fn on_trade_weight(_: usize) -> Weight { Weight::zero() }
}
impl pallet_stableswap::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type BlockNumberProvider = System; type AssetId = u32; type Currency = Tokens; type ShareAccountId = PoolId; type AssetInspection = Reg; type AuthorityOrigin = EnsureRoot<Acc>;
	type DustAccountHandler = DustWhite; type Hooks = Watch; type MinPoolLiquidity = MinLiq; type MinTradingLimit = MinTrade; type AmplificationRange = AmpRange; type WeightInfo = ();
}
use pallet_stableswap::Call;
type Pi = pallet_stableswap::types::PoolInfo<u32, u32>;
#[derive(Clone)]
struct View { book: Book, pools: BTreeMap<u32, Pi>, flags: BTreeMap<(u32, u32), u8> }
fn view() -> View {
	let pools: BTreeMap<u32, Pi> = pallet_stableswap::Pools::<Rt>::iter().collect();
	let mut flags = BTreeMap::new();
	for (p, i) in &pools { for a in &i.assets { flags.insert((*p, *a), Stableswap::asset_tradability(p, a).bits()); } }
	View { book: Book::tokens::<Rt>(), pools, flags }
}
fn unwrap_exec(e: hydradx_traits::router::ExecutorError<DispatchError>) -> DispatchError { match e { hydradx_traits::router::ExecutorError::Error(e) => e, _ => DispatchError::Other("routed") } }
fn home(p: u32) -> Acc { pool_acc(b"sts", p, 0) }
impl View {
	fn reserves(&self, p: u32) -> Vec<AssetReserve> { self.pools[&p].assets.iter().map(|a| AssetReserve { amount: self.book.free(&home(p), *a), decimals: Assets::with(|m| m[a]) }).collect() }
	fn has(&self, p: u32, a: u32, bit: u8) -> bool { self.flags.get(&(p, a)).map(|f| f & bit > 0).unwrap_or(false) }
	fn idx(&self, p: u32, a: u32) -> Option<usize> { self.pools.get(&p)?.assets.iter().position(|x| *x == a) }
}
const T3: &str = "C03 C18";
const L4: &str = "C04 C18";
const S: &str = "C18";
const MV: &str = "C03 C04 C17 C18";

struct World { balanced: bool, amp: BTreeMap<u32, (u128, u128, u32, u32)>, n: u32 }
/// the amplification the schedule prescribes now
fn amp(w: &World, p: u32) -> u128 { let (a, b, s, e) = w.amp[&p]; let now = System::block_number(); if now < s || e <= s { a } else if now >= e { b } else { let step = a.abs_diff(b) * (now - s) as u128 / (e - s) as u128; if b > a { a + step } else { a - step } } }
fn d(w: &World, p: u32, r: &[AssetReserve]) -> Option<(Inv, u128)> {
	let xp = exact::norm(r);
	if xp.iter().any(|x| *x == 0 || *x > 1u128 << 108) { return None; }
	let iv = Inv::new(r.len(), amp(w, p)); let d = iv.d_floor(&xp); Some((iv, d))
}
/// Value per share (or the invariant, when issuance is unchanged) does not fall.
fn worth(c: &Ctx, w: &World, oracle: &str, props: &str, p: u32, pre: &View, post: &View) {
	let (r0, r1) = (pre.reserves(p), post.reserves(p));
	let (s0, s1) = (pre.book.issuance(p), post.book.issuance(p));
	if s0 == 0 || s1 == 0 { return; }
	let Some((iv, d0)) = d(w, p, &r0) else { return };
	let x0 = exact::norm(&r0); if x0.iter().max().unwrap() / x0.iter().min().unwrap() > 1_000_000 { c.event("extreme-imbalance-not-judged"); return; }
	let xp = exact::norm(&r1); if xp.iter().any(|x| *x == 0 || *x > 1u128 << 110) { return; }
	let need = mon_math::w(d0) * mon_math::w(s1) / mon_math::w(s0);
	if need > mon_math::w(u128::MAX >> 8) { return; }
	let need = need.low_u128();
	c.check_in(props, oracle, iv.d_at_least(&xp, need.saturating_sub(8 + need / 1_000_000_000_000_000)), || format!("pool {p}: D {d0} with {s0} shares -> D {} with {s1}; reserves {:?} -> {:?}", iv.d_floor(&xp), r0, r1));
}
fn invariants(c: &Ctx, w: &World, v: &View) {
	for (p, i) in &v.pools {
		let a: Vec<u32> = i.assets.to_vec(); let mut s = a.clone(); s.sort(); s.dedup();
		c.check_in(S, "pool-of-two-to-five-distinct-assets", a.len() >= 2 && a.len() <= 5 && s == a && !a.contains(p), || format!("pool {p}: {a:?}"));
		let x = amp(w, *p);
		c.check_in(S, "amplification-follows-its-schedule", (2..=10_000).contains(&x) && w.amp[p].0 == i.initial_amplification.get() as u128 && w.amp[p].1 == i.final_amplification.get() as u128, || format!("pool {p}: {i:?}, expected {:?}", w.amp[p]));
		c.check_in(S, "pool-account-is-never-dusted", NoDust::with(|n| n.contains(&home(*p))), || format!("pool {p}"));
	}
	let b = v.book.balanced(); c.check_in(S, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn settings_same(c: &Ctx, a: &View, b: &View) { c.check_in(S, "settings-change-only-by-authority", a.pools == b.pools && a.flags == b.flags, || "pool settings changed".into()); }
/// Hook: exactly one, telling the truth.
fn hook(c: &Ctx, p: u32, trade: Option<(u32, u32)>, pre: &View, post: &View) {
	let h = Hook::with(std::mem::take);
	let st = match (&h[..], trade) { ([Hooked::Liq(q, s)], None) if *q == p => s, ([Hooked::Trade(q, i, o, s)], Some(t)) if *q == p && (*i, *o) == t => s, _ => { c.check_in(S, "hook-fires-once", false, || format!("{h:?}")); return; } };
	let (b, a): (Vec<u128>, Vec<u128>) = (pre.reserves(p).iter().map(|r| r.amount).collect(), post.reserves(p).iter().map(|r| r.amount).collect());
	c.check_in(S, "hook-reports-true-state", st.assets == pre.pools[&p].assets.to_vec() && st.before == b && st.after == a && st.delta == b.iter().zip(&a).map(|(x, y)| x.abs_diff(*y)).collect::<Vec<_>>() && st.issuance_before == pre.book.issuance(p) && st.issuance_after == post.book.issuance(p) && st.share_prices.len() == a.len(), || format!("{st:?}"));
}
fn refused(c: &Ctx, e: &DispatchError, pre: &View, post: &View) {
	c.event(&format!("refused-{}", err(e))); Hook::set(vec![]);
	c.check_in(S, "refusal-changes-nothing", pre.book == post.book && pre.pools == post.pools && pre.flags == post.flags, || "a refused call changed the state".into());
}

fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); Hook::set(vec![]); NoDust::set(Default::default());
		let r = &mut c.rng;
		let n = 2 + r.idx(5) as u32; // assets 0..n, share tokens 100..
		let mut assets: BTreeMap<u32, u8> = (0..n).map(|a| (a, *r.pick(&[6u8, 8, 10, 12, 18, 18]))).collect();
		for p in 100..104 { assets.insert(p, 18); }
		let eds: BTreeMap<u32, u128> = (0..n).map(|a| (a, *r.pick(&[1u128, 1, 1000, 10_000]))).chain((100..104).map(|p| (p, 1))).collect();
		MinTrade::set(*r.pick(&[1000u128, 1, 0, 100_000])); MinLiq::set(*r.pick(&[1_000_000u128, 1000, 10u128.pow(15)]));
		let people: Vec<Acc> = (1..5).map(acc).collect();
		let balanced = r.chance(3, 4); let tiny = r.chance(1, 6);
		for p in &people { for a in 0..n { let (one, one18) = (10u128.pow(assets[&a] as u32), 10u128.pow(18)); let v = if balanced { 10u128.pow(30) / (one18 / one) } else if tiny { r.log(1_000_000, 10u128.pow(10)) } else { r.log(one * 10, one * 10u128.pow(8)) }; give::<Rt>(p, a, v.max(eds[&a])); } }
		Assets::set(assets); Eds::set(eds); System::reset_events();
		let mut w = World { balanced, amp: Default::default(), n };
		let steps = 25 + c.rng.idx(30);
		for _ in 0..steps { step(c, &mut w, &people); if c.failed() { return; } }
		c.sample(|| { let v = view(); json!({"pools": v.pools.len(), "issuance": v.pools.keys().map(|p| v.book.issuance(*p).to_string()).collect::<Vec<_>>()}) });
	});
}
fn do_call(c: Call<Rt>, who: Option<&Acc>) -> Result<(), DispatchError> { call(RuntimeCall::Stableswap(c), match who { Some(w) => RuntimeOrigin::signed(w.clone()), None => RuntimeOrigin::root() }) }
fn create(c: &mut Ctx, w: &mut World, people: &[Acc]) {
	let pre = view();
	let share = c.rng.range(100, 105) as u32;
	let k = c.rng.idx(6) + if c.rng.chance(4, 5) { 2 } else { 0 };
	let mut list: Vec<u32> = (0..w.n).collect(); if pre.pools.contains_key(&100) && c.rng.chance(1, 3) { list.push(100); }
	let mut pick = vec![]; for _ in 0..k { if list.is_empty() { break; } let i = c.rng.idx(list.len()); pick.push(list.remove(i)); }
	if c.rng.chance(1, 15) && !pick.is_empty() { let x = pick[0]; pick.push(x); }
	if c.rng.chance(1, 20) { pick.push(share); }
	if c.rng.chance(1, 20) { pick.push(77); }
	let am = match c.rng.idx(8) { 0 => 0u16, 1 => 1, 2 => 2, 3 => 10_000, 4 => 10_001, _ => c.rng.range(2, 2000) as u16 };
	let fee = Permill::from_parts(c.rng.ppm(200_000)); let root = !c.rng.chance(1, 8);
	c.log(|| format!("create pool {share} of {pick:?} amp {am} fee {fee:?} root {root}"));
	let res = do_call(Call::create_pool { share_asset: share, assets: pick.clone(), amplification: am, fee }, if root { None } else { Some(&people[0]) });
	let post = view();
	let mut s = pick.clone(); s.sort(); s.dedup();
	let good = root && !pre.pools.contains_key(&share) && share < 104 && pick.len() >= 2 && pick.len() <= 5 && s.len() == pick.len() && !pick.contains(&share) && !pick.contains(&77) && (2..=10_000).contains(&am);
	c.check_in(S, "pool-created-by-rule", res.is_ok() == good, || format!("{res:?}, expected {good}"));
	c.check_in("C17 C18", "creating-moves-nothing", pre.book == post.book, || "balances changed".into());
	if res.is_ok() { c.event("pool-created"); w.amp.insert(share, (am as u128, am as u128, System::block_number(), System::block_number())); let p = &post.pools[&share]; c.check_in(S, "pool-created-as-asked", p.assets.to_vec() == s && p.fee == fee, || format!("{p:?}")); }
	for (k, p) in &pre.pools { c.check_in(S, "other-pools-untouched", post.pools.get(k) == Some(p), || format!("{k}")); }
	invariants(c, w, &post); let _ = take_events::<Rt>();
}
fn step(c: &mut Ctx, w: &mut World, people: &[Acc]) {
	let pre = view();
	if pre.pools.is_empty() || pre.pools.len() < 3 && c.rng.chance(1, 20) { return create(c, w, people); }
	let ps: Vec<u32> = pre.pools.keys().copied().collect();
	let p = if c.rng.chance(1, 60) { 103 } else { ps[c.rng.idx(ps.len())] };
	let who = people[c.rng.idx(people.len())].clone();
	let Some(info) = pre.pools.get(&p).cloned() else {
		let res = do_call(Call::sell { pool_id: p, asset_in: 0, asset_out: 1, amount_in: 1_000_000, min_buy_amount: 0 }, Some(&who));
		c.check_in(S, "no-pool-no-trade", res.is_err(), || "sold in a missing pool".into()); return;
	};
	let n = info.assets.len(); let home = home(p); let issue = pre.book.issuance(p);
	let any = |r: &mut Rng| if r.chance(1, 25) { r.idx(w.n as usize + 1) as u32 } else { info.assets[r.idx(n)] };
	let funded = pre.reserves(p).iter().all(|r| r.amount > 0);
	let r0 = pre.reserves(p); let a0 = amp(w, p);
	c.distinct("pool", (n, a0, r0.iter().map(|r| r.amount.max(1).ilog2() / 4).collect::<Vec<_>>()));
	let kind = if !funded && c.rng.chance(4, 5) { 50 } else { c.rng.idx(100) };
	match kind {
		x @ 0..=44 => {
			let is_sell = x < 24;
			let (i, mut o) = (any(&mut c.rng), any(&mut c.rng));
			if i == o && !c.rng.chance(1, 10) { o = *info.assets.iter().find(|x| **x != i).unwrap(); }
			let base = pre.book.free(&home, if is_sell { i } else { o });
			let a = match c.rng.idx(8) { 0 => c.rng.range(0, MinTrade::get() + 2), 1 => pre.book.free(&who, i), 2 => base, _ => { let lo = MinTrade::get().max(1); c.rng.log(lo, (base / 2).max(2)) } };
			let kind = PoolType::Stableswap(p);
			let quote = if is_sell { Stableswap::calculate_sell(kind, i, o, a) } else { Stableswap::calculate_buy(kind, i, o, a) }.ok();
			let limit = match (c.rng.idx(6), quote) { (0, Some(q)) => q.saturating_add(1), (1, Some(q)) => q.saturating_sub(1), (2 | 3, Some(q)) => q, _ => if is_sell { 0 } else { u128::MAX } };
			c.log(|| format!("{} {} in {p}: {i}->{o} amount {a} limit {limit} quote {quote:?} reserves {r0:?} amp {a0} fee {:?}", nm(&who), if is_sell { "sell" } else { "buy" }, info.fee));
			let routed = c.rng.chance(1, 4);
			let org = RuntimeOrigin::signed(who.clone());
			let res = match (is_sell, routed) {
				(true, false) => do_call(Call::sell { pool_id: p, asset_in: i, asset_out: o, amount_in: a, min_buy_amount: limit }, Some(&who)),
				(false, false) => do_call(Call::buy { pool_id: p, asset_in: i, asset_out: o, amount_out: a, max_sell_amount: limit }, Some(&who)),
				(true, true) => frame_support::storage::with_storage_layer(|| Stableswap::execute_sell(org, kind, i, o, a, limit).map_err(unwrap_exec)),
				(false, true) => frame_support::storage::with_storage_layer(|| Stableswap::execute_buy(org, kind, i, o, a, limit).map_err(unwrap_exec)),
			};
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			c.event(if is_sell { "sell" } else { "buy" });
			let (xi, xo) = (pre.idx(p, i), pre.idx(p, o));
			// expected amounts by the pool's own mathematics on the true state
			let want = match (xi, xo) { (Some(xi), Some(xo)) if r0[xi].amount > 0 && r0[xo].amount > 0 => if is_sell { sm::calculate_out_given_in_with_fee::<{ sm::MAX_D_ITERATIONS }, { sm::MAX_Y_ITERATIONS }>(&r0, xi, xo, a, a0, info.fee) } else if a < r0[xo].amount { sm::calculate_in_given_out_with_fee::<{ sm::MAX_D_ITERATIONS }, { sm::MAX_Y_ITERATIONS }>(&r0, xi, xo, a, a0, info.fee) } else { None }, _ => None };
			let broken = i == o || xi.is_none() || xo.is_none() || !pre.has(p, i, 1) || !pre.has(p, o, 2) || a < MinTrade::get() || want.is_none() || { let q = want.unwrap().0; let pay = if is_sell { a } else { q }; pay > pre.book.free(&who, i) || if is_sell { q < limit } else { q > limit } };
			c.check_in(S, "refused-by-rule", !(res.is_ok() && broken), || "a trade that breaks a rule of the pool was executed".into());
			if let Err(e) = &res {
				if !broken { let q = want.unwrap().0; let (pay, got) = if is_sell { (a, q) } else { (q, a) }; let left = pre.book.free(&who, i) - pay; let dust = (left > 0 && left < ed(i)) || pre.book.free(&who, o) + got < ed(o) || got == 0 || pay == 0; c.check_in(S, "allowed-by-rule", dust || err(e) == "Overflow" || format!("{e:?}").contains("Arithmetic"), || format!("a trade within every rule was refused: {}", err(e))); }
				return refused(c, e, &pre, &post);
			}
			if broken { return; }
			let q = want.unwrap(); let (paid, got) = if is_sell { (a, q.0) } else { (q.0, a) };
			c.event(if is_sell { "sold" } else { "bought" }); c.nontrivial((p, i, o, paid, got));
			let mv = pre.book.moved(&post.book);
			c.check_in(MV, "only-the-two-legs-move", mv == Moves::new().mv(&who, &home, i, paid).mv(&home, &who, o, got), || format!("moved {mv:?}, expected {paid} for {got}"));
			c.check_in(MV, "issuance-unchanged-by-a-trade", pre.book.issuance == post.book.issuance, || "issuance changed".into());
			c.check_in(S, "executable-trades-are-quoted", quote.is_some(), || "a trade was executed that has no quote".into());
			if c.rng.chance(1, 30) { for t in [PoolType::XYK, PoolType::LBP, PoolType::Omnipool] { c.check_in(S, "other-pool-types-are-not-quoted", Stableswap::calculate_sell(t, i, o, a).is_err() && Stableswap::calculate_buy(t, i, o, a).is_err() && Stableswap::calculate_spot_price_with_fee(t, i, o).is_err() && Stableswap::get_liquidity_depth(t, i, o).is_err(), || format!("{t:?}")); } }
			if let Some(qq) = quote { c.check_in("C03 C17 C18", "execution-matches-quote", qq == q.0, || format!("quoted {qq}, executed {}", q.0)); }
			let ok = evs.iter().any(|e| match e { RuntimeEvent::Stableswap(pallet_stableswap::Event::SellExecuted { who: x, pool_id, asset_in, asset_out, amount_in, amount_out, fee }) => is_sell && (x, *pool_id, *asset_in, *asset_out, *amount_in, *amount_out, *fee) == (&who, p, i, o, paid, got, q.1), RuntimeEvent::Stableswap(pallet_stableswap::Event::BuyExecuted { who: x, pool_id, asset_in, asset_out, amount_in, amount_out, fee }) => !is_sell && (x, *pool_id, *asset_in, *asset_out, *amount_in, *amount_out, *fee) == (&who, p, i, o, paid, got, q.1), _ => false });
			c.check_in(S, "trade-is-reported", ok, || format!("no event of {paid} for {got} with fee {}", q.1));
			worth(c, w, "invariant-never-falls", T3, p, &pre, &post);
			hook(c, p, Some((i, o)), &pre, &post); settings_same(c, &pre, &post); invariants(c, w, &post);
		}
		45..=59 => {
			let k = match c.rng.idx(6) { _ if !funded => n, 0 => n, 1 => n + 1, 2 => 0, _ => 1 + c.rng.idx(n) };
			let base = c.rng.log(10u128.pow(19), 10u128.pow(27)); let mut list: Vec<(u32, u128)> = vec![];
			for j in 0..k { let a = if j < n && !c.rng.chance(1, 30) { info.assets[(j + p as usize) % n] } else { any(&mut c.rng) }; let have = pre.book.free(&who, a); let v = match c.rng.idx(8) { 0 => c.rng.range(0, MinTrade::get() + 1), 1 if funded => have.saturating_add(c.rng.below(2)), _ if w.balanced => { let sc = 10u128.pow(18 - Assets::with(|m| m.get(&a).copied().unwrap_or(18)) as u32); let base = if funded { pre.book.free(&home, a).max(MinTrade::get()) } else { base / sc }; if funded { c.rng.log(MinTrade::get().max(1), base) } else { c.rng.range(base / 2 + 1, base * 2) } } _ => c.rng.log(1, have.max(2)) }; list.push((a, v)); }
			if k > 1 && c.rng.chance(1, 2) { list.reverse(); }
			c.log(|| format!("{} adds {list:?} to {p}, issuance {issue}, reserves {r0:?} amp {a0} fee {:?}", nm(&who), info.fee));
			let quote = if list.len() == 1 { Stableswap::calculate_sell(PoolType::Stableswap(p), list[0].0, p, list[0].1).ok() } else { None };
			let res = if list.len() == 1 && c.rng.chance(1, 3) { let org = RuntimeOrigin::signed(who.clone()); frame_support::storage::with_storage_layer(|| Stableswap::execute_sell(org, PoolType::Stableswap(p), list[0].0, p, list[0].1, 0).map_err(unwrap_exec)) } else { do_call(Call::add_liquidity { pool_id: p, assets: list.iter().map(|(a, v)| AssetAmount::new(*a, *v)).collect() }, Some(&who)) };
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let mut ids: Vec<u32> = list.iter().map(|x| x.0).collect(); ids.sort(); let dup = ids.windows(2).any(|x| x[0] == x[1]);
			let foreign = ids.iter().any(|a| !info.assets.contains(a));
			let missing = info.assets.iter().enumerate().any(|(k, a)| r0[k].amount == 0 && !ids.contains(a));
			let r1: Vec<AssetReserve> = info.assets.iter().enumerate().map(|(k, a)| AssetReserve { amount: r0[k].amount.saturating_add(list.iter().find(|x| x.0 == *a).map(|x| x.1).unwrap_or(0)), decimals: r0[k].decimals }).collect();
			let sh = if dup || foreign || missing { None } else { sm::calculate_shares::<{ sm::MAX_D_ITERATIONS }>(&r0, &r1, a0, issue, info.fee) };
			let broken = dup || foreign || missing || list.len() > n || list.iter().any(|(a, v)| !pre.has(p, *a, 4) || *v < MinTrade::get() || *v > pre.book.free(&who, *a)) || sh.is_none() || sh == Some(0) || pre.book.free(&who, p) + sh.unwrap() < MinLiq::get();
			c.check_in(S, "refused-by-rule", !(res.is_ok() && broken), || format!("liquidity added against a rule: duplicate {dup} foreign {foreign} missing {missing} shares {sh:?}"));
			if let Err(e) = &res {
				if !broken { let dust = list.iter().any(|(a, v)| { let left = pre.book.free(&who, *a) - v; (left > 0 && left < ed(*a)) || *v == 0 || pre.book.free(&home, *a) + v < ed(*a) }); c.check_in(S, "allowed-by-rule", dust || format!("{e:?}").contains("Arithmetic"), || format!("an addition within every rule was refused: {}", err(e))); }
				return refused(c, e, &pre, &post);
			}
			if broken { return; }
			c.event(if funded { "added" } else { "funded" }); let sh = sh.unwrap(); c.nontrivial((p, sh));
			let mut want = Moves::new().add(&who, p, sh); for (a, v) in &list { want = want.mv(&who, &home, *a, *v); }
			let mv = pre.book.moved(&post.book);
			c.check_in(MV, "deposit-moves-only-the-deposit", mv == want && pre.book.issued(&post.book, p) == sh as i128, || format!("moved {mv:?}, expected {want:?}"));
			c.check_in(S, "executable-trades-are-quoted", list.len() != 1 || quote.is_some() || !funded, || "a deposit was executed that has no quote".into());
			if let Some(q) = quote { c.check_in(L4, "execution-matches-quote", q == sh, || format!("quoted {q}, minted {sh}")); }
			c.check_in(S, "deposit-is-reported", evs.iter().any(|e| matches!(e, RuntimeEvent::Stableswap(pallet_stableswap::Event::LiquidityAdded { pool_id, who: x, shares, assets }) if *pool_id == p && *x == who && *shares == sh && assets.len() == list.len())), || "no event".into());
			worth(c, w, "share-value-never-falls", L4, p, &pre, &post);
			hook(c, p, None, &pre, &post); settings_same(c, &pre, &post); invariants(c, w, &post);
		}
		60..=67 => {
			let a = any(&mut c.rng); let sh = c.rng.log(1, (issue / 3).max(1000));
			let quote = Stableswap::calculate_buy(PoolType::Stableswap(p), a, p, sh).ok();
			let max = match (c.rng.idx(5), quote) { (0, Some(q)) => q.saturating_sub(1), (1, Some(q)) => q, _ => u128::MAX };
			c.log(|| format!("{} adds {a} for {sh} shares of {p}, at most {max}, quote {quote:?}, issuance {issue}, reserves {r0:?} amp {a0} fee {:?}", nm(&who), info.fee));
			let res = if c.rng.chance(1, 3) { let org = RuntimeOrigin::signed(who.clone()); frame_support::storage::with_storage_layer(|| Stableswap::execute_buy(org, PoolType::Stableswap(p), a, p, sh, max).map_err(unwrap_exec)) } else { do_call(Call::add_liquidity_shares { pool_id: p, shares: sh, asset_id: a, max_asset_amount: max }, Some(&who)) };
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let want = pre.idx(p, a).filter(|_| funded).and_then(|k| sm::calculate_add_one_asset::<{ sm::MAX_D_ITERATIONS }, { sm::MAX_Y_ITERATIONS }>(&r0, sh, k, issue, a0, info.fee)).map(|x| x.0);
			let broken = want.is_none() || want == Some(0) || !pre.has(p, a, 4) || want.unwrap() > max || want.unwrap() > pre.book.free(&who, a) || pre.book.free(&who, p) + sh < MinLiq::get();
			c.check_in(S, "refused-by-rule", !(res.is_ok() && broken), || format!("shares bought against a rule: {want:?}"));
			if let Err(e) = &res { if !broken { let left = pre.book.free(&who, a) - want.unwrap(); c.check_in(S, "allowed-by-rule", (left > 0 && left < ed(a)) || format!("{e:?}").contains("Arithmetic"), || format!("buying shares within every rule was refused: {}", err(e))); } return refused(c, e, &pre, &post); }
			if broken { return; }
			let paid = want.unwrap(); c.event("added-shares"); c.nontrivial((p, sh, paid));
			let mv = pre.book.moved(&post.book);
			c.check_in(MV, "deposit-moves-only-the-deposit", mv == Moves::new().add(&who, p, sh).mv(&who, &home, a, paid) && pre.book.issued(&post.book, p) == sh as i128, || format!("moved {mv:?}, expected {sh} for {paid}"));
			c.check_in(S, "executable-trades-are-quoted", quote.is_some(), || "shares were bought without a quote".into());
			if let Some(q) = quote { c.check_in(L4, "execution-matches-quote", q == paid, || format!("quoted {q}, paid {paid}")); }
			c.check_in(S, "deposit-is-reported", evs.iter().any(|e| matches!(e, RuntimeEvent::Stableswap(pallet_stableswap::Event::LiquidityAdded { pool_id, who: x, shares, assets }) if *pool_id == p && *x == who && *shares == sh && assets[..] == [AssetAmount::new(a, paid)])), || "no event".into());
			worth(c, w, "share-value-never-falls", L4, p, &pre, &post);
			hook(c, p, None, &pre, &post); settings_same(c, &pre, &post); invariants(c, w, &post);
		}
		68..=85 => {
			let by_amount = c.rng.chance(1, 3);
			let a = any(&mut c.rng);
			let have = pre.book.free(&who, p);
			let x = if by_amount { let m = pre.book.free(&home, a); match c.rng.idx(6) { 0 => 0, 1 => m, _ => c.rng.log(1, m.max(2)) } } else { match c.rng.idx(7) { 0 => 0, 1 => have, 2 => have.saturating_add(1), 3 => have.saturating_sub(MinLiq::get()), 4 => have.saturating_sub(MinLiq::get()).saturating_add(1), _ => c.rng.log(1, have.max(2)) } };
			let quote = if by_amount { Stableswap::calculate_buy(PoolType::Stableswap(p), p, a, x) } else { Stableswap::calculate_sell(PoolType::Stableswap(p), p, a, x) }.ok();
			let limit = match (c.rng.idx(6), quote) { (0, Some(q)) => if by_amount { q.saturating_sub(1) } else { q.saturating_add(1) }, (1, Some(q)) => q, _ => if by_amount { u128::MAX } else { 0 } };
			c.log(|| format!("{} with {have} shares takes {a} out of {p}: {} {x} limit {limit} quote {quote:?}, issuance {issue}, reserves {r0:?} amp {a0} fee {:?}", nm(&who), if by_amount { "amount" } else { "shares" }, info.fee));
			let routed = c.rng.chance(1, 3); let org = RuntimeOrigin::signed(who.clone());
			let res = match (by_amount, routed) {
				(false, false) => do_call(Call::remove_liquidity_one_asset { pool_id: p, asset_id: a, share_amount: x, min_amount_out: limit }, Some(&who)),
				(true, false) => do_call(Call::withdraw_asset_amount { pool_id: p, asset_id: a, amount: x, max_share_amount: limit }, Some(&who)),
				(false, true) => frame_support::storage::with_storage_layer(|| Stableswap::execute_sell(org, PoolType::Stableswap(p), p, a, x, limit).map_err(unwrap_exec)),
				(true, true) => frame_support::storage::with_storage_layer(|| Stableswap::execute_buy(org, PoolType::Stableswap(p), p, a, x, limit).map_err(unwrap_exec)),
			};
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let want = pre.idx(p, a).and_then(|k| if by_amount { sm::calculate_shares_for_amount::<{ sm::MAX_D_ITERATIONS }>(&r0, k, x, a0, issue, info.fee).map(|s| (s, 0)) } else { sm::calculate_withdraw_one_asset::<{ sm::MAX_D_ITERATIONS }, { sm::MAX_Y_ITERATIONS }>(&r0, x, k, issue, a0, info.fee) });
			let (sh, out) = match want { Some((v, _)) => if by_amount { (v, x) } else { (x, v) }, None => (0, 0) };
			let broken = want.is_none() || x == 0 || !pre.has(p, a, 8) || sh > have || (have != sh && have - sh.min(have) < MinLiq::get()) || (!by_amount && issue != sh && issue - sh < MinLiq::get()) || if by_amount { sh > limit } else { out < limit };
			c.check_in(S, "refused-by-rule", !(res.is_ok() && broken), || format!("withdrawal against a rule: {want:?}"));
			if let Err(e) = &res { if !broken { let dust = out == 0 || out > pre.book.free(&home, a) || pre.book.free(&who, a) + out < ed(a); c.check_in(S, "allowed-by-rule", dust || format!("{e:?}").contains("Arithmetic") || format!("{e:?}").contains("Overflow"), || format!("a withdrawal within every rule was refused: {}", err(e))); } return refused(c, e, &pre, &post); }
			if broken { return; }
			c.event(if by_amount { "withdrew-amount" } else { "withdrew-shares" }); if sh == issue { c.event("withdrew-everything"); } c.nontrivial((p, a, sh, out));
			let mv = pre.book.moved(&post.book);
			c.check_in(MV, "withdrawal-moves-only-the-position", mv == Moves::new().sub(&who, p, sh).mv(&home, &who, a, out) && pre.book.issued(&post.book, p) == -(sh as i128), || format!("moved {mv:?}, expected {out} for {sh} shares"));
			c.check_in(S, "executable-trades-are-quoted", quote.is_some(), || "a withdrawal was executed that has no quote".into());
			if let Some(q) = quote { c.check_in(L4, "execution-matches-quote", q == if by_amount { sh } else { out }, || format!("quoted {q}, burned {sh} for {out}")); }
			c.check_in(S, "withdrawal-is-reported", evs.iter().any(|e| matches!(e, RuntimeEvent::Stableswap(pallet_stableswap::Event::LiquidityRemoved { pool_id, who: y, shares, amounts, .. }) if *pool_id == p && *y == who && *shares == sh && amounts[..] == [AssetAmount::new(a, out)])), || "no event".into());
			worth(c, w, "share-value-never-falls", L4, p, &pre, &post);
			hook(c, p, None, &pre, &post); settings_same(c, &pre, &post); invariants(c, w, &post);
		}
		86..=88 => {
			let a = any(&mut c.rng); let bits = *c.rng.pick(&[0u8, 1, 2, 4, 8, 15, 15, 15, 15, 7, 11]); let root = !c.rng.chance(1, 5);
			c.log(|| format!("set {p}/{a} tradable {bits} root {root}"));
			let res = do_call(Call::set_asset_tradable_state { pool_id: p, asset_id: a, state: Tradability::from_bits_truncate(bits) }, if root { None } else { Some(&who) });
			let post = view();
			c.check_in(S, "only-the-authority-governs", res.is_ok() == (root && info.assets.contains(&a)), || format!("{res:?}"));
			let mut want = pre.flags.clone(); if res.is_ok() { want.insert((p, a), bits); c.event("tradability-set"); }
			c.check_in(S, "tradability-set-as-asked", post.flags == want && post.pools == pre.pools && post.book == pre.book, || "other state changed".into());
		}
		89..=90 => {
			let fee = Permill::from_parts(c.rng.ppm(200_000)); let root = !c.rng.chance(1, 5);
			c.log(|| format!("set fee {p} {fee:?} root {root}"));
			let res = do_call(Call::update_pool_fee { pool_id: p, fee }, if root { None } else { Some(&who) });
			let post = view();
			c.check_in(S, "only-the-authority-governs", res.is_ok() == root, || format!("{res:?}"));
			let mut want = pre.pools.clone(); if res.is_ok() { want.get_mut(&p).unwrap().fee = fee; }
			c.check_in(S, "fee-set-as-asked", post.flags == pre.flags && post.pools == want && post.book == pre.book, || "other state changed".into());
		}
		91..=94 => {
			let now = System::block_number();
			let (s, e) = (now.saturating_add(c.rng.idx(4) as u32).saturating_sub(1), now + c.rng.idx(40) as u32);
			let f = match c.rng.idx(8) { 0 => 0u16, 1 => 1, 2 => 10_001, 3 => a0 as u16, 4 => 2, _ => c.rng.range(2, 10_000) as u16 };
			let root = !c.rng.chance(1, 6);
			c.log(|| format!("block {now}: amplification of {p} from {a0} to {f} over {s}..{e} root {root}"));
			let res = do_call(Call::update_amplification { pool_id: p, final_amplification: f, start_block: s, end_block: e }, if root { None } else { Some(&who) });
			let post = view();
			let good = root && e > s && s >= now && f as u128 != a0 && (2..=10_000).contains(&f);
			c.check_in(S, "amplification-changes-by-rule", res.is_ok() == good, || format!("{res:?}, expected {good}"));
			if res.is_ok() { c.event("amplification-scheduled"); w.amp.insert(p, (a0, f as u128, s, e)); let i = &post.pools[&p]; c.check_in(S, "amplification-scheduled-as-asked", (i.initial_block, i.final_block) == (s, e) && i.assets == info.assets && i.fee == info.fee, || format!("{i:?}")); } else { c.check_in(S, "refusal-changes-nothing", post.pools == pre.pools, || "changed".into()); }
			c.check_in(S, "amplification-moves-nothing", post.book == pre.book && post.flags == pre.flags, || "balances changed".into());
			invariants(c, w, &post);
		}
		95..=97 => { let b = 1 + c.rng.idx(12) as u32; System::set_block_number(System::block_number() + b); c.event("blocks"); }
		98 => { let a = info.assets[c.rng.idx(n)]; let v = c.rng.log(1, pre.book.free(&who, a).max(1)); if funded { c.log(|| format!("{} donates {v} of {a} to {p}", nm(&who))); let _ = Tokens::transfer(RuntimeOrigin::signed(who), home, a, v); } }
		_ => { let to = people[c.rng.idx(people.len())].clone(); let v = c.rng.log(1, pre.book.free(&who, p).max(1)); c.log(|| format!("{} gives {v} shares of {p} to {}", nm(&who), nm(&to))); let _ = Tokens::transfer(RuntimeOrigin::signed(who), to, p, v); }
	}
	let _ = take_events::<Rt>(); Hook::set(vec![]);
}
fn run(m: &mut Monitor) {
	m.workload("stableswap-pool-history", 4_000, 200_000, history);
	for (e, n) in [("sold", 8_000), ("bought", 5_000), ("added", 3_000), ("funded", 3_000), ("added-shares", 1_500), ("withdrew-shares", 1_500), ("withdrew-amount", 500), ("pool-created", 4_000), ("amplification-scheduled", 1_000), ("tradability-set", 1_000)] { m.expect(&format!("stableswap-pool-history/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct accepted trades, deposits and withdrawals by (pool, assets, amounts)", ["the pallet runs on a stand-in for FRAME and orml-tokens (calibrated by the pallet's own 105 tests)"];
		"C03" => run, "C04" => run, "C17" => run, "C18" => run);
}

//! The LBP pallet under random sales: pools created, scheduled, traded and wound up, judged on balances, locks, weights and events.
use hydra_dx_math::lbp as lm;
use hydradx_traits::router::{PoolType, TradeExecution};
use hydradx_traits::{AssetPairAccountIdFor, CanCreatePool, LockedBalance, AMM};
use mon_core::big::{w, U512};
use mon_frame::*;
use pallet_lbp::{Pool, WeightCurveType, COLLECTOR_LOCK_ID, MAX_SALE_DURATION, MAX_WEIGHT};
use pallet_xyk_pair::AssetPair;
mod pallet_xyk_pair { pub use pallet_lbp::types::AssetPair; }

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Lbp: pallet_lbp });
base!(Rt, (), DustWhite);
param! { Own: BTreeSet<Acc> = Default::default(); }
param! { MinTrade: u128 = 1000; MinLiq: u128 = 1000; InR: u128 = 3; OutR: u128 = 3; }
pub struct Ids; impl AssetPairAccountIdFor<u32, Acc> for Ids { fn from_assets(a: u32, b: u32, t: &str) -> Acc { pool_acc(t.as_bytes(), a.min(b), a.max(b)) } }
pub struct Locked; impl LockedBalance<u32, Acc, u128> for Locked { fn get_by_lock(id: [u8; 8], a: u32, who: Acc) -> u128 { Tokens::locks(who, a).into_iter().find(|l| l.id == id).map(|l| l.amount).unwrap_or(0) } }
impl pallet_lbp::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type LockedBalance = Locked; type CreatePoolOrigin = EnsureRoot<Acc>; type LBPWeightFunction = pallet_lbp::LBPWeightFunction; type AssetPairAccountId = Ids; type WeightInfo = ();
	type MinTradingLimit = MinTrade; type MinPoolLiquidity = MinLiq; type MaxInRatio = InR; type MaxOutRatio = OutR; type BlockNumberProvider = System;
}
use pallet_lbp::{Call, Event};
const P: &str = "C20";
const V: &str = "C06 C20";
type Pl = Pool<Acc, u32>;
fn pid(a: u32, b: u32) -> Acc { Ids::from_assets(a, b, "lbp") }
#[derive(Clone)]
struct View { book: Book, pools: BTreeMap<Acc, Pl>, locks: BTreeMap<(Acc, u32), u128>, coll: BTreeSet<(Acc, u32)> }
fn view() -> View {
	let book = Book::tokens::<Rt>(); let mut locks = BTreeMap::new();
	for ((a, c), v) in &book.frozen { let _ = v; let l = Locked::get_by_lock(COLLECTOR_LOCK_ID, *c, a.clone()); if l > 0 { locks.insert((a.clone(), *c), l); } }
	View { book, pools: pallet_lbp::PoolData::<Rt>::iter().collect(), locks, coll: pallet_lbp::FeeCollectorWithAsset::<Rt>::iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect() }
}
impl View { fn lock(&self, a: &Acc, c: u32) -> u128 { self.locks.get(&(a.clone(), c)).copied().unwrap_or(0) } }
fn same(c: &Ctx, a: &View, b: &View) { c.check_in(P, "refusal-changes-nothing", a.book == b.book && a.pools == b.pools && a.locks == b.locks && a.coll == b.coll, || "a refused call changed the state".into()); }
fn running(p: &Pl, now: u32) -> bool { matches!((p.start, p.end), (Some(s), Some(e)) if s <= now && now <= e) }
fn started(p: &Pl, now: u32) -> bool { matches!(p.start, Some(s) if s <= now) }
/// weights of the two assets now, exactly
fn weights(p: &Pl, now: u32) -> (u128, u128) { let (s, e) = (p.start.unwrap() as u128, p.end.unwrap() as u128); let n = now as u128; let a = (p.initial_weight as u128 * (e - n) + p.final_weight as u128 * (n - s)) / (e - s); (a, MAX_WEIGHT as u128 - a) }
fn valid(p: &Pl, now: u32) -> bool {
	let range = match (p.start, p.end) { (Some(s), Some(e)) => now < s && s < e, (None, None) => true, _ => false };
	let ok = |x: u32| x >= MAX_WEIGHT / 50 && x < MAX_WEIGHT;
	range && p.end.unwrap_or(0).saturating_sub(p.start.unwrap_or(0)) < MAX_SALE_DURATION && ok(p.initial_weight) && ok(p.final_weight) && p.fee.1 != 0
}
fn invariants(c: &Ctx, v: &View) {
	let mut expect = BTreeSet::new();
	for (k, p) in &v.pools {
		c.check_in(P, "pool-account-of-its-assets", *k == pid(p.assets.0, p.assets.1) && p.assets.0 != p.assets.1, || format!("{p:?}"));
		let now = System::block_number();
		for (a, b) in [p.assets, (p.assets.1, p.assets.0)] {
			use hydradx_traits::pools::SpotPriceProvider as S;
			let got = <Lbp as S<u32>>::spot_price(a, b).map(|p| w(p.into_inner()));
			c.check_in(P, "spot-price-of-the-weighted-pool", <Lbp as S<u32>>::spot_price(a, a) == Some(FixedU128::from(1)) && <Lbp as S<u32>>::pair_exists(a, b) && !<Lbp as S<u32>>::pair_exists(a, 9999) && <Lbp as S<u32>>::spot_price(a, 9999).is_none(), || format!("{p:?}"));
			if !running(p, now) { continue; }
			let wt = weights(p, now); let (wa, wb) = if a == p.assets.0 { wt } else { (wt.1, wt.0) };
			let (n, d) = (w(v.book.free(k, a)) * w(wb), w(v.book.free(k, b)) * w(wa));
			let e = if d.is_zero() { None } else { Some(n * w(10u128.pow(18)) / d).filter(|x| *x <= w(u128::MAX)) }; c.event("spot-price");
			// one unit of weight either way
			let tol = |e: U512| e / w(1_000_000) + w(1);
			c.check_in(P, "spot-price-of-the-weighted-pool", match (got, e) { (Some(g), Some(e)) => g <= e + tol(e) && g + tol(e) >= e, (None, None) => true, (None, Some(e)) => n > w(u128::MAX) || d > w(u128::MAX) || e + tol(e) >= w(u128::MAX), (Some(g), None) => d.is_zero() == false && g + tol(g) >= w(u128::MAX) }, || format!("{a} per {b} at {now}: {got:?}, exact {e:?}, weights {wa}/{wb}"));
		}
		c.check_in(P, "one-collector-per-asset", expect.insert((p.fee_collector.clone(), p.assets.0)), || format!("{:?}", v.pools));
		c.check_in(P, "collected-fees-stay-locked", Own::with(|o| o.contains(&p.fee_collector)) || v.book.free(&p.fee_collector, p.assets.0) >= v.lock(&p.fee_collector, p.assets.0), || format!("{p:?}"));
	}
	c.check_in(P, "collectors-of-existing-pools", v.coll == expect, || format!("{:?} for {:?}", v.coll, v.pools));
	for (k, l) in &v.locks { c.check_in(P, "locks-of-existing-pools", expect.contains(k), || format!("{} holds a lock of {l} on {}", nm(&k.0), k.1)); }
	let b = v.book.balanced(); c.check_in("C17 C20", "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn do_call(c: Call<Rt>, who: Option<&Acc>) -> Result<(), DispatchError> { call(RuntimeCall::Lbp(c), match who { Some(w) => RuntimeOrigin::signed(w.clone()), None => RuntimeOrigin::root() }) }
fn weight(r: &mut Rng) -> u32 { match r.idx(12) { 0 => 0, 1 => MAX_WEIGHT, 2 => MAX_WEIGHT / 50, 3 => MAX_WEIGHT / 50 - 1, 4 => MAX_WEIGHT - MAX_WEIGHT / 50, _ => r.range(2_000_000, 98_000_000) as u32 } }
fn feer(r: &mut Rng) -> (u32, u32) { *r.pick(&[(2u32, 1000u32), (3, 1000), (0, 1), (1, 1), (1, 0), (2, 10), (1, 3), (30, 10_000), (5, 2)]) }
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); Own::set(Default::default()); NoDust::set(Default::default());
		let r = &mut c.rng; let n = 2 + r.idx(3) as u32;
		Eds::set((0..n).map(|a| (a, *r.pick(&[1u128, 1, 1000]))).collect());
		MinTrade::set(*r.pick(&[1000u128, 1, 0])); MinLiq::set(*r.pick(&[1000u128, 1, 10u128.pow(9)])); InR::set(*r.pick(&[3u128, 5, 10])); OutR::set(*r.pick(&[3u128, 5, 10]));
		let people: Vec<Acc> = (1..6).map(acc).collect();
		for p in &people { for a in 0..n { let v = r.log(10u128.pow(9), 10u128.pow(23)); give::<Rt>(p, a, v); } }
		System::reset_events();
		let steps = 25 + c.rng.idx(30);
		for _ in 0..steps { step(c, n, &people); if c.failed() { return; } }
		c.sample(|| json!({"pools": pallet_lbp::PoolData::<Rt>::iter().map(|x| format!("{:?}", x.1.assets)).collect::<Vec<_>>()}));
	});
}
fn step(c: &mut Ctx, n: u32, people: &[Acc]) {
	let pre = view(); let now = System::block_number(); let who = people[c.rng.idx(people.len())].clone();
	let ids: Vec<Acc> = pre.pools.keys().cloned().collect();
	let some = if ids.is_empty() { None } else { Some(ids[c.rng.idx(ids.len())].clone()) };
	let kind = match &some { None => 60, Some(k) => { let p = &pre.pools[k]; if p.start.is_none() && c.rng.chance(1, 2) { 70 } else if !running(p, now) && c.rng.chance(1, 3) { 90 } else { c.rng.idx(100) } } };
	match kind {
		x @ 0..=57 => {
			let sell = x < 32; let p = pre.pools[some.as_ref().unwrap()].clone();
			let (mut i, mut o) = p.assets; if c.rng.chance(1, 2) { std::mem::swap(&mut i, &mut o); } if c.rng.chance(1, 30) { o = c.rng.idx(n as usize) as u32; }
			let home = pid(i, o); let p = pre.pools.get(&home).cloned();
			let (ri, ro) = (pre.book.free(&home, i), pre.book.free(&home, o)); let base = if sell { ri } else { ro };
			let amt = match c.rng.idx(9) { 0 => c.rng.range(0, MinTrade::get() + 2), 1 => base / if sell { InR::get() } else { OutR::get() } + c.rng.below(3), 2 => pre.book.free(&who, i), 3 => base, _ => { let lo = MinTrade::get().max(1); c.rng.log(lo, base / 3) } };
			let quote = if sell { Lbp::calculate_sell(PoolType::LBP, i, o, amt) } else { Lbp::calculate_buy(PoolType::LBP, i, o, amt) }.ok();
			let limit = match (c.rng.idx(6), quote) { (0, Some(q)) => q.saturating_add(1), (1, Some(q)) => q.saturating_sub(1), (2 | 3, Some(q)) => q, _ => if sell { 0 } else { u128::MAX } };
			c.log(|| format!("block {now}: {} {} {i}->{o} amount {amt} limit {limit} quote {quote:?} reserves {ri}/{ro} {p:?}", nm(&who), if sell { "sell" } else { "buy" }));
			let routed = c.rng.chance(1, 4); let org = RuntimeOrigin::signed(who.clone());
			let ex = |e| match e { hydradx_traits::router::ExecutorError::Error(e) => e, _ => DispatchError::Other("routed") };
			let res = match (sell, routed) {
				(true, false) => do_call(Call::sell { asset_in: i, asset_out: o, amount: amt, max_limit: limit }, Some(&who)),
				(false, false) => do_call(Call::buy { asset_out: o, asset_in: i, amount: amt, max_limit: limit }, Some(&who)),
				(true, true) => frame_support::storage::with_storage_layer(|| <Lbp as TradeExecution<RuntimeOrigin, Acc, u32, u128>>::execute_sell(org, PoolType::LBP, i, o, amt, limit).map_err(ex)),
				(false, true) => frame_support::storage::with_storage_layer(|| <Lbp as TradeExecution<RuntimeOrigin, Acc, u32, u128>>::execute_buy(org, PoolType::LBP, i, o, amt, limit).map_err(ex)),
			};
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			if c.rng.chance(1, 40) { for t in [PoolType::Omnipool, PoolType::XYK, PoolType::Stableswap(i)] { c.check_in(P, "other-pool-types-are-not-quoted", Lbp::calculate_sell(t, i, o, amt).is_err() && Lbp::calculate_buy(t, i, o, amt).is_err() && Lbp::calculate_spot_price_with_fee(t, i, o).is_err() && Lbp::get_liquidity_depth(t, i, o).is_err(), || format!("{t:?}")); } }
			// what the pool's mathematics gives at this block's weights: what the pool gets, what the trader gets, the fee and its payer
			let on = p.as_ref().map(|p| running(p, now)).unwrap_or(false) && i != o;
			let acc_in = p.as_ref().map(|p| p.assets.0 == i).unwrap_or(false);
			let coll = p.as_ref().map(|p| p.fee_collector.clone()).unwrap_or(acc(0)); let fa = p.as_ref().map(|p| p.assets.0).unwrap_or(0);
			let locked = pre.lock(&coll, fa);
			let rate = p.as_ref().map(|p| if locked < p.repay_target { (2, 10) } else { p.fee }).unwrap_or((0, 1));
			let fee_of = |a: u128| if rate.0 == 0 || rate.1 == 0 { Some(0) } else if rate.0 == rate.1 { Some(a) } else { (a / rate.1 as u128).checked_mul(rate.0 as u128) };
			let mut want = None; // (whole paid, to the pool, to the trader, fee, in measured, out measured)
			if on {
				let (wa, wb) = weights(p.as_ref().unwrap(), now); let (wi, wo) = if acc_in { (wa, wb) } else { (wb, wa) }; let (wi, wo) = (wi as u32, wo as u32);
				want = (|| {
					if sell { let out = lm::calculate_out_given_in(ri, ro, wi, wo, amt).ok()?; if acc_in { let f = fee_of(amt)?; Some((amt, amt.checked_sub(f)?, out, f, amt, out)) } else { let f = fee_of(out)?; Some((amt, amt, out.checked_sub(f)?, f, amt, out)) } }
					else if acc_in { let x = lm::calculate_in_given_out(ri, ro, wi, wo, amt).ok()?; let f = fee_of(x)?; Some((x, x.checked_sub(f)?, amt, f, x, amt)) }
					else { let f = fee_of(amt)?; let x = lm::calculate_in_given_out(ri, ro, wi, wo, amt.checked_add(f)?).ok()?; Some((x, x, amt, f, x, amt)) }
				})();
				c.distinct("weights", (wa / 1_000_000, ri.max(1).ilog2(), ro.max(1).ilog2()));
			}
			let broken = match want { None => true, Some((paid, _, got, _, mi, mo)) => amt == 0 || mi > ri / InR::get() || mo > ro / OutR::get() || paid > pre.book.free(&who, i) || if sell { got < limit } else { paid > limit } };
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || format!("a trade that breaks a rule was executed: running {on}, expected {want:?}, ratios {}/{}", InR::get(), OutR::get()));
			if let Err(e) = &res {
				if !broken {
					let (paid, _, got, f, _, _) = want.unwrap(); let left = pre.book.free(&who, i) - paid;
					let tight = left < ed(i).max(pre.book.frozen.get(&(who.clone(), i)).copied().unwrap_or(0)) || got == 0 || pre.book.free(&who, o) + got < ed(o) || pre.book.free(&coll, fa) + f < ed(fa) || got + f > ro || ro - got.min(ro) < ed(o) || paid < ed(i) && ri < ed(i);
					c.check_in(P, "allowed-by-rule", tight || format!("{e:?}").contains("Arithmetic"), || format!("a trade within every rule was refused: {} expected {want:?}", err(e)));
				}
				c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); return;
			}
			if broken { return; }
			let (paid, topool, got, f, _, _) = want.unwrap();
			c.event(if sell { "sold" } else { "bought" }); c.event(if acc_in { "accumulated-in" } else { "accumulated-out" }); if locked < p.as_ref().unwrap().repay_target { c.event("repay-fee"); } c.nontrivial((i, o, paid, got));
			c.check_in(V, "executable-trades-are-quoted", quote.is_some(), || "no quote".into());
			if let Some(q) = quote { c.check_in("C06 C17 C20", "execution-matches-quote", q == if sell { got } else { paid }, || format!("quoted {q}, executed {want:?}")); }
			if coll == who { Own::with(|o| o.insert(coll.clone())); } // a collector paying itself is locked beyond its balance
			let mv = pre.book.moved(&post.book);
			let wantm = if acc_in { Moves::new().mv(&who, &home, i, topool).mv(&who, &coll, i, f).mv(&home, &who, o, got) } else { Moves::new().mv(&who, &home, i, topool).mv(&home, &who, o, got).mv(&home, &coll, o, f) };
			c.check_in("C06 C17 C20", "only-the-legs-and-the-fee-move", mv == wantm && pre.book.issuance == post.book.issuance, || format!("moved {mv:?}, expected {wantm:?}"));
			c.check_in(P, "fees-are-locked-at-the-collector", post.lock(&coll, fa) == locked + f, || format!("lock {locked} -> {} for a fee of {f}", post.lock(&coll, fa)));
			c.check_in(P, "trades-keep-pools", pre.pools == post.pools && pre.coll == post.coll, || "pools changed".into());
			c.check_in(P, "trade-is-reported", evs.iter().any(|e| match e { RuntimeEvent::Lbp(Event::SellExecuted { who: x, asset_in, asset_out, amount, sale_price, fee_asset, fee_amount }) if sell => (x, *asset_in, *asset_out, *amount, *sale_price, *fee_asset, *fee_amount) == (&who, i, o, topool, got, fa, f), RuntimeEvent::Lbp(Event::BuyExecuted { who: x, asset_in, asset_out, amount, buy_price, fee_asset, fee_amount }) if !sell => (x, *asset_in, *asset_out, *amount, *buy_price, *fee_asset, *fee_amount) == (&who, i, o, topool, got, fa, f), _ => false }), || format!("{evs:?}"));
			let _ = w(0); invariants(c, &post);
		}
		58..=65 => {
			let (a, b) = (c.rng.idx(n as usize) as u32, c.rng.idx(n as usize) as u32); let home = pid(a, b);
			let v = |r: &mut Rng, x: u32| match r.idx(8) { 0 => MinLiq::get().saturating_sub(1), 1 => MinLiq::get(), 2 => pre.book.free(&who, x).saturating_add(1), _ => { let hi = pre.book.free(&who, x) / 3; r.log(MinLiq::get().max(1000), hi) } };
			let (x, y) = (v(&mut c.rng, a), v(&mut c.rng, b)); let coll = people[c.rng.idx(people.len())].clone(); let root = !c.rng.chance(1, 10);
			let p = Pl { owner: who.clone(), start: None, end: None, assets: (a, b), initial_weight: weight(&mut c.rng), final_weight: weight(&mut c.rng), weight_curve: WeightCurveType::Linear, fee: feer(&mut c.rng), fee_collector: coll.clone(), repay_target: match c.rng.idx(3) { 0 => 0, _ => c.rng.log(1, x.max(2)) } };
			c.log(|| format!("create {x} of {a}, {y} of {b}: {p:?} root {root}"));
			let res = do_call(Call::create_pool { pool_owner: who.clone(), asset_a: a, asset_a_amount: x, asset_b: b, asset_b_amount: y, initial_weight: p.initial_weight, final_weight: p.final_weight, weight_curve: p.weight_curve, fee: p.fee, fee_collector: coll.clone(), repay_target: p.repay_target }, if root { None } else { Some(&who) });
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let broken = !root || a == b || pre.pools.contains_key(&home) || x < MinLiq::get() || y < MinLiq::get() || x > pre.book.free(&who, a) || y > pre.book.free(&who, b) || !valid(&p, now) || pre.coll.contains(&(coll.clone(), a));
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || "a pool was created against a rule".into());
			if let Err(e) = &res { if !broken { let d = |t: u32, v: u128| { let l = pre.book.free(&who, t) - v; v < ed(t) || l < ed(t).max(pre.book.frozen.get(&(who.clone(), t)).copied().unwrap_or(0)) }; c.check_in(P, "allowed-by-rule", d(a, x) || d(b, y), || format!("a pool within every rule was refused: {}", err(e))); } c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); return; }
			if broken { return; }
			c.event("pool-created");
			let mut want = pre.pools.clone(); want.insert(home.clone(), p.clone());
			c.check_in(P, "pool-created-as-asked", post.pools == want && post.locks == pre.locks, || format!("{:?}", post.pools.get(&home)));
			let mv = pre.book.moved(&post.book); let m = Moves::new().mv(&who, &home, a, x).mv(&who, &home, b, y);
			c.check_in("C17 C20", "deposit-moves-only-the-deposit", mv == m, || format!("moved {mv:?}, expected {m:?}"));
			c.check_in(P, "creation-is-reported", evs.iter().any(|e| matches!(e, RuntimeEvent::Lbp(Event::PoolCreated { pool, data }) if *pool == home && *data == p)), || format!("{evs:?}"));
			invariants(c, &post);
		}
		66..=77 => {
			let k = some.unwrap(); let p = pre.pools[&k].clone();
			let by = if c.rng.chance(1, 8) { who.clone() } else { p.owner.clone() }; let mut q = p.clone();
			let r = &mut c.rng;
			let start = if r.chance(3, 4) { Some(now + r.idx(6) as u32) } else { None };
			let end = if r.chance(3, 4) { Some(match r.idx(6) { 0 => now, 1 => start.unwrap_or(now), 2 => start.unwrap_or(now).saturating_add(MAX_SALE_DURATION - r.idx(2) as u32), _ => start.unwrap_or(now) + r.idx(60) as u32 }) } else { None };
			let (iw, fw, fee, tgt) = (if r.chance(1, 3) { Some(weight(r)) } else { None }, if r.chance(1, 3) { Some(weight(r)) } else { None }, if r.chance(1, 4) { Some(feer(r)) } else { None }, if r.chance(1, 4) { Some(r.log(1, 10u128.pow(20))) } else { None });
			let coll = if r.chance(1, 4) { Some(people[r.idx(people.len())].clone()) } else { None }; let owner = if r.chance(1, 8) { Some(people[r.idx(people.len())].clone()) } else { None };
			if let Some(x) = &owner { q.owner = x.clone(); } q.start = start.or(p.start); q.end = end.or(p.end); if let Some(x) = iw { q.initial_weight = x; } if let Some(x) = fw { q.final_weight = x; } if let Some(x) = fee { q.fee = x; } if let Some(x) = &coll { q.fee_collector = x.clone(); } if let Some(x) = tgt { q.repay_target = x; }
			let nothing = start.is_none() && end.is_none() && iw.is_none() && fw.is_none() && fee.is_none() && coll.is_none() && tgt.is_none();
			c.log(|| format!("block {now}: {} updates {p:?} to {q:?}", nm(&by)));
			let res = do_call(Call::update_pool_data { pool_id: k.clone(), pool_owner: owner, start, end, initial_weight: iw, final_weight: fw, fee, fee_collector: coll.clone(), repay_target: tgt }, Some(&by));
			let post = view(); let evs = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let good = by == p.owner && !started(&p, now) && !nothing && valid(&q, now) && coll.as_ref().map(|x| !pre.coll.contains(&(x.clone(), p.assets.0))).unwrap_or(true);
			c.check_in(P, "only-the-owner-and-only-before-the-sale", res.is_ok() == good, || format!("{res:?}, expected {good}"));
			if res.is_err() { same(c, &pre, &post); return; }
			c.event("updated"); let mut want = pre.pools.clone(); want.insert(k.clone(), q.clone());
			c.check_in(P, "updated-as-asked", post.pools == want && post.book == pre.book && post.locks == pre.locks, || format!("{:?}", post.pools[&k]));
			c.check_in(P, "update-is-reported", evs.iter().any(|e| matches!(e, RuntimeEvent::Lbp(Event::PoolUpdated { pool, data }) if *pool == k && *data == q)), || format!("{evs:?}"));
			invariants(c, &post);
		}
		78..=81 => {
			let k = some.unwrap(); let p = pre.pools[&k].clone(); let by = if c.rng.chance(1, 4) { who.clone() } else { p.owner.clone() };
			let (a, b) = if c.rng.chance(1, 2) { p.assets } else { (p.assets.1, p.assets.0) };
			let (x, y) = (if c.rng.chance(1, 4) { 0 } else { let h = pre.book.free(&by, a); c.rng.log(1, h.max(1)) }, if c.rng.chance(1, 4) { 0 } else { let h = pre.book.free(&by, b); c.rng.log(1, h.max(1)) });
			c.log(|| format!("{} adds {x} of {a} and {y} of {b}", nm(&by)));
			let res = do_call(Call::add_liquidity { amount_a: (a, x), amount_b: (b, y) }, Some(&by));
			let post = view(); let _ = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let broken = by != p.owner || (x == 0 && y == 0) || x > pre.book.free(&by, a) || y > pre.book.free(&by, b);
			c.check_in(P, "refused-by-rule", !(res.is_ok() && broken), || "liquidity was added against a rule".into());
			if let Err(e) = &res { if !broken { let d = |t: u32, v: u128| { let l = pre.book.free(&by, t) - v; v > 0 && (l < ed(t).max(pre.book.frozen.get(&(by.clone(), t)).copied().unwrap_or(0)) || pre.book.free(&k, t) + v < ed(t)) }; c.check_in(P, "allowed-by-rule", d(a, x) || d(b, y), || format!("an addition within every rule was refused: {}", err(e))); } same(c, &pre, &post); return; }
			c.event("added"); let mv = pre.book.moved(&post.book); let m = Moves::new().mv(&by, &k, a, x).mv(&by, &k, b, y);
			c.check_in("C17 C20", "deposit-moves-only-the-deposit", mv == m && pre.pools == post.pools && pre.locks == post.locks, || format!("moved {mv:?}, expected {m:?}"));
			invariants(c, &post);
		}
		82..=89 => {
			let k = some.unwrap(); let p = pre.pools[&k].clone(); let by = if c.rng.chance(1, 6) { who.clone() } else { p.owner.clone() };
			if p.start.is_none() && c.rng.chance(2, 3) { return; }
			c.log(|| format!("block {now}: {} winds up {p:?}, fees locked {}", nm(&by), pre.lock(&p.fee_collector, p.assets.0)));
			let res = do_call(Call::remove_liquidity { pool_id: k.clone() }, Some(&by));
			let post = view(); let _ = take_events::<Rt>(); c.log(|| format!("  -> {:?}", res.as_ref().map_err(err)));
			let broken = by != p.owner || running(&p, now);
			c.check_in(P, "only-the-owner-and-never-during-the-sale", !(res.is_ok() && broken), || "a running pool was wound up, or by another".into());
			let (x, y) = (pre.book.free(&k, p.assets.0), pre.book.free(&k, p.assets.1));
			if let Err(e) = &res { if !broken { let d = |t: u32, v: u128| v > 0 && pre.book.free(&by, t) + v < ed(t); c.check_in(P, "allowed-by-rule", d(p.assets.0, x) || d(p.assets.1, y), || format!("winding up was refused: {}", err(e))); } c.event(&format!("refused-{}", err(e))); same(c, &pre, &post); return; }
			if broken { return; }
			c.event("wound-up"); let mv = pre.book.moved(&post.book); let m = Moves::new().mv(&k, &by, p.assets.0, x).mv(&k, &by, p.assets.1, y);
			c.check_in("C17 C20", "owner-gets-everything", mv == m, || format!("moved {mv:?}, expected {m:?}"));
			let mut want = pre.pools.clone(); want.remove(&k); let mut locks = pre.locks.clone(); locks.remove(&(p.fee_collector.clone(), p.assets.0));
			c.check_in(P, "fees-are-released-with-the-pool", post.pools == want && post.locks == locks, || format!("{:?} -> {:?}", pre.locks, post.locks));
			invariants(c, &post);
		}
		90..=97 => {
			// time: into, inside or past the sale
			let d = match some.as_ref().map(|k| &pre.pools[k]) { Some(p) if c.rng.chance(3, 4) && p.start.is_some() => { let (s, e) = (p.start.unwrap(), p.end.unwrap()); match c.rng.idx(6) { 0 => s.saturating_sub(now), 1 => e.saturating_sub(now), 2 => (e + 1).saturating_sub(now), _ => { let e = if e < now { now } else { e }; c.rng.range(0, ((e - now) / 2) as u128 + 1) as u32 } } } _ => 1 + c.rng.idx(4) as u32 };
			System::set_block_number(now + d); c.event("blocks");
			let (a, b) = (c.rng.idx(n as usize) as u32, c.rng.idx(n as usize) as u32);
			let at = System::block_number(); let can = pallet_lbp::DisallowWhenLBPPoolRunning::<Rt>::can_create(a, b);
			let want = pre.pools.get(&pid(a, b)).map(|p| p.end.map(|e| e < at).unwrap_or(false)).unwrap_or(true);
			c.check_in(P, "no-other-pool-during-a-sale", can == want, || format!("{a}/{b} at {at}: {can}, {:?}", pre.pools.get(&pid(a, b))));
		}
		_ => { if let Some(k) = some { let p = &pre.pools[&k]; let coll = p.fee_collector.clone(); let to = people[c.rng.idx(people.len())].clone(); let v = pre.book.free(&coll, p.assets.0); if coll != to { let v = v.saturating_sub(pre.lock(&coll, p.assets.0)).saturating_add(1); let r = Tokens::transfer(RuntimeOrigin::signed(coll.clone()), to, p.assets.0, v); c.check_in(P, "collected-fees-stay-locked", r.is_err() || pre.lock(&coll, p.assets.0) == 0, || format!("{} moved {v} with {} locked", nm(&coll), pre.lock(&coll, p.assets.0))); } } }
	}
	let _ = <Lbp as AMM<Acc, u32, AssetPair, u128>>::exists(AssetPair { asset_in: 0, asset_out: 1 }); let _ = take_events::<Rt>();
}
fn run(m: &mut Monitor) {
	m.workload("lbp-sale-history", 6_000, 300_000, history);
	for (e, n) in [("sold", 6_000), ("bought", 5_000), ("pool-created", 3_000), ("updated", 2_000), ("wound-up", 1_000), ("repay-fee", 500), ("accumulated-in", 1000), ("accumulated-out", 1000)] { m.expect(&format!("lbp-sale-history/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct accepted trades by (pair, amounts)", ["the pallet runs on a stand-in for FRAME and orml-tokens (calibrated by the pallet's own 85 tests)"];
		"C06" => run, "C17" => run, "C20" => run);
}

//! The circuit breaker over random blocks of trades, deposits and withdrawals against an exact account of what may still pass.
use mon_frame::*;
use pallet_circuit_breaker::{Call, Event, MAX_LIMIT_VALUE};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Breaker: pallet_circuit_breaker });
base!(Rt, (), DustWhite);
type Frac = (u32, u32);
param! { White: BTreeSet<Acc> = Default::default(); }
parameter_types! { pub const Hub: u32 = 1; }
std::thread_local! { static D: std::cell::Cell<(Frac, Option<Frac>, Option<Frac>)> = const { std::cell::Cell::new(((1, 1), None, None)) }; }
pub struct DefNet; impl Get<Frac> for DefNet { fn get() -> Frac { D.with(|d| d.get().0) } }
pub struct DefAdd; impl Get<Option<Frac>> for DefAdd { fn get() -> Option<Frac> { D.with(|d| d.get().1) } }
pub struct DefRem; impl Get<Option<Frac>> for DefRem { fn get() -> Option<Frac> { D.with(|d| d.get().2) } }
pub struct Listed; impl frame_support::traits::Contains<Acc> for Listed { fn contains(a: &Acc) -> bool { White::with(|w| w.contains(a)) } }
impl pallet_circuit_breaker::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type Balance = u128; type TechnicalOrigin = EnsureRoot<Acc>; type WhitelistedAccounts = Listed; type DefaultMaxNetTradeVolumeLimitPerBlock = DefNet;
	type DefaultMaxAddLiquidityLimitPerBlock = DefAdd; type DefaultMaxRemoveLiquidityLimitPerBlock = DefRem; type OmnipoolHubAsset = Hub; type WeightInfo = ();
}
const P: &str = "C22";
#[derive(Clone, Default, PartialEq, Debug)]
struct View { net: BTreeMap<u32, (u128, u128, u128)>, add: BTreeMap<u32, (u128, u128)>, rem: BTreeMap<u32, (u128, u128)>, lim: BTreeMap<u32, (Frac, Option<Frac>, Option<Frac>)> }
fn view(n: u32) -> View {
	use pallet_circuit_breaker as p;
	View { net: p::AllowedTradeVolumeLimitPerAsset::<Rt>::iter().map(|(k, v)| (k, (v.volume_in, v.volume_out, v.limit))).collect(), add: p::AllowedAddLiquidityAmountPerAsset::<Rt>::iter().map(|(k, v)| (k, (v.liquidity, v.limit))).collect(),
		rem: p::AllowedRemoveLiquidityAmountPerAsset::<Rt>::iter().map(|(k, v)| (k, (v.liquidity, v.limit))).collect(), lim: (0..n).map(|a| (a, (Breaker::trade_volume_limit_per_asset(a), Breaker::add_liquidity_limit_per_asset(a), Breaker::remove_liquidity_limit_per_asset(a)))).collect() }
}
fn part(v: u128, f: Frac) -> Option<u128> { v.checked_mul(f.0 as u128).map(|x| x / f.1 as u128) }
/// the account of what passed in this block
#[derive(Default, Clone)]
struct Tally { first: BTreeMap<u32, u128>, ins: BTreeMap<u32, u128>, outs: BTreeMap<u32, u128>, cap: BTreeMap<u32, u128>, add: BTreeMap<u32, (u128, u128)>, rem: BTreeMap<u32, (u128, u128)> }
fn valid(f: Frac) -> bool { (1..=MAX_LIMIT_VALUE).contains(&f.0) && (1..=MAX_LIMIT_VALUE).contains(&f.1) }
fn frac(r: &mut Rng) -> Frac { match r.idx(8) { 0 => (0, 10_000), 1 => (10_001, 1), 2 => (1, 10_001), 3 => (1, 0), 4 => (10_000, 10_000), 5 => (r.range(1, 10_000) as u32, r.range(1, 10_000) as u32), _ => (r.range(1, 5_000) as u32, 10_000) } }
fn good(r: &mut Rng) -> Frac { loop { let f = frac(r); if valid(f) { return f; } } }
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1);
		let r = &mut c.rng; let n = 3 + r.idx(3) as u32;
		let d = (good(r), if r.chance(1, 4) { None } else { Some(good(r)) }, if r.chance(1, 4) { None } else { Some(good(r)) }); D.with(|x| x.set(d));
		let people: Vec<Acc> = (1..4).map(acc).collect(); White::set(if r.chance(1, 2) { [people[0].clone()].into() } else { Default::default() });
		let mut res: Vec<u128> = (0..n).map(|_| if r.chance(1, 20) { r.log(0, u128::MAX) } else { r.log(1_000, 10u128.pow(24)) }).collect();
		let mut t = Tally::default(); let mut lim: BTreeMap<u32, (Frac, Option<Frac>, Option<Frac>)> = (0..n).map(|a| (a, d)).collect();
		let steps = 30 + c.rng.idx(40);
		for _ in 0..steps { step(c, n, &people, &mut res, &mut t, &mut lim); if c.failed() { return; } }
		c.sample(|| json!({"defaults": format!("{d:?}"), "state": format!("{:?}", view(n))}));
	});
}
fn step(c: &mut Ctx, n: u32, people: &[Acc], res: &mut [u128], t: &mut Tally, lim: &mut BTreeMap<u32, (Frac, Option<Frac>, Option<Frac>)>) {
	let pre = view(n); let who = people[c.rng.idx(people.len())].clone(); let a = c.rng.idx(n as usize) as u32; let b = (a + 1 + c.rng.idx(n as usize - 1) as u32) % n; let hub = Hub::get();
	let tx = |f: &dyn Fn() -> Result<Weight, DispatchError>| frame_support::storage::with_storage_layer(f);
	match c.rng.idx(100) {
		0..=44 => {
			let (ra, rb) = (res[a as usize], res[b as usize]);
			let amt = |r: &mut Rng, t: &Tally, x: u32, inn: bool, reserve: u128| { let cap = t.cap.get(&x).copied().or(part(reserve, lim[&x].0)).unwrap_or(0); let net = t.ins.get(&x).copied().unwrap_or(0) as i128 - t.outs.get(&x).copied().unwrap_or(0) as i128; let room = if inn { cap as i128 - net } else { cap as i128 + net }.max(0) as u128; match r.idx(8) { 0 => room, 1 => room.saturating_add(1), 2 => room / 2, 3 => reserve, _ => r.log(1, room.max(2)) } };
			let (x, y) = (amt(&mut c.rng, t, a, true, ra), amt(&mut c.rng, t, b, false, rb));
			let got = tx(&|| Breaker::ensure_pool_state_change_limit(a, ra, x, b, rb, y)); let post = view(n);
			// expected
			let mut u = t.clone(); let mut ok = true;
			for (z, reserve) in [(a, ra), (b, rb)] { if z != hub && !u.cap.contains_key(&z) { match part(reserve, lim[&z].0) { Some(v) => { u.cap.insert(z, v); u.first.insert(z, reserve); } None => ok = false } } }
			for (z, i, o) in [(a, x, 0), (b, 0, y)] { if z == hub || !ok { continue; } let (p, q) = (u.ins.get(&z).copied().unwrap_or(0).checked_add(i), u.outs.get(&z).copied().unwrap_or(0).checked_add(o)); match (p, q) { (Some(p), Some(q)) => { ok &= p.abs_diff(q) <= u.cap[&z]; u.ins.insert(z, p); u.outs.insert(z, q); } _ => ok = false } }
			c.log(|| format!("trade {x} of {a} for {y} of {b}, reserves {ra}/{rb} -> {:?}; caps {:?} in {:?} out {:?}", got.as_ref().map(|_| ()).map_err(err), u.cap, u.ins, u.outs));
			c.event(if ok { "trade-allowed" } else { "trade-refused" });
			c.check_in(P, "trades-pass-within-the-net-limit-only", got.is_ok() == ok, || format!("{got:?}, expected {ok}"));
			if got.is_ok() && ok { *t = u; if a != hub { res[a as usize] = ra.saturating_add(x); } if b != hub { res[b as usize] = rb.saturating_sub(y); } c.nontrivial((x, y)); for (z, v) in &t.cap { let net = t.ins.get(z).copied().unwrap_or(0).abs_diff(t.outs.get(z).copied().unwrap_or(0)); c.check_in(P, "net-volume-within-limit", net <= *v && post.net.get(z).map(|s| s.0.abs_diff(s.1) <= *v).unwrap_or(false), || format!("asset {z}: net {net} of {v}; {post:?}")); } }
			if got.is_err() { c.check_in(P, "refusal-changes-nothing", pre == post, || format!("{pre:?} -> {post:?}")); }
		}
		45..=74 => {
			let add = c.rng.chance(1, 2); let root = c.rng.chance(1, 10); let none = c.rng.chance(1, 60);
			let l = if add { lim[&a].1 } else { lim[&a].2 }; let reserve = res[a as usize]; let cur = if add { t.add.get(&a) } else { t.rem.get(&a) }.copied();
			let cap = cur.map(|x| x.1).or(l.and_then(|f| part(reserve, f))).unwrap_or(reserve); let used = cur.map(|x| x.0).unwrap_or(0); let room = cap.saturating_sub(used);
			let x = match c.rng.idx(7) { 0 => room, 1 => room.saturating_add(1), 2 => room / 3, 3 => reserve, _ => c.rng.log(1, room.max(2)) };
			let o = || if none { RuntimeOrigin::none() } else if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who.clone()) };
			let got = tx(&|| if add { Breaker::ensure_add_liquidity_limit(o(), a, reserve, x) } else { Breaker::ensure_remove_liquidity_limit(o(), a, reserve, x) }); let post = view(n);
			let exempt = !none && (root || White::with(|w| w.contains(&who)));
			let mut u = t.clone(); let mut ok = true;
			if !exempt && a != hub {
				// both allowances are fixed the first time the asset is touched in a block
				for (k, f) in [(true, lim[&a].1), (false, lim[&a].2)] { if let Some(f) = f { let m = if k { &mut u.add } else { &mut u.rem }; if !m.contains_key(&a) { match part(reserve, f) { Some(v) => { m.insert(a, (0, v)); } None => ok = false } } } }
				if ok && l.is_some() { let m = if add { &mut u.add } else { &mut u.rem }; let e = m.get_mut(&a).unwrap(); match e.0.checked_add(x) { Some(s) => { e.0 = s; ok &= s <= e.1; } None => ok = false } }
			}
			ok &= !none;
			c.log(|| format!("{} {x} of {a}, reserve {reserve}, limit {l:?}, used {cur:?}, exempt {exempt} -> {:?}", if add { "add" } else { "remove" }, got.as_ref().map(|_| ()).map_err(err)));
			c.event(match (add, ok) { (true, true) => "add-allowed", (true, false) => "add-refused", (false, true) => "remove-allowed", _ => "remove-refused" }); if exempt { c.event("exempt"); }
			c.check_in(P, "liquidity-passes-within-the-limit-only", got.is_ok() == ok, || format!("{got:?}, expected {ok}"));
			if got.is_ok() && ok { *t = u; if a != hub { res[a as usize] = if add { reserve.saturating_add(x) } else { reserve.saturating_sub(x) }; } c.nontrivial((x, add)); if exempt { c.check_in(P, "exempt-accounts-use-no-allowance", pre == post, || format!("{pre:?} -> {post:?}")); } }
			if got.is_err() { c.check_in(P, "refusal-changes-nothing", pre == post, || format!("{pre:?} -> {post:?}")); }
		}
		75..=88 => {
			let f = frac(&mut c.rng); let opt = if c.rng.chance(1, 4) { None } else { Some(f) }; let k = c.rng.idx(3); let root = c.rng.chance(4, 5);
			let call_ = match k { 0 => Call::set_trade_volume_limit { asset_id: a, trade_volume_limit: f }, 1 => Call::set_add_liquidity_limit { asset_id: a, liquidity_limit: opt }, _ => Call::set_remove_liquidity_limit { asset_id: a, liquidity_limit: opt } };
			System::reset_events(); let got = call(RuntimeCall::Breaker(call_), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) }); let evs = take_events::<Rt>(); let post = view(n);
			let ok = root && a != hub && if k == 0 { valid(f) } else { opt.map(valid).unwrap_or(true) };
			c.log(|| format!("limit {k} of {a} to {f:?}/{opt:?} root {root} -> {:?}", got.as_ref().map_err(err)));
			c.check_in(P, "only-the-authority-sets-valid-limits", got.is_ok() == ok, || format!("{got:?}, expected {ok}"));
			if got.is_ok() { let e = lim.get_mut(&a).unwrap(); match k { 0 => e.0 = f, 1 => e.1 = opt, _ => e.2 = opt } c.event("limit-set");
				let want = match k { 0 => Event::TradeVolumeLimitChanged { asset_id: a, trade_volume_limit: f }, 1 => Event::AddLiquidityLimitChanged { asset_id: a, liquidity_limit: opt }, _ => Event::RemoveLiquidityLimitChanged { asset_id: a, liquidity_limit: opt } };
				c.check_in(P, "limit-change-is-reported", evs.iter().any(|e| *e == RuntimeEvent::Breaker(want.clone())), || format!("{evs:?}"));
				c.check_in(P, "limits-stored-as-set", post.lim == *lim && (pre.net.clone(), pre.add.clone(), pre.rem.clone()) == (post.net.clone(), post.add.clone(), post.rem.clone()), || format!("{post:?}, expected {lim:?}")); }
			else { c.check_in(P, "refusal-changes-nothing", pre == post, || format!("{pre:?} -> {post:?}")); }
		}
		_ => { let b = System::block_number(); <Breaker as Hooks<u32>>::on_finalize(b); System::set_block_number(b + 1); let _ = <Breaker as Hooks<u32>>::on_initialize(b + 1); *t = Tally::default(); c.event("block"); c.log(|| format!("block {}", b + 1)); let post = view(n); c.check_in(P, "allowances-start-anew-each-block", post.net.is_empty() && post.add.is_empty() && post.rem.is_empty() && post.lim == *lim, || format!("{post:?}")); }
	}
	let v = view(n); c.check_in(P, "hub-asset-is-not-limited", !v.net.contains_key(&hub) && !v.add.contains_key(&hub) && !v.rem.contains_key(&hub), || format!("{v:?}"));
}
fn run(m: &mut Monitor) {
	m.workload("limited-blocks", 8_000, 400_000, history);
	for (e, n) in [("trade-allowed", 40_000), ("trade-refused", 20_000), ("add-allowed", 10_000), ("add-refused", 5_000), ("remove-allowed", 10_000), ("remove-refused", 5_000), ("exempt", 5_000), ("limit-set", 5_000), ("block", 20_000)] { m.expect(&format!("limited-blocks/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct allowed trades and liquidity changes by amounts", ["the pallet runs on a stand-in for FRAME (calibrated by the pallet's own 90 tests)"]; "C22" => run);
}

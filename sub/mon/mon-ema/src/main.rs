//! The price oracle pallet over random blocks of trades, liquidity changes and gaps, against moving averages stepped block by block.
use hydradx_traits::{AggregatedOracle, AggregatedPriceOracle, Liquidity, OnLiquidityChangedHandler, OnTradeHandler, OraclePeriod, Source};
use frame_support::traits::BuildGenesisConfig;
use mon_frame::*;
use pallet_ema_oracle::{Call, OnActivityHandler, OracleError, OracleWhitelist, Price};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Oracle: pallet_ema_oracle });
base!(Rt, (), DustWhite);
param! { Max: u32 = 4; Open: bool = false; }
pub struct Periods; impl Get<frame_support::BoundedVec<OraclePeriod, frame_support::traits::ConstU32<6>>> for Periods { fn get() -> frame_support::BoundedVec<OraclePeriod, frame_support::traits::ConstU32<6>> { frame_support::BoundedVec::truncate_from(OraclePeriod::all_periods().to_vec()) } }
pub struct White; impl frame_support::traits::Contains<(Source, u32, u32)> for White { fn contains(t: &(Source, u32, u32)) -> bool { Open::get() || OracleWhitelist::<Rt>::contains(t) } }
impl pallet_ema_oracle::Config for Rt { type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type BlockNumberProvider = System; type SupportedPeriods = Periods; type OracleWhitelist = White; type MaxUniqueEntries = Max; type WeightInfo = (); }
type Key = (Source, (u32, u32));
const P: &str = "C07 C23";
const SRC: [Source; 3] = [*b"omnipool", *b"hydraxyk", *b"stblswap"];
fn blocks(p: OraclePeriod) -> f64 { match p { OraclePeriod::LastBlock => 1.0, OraclePeriod::Short => 9.0, OraclePeriod::TenMinutes => 100.0, OraclePeriod::Hour => 600.0, OraclePeriod::Day => 14_400.0, OraclePeriod::Week => 100_800.0 } }
fn alpha(p: OraclePeriod) -> f64 { 2.0 / (blocks(p) + 1.0) }
fn sort(a: u32, b: u32) -> (u32, u32) { (a.min(b), a.max(b)) }
/// what was reported: price, volume (a in, b out, a out, b in), liquidity
#[derive(Clone, Debug, PartialEq)]
struct Data { price: Price, vol: [u128; 4], liq: [u128; 2] }
impl Data { fn flipped(&self) -> Data { Data { price: Price { n: self.price.d, d: self.price.n }, vol: [self.vol[3], self.vol[2], self.vol[1], self.vol[0]], liq: [self.liq[1], self.liq[0]] } } fn p(&self) -> f64 { self.price.n as f64 / self.price.d as f64 } }
#[derive(Clone, Debug)]
struct Avg { price: f64, vol: [f64; 4], liq: [f64; 2], n: f64, lo: [f64; 3], hi: [f64; 3], vmax: f64 }
#[derive(Clone, Debug)]
struct Series { init: u32, at: u32, last: Data, avg: Vec<Avg>, odd: bool }
#[derive(Default, Clone)]
struct Model { white: BTreeSet<Key>, pending: BTreeMap<Key, Data>, series: BTreeMap<Key, Series> }
fn steps(s: &Series, k: usize, n: u32) -> Avg {
	let (mut v, a) = (s.avg[k].clone(), alpha(OraclePeriod::all_periods()[k])); if n == 0 { return v; }
	let keep = if k == 0 { 0.0 } else { (1.0 - a).powf(n as f64) };
	v.price = mix(v.price, s.last.p(), keep); for i in 0..4 { v.vol[i] *= keep; } for i in 0..2 { v.liq[i] = mix(v.liq[i], s.last.liq[i] as f64, keep); } v.n += 1.0; v
}
fn mix(old: f64, new: f64, keep: f64) -> f64 { old * keep + new * (1.0 - keep) }
fn put(m: &mut Model, now: u32) {
	for (k, d) in std::mem::take(&mut m.pending) {
		let one = |d: &Data| Avg { price: d.p(), vol: d.vol.map(|x| x as f64), liq: d.liq.map(|x| x as f64), n: 0.0, lo: [d.p(), d.liq[0] as f64, d.liq[1] as f64], hi: [d.p(), d.liq[0] as f64, d.liq[1] as f64], vmax: d.vol.iter().copied().max().unwrap() as f64 };
		let odd = d.price.n == 0 || d.price.d == 0;
		match m.series.get_mut(&k) {
			None => { m.series.insert(k, Series { init: now, at: now, avg: (0..6).map(|_| one(&d)).collect(), last: d, odd }); }
			Some(s) => {
				let gap = (now - 1).saturating_sub(s.at);
				for i in 0..6 { let mut v = steps(s, i, gap); let a = alpha(OraclePeriod::all_periods()[i]); let k = if i == 0 { 0.0 } else { 1.0 - a }; v.price = mix(v.price, d.p(), k); for j in 0..4 { v.vol[j] = mix(v.vol[j], d.vol[j] as f64, k); } for j in 0..2 { v.liq[j] = mix(v.liq[j], d.liq[j] as f64, k); } v.n += 1.0;
					let x = [d.p(), d.liq[0] as f64, d.liq[1] as f64]; for j in 0..3 { v.lo[j] = v.lo[j].min(x[j]); v.hi[j] = v.hi[j].max(x[j]); } v.vmax = v.vmax.max(d.vol.iter().copied().max().unwrap() as f64); s.avg[i] = v; }
				s.at = now; s.last = d; s.odd |= odd;
			}
		}
	}
}
fn raw() -> Vec<String> { let mut v: Vec<String> = pallet_ema_oracle::Oracles::<Rt>::iter().map(|x| format!("{x:?}")).collect(); v.sort(); v.push(format!("{:?}", Oracle::accumulator())); v.push(format!("{:?}", pallet_ema_oracle::WhitelistedAssets::<Rt>::get())); v }
fn price(r: &mut Rng) -> Price { let p = r.log(10u128.pow(9), 10u128.pow(24)); match r.idx(6) { 0 => Price { n: p, d: p }, _ => Price { n: p, d: r.log(10u128.pow(9), 10u128.pow(24)) } } }
fn near(r: &mut Rng, p: &Price) -> Price { let f = 900_000 + r.below(200_000); Price { n: (p.n / 1_000_000).saturating_mul(f).max(1), d: p.d } }
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); let r = &mut c.rng; Max::set(*r.pick(&[1u32, 3, 8, 40])); Open::set(r.chance(1, 2));
		let n = 2 + r.idx(4) as u32; let mut m = Model::default();
		if r.chance(1, 3) {
			System::set_block_number(0); let k = (*r.pick(&SRC), (r.idx(n as usize) as u32, n)); let k = if r.chance(1, 2) { (k.0, (k.1 .1, k.1 .0)) } else { k };
			let (p, l) = (price(r), [r.log(10u128.pow(6), 10u128.pow(24)), r.log(10u128.pow(6), 10u128.pow(24))]);
			pallet_ema_oracle::GenesisConfig::<Rt> { initial_data: vec![(k.0, k.1, p, Liquidity { a: l[0], b: l[1] })], _marker: Default::default() }.build();
			let d = Data { price: p, vol: [0; 4], liq: l }; m.pending.insert((k.0, sort(k.1 .0, k.1 .1)), if k.1 .0 < k.1 .1 { d } else { d.flipped() }); put(&mut m, 0); System::set_block_number(1); c.event("genesis");
		}
		let blocks_ = 12 + c.rng.idx(30);
		for _ in 0..blocks_ { block(c, n, &mut m); if c.failed() { return; } }
		c.sample(|| json!({"series": m.series.len(), "block": System::block_number(), "one": m.series.iter().next().map(|s| format!("{:?} {:?}", s.0, s.1.avg.iter().map(|a| a.price).collect::<Vec<_>>()))}));
	});
}
fn block(c: &mut Ctx, n: u32, m: &mut Model) {
	let now = System::block_number(); let acts = c.rng.idx(6);
	let start = raw(); let mut stale = false;
	for _ in 0..acts {
		let (src, a) = (*c.rng.pick(&SRC), c.rng.idx(n as usize + 1) as u32); let b = (a + 1 + c.rng.idx(n as usize) as u32) % (n + 1);
		let key = (src, sort(a, b)); let known = m.series.get(&key).map(|s| s.last.clone());
		match c.rng.idx(100) {
			x @ 0..=64 => {
				let trade = x < 45;
				let zero = c.rng.chance(1, 25); let big = c.rng.chance(1, 30);
				let pr = match &known { Some(d) if c.rng.chance(2, 3) => { let q = near(&mut c.rng, &d.price); if a < b { q } else { Price { n: q.d, d: q.n } } } _ => price(&mut c.rng) };
				let (la, lb) = if zero { (if c.rng.chance(1, 2) { 0 } else { 7 }, 0) } else { (c.rng.log(1_000, 10u128.pow(27)), c.rng.log(1_000, 10u128.pow(27))) };
				let pr = if zero && !trade && c.rng.chance(1, 3) { Price { n: la, d: lb } } else { pr };
				let (x, y) = if big { (c.rng.log(10u128.pow(30), u128::MAX), c.rng.log(1, u128::MAX)) } else { (c.rng.log(1, 10u128.pow(26)), c.rng.log(1, 10u128.pow(26))) };
				let before = raw();
				let res = if trade { <OnActivityHandler<Rt> as OnTradeHandler<u32, u128, Price>>::on_trade(src, a, b, x, y, la, lb, pr) } else { <OnActivityHandler<Rt> as OnLiquidityChangedHandler<u32, u128, Price>>::on_liquidity_changed(src, a, b, x, y, la, lb, pr) }.map(|_| ()).map_err(|e| e.1);
				c.log(|| format!("block {now}: {} {src:?} {a}/{b} amounts {x}/{y} liquidity {la}/{lb} price {}/{} -> {res:?}", if trade { "trade" } else { "liquidity" }, pr.n, pr.d));
				let listed = Open::get() || m.white.contains(&key); let full = !m.pending.contains_key(&key) && m.pending.len() >= Max::get() as usize; let bad = trade && (la == 0 || lb == 0);
				c.check_in(P, "report-accepted-or-refused", res.is_ok() == !(bad || listed && full), || format!("{res:?}; listed {listed}, full {full}"));
				if bad || !listed || full { c.event(if bad { "zero-refused" } else if listed { "full-refused" } else { "untracked" }); c.check_in(P, "untracked-reports-change-nothing", before == raw(), || "changed".into()); continue; }
				c.event(if trade { "trade" } else { "liquidity" });
				let d = Data { price: pr, vol: if trade { [x, y, 0, 0] } else { [0; 4] }, liq: [la, lb] }; let d = if a < b { d } else { d.flipped() };
				// a later report in the same block replaces price and liquidity and adds to the volume
				match m.pending.get_mut(&key) { Some(o) => { let v = o.vol; *o = d; for i in 0..4 { o.vol[i] = o.vol[i].saturating_add(v[i]); } c.event("same-block"); } None => { m.pending.insert(key, d); } }
			}
			65..=79 => {
				let root = c.rng.chance(5, 6); let before = raw();
				let res = call(RuntimeCall::Oracle(Call::add_oracle { source: src, assets: (a, b) }), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(1)) });
				let ok = root && (m.white.contains(&key) || m.white.len() < Max::get() as usize); c.log(|| format!("add oracle {key:?} root {root} -> {res:?}"));
				c.check_in(P, "only-the-authority-tracks", res.is_ok() == ok, || format!("{res:?}, expected {ok}")); if ok { m.white.insert(key); c.event("tracked"); } else { c.check_in(P, "refusal-changes-nothing", before == raw(), || "changed".into()); }
			}
			80..=84 => {
				let root = c.rng.chance(5, 6); let before = raw();
				let res = call(RuntimeCall::Oracle(Call::remove_oracle { source: src, assets: (a, b) }), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(1)) });
				let ok = root && m.white.contains(&key); c.log(|| format!("remove oracle {key:?} root {root} -> {res:?}"));
				c.check_in(P, "only-the-authority-tracks", res.is_ok() == ok, || format!("{res:?}, expected {ok}"));
				if ok { m.white.remove(&key); m.pending.remove(&key); m.series.remove(&key); stale = true; c.event("untracked-removed"); c.check_in(P, "removal-forgets-the-pair", pallet_ema_oracle::Oracles::<Rt>::iter_prefix((src, key.1)).count() == 0 && !Oracle::accumulator().contains_key(&key), || "left over".into()); } else { c.check_in(P, "refusal-changes-nothing", before == raw(), || "changed".into()); }
			}
			_ => { if c.rng.chance(1, 4) { read(c, m, now, n); } }
		}
		if c.failed() { return; }
	}
	// nothing reported in this block is readable in it
	if !stale { let f = |v: &[String]| v[..v.len() - 2].to_vec(); c.check_in(P, "readable-only-after-the-block", f(&start) == f(&raw()), || "stored averages changed within the block".into()); }
	if c.rng.chance(1, 2) { read(c, m, now, n); }
	<Oracle as Hooks<u32>>::on_finalize(now); put(m, now);
	c.check_in(P, "each-report-is-used-once", Oracle::accumulator().is_empty(), || "the accumulator survived the block".into());
	let gap = match c.rng.idx(8) { 0..=4 => 1, 5 => c.rng.range(2, 5) as u32, 6 => c.rng.range(2, 2_000) as u32, _ => c.rng.range(1, 200_000) as u32 };
	if gap > 1 { c.event("gap"); }
	System::set_block_number(now + gap); let _ = <Oracle as Hooks<u32>>::on_initialize(now + gap); let _ = take_events::<Rt>();
}
fn close(x: f64, y: f64, abs: f64) -> bool { (x - y).abs() <= abs + 1e-9 * x.abs().max(y.abs()) }
fn read(c: &mut Ctx, m: &Model, now: u32, n: u32) {
	let before = raw();
	for src in SRC { for a in 0..=n { for b in a..=n { for (i, p) in OraclePeriod::all_periods().iter().enumerate() {
		if c.failed() { return; }
		let got = Oracle::get_entry(a, b, *p, src); let back = Oracle::get_entry(b, a, *p, src);
		if a == b { c.check_in(P, "no-price-against-itself", got == Err(OracleError::SameAsset), || format!("{got:?}")); continue; }
		let Some(s) = m.series.get(&(src, (a, b))) else { c.check_in(P, "no-price-without-reports", got == Err(OracleError::NotPresent) && back == Err(OracleError::NotPresent), || format!("{src:?} {a}/{b}: {got:?}")); continue };
		let (Ok(g), Ok(h)) = (got, back) else { return c.violate("reported-pairs-have-a-price", format!("{src:?} {a}/{b} {p:?}: no entry; {s:?}")) };
		c.event("read"); c.nontrivial((i, g.price.n, g.price.d, g.volume.a_in, g.oracle_age));
		let parent = now - 1; let idle = parent.saturating_sub(s.at); let v = steps(s, i, idle); let at = s.at.max(parent);
		let what = || format!("{src:?} {a}/{b} {p:?} at block {now}: {g:?}; expected {v:?}; last {:?} in block {}, first {}", s.last, s.at, s.init);
		c.check_in(P, "price-both-ways", s.odd || (h.price.n, h.price.d, h.volume.a_in, h.volume.b_out, h.volume.a_out, h.volume.b_in, h.liquidity.a, h.liquidity.b, h.oracle_age) == (g.price.d, g.price.n, g.volume.b_in, g.volume.a_out, g.volume.b_out, g.volume.a_in, g.liquidity.b, g.liquidity.a, g.oracle_age), || format!("{g:?} against {h:?}"));
		c.check_in(P, "age-since-first-report", g.oracle_age == at - s.init, what);
		c.check_in(P, "price-lookup-is-the-entry", Oracle::get_price(a, b, *p, src) == Ok((g.price, g.oracle_age)), what);
		if i == 0 { c.check_in(P, "last-block-is-as-reported", (s.odd || (g.price.n, g.price.d) == (s.last.price.n, s.last.price.d)) && [g.liquidity.a, g.liquidity.b] == s.last.liq && [g.volume.a_in, g.volume.b_out, g.volume.a_out, g.volume.b_in] == if idle == 0 { s.last.vol } else { [0; 4] }, what); continue; }
		let slack = 2.0 + v.n.min(1.0 / alpha(*p)) * 2.0;
		let vol = [g.volume.a_in, g.volume.b_out, g.volume.a_out, g.volume.b_in].map(|x| x as f64); let liq = [g.liquidity.a as f64, g.liquidity.b as f64];
		c.check_in(P, "volume-is-the-moving-average", (0..4).all(|j| close(vol[j], v.vol[j], slack) && vol[j] <= v.vmax * (1.0 + 1e-12)), what);
		c.check_in(P, "liquidity-is-the-moving-average", (0..2).all(|j| close(liq[j], v.liq[j], slack)), what);
		c.check_in(P, "liquidity-between-reports", (0..2).all(|j| liq[j] >= v.lo[j + 1] * (1.0 - 1e-12) && liq[j] <= v.hi[j + 1] * (1.0 + 1e-12)), what);
		if !s.odd { let q = g.price.n as f64 / g.price.d as f64; c.check_in(P, "price-is-the-moving-average", close(q, v.price, v.hi[0] * 1e-30), what); c.check_in(P, "price-between-reports", q >= v.lo[0] * (1.0 - 1e-12) - v.hi[0] * 1e-30 && q <= v.hi[0] * (1.0 + 1e-12), what); }
	} } } }
	c.check_in(P, "reading-changes-nothing", before == raw(), || "reading changed the storage".into());
}
fn run(m: &mut Monitor) {
	m.workload("oracle-blocks", 1_200, 60_000, history);
	for (e, n) in [("trade", 15_000), ("liquidity", 5_000), ("same-block", 300), ("gap", 3_000), ("read", 100_000), ("tracked", 1_000), ("untracked-removed", 60), ("genesis", 150), ("full-refused", 300), ("zero-refused", 150)] { m.expect(&format!("oracle-blocks/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct oracle readings by (period, price, volume, age)", ["the pallet runs on a stand-in for FRAME (calibrated by the pallet's own 38 tests)", "moving averages are compared in double precision, to 1e-9 plus rounding"]; "C07" => run, "C23" => run);
}

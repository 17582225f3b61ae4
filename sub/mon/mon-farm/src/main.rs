//! Liquidity mining: random farms, deposits, claims and exits over XYK share tokens, judged against the farms' own rules on every record and balance.
use codec::{Decode, Encode};
use frame_support::traits::tokens::nonfungibles::Inspect as NftInspect;
use hydradx_traits::registry::{AssetKind, Inspect};
use hydradx_traits::{AMMPosition, AMMTransfer, AMM};
use mon_core::big::w;
use mon_frame::*;
use pallet_liquidity_mining::{GlobalFarmData, LoyaltyCurve};
use pallet_xyk::types::AssetPair;
use pallet_xyk_liquidity_mining::{Call, Event};
use sp_runtime::{traits::BlockNumberProvider, Perquintill};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Farms: pallet_liquidity_mining, Lm: pallet_xyk_liquidity_mining });
base!(Rt, (), DustWhite);
base_uniques!(Rt);
param! { Block: u32 = 0; LeastRewards: u128 = 1000; LeastPeriods: u32 = 1; MaxEntries: u32 = 3; MaxFarms: u32 = 4; Oracle: Option<u128> = None; Prices: BTreeMap<u32, (u128, u128)> = Default::default(); Insufficient: BTreeSet<u32> = Default::default(); }
parameter_types! { pub const Pot: PalletId = PalletId(*b"warehous"); pub const Desk: PalletId = PalletId(*b"xyk-desk"); pub const Coll: u128 = 5389; }
pub struct Treasury; impl Get<Acc> for Treasury { fn get() -> Acc { acc(200) } }
pub struct Clock; impl BlockNumberProvider for Clock { type BlockNumber = u32; fn current_block_number() -> u32 { Block::get() } }
pub struct Price; impl hydradx_traits::liquidity_mining::PriceAdjustment<GlobalFarmData<Rt, ()>> for Price { type Error = DispatchError; type PriceAdjustment = FixedU128; fn get(_: &GlobalFarmData<Rt, ()>) -> Result<FixedU128, DispatchError> { Oracle::get().map(FixedU128::from_inner).ok_or(DispatchError::Other("no price")) } }
pub struct Assets2;
impl Inspect for Assets2 {
	type AssetId = u32; type Location = u8;
	fn is_sufficient(a: u32) -> bool { !Insufficient::with(|s| s.contains(&a)) } fn exists(a: u32) -> bool { Reg::exists(a) } fn decimals(a: u32) -> Option<u8> { Reg::decimals(a) } fn asset_type(_: u32) -> Option<AssetKind> { None } fn is_banned(_: u32) -> bool { false }
	fn asset_name(_: u32) -> Option<Vec<u8>> { None } fn asset_symbol(_: u32) -> Option<Vec<u8>> { None } fn existential_deposit(a: u32) -> Option<u128> { if Reg::exists(a) { Some(ed(a)) } else { None } }
}
impl GetByKey<u32, u128> for Assets2 { fn get(a: &u32) -> u128 { ed(*a) } }
const POOLS: [(u32, u32, u32); 3] = [(1, 2, 11), (1, 3, 12), (2, 3, 13)];
fn share_of(a: u32, b: u32) -> Option<u32> { POOLS.iter().find(|p| (p.0, p.1) == (a.min(b), a.max(b))).map(|p| p.2) }
fn pool(a: u32, b: u32) -> Acc { pool_acc(b"xyk", a.min(b), a.max(b)) }
fn pool_of_share(s: u32) -> (u32, u32) { let p = POOLS.iter().find(|p| p.2 == s).unwrap(); (p.0, p.1) }
/// The exchange whose shares are farmed: three pools whose shares are worth what `Prices` says.
pub struct Amm;
type Tr = AMMTransfer<Acc, u32, AssetPair, u128>;
impl AMM<Acc, u32, AssetPair, u128> for Amm {
	fn exists(p: AssetPair) -> bool { share_of(p.asset_in, p.asset_out).is_some() } fn get_pair_id(p: AssetPair) -> Acc { pool(p.asset_in, p.asset_out) } fn get_share_token(p: AssetPair) -> u32 { share_of(p.asset_in, p.asset_out).unwrap_or(0) }
	fn get_pool_assets(id: &Acc) -> Option<Vec<u32>> { POOLS.iter().find(|p| pool(p.0, p.1) == *id).map(|p| vec![p.0, p.1]) } fn get_spot_price_unchecked(_: u32, _: u32, _: u128) -> u128 { 0 }
	fn validate_sell(_: &Acc, _: AssetPair, _: u128, _: u128, _: bool) -> Result<Tr, DispatchError> { Err(DispatchError::Other("none")) } fn execute_sell(_: &Tr) -> DispatchResult { Err(DispatchError::Other("none")) }
	fn validate_buy(_: &Acc, _: AssetPair, _: u128, _: u128, _: bool) -> Result<Tr, DispatchError> { Err(DispatchError::Other("none")) } fn execute_buy(_: &Tr) -> DispatchResult { Err(DispatchError::Other("none")) }
	fn get_min_trading_limit() -> u128 { 0 } fn get_min_pool_liquidity() -> u128 { 0 } fn get_max_in_ratio() -> u128 { 3 } fn get_max_out_ratio() -> u128 { 3 } fn get_fee(_: &Acc) -> (u32, u32) { (0, 0) }
}
fn worth(share: u32, which: u32, amount: u128) -> u128 { let p = Prices::with(|p| p[&share]); let (a, _) = pool_of_share(share); muldiv(amount, if which == a { p.0 } else { p.1 }, 1_000_000) }
impl AMMPosition<u32, u128> for Amm { type Error = DispatchError; fn get_liquidity_behind_shares(a: u32, b: u32, n: u128) -> Result<(u128, u128), DispatchError> { let s = share_of(a, b).ok_or(DispatchError::Other("no pool"))?; Ok((worth(s, a, n), worth(s, b, n))) } }
impl pallet_liquidity_mining::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type MultiCurrency = Tokens; type PalletId = Pot; type TreasuryAccountId = Treasury; type MinTotalFarmRewards = LeastRewards; type MinPlannedYieldingPeriods = LeastPeriods; type BlockNumberProvider = Clock;
	type AmmPoolId = Acc; type MaxFarmEntriesPerDeposit = MaxEntries; type MaxYieldFarmsPerGlobalFarm = MaxFarms; type AssetRegistry = Assets2; type NonDustableWhitelistHandler = DustWhite; type PriceAdjustment = Price;
}
impl pallet_xyk_liquidity_mining::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type Currencies = Tokens; type CreateOrigin = EnsureRoot<Acc>; type PalletId = Desk; type NFTCollectionId = Coll; type NFTHandler = Uniques; type LiquidityMiningHandler = Farms; type NonDustableWhitelistHandler = DustWhite;
	type AMM = Amm; type AssetRegistry = Assets2; type WeightInfo = ();
}
const P: &str = "C31";
const R: &str = "C09 C31";
const E18: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Debug, PartialEq, Eq, Decode, Encode, Copy)]
enum St { Active, Stopped, Terminated }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct Gf { id: u32, owner: Acc, at: u32, z: u128, rpz: u128, cur: u32, pending: u128, paid: u128, yield_pp: u64, planned: u32, bpp: u32, inc: u32, max: u128, min_dep: u128, live: u32, total: u32, pa: u128, state: St }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct Yf { id: u32, at: u32, shares: u128, valued: u128, rpvs: u128, rpz: u128, curve: Option<(u128, u32)>, m: u128, state: St, entries: u64, left: u128, stopped: u32 }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct En { g: u32, y: u32, v: u128, rpvs: u128, claimed: u128, entered: u32, at: u32, stopped0: u32 }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct Dep { shares: u128, pool: Acc, entries: Vec<En> }
type Yk = (Acc, u32, u32);
#[derive(Clone, Debug, Default)]
struct View { g: BTreeMap<u32, Gf>, y: BTreeMap<Yk, Yf>, d: BTreeMap<u128, Dep>, active: BTreeMap<(Acc, u32), u32>, nft: BTreeMap<u128, Acc>, book: Book, white: BTreeSet<Acc>, next: (u32, u128) }
fn decode<T: Decode>(x: &impl Encode) -> T { T::decode(&mut &x.encode()[..]).expect("layout") }
fn pot() -> Acc { Farms::pot_account_id().unwrap() }
fn desk() -> Acc { Lm::account_id() }
fn facc(g: u32) -> Acc { Farms::farm_account_id(g).ok().unwrap() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn view() -> View {
	View { g: pallet_liquidity_mining::GlobalFarm::<Rt>::iter().map(|(k, v)| (k, decode(&v))).collect(), y: pallet_liquidity_mining::YieldFarm::<Rt>::iter().map(|(k, v)| (k, decode(&v))).collect(), d: pallet_liquidity_mining::Deposit::<Rt>::iter().map(|(k, v)| (k, decode(&v))).collect(),
		active: pallet_liquidity_mining::ActiveYieldFarm::<Rt>::iter().map(|(a, b, v)| ((a, b), v)).collect(), nft: pallet_uniques::Account::<Rt>::iter().map(|(k, _)| (k.2, k.0)).collect(), book: Book::tokens::<Rt>(), white: NoDust::get(), next: (Farms::last_farm_id(), Farms::deposit_id()) }
}
fn mul(x: u128, y: u128) -> u128 { muldiv(x, y, E18) }
fn div(x: u128, y: u128) -> u128 { muldiv(x, E18, y) }
/// A view that the rules are applied to, with the balance changes they call for.
#[derive(Clone)]
struct Plan { v: View, moves: Moves, released: u128 }
impl Plan {
	fn of(v: &View) -> Self { Plan { v: v.clone(), moves: Moves::new(), released: 0 } }
	fn pay(&mut self, from: &Acc, to: &Acc, c: u32, x: u128) { self.moves.bump(from, c, -(x as i128)); self.moves.bump(to, c, x as i128); }
	fn bal(&self, a: &Acc, c: u32) -> u128 { (self.v.book.free(a, c) as i128 + self.moves.get(a, c)) as u128 }
	fn period(&self, g: u32) -> u32 { Block::get() / self.v.g[&g].bpp }
	/// rewards released by a global farm for the periods gone by
	fn sync_g(&mut self, g: u32) {
		let now = self.period(g); let f = self.v.g[&g].clone();
		if f.state != St::Active || f.at == now { return; }
		if f.z > 0 {
			let left = self.bal(&facc(g), f.cur).saturating_sub(ed(f.cur)); let n = (now - f.at) as u128; let pa = Oracle::get().unwrap_or(f.pa);
			let due = (w(mul(pa, f.z)) * w(f.yield_pp as u128) * w(n) / w(E18)).min(w(f.max) * w(n)).min(w(left)).low_u128();
			self.pay(&facc(g), &pot(), f.cur, due); self.released = due;
			let q = self.v.g.get_mut(&g).unwrap(); q.pa = pa; q.rpz += div(due, f.z); q.pending += due;
		}
		self.v.g.get_mut(&g).unwrap().at = now;
	}
	/// a yield farm's part of them
	fn sync_y(&mut self, k: &Yk) {
		let now = self.period(k.1); let f = self.v.g[&k.1].clone(); let y = self.v.y.get_mut(k).unwrap();
		if y.state != St::Active { return; }
		if y.valued == 0 { y.rpz = f.rpz; y.at = now; return; }
		if y.at == now { return; }
		let part = mul(f.rpz - y.rpz, mul(y.m, y.valued));
		y.rpz = f.rpz; y.rpvs += div(part, y.valued); y.left += part; y.at = now;
		let q = self.v.g.get_mut(&k.1).unwrap(); q.paid += part; q.pending -= part.min(q.pending);
	}
	fn stake(&self, k: &Yk) -> u128 { let y = &self.v.y[k]; if y.state == St::Active { mul(y.m, y.valued) } else { 0 } }
	/// runs `f` on a yield farm and carries the change of its stake over to the global farm
	fn staked(&mut self, k: &Yk, f: impl FnOnce(&mut Yf)) { let a = self.stake(k); f(self.v.y.get_mut(k).unwrap()); let b = self.stake(k); let g = self.v.g.get_mut(&k.1).unwrap(); g.z = (g.z + b).saturating_sub(a); }
	/// what an entry may take now, and what it gives up by leaving now
	fn reward(&self, k: &Yk, e: &En) -> Option<(u128, u128)> {
		let y = &self.v.y[k]; let most = mul(y.rpvs - e.rpvs, e.v); if most == 0 { return Some((0, 0)); }
		let t = (y.at - e.entered - (y.stopped - e.stopped0)) as u128;
		let l = match y.curve { None => E18, Some((init, sc)) => { if t + sc as u128 == 0 { return None; } div(mul(init, sc as u128 * E18) + t * E18, (t + sc as u128) * E18) } };
		let can = mul(l, most); Some((can.checked_sub(e.claimed)?, most - can))
	}
	fn tidy(&mut self, k: &Yk) {
		if let Some(y) = self.v.y.get(k) { if y.state == St::Terminated && y.entries == 0 { self.v.y.remove(k); self.v.g.get_mut(&k.1).unwrap().total -= 1; } }
	}
	fn tidy_g(&mut self, g: u32) { if let Some(f) = self.v.g.get(&g) { if f.state == St::Terminated && f.total == 0 { self.v.g.remove(&g); } } }
}
#[derive(Clone, Debug)]
struct Log { funded: BTreeMap<u32, u128>, released: BTreeMap<u32, u128>, born: BTreeMap<u32, (u32, u32, u128)>, seeds: BTreeMap<u32, u128> }
fn invariants(c: &Ctx, v: &View, log: &Log) {
	for (k, y) in &v.y {
		let es: Vec<(&u128, &Dep, &En)> = v.d.iter().flat_map(|(i, d)| d.entries.iter().map(move |e| (i, d, e))).filter(|x| x.1.pool == k.0 && x.2.g == k.1 && x.2.y == k.2).collect();
		c.check_in(P, "farm-totals-are-the-sums-of-its-entries", y.valued == es.iter().map(|x| x.2.v).sum::<u128>() && y.shares == es.iter().map(|x| x.1.shares).sum::<u128>() && y.entries == es.len() as u64, || format!("{y:?} with {} entries", es.len()));
		if y.state != St::Terminated { let owed: u128 = es.iter().map(|x| mul(y.rpvs - x.2.rpvs, x.2.v).saturating_sub(x.2.claimed)).sum(); c.check_in(R, "yield-farm-holds-what-it-owes", owed <= y.left, || format!("farm {} owes {owed}, holds {}", y.id, y.left)); }
		c.check_in(P, "active-list-is-the-active-farms", (v.active.get(&(k.0.clone(), k.1)) == Some(&k.2)) == (y.state == St::Active), || format!("{y:?} {:?}", v.active));
		c.check_in(P, "farm-of-a-live-program", v.g.get(&k.1).map_or(false, |g| g.state == St::Active || y.state == St::Terminated), || format!("{y:?}"));
		c.check_in(P, "empty-ended-farms-are-gone", y.state != St::Terminated || y.entries > 0, || format!("{y:?}"));
	}
	c.check_in(P, "active-list-is-the-active-farms", v.active.len() == v.y.values().filter(|y| y.state == St::Active).count(), || format!("{:?}", v.active));
	let mut need: BTreeMap<u32, u128> = log.seeds.clone();
	for (i, g) in &v.g {
		let mine: Vec<(&Yk, &Yf)> = v.y.iter().filter(|y| y.0 .1 == *i).collect();
		let stake: u128 = mine.iter().filter(|y| y.1.state == St::Active).map(|y| mul(y.1.m, y.1.valued)).sum();
		c.check_in(P, "stake-is-the-sum-of-the-farms", g.z == stake, || format!("farm {i}: recorded {}, sum {stake}", g.z));
		c.check_in(P, "farm-counts", g.total as usize == mine.len() && g.live as usize == mine.iter().filter(|y| y.1.state != St::Terminated).count() && g.total <= MaxFarms::get(), || format!("{g:?} with {} farms", mine.len()));
		let due: u128 = mine.iter().filter(|y| y.1.state == St::Active).map(|y| mul(g.rpz - y.1.rpz, mul(y.1.m, y.1.valued))).sum();
		c.check_in(R, "pending-rewards-cover-the-farms", due <= g.pending, || format!("farm {i}: due {due}, pending {}", g.pending));
		c.check_in(P, "programs-live-or-hold-entries", g.state == St::Active || g.total > 0, || format!("{g:?}"));
		let (born, at, max) = log.born[i]; let _ = at; let out = log.released[i];
		c.check_in(R, "released-within-the-rate", out <= max * (Block::get() / g.bpp - born) as u128, || format!("farm {i}: {out} in {} periods of {max}", Block::get() / g.bpp - born));
		*need.entry(g.cur).or_default() += g.pending + mine.iter().map(|y| y.1.left).sum::<u128>();
	}
	for (a, x) in need { c.check_in(P, "pot-covers-its-farms", v.book.free(&pot(), a) >= x, || format!("asset {a}: pot {}, needed {x}", v.book.free(&pot(), a))); }
	for p in POOLS { let id = pool(p.0, p.1); let sum: u128 = v.d.values().filter(|d| d.pool == id).map(|d| d.shares).sum(); let got = v.book.free(&desk(), p.2); c.check_in(P, "locked-shares-are-the-deposits", got == sum, || format!("share {}: held {got}, deposited {sum}", p.2)); }
	c.check_in(P, "one-token-per-deposit", v.nft.keys().eq(v.d.keys()), || format!("{:?} / {:?}", v.nft.keys(), v.d.keys()));
	c.check_in(P, "deposits-hold-entries", v.d.values().all(|d| !d.entries.is_empty() && d.entries.len() <= MaxEntries::get() as usize), || format!("{:?}", v.d));
	let b = v.book.balanced(); c.check_in(P, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn dispatch(c: Call<Rt>, who: Option<&Acc>) -> Result<(), DispatchError> { call(RuntimeCall::Lm(c), match who { None => RuntimeOrigin::root(), Some(w) => RuntimeOrigin::signed(w.clone()) }) }
/// Judges one call: `plan` is what must come of it (`None`: it must be refused).
fn judge(c: &mut Ctx, name: &'static str, pre: &View, plan: Option<Plan>, log: &mut Log, g: u32, run: impl FnOnce() -> Result<(), DispatchError>) -> Option<View> {
	System::reset_events(); let root = raw();
	let r = run(); c.log(|| format!("  {name}: {}", match &r { Ok(_) => "ok".to_string(), Err(e) => err(e) }));
	match (r, plan) {
		(Ok(_), Some(p)) => {
			let post = view(); c.event(name);
			if p.released > 0 { *log.released.entry(g).or_default() += p.released; c.event("rewards-released"); }
			let m = pre.book.moved(&post.book);
			c.check_in(R, "balances-move-by-the-rules", m == p.moves, || format!("{name}: moved {m:?}, expected {:?}", p.moves));
			c.check_in(R, "programs-follow-the-rules", post.g == p.v.g, || format!("{name}: {:?}\nexpected {:?}", post.g, p.v.g));
			c.check_in(R, "farms-follow-the-rules", post.y == p.v.y, || format!("{name}: {:?}\nexpected {:?}", post.y, p.v.y));
			c.check_in(R, "deposits-follow-the-rules", post.d == p.v.d, || format!("{name}: {:?}\nexpected {:?}", post.d, p.v.d));
			c.check_in(P, "registers-follow-the-rules", post.active == p.v.active && post.nft == p.v.nft && post.next == p.v.next && post.white == p.v.white, || format!("{name}: {:?} {:?} {:?} {:?}\nexpected {:?} {:?} {:?} {:?}", post.active, post.nft, post.next, post.white, p.v.active, p.v.nft, p.v.next, p.v.white));
			Some(post)
		}
		(Err(e), None) => { c.event("refused"); c.distinct("refusals", (name, err(&e))); c.check_in(P, "refusal-changes-nothing", raw() == root, || format!("{name} {}", err(&e))); None }
		(Ok(_), None) => { c.check_in(P, "forbidden-is-refused", false, || format!("{name} accepted")); None }
		(Err(e), Some(_)) => { c.check_in(P, "allowed-is-accepted", false, || format!("{name} refused: {}", err(&e))); None }
	}
}
fn emitted(c: &Ctx, name: &str, f: impl Fn(&Event<Rt>) -> bool) { let ev = take_events::<Rt>(); let n = ev.iter().filter(|e| match e { RuntimeEvent::Lm(e) => f(e), _ => false }).count(); c.check_in(P, "event-tells-what-happened", n == 1, || format!("{name}: {ev:?}")); }
fn curve_of(x: Option<(u128, u32)>) -> Option<LoyaltyCurve> { x.map(|(i, s)| LoyaltyCurve { initial_reward_percentage: FixedU128::from_inner(i), scale_coef: s }) }
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); Block::set(c.rng.range(0, 1000) as u32); NoDust::set(Default::default()); Oracle::set(None);
		let r = &mut c.rng;
		Assets::set([1u32, 2, 3, 4, 11, 12, 13].into_iter().map(|a| (a, 12)).collect());
		Eds::set([(1, 1u128), (2, *r.pick(&[1u128, 1000])), (3, *r.pick(&[1u128, 10_000])), (4, 500)].into_iter().collect());
		Insufficient::set([4u32].into_iter().collect());
		LeastRewards::set(*r.pick(&[1_000u128, 1_000_000])); LeastPeriods::set(*r.pick(&[1u32, 10])); MaxEntries::set(*r.pick(&[1u32, 2, 3, 5])); MaxFarms::set(*r.pick(&[1u32, 2, 4, 4]));
		Prices::set(POOLS.iter().map(|p| (p.2, (r.log(100_000, 10_000_000), r.log(100_000, 10_000_000)))).collect());
		use sp_runtime::BuildStorage; let mut ext = sp_runtime::Storage::default(); let _ = &mut ext;
		<pallet_liquidity_mining::GenesisConfig<Rt> as frame_support::traits::BuildGenesisConfig>::build(&Default::default()); <pallet_xyk_liquidity_mining::GenesisConfig<Rt> as frame_support::traits::BuildGenesisConfig>::build(&Default::default());
		let _ = |x: pallet_liquidity_mining::GenesisConfig<Rt>| x.build_storage();
		for o in 1..3 { for a in 1..5 { give::<Rt>(&acc(o), a, 10u128.pow(27)); } }
		for u in 3..7 { for p in POOLS { let v = if r.chance(1, 2) { r.log(2_000, 100_000) } else { r.log(10u128.pow(6), 10u128.pow(22)) }; give::<Rt>(&acc(u), p.2, v); } if r.chance(1, 2) { for a in 1..5 { give::<Rt>(&acc(u), a, ed(a) * 2); } } }
		for a in 1..5 { give::<Rt>(&Treasury::get(), a, ed(a)); }
		let mut log = Log { funded: Default::default(), released: Default::default(), born: Default::default(), seeds: Default::default() };
		let steps = 40 + c.rng.idx(40);
		for _ in 0..steps { step(c, &mut log); if c.failed() { return; } invariants(c, &view(), &log); if c.failed() { return; } }
		leave(c, &mut log);
	});
}
fn pick_y(c: &mut Ctx, v: &View) -> Option<Yk> { if v.y.is_empty() { return None; } let live: Vec<Yk> = v.y.iter().filter(|y| y.1.state != St::Terminated).map(|x| x.0.clone()).collect(); if !live.is_empty() && c.rng.chance(9, 10) { return Some(live[c.rng.idx(live.len())].clone()); } let k = c.rng.idx(v.y.len()); v.y.keys().nth(k).cloned() }
fn pair_of(k: &Acc) -> (u32, u32) { POOLS.iter().find(|p| pool(p.0, p.1) == *k).map(|p| (p.0, p.1)).unwrap_or((1, 4)) }
fn any_pair(c: &mut Ctx, right: (u32, u32)) -> AssetPair { let (a, b) = if c.rng.chance(1, 20) { *c.rng.pick(&[(1, 2), (1, 3), (2, 3), (1, 4), (3, 3)]) } else { right }; if c.rng.chance(1, 2) { AssetPair { asset_in: a, asset_out: b } } else { AssetPair { asset_in: b, asset_out: a } } }
fn any_m(c: &mut Ctx) -> u128 { match c.rng.idx(8) { 0 => E18, 1 => E18 / 2, 2 => E18 / 1000, 3 => E18 / 1000 - 1, 4 => E18 * 10, 5 => E18 / 3, _ => c.rng.log(E18 / 1000, 1000 * E18) } }
fn any_g(c: &mut Ctx, v: &View) -> u32 { if v.g.is_empty() || c.rng.chance(1, 25) { return c.rng.idx(8) as u32 + 1; } let k = c.rng.idx(v.g.len()); *v.g.keys().nth(k).unwrap() }
fn owner_of(c: &mut Ctx, v: &View, g: u32) -> Acc { if c.rng.chance(1, 20) { return acc(1 + c.rng.idx(4) as u8); } v.g.get(&g).map(|f| f.owner.clone()).unwrap_or(acc(1)) }
fn step(c: &mut Ctx, log: &mut Log) {
	if c.rng.chance(1, 3) { let n = if c.rng.chance(1, 6) { c.rng.log(1, 100_000) } else { c.rng.range(1, 60) } as u32; Block::set(Block::get() + n); }
	if c.rng.chance(1, 8) { Oracle::set(if c.rng.chance(1, 3) { None } else { Some(c.rng.log(E18 / 100, E18 * 100)) }); }
	if c.rng.chance(1, 8) { let s = 11 + c.rng.idx(3) as u32; let p = (c.rng.log(100_000, 10_000_000), c.rng.log(100_000, 10_000_000)); Prices::with(|m| { m.insert(s, p); }); }
	let v = view();
	let kind = if v.g.is_empty() { 0 } else if v.y.is_empty() && c.rng.chance(3, 4) { 10 } else { c.rng.idx(100) };
	match kind {
		0..=4 => create_global(c, log, &v),
		5..=6 => { let g = any_g(c, &v); let who = owner_of(c, &v, g); let pa = if c.rng.chance(1, 10) { 0 } else { c.rng.log(E18 / 100, E18 * 100) };
			let plan = v.g.get(&g).filter(|f| f.state == St::Active && f.owner == who && pa > 0).map(|_| { let mut p = Plan::of(&v); p.sync_g(g); p.v.g.get_mut(&g).unwrap().pa = pa; p });
			if judge(c, "update-program", &v, plan, log, g, || dispatch(Call::update_global_farm { global_farm_id: g, price_adjustment: FixedU128::from_inner(pa) }, Some(&who))).is_some() { emitted(c, "update-program", |e| matches!(e, Event::GlobalFarmUpdated { id, price_adjustment } if *id == g && price_adjustment.into_inner() == pa)); } }
		7 => end_global(c, log, &v),
		8..=15 => {
			let g = any_g(c, &v); let who = owner_of(c, &v, g); let pr = *c.rng.pick(&[(1u32, 2u32), (1, 3), (2, 3)]); let pr = any_pair(c, pr); let m = any_m(c); let curve = match c.rng.idx(4) { 0 => None, 1 => Some((E18 / 2, 100)), 2 => Some((E18, 10)), _ => Some((c.rng.range(0, E18 - 1), c.rng.log(1, 10_000) as u32)) };
			let id = pool(pr.asset_in, pr.asset_out); let ok = share_of(pr.asset_in, pr.asset_out).is_some() && m >= E18 / 1000 && curve.map_or(true, |x| x.0 < E18) && v.g.get(&g).map_or(false, |f| f.state == St::Active && f.owner == who && f.total < MaxFarms::get() && (f.inc == pr.asset_in || f.inc == pr.asset_out)) && !v.active.contains_key(&(id.clone(), g));
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(g); let now = p.period(g); p.v.next.0 += 1; let y = p.v.next.0; let rpz = p.v.g[&g].rpz; p.v.y.insert((id.clone(), g, y), Yf { id: y, at: now, shares: 0, valued: 0, rpvs: 0, rpz, curve, m, state: St::Active, entries: 0, left: 0, stopped: 0 }); let f = p.v.g.get_mut(&g).unwrap(); f.live += 1; f.total += 1; p.v.active.insert((id.clone(), g), y); Some(p) };
			let y = v.next.0 + 1;
			// where a farm without entries starts counting from does not show until its first entry
			let plan = plan.map(|mut p| { let k = (id.clone(), g, y); p.v.y.get_mut(&k).unwrap().rpz = u128::MAX; p });
			let root = raw(); let _ = root;
			if judge_y(c, "create-farm", &v, plan, log, g, (id.clone(), g, y), || dispatch(Call::create_yield_farm { global_farm_id: g, asset_pair: pr, multiplier: FixedU128::from_inner(m), loyalty_curve: curve_of(curve) }, Some(&who))).is_some() { emitted(c, "create-farm", |e| matches!(e, Event::YieldFarmCreated { global_farm_id, yield_farm_id, .. } if *global_farm_id == g && *yield_farm_id == y)); }
		}
		16..=20 => { let Some(k) = pick_y(c, &v) else { return; }; let who = owner_of(c, &v, k.1); let pr = any_pair(c, pair_of(&k.0)); let m = any_m(c); let id = pool(pr.asset_in, pr.asset_out); let y = v.active.get(&(id.clone(), k.1)).copied();
			let plan = y.filter(|_| share_of(pr.asset_in, pr.asset_out).is_some() && m >= E18 / 1000 && v.g[&k.1].owner == who).map(|y| { let k = (id.clone(), k.1, y); let mut p = Plan::of(&v); p.sync_g(k.1); p.sync_y(&k); p.staked(&k, |f| f.m = m); p });
			if judge(c, "update-farm", &v, plan, log, k.1, || dispatch(Call::update_yield_farm { global_farm_id: k.1, asset_pair: pr, multiplier: FixedU128::from_inner(m) }, Some(&who))).is_some() { emitted(c, "update-farm", |e| matches!(e, Event::YieldFarmUpdated { yield_farm_id, multiplier, .. } if Some(*yield_farm_id) == y && multiplier.into_inner() == m)); } }
		21..=24 => { let Some(k) = pick_y(c, &v) else { return; }; stop(c, log, &v, &k); }
		25..=30 => { let Some(k) = pick_y(c, &v) else { return; }; let k = v.y.iter().filter(|y| y.1.state == St::Stopped).map(|x| x.0.clone()).next().unwrap_or(k); let who = owner_of(c, &v, k.1); let pr = any_pair(c, pair_of(&k.0)); let m = any_m(c); let id = pool(pr.asset_in, pr.asset_out); let k = (id.clone(), k.1, k.2);
			let ok = share_of(pr.asset_in, pr.asset_out).is_some() && m >= E18 / 1000 && !v.active.contains_key(&(id.clone(), k.1)) && v.y.get(&k).map_or(false, |y| y.state == St::Stopped) && v.g.get(&k.1).map_or(false, |f| f.owner == who);
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(k.1); let now = p.period(k.1); let rpz = p.v.g[&k.1].rpz; p.staked(&k, |y| { y.stopped += now - y.at; y.at = now; y.rpz = rpz; y.state = St::Active; y.m = m; }); p.v.active.insert((id.clone(), k.1), k.2); Some(p) };
			if judge(c, "resume-farm", &v, plan, log, k.1, || dispatch(Call::resume_yield_farm { global_farm_id: k.1, yield_farm_id: k.2, asset_pair: pr, multiplier: FixedU128::from_inner(m) }, Some(&who))).is_some() { emitted(c, "resume-farm", |e| matches!(e, Event::YieldFarmResumed { yield_farm_id, .. } if *yield_farm_id == k.2)); } }
		31..=32 => { let Some(k) = pick_y(c, &v) else { return; }; end(c, log, &v, &k); }
		33..=58 => {
			let Some(k) = pick_y(c, &v) else { return; }; let who = acc(3 + c.rng.idx(4) as u8); let pr = any_pair(c, pair_of(&k.0)); let share = share_of(pr.asset_in, pr.asset_out); let have = share.map_or(0, |s| v.book.free(&who, s)); let g = if c.rng.chance(1, 30) { any_g(c, &v) } else { k.1 };
			let n = match c.rng.idx(8) { 0 => c.rng.range(0, 1100), 1 => have, 2 => have + 1, 3 | 4 => c.rng.range(1000, 3000), _ => c.rng.log(1000, have.max(1001)) };
			let k = (pool(pr.asset_in, pr.asset_out), g, k.2);
			let val = v.g.get(&g).and_then(|f| share.map(|s| if f.inc == pr.asset_in || f.inc == pr.asset_out { worth(s, f.inc, n) } else { 0 }));
			let ok = share.is_some() && n <= have && v.y.get(&k).map_or(false, |y| y.state == St::Active) && v.g.get(&g).map_or(false, |f| n >= f.min_dep && val.unwrap() >= f.min_dep);
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(g); p.sync_y(&k); let val = val.unwrap(); p.staked(&k, |y| { y.shares += n; y.valued += val; y.entries += 1; }); let now = p.period(g); let y = p.v.y[&k].clone(); p.v.next.1 += 1; let id = p.v.next.1; p.v.d.insert(id, Dep { shares: n, pool: k.0.clone(), entries: vec![En { g, y: k.2, v: val, rpvs: y.rpvs, claimed: 0, entered: now, at: now, stopped0: y.stopped }] }); p.v.nft.insert(id, who.clone()); p.pay(&who, &desk(), share.unwrap(), n); Some(p) };
			if judge(c, "deposit", &v, plan, log, g, || dispatch(Call::deposit_shares { global_farm_id: g, yield_farm_id: k.2, asset_pair: pr, shares_amount: n }, Some(&who))).is_some() { c.nontrivial((n, val, g, k.2)); let id = v.next.1 + 1; emitted(c, "deposit", |e| matches!(e, Event::SharesDeposited { deposit_id, amount, who: x, .. } if *deposit_id == id && *amount == n && *x == who)); }
		}
		59..=66 => {
			let Some(d) = pick_d(c, &v) else { return; }; let dep = v.d[&d].clone(); let who = holder(c, &v, d); let pr = any_pair(c, pair_of(&dep.pool)); let cands: Vec<Yk> = v.y.keys().filter(|k| k.0 == dep.pool).cloned().collect(); if cands.is_empty() { return; } let open: Vec<Yk> = cands.iter().filter(|k| v.y[*k].state == St::Active && !dep.entries.iter().any(|e| e.y == k.2)).cloned().collect(); let k = if !open.is_empty() && c.rng.chance(3, 4) { open[c.rng.idx(open.len())].clone() } else { cands[c.rng.idx(cands.len())].clone() };
			let f = &v.g[&k.1]; let val = worth(share_of(pair_of(&dep.pool).0, pair_of(&dep.pool).1).unwrap(), f.inc, dep.shares);
			let ok = v.nft[&d] == who && pool(pr.asset_in, pr.asset_out) == dep.pool && share_of(pr.asset_in, pr.asset_out).is_some() && !dep.entries.iter().any(|e| e.y == k.2) && v.y[&k].state == St::Active && dep.shares >= f.min_dep && val >= f.min_dep && dep.entries.len() < MaxEntries::get() as usize;
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(k.1); p.sync_y(&k); p.staked(&k, |y| { y.shares += dep.shares; y.valued += val; y.entries += 1; }); let now = p.period(k.1); let y = p.v.y[&k].clone(); p.v.d.get_mut(&d).unwrap().entries.push(En { g: k.1, y: k.2, v: val, rpvs: y.rpvs, claimed: 0, entered: now, at: now, stopped0: y.stopped }); Some(p) };
			if judge(c, "redeposit", &v, plan, log, k.1, || dispatch(Call::redeposit_shares { global_farm_id: k.1, yield_farm_id: k.2, asset_pair: pr, deposit_id: d }, Some(&who))).is_some() { c.nontrivial((d, val, k.1, k.2)); emitted(c, "redeposit", |e| matches!(e, Event::SharesRedeposited { deposit_id, amount, .. } if *deposit_id == d && *amount == dep.shares)); }
		}
		67..=82 => {
			let Some(d) = pick_d(c, &v) else { return; }; let who = holder(c, &v, d); let dep = v.d[&d].clone(); let y = if c.rng.chance(1, 25) { c.rng.idx(8) as u32 } else { dep.entries[c.rng.idx(dep.entries.len())].y };
			let mut got = 0; let g = dep.entries.iter().find(|e| e.y == y).map_or(0, |e| e.g);
			let plan = dep.entries.iter().position(|e| e.y == y).filter(|_| v.nft[&d] == who).and_then(|i| { let k = (dep.pool.clone(), dep.entries[i].g, y); if v.y[&k].state == St::Terminated { return None; } let mut p = Plan::of(&v); if dep.entries[i].at == p.period(k.1) { return None; } p.sync_g(k.1); p.sync_y(&k); let (r, _) = p.reward(&k, &dep.entries[i])?; let cur = p.v.g[&k.1].cur; if r == 0 || r < ed(cur) && v.book.free(&who, cur) < ed(cur) { return None; } got = r; p.pay(&pot(), &who, cur, r); p.v.y.get_mut(&k).unwrap().left -= r.min(p.v.y[&k].left); let now = p.period(k.1); let e = &mut p.v.d.get_mut(&d).unwrap().entries[i]; e.claimed += r; e.at = now; Some(p) });
			if judge(c, "claim", &v, plan, log, g, || dispatch(Call::claim_rewards { deposit_id: d, yield_farm_id: y }, Some(&who))).is_some() { c.nontrivial((d, y, got)); emitted(c, "claim", |e| matches!(e, Event::RewardClaimed { deposit_id, claimed, yield_farm_id, .. } if *deposit_id == d && *claimed == got && *yield_farm_id == y)); }
		}
		83..=92 => { let Some(d) = pick_d(c, &v) else { return; }; let dep = v.d[&d].clone(); let who = holder(c, &v, d); let y = if c.rng.chance(1, 25) { c.rng.idx(8) as u32 } else { dep.entries[c.rng.idx(dep.entries.len())].y }; let pr = any_pair(c, pair_of(&dep.pool)); withdraw(c, log, &v, d, &who, y, pr); }
		93..=95 => { let Some(d) = pick_d(c, &v) else { return; }; let to = acc(3 + c.rng.idx(4) as u8); let from = v.nft[&d].clone(); let r = call(RuntimeCall::Uniques(pallet_uniques::Call::transfer { collection: 5389, item: d, dest: to.clone() }), RuntimeOrigin::signed(from)); c.log(|| format!("  nft {d} to {} {r:?}", nm(&to))); if r.is_ok() { c.event("position-handed-on"); } }
		96 => { let g = any_g(c, &v); if let Some(f) = v.g.get(&g) { if f.state == St::Active { let x = c.rng.log(1, 1_000_000_000); let _ = <Tokens as MultiCurrency<Acc>>::transfer(f.cur, &acc(1), &facc(g), x); c.event("donation"); } } }
		_ => { let n = c.rng.range(1, 400) as u32; Block::set(Block::get() + n); }
	}
}
/// as `judge`, but where the first counting point of a farm without entries is left open
fn judge_y(c: &mut Ctx, name: &'static str, pre: &View, plan: Option<Plan>, log: &mut Log, g: u32, k: Yk, run: impl FnOnce() -> Result<(), DispatchError>) -> Option<View> {
	System::reset_events(); let root = raw(); let r = run(); c.log(|| format!("  {name}: {}", match &r { Ok(_) => "ok".to_string(), Err(e) => err(e) }));
	match (r, plan) {
		(Ok(_), Some(mut p)) => { let post = view(); c.event(name); if p.released > 0 { *log.released.entry(g).or_default() += p.released; } if let (Some(a), Some(b)) = (p.v.y.get_mut(&k), post.y.get(&k)) { a.rpz = b.rpz; }
			let m = pre.book.moved(&post.book); c.check_in(R, "balances-move-by-the-rules", m == p.moves, || format!("{name}: moved {m:?}, expected {:?}", p.moves));
			c.check_in(R, "programs-follow-the-rules", post.g == p.v.g, || format!("{name}: {:?}\nexpected {:?}", post.g, p.v.g)); c.check_in(R, "farms-follow-the-rules", post.y == p.v.y, || format!("{name}: {:?}\nexpected {:?}", post.y, p.v.y));
			c.check_in(P, "registers-follow-the-rules", post.active == p.v.active && post.nft == p.v.nft && post.next == p.v.next && post.d == p.v.d && post.white == p.v.white, || name.to_string()); Some(post) }
		(Err(e), None) => { c.event("refused"); c.distinct("refusals", (name, err(&e))); c.check_in(P, "refusal-changes-nothing", raw() == root, || format!("{name} {}", err(&e))); None }
		(Ok(_), None) => { c.check_in(P, "forbidden-is-refused", false, || format!("{name} accepted")); None }
		(Err(e), Some(_)) => { c.check_in(P, "allowed-is-accepted", false, || format!("{name} refused: {}", err(&e))); None }
	}
}
fn pick_d(c: &mut Ctx, v: &View) -> Option<u128> { if v.d.is_empty() { return None; } let k = c.rng.idx(v.d.len()); v.d.keys().nth(k).copied() }
fn holder(c: &mut Ctx, v: &View, d: u128) -> Acc { if c.rng.chance(1, 25) { acc(3 + c.rng.idx(4) as u8) } else { v.nft[&d].clone() } }
fn create_global(c: &mut Ctx, log: &mut Log, v: &View) {
	let r = &mut c.rng; let owner = acc(1 + r.idx(2) as u8); let cur = *r.pick(&[1u32, 2, 3, 1, 2, 3, 4, 9]); let inc = *r.pick(&[1u32, 2, 3, 1, 2, 3, 8]);
	let total = match r.idx(8) { 0 => r.range(0, LeastRewards::get() + 2), 1 => r.log(10u128.pow(26), 10u128.pow(29)), _ => r.log(LeastRewards::get(), 10u128.pow(24)) }; let planned = match r.idx(6) { 0 => r.range(0, 12), _ => r.log(10, 1_000_000) } as u32; let bpp = if r.chance(1, 20) { 0 } else { r.log(1, 200) as u32 };
	let ypp = if r.chance(1, 20) { 0 } else { r.log(E18 / 1_000_000_000, E18) as u64 }; let min_dep = match r.idx(8) { 0 => 999, 1 => r.log(1000, 1_000_000), _ => 1000 }; let pa = if r.chance(1, 20) { 0 } else { r.log(E18 / 100, E18 * 100) }; let by_root = !r.chance(1, 20);
	let seed = if cur == 4 { ed(4) } else { 0 }; let have = v.book.free(&owner, cur);
	let ok = by_root && min_dep >= 1000 && pa > 0 && total >= LeastRewards::get() && planned >= LeastPeriods::get() && bpp > 0 && ypp > 0 && Reg::exists(cur) && Reg::exists(inc) && total + seed <= have;
	// an account may not be left with dust, and rewards below the least balance cannot be held
	if total + seed <= have && have - total - seed < ed(cur) || total < ed(cur) { return; }
	let g = v.next.0 + 1;
	let plan = if !ok { None } else { let mut p = Plan::of(v); p.v.next.0 += 1; let now = Block::get() / bpp; p.v.g.insert(g, Gf { id: g, owner: owner.clone(), at: now, z: 0, rpz: 0, cur, pending: 0, paid: 0, yield_pp: ypp, planned, bpp, inc, max: total / planned as u128, min_dep, live: 0, total: 0, pa, state: St::Active }); if seed > 0 { p.pay(&owner, &pot(), cur, seed); } p.pay(&owner, &facc(g), cur, total); p.v.white.insert(facc(g)); Some(p) };
	let o = acc(1);
	if judge(c, "create-program", v, plan, log, g, || dispatch(Call::create_global_farm { total_rewards: total, planned_yielding_periods: planned, blocks_per_period: bpp, incentivized_asset: inc, reward_currency: cur, owner: owner.clone(), yield_per_period: Perquintill::from_parts(ypp), min_deposit: min_dep, price_adjustment: FixedU128::from_inner(pa) }, if by_root { None } else { Some(&o) })).is_some() {
		log.funded.insert(g, total); log.released.insert(g, 0); log.born.insert(g, (Block::get() / bpp, Block::get(), total / planned as u128)); *log.seeds.entry(cur).or_default() += seed;
		emitted(c, "create-program", |e| matches!(e, Event::GlobalFarmCreated { id, total_rewards, max_reward_per_period, .. } if *id == g && *total_rewards == total && *max_reward_per_period == total / planned as u128));
	}
}
fn end_global(c: &mut Ctx, log: &mut Log, v: &View) {
	let g = any_g(c, v); let who = owner_of(c, v, g); finish_global(c, log, v, g, &who);
}
fn finish_global(c: &mut Ctx, log: &mut Log, v: &View, g: u32, who: &Acc) {
	let mut back = 0;
	let plan = v.g.get(&g).filter(|f| f.state == St::Active && f.owner == *who && f.live == 0).cloned().map(|f| { let mut p = Plan::of(v); back = v.book.free(&facc(g), f.cur); p.pay(&facc(g), who, f.cur, back); p.v.white.remove(&facc(g)); p.v.g.get_mut(&g).unwrap().state = St::Terminated; p.tidy_g(g); p });
	if judge(c, "end-program", v, plan, log, g, || dispatch(Call::terminate_global_farm { global_farm_id: g }, Some(who))).is_some() { emitted(c, "end-program", |e| matches!(e, Event::GlobalFarmTerminated { global_farm_id, undistributed_rewards, .. } if *global_farm_id == g && *undistributed_rewards == back)); }
}
fn stop(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk) { let who = owner_of(c, v, k.1); let pr = any_pair(c, pair_of(&k.0)); stop_by(c, log, v, k, &who, pr) }
fn stop_by(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk, who: &Acc, pr: AssetPair) {
	let id = pool(pr.asset_in, pr.asset_out); let y = v.active.get(&(id.clone(), k.1)).copied();
	let plan = y.filter(|_| v.g[&k.1].owner == *who).map(|y| { let k = (id.clone(), k.1, y); let mut p = Plan::of(v); p.sync_g(k.1); p.sync_y(&k); p.staked(&k, |f| { f.state = St::Stopped; f.m = 0; }); p.v.active.remove(&(id.clone(), k.1)); p });
	if judge(c, "stop-farm", v, plan, log, k.1, || dispatch(Call::stop_yield_farm { global_farm_id: k.1, asset_pair: pr }, Some(who))).is_some() { emitted(c, "stop-farm", |e| matches!(e, Event::YieldFarmStopped { yield_farm_id, .. } if Some(*yield_farm_id) == y)); }
}
fn end(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk) { let who = owner_of(c, v, k.1); let pr = any_pair(c, pair_of(&k.0)); end_by(c, log, v, k, &who, pr) }
fn end_by(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk, who: &Acc, pr: AssetPair) {
	let k = (pool(pr.asset_in, pr.asset_out), k.1, k.2);
	let plan = v.y.get(&k).filter(|y| y.state == St::Stopped && v.g[&k.1].owner == *who).map(|y| { let mut p = Plan::of(v); let cur = v.g[&k.1].cur; p.pay(&pot(), &facc(k.1), cur, y.left); let f = p.v.g.get_mut(&k.1).unwrap(); f.paid -= y.left; f.live -= 1; let q = p.v.y.get_mut(&k).unwrap(); q.left = 0; q.state = St::Terminated; p.tidy(&k); p });
	if judge(c, "end-farm", v, plan, log, k.1, || dispatch(Call::terminate_yield_farm { global_farm_id: k.1, yield_farm_id: k.2, asset_pair: pr }, Some(who))).is_some() { emitted(c, "end-farm", |e| matches!(e, Event::YieldFarmTerminated { yield_farm_id, .. } if *yield_farm_id == k.2)); }
}
fn withdraw(c: &mut Ctx, log: &mut Log, v: &View, d: u128, who: &Acc, y: u32, pr: AssetPair) {
	let dep = v.d[&d].clone(); let g = dep.entries.iter().find(|e| e.y == y).map_or(0, |e| e.g); let mut paid = 0;
	let plan = dep.entries.iter().position(|e| e.y == y).filter(|_| v.nft[&d] == *who && pool(pr.asset_in, pr.asset_out) == dep.pool).map(|i| {
		let e = dep.entries[i].clone(); let k = (dep.pool.clone(), e.g, y); let mut p = Plan::of(v);
		if v.y[&k].state != St::Terminated {
			p.sync_g(k.1); p.sync_y(&k); let (r, lost) = p.reward(&k, &e).expect("loyalty"); let cur = p.v.g[&k.1].cur;
			if r > 0 { if r < ed(cur) && v.book.free(who, cur) < ed(cur) { p.pay(&pot(), &Treasury::get(), cur, r); c.event("rewards-to-treasury"); } else { p.pay(&pot(), who, cur, r); paid = r; } }
			if lost > 0 { p.pay(&pot(), &facc(k.1), cur, lost); p.v.g.get_mut(&k.1).unwrap().paid -= lost; c.event("rewards-given-up"); }
			let q = p.v.y.get_mut(&k).unwrap(); q.left -= (r + lost).min(q.left);
		} else { c.event("left-an-ended-farm"); }
		p.staked(&k, |q| { q.shares -= dep.shares; q.valued -= e.v; q.entries -= 1; });
		p.tidy(&k); p.tidy_g(k.1);
		let q = p.v.d.get_mut(&d).unwrap(); q.entries.swap_remove(i);
		if q.entries.is_empty() { p.v.d.remove(&d); p.v.nft.remove(&d); let s = POOLS.iter().find(|x| pool(x.0, x.1) == dep.pool).unwrap().2; p.pay(&desk(), who, s, dep.shares); c.event("shares-returned"); }
		p
	});
	if judge(c, "withdraw", v, plan, log, g, || dispatch(Call::withdraw_shares { deposit_id: d, yield_farm_id: y, asset_pair: pr }, Some(who))).is_some() { c.nontrivial((d, y, paid)); emitted(c, "withdraw", |e| matches!(e, Event::SharesWithdrawn { deposit_id, amount, .. } if *deposit_id == d && *amount == dep.shares)); }
}
/// At the end everyone can leave and every program can be wound up; the pot keeps only rounding.
fn leave(c: &mut Ctx, log: &mut Log) {
	if c.rng.chance(1, 2) { let v = view(); for k in v.y.keys() { let v = view(); if v.y.get(k).map_or(false, |y| y.state == St::Active) { let (a, b) = pair_of(&k.0); stop_by(c, log, &v, k, &v.g[&k.1].owner.clone(), AssetPair { asset_in: a, asset_out: b }); if c.failed() { return; } } } c.event("stopped-before-leaving"); }
	if c.rng.chance(1, 2) { let v = view(); for k in v.y.keys() { let v = view(); if v.y.get(k).map_or(false, |y| y.state == St::Stopped) { let (a, b) = pair_of(&k.0); end_by(c, log, &v, k, &v.g[&k.1].owner.clone(), AssetPair { asset_in: a, asset_out: b }); if c.failed() { return; } } } }
	loop {
		let v = view(); let Some((d, dep)) = v.d.iter().next() else { break; }; let (a, b) = pair_of(&dep.pool); let who = v.nft[d].clone(); if c.rng.chance(1, 3) { Block::set(Block::get() + 7); }
		withdraw(c, log, &v, *d, &who, dep.entries[0].y, AssetPair { asset_in: a, asset_out: b }); if c.failed() { return; } invariants(c, &view(), log); if c.failed() { return; }
	}
	c.event("everyone-left");
	let v = view(); for k in v.y.keys() { let (a, b) = pair_of(&k.0); let pr = AssetPair { asset_in: a, asset_out: b }; let w = view(); let o = w.g[&k.1].owner.clone(); if w.y.get(k).map_or(false, |y| y.state == St::Active) { stop_by(c, log, &w, k, &o, pr); } if c.failed() { return; } let w = view(); if w.y.contains_key(k) { end_by(c, log, &w, k, &o, pr); } if c.failed() { return; } }
	let v = view(); for (g, f) in &v.g { finish_global(c, log, &view(), *g, &f.owner.clone()); if c.failed() { return; } }
	let v = view(); c.check_in(P, "nothing-is-left-of-wound-up-programs", v.g.is_empty() && v.y.is_empty() && v.d.is_empty() && v.active.is_empty() && v.nft.is_empty(), || format!("{:?} {:?}", v.g, v.y));
	c.event("wound-up");
	c.sample(|| json!({"programs": log.born.len(), "released": log.released.values().map(|x| x.to_string()).collect::<Vec<_>>(), "funded": log.funded.values().map(|x| x.to_string()).collect::<Vec<_>>()}));
}
fn run(m: &mut Monitor) {
	m.workload("histories", 15_000, 400_000, |c| history(c));
	for (e, n) in [("create-program", 3_000), ("create-farm", 3_000), ("deposit", 20_000), ("claim", 5_000), ("withdraw", 10_000), ("redeposit", 300), ("stop-farm", 1_000), ("resume-farm", 300), ("end-farm", 1_000), ("end-program", 1_000), ("update-farm", 500), ("wound-up", 2_000)] { m.expect(&format!("histories/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct accepted deposits, redeposits, claims and withdrawals", ["the pallets run on a stand-in for FRAME, orml-tokens and pallet-uniques (calibrated by the pallets' own 125 and 44 tests)", "the XYK pools are a stub whose shares are worth what the case says", "reward amounts stay below the overflow bounds of 128-bit accumulators"]; "C31" => run, "C09" => run);
}

//! Liquidity mining: random farms, deposits, claims and exits over Omnipool positions, judged against the farms' own rules on every record and balance.
use codec::{Decode, Encode};
use frame_support::traits::tokens::nonfungibles::Inspect as NftInspect;
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::oracle::{AggregatedPriceOracle, OraclePeriod, Source};
use hydradx_traits::registry::{AssetKind, Inspect};
use mon_core::big::w;
use mon_frame::*;
use pallet_ema_oracle::OracleError;
use pallet_liquidity_mining::{GlobalFarmData, LoyaltyCurve};
use pallet_omnipool_liquidity_mining::{Call, Event};
use sp_runtime::{traits::BlockNumberProvider, Perquintill};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Omnipool: pallet_omnipool, Farms: pallet_liquidity_mining, Lm: pallet_omnipool_liquidity_mining });
base!(Rt, (), DustWhite);
base_uniques!(Rt);
const HUB: u32 = 1;
const POOLED: [u32; 3] = [0, 2, 3];
type Price3 = BTreeMap<u32, (u128, u128)>;
param! { Block: u32 = 0; LeastRewards: u128 = 1000; LeastPeriods: u32 = 1; MaxEntries: u32 = 3; MaxFarms: u32 = 4; Oracle: Option<u128> = None; Prices: Price3 = Default::default(); Insufficient: BTreeSet<u32> = Default::default(); Misasked: u32 = 0; }
parameter_types! { pub const Pot: PalletId = PalletId(*b"warehous"); pub const Desk: PalletId = PalletId(*b"omnidesk"); pub const Coll: u128 = 2584; pub const PosColl: u128 = 1337; pub const HdxId: u32 = 0; pub const HubId: u32 = HUB; pub const Period: OraclePeriod = OraclePeriod::TenMinutes; pub const Feed: Source = *b"omnipool"; pub const MinTrade: u128 = 1000; pub const MinLiq: u128 = 1000; pub const Ratio: u128 = 3; pub const MinWithdraw: Permill = Permill::from_parts(100); }
pub struct Treasury; impl Get<Acc> for Treasury { fn get() -> Acc { acc(200) } }
pub struct Clock; impl BlockNumberProvider for Clock { type BlockNumber = u32; fn current_block_number() -> u32 { Block::get() } }
pub struct Adjust; impl hydradx_traits::liquidity_mining::PriceAdjustment<GlobalFarmData<Rt, ()>> for Adjust { type Error = DispatchError; type PriceAdjustment = FixedU128; fn get(_: &GlobalFarmData<Rt, ()>) -> Result<FixedU128, DispatchError> { Oracle::get().map(FixedU128::from_inner).ok_or(DispatchError::Other("no price")) } }
pub struct Assets2;
impl Inspect for Assets2 {
	type AssetId = u32; type Location = u8;
	fn is_sufficient(a: u32) -> bool { !Insufficient::with(|s| s.contains(&a)) } fn exists(a: u32) -> bool { Reg::exists(a) } fn decimals(a: u32) -> Option<u8> { Reg::decimals(a) } fn asset_type(_: u32) -> Option<AssetKind> { None } fn is_banned(_: u32) -> bool { false }
	fn asset_name(_: u32) -> Option<Vec<u8>> { None } fn asset_symbol(_: u32) -> Option<Vec<u8>> { None } fn existential_deposit(a: u32) -> Option<u128> { if Reg::exists(a) { Some(ed(a)) } else { None } }
}
impl GetByKey<u32, u128> for Assets2 { fn get(a: &u32) -> u128 { ed(*a) } }
/// The price of the hub asset in an asset as the oracle has it.
pub struct Quotes;
impl AggregatedPriceOracle<u32, u32, EmaPrice> for Quotes {
	type Error = OracleError;
	fn get_price(a: u32, b: u32, p: OraclePeriod, s: Source) -> Result<(EmaPrice, u32), OracleError> { if a != HUB || p != OraclePeriod::TenMinutes || s != *b"omnipool" { Misasked::with(|n| *n += 1); } Prices::with(|m| m.get(&b).copied()).map(|(n, d)| (EmaPrice { n, d }, 0)).ok_or(OracleError::NotPresent) }
	fn get_price_weight() -> Weight { Weight::zero() }
}
pub struct FeeOf; impl GetByKey<u32, (Permill, Permill)> for FeeOf { fn get(_: &u32) -> (Permill, Permill) { (Permill::from_parts(2500), Permill::from_parts(500)) } }
pub struct Spot; impl pallet_omnipool::traits::ExternalPriceProvider<u32, EmaPrice> for Spot { type Error = DispatchError; fn get_price(_: u32, b: u32) -> Result<EmaPrice, DispatchError> { let s = Omnipool::load_asset_state(b)?; Ok(EmaPrice::new(s.hub_reserve, s.reserve)) } fn get_price_weight() -> Weight { Weight::zero() } }
impl pallet_omnipool::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type PositionItemId = u128; type Currency = Tokens; type AuthorityOrigin = EnsureRoot<Acc>; type TechnicalOrigin = EnsureRoot<Acc>; type HubAssetId = HubId; type HdxAssetId = HdxId;
	type WeightInfo = (); type NFTCollectionId = PosColl; type CollectionId = u128; type NFTHandler = Uniques; type AssetRegistry = Assets2; type MinimumTradingLimit = MinTrade; type MinimumPoolLiquidity = MinLiq; type MaxInRatio = Ratio; type MaxOutRatio = Ratio;
	type OmnipoolHooks = (); type PriceBarrier = (); type MinWithdrawalFee = MinWithdraw; type ExternalPriceOracle = Spot; type Fee = FeeOf;
}
impl pallet_liquidity_mining::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AssetId = u32; type MultiCurrency = Tokens; type PalletId = Pot; type TreasuryAccountId = Treasury; type MinTotalFarmRewards = LeastRewards; type MinPlannedYieldingPeriods = LeastPeriods; type BlockNumberProvider = Clock;
	type AmmPoolId = u32; type MaxFarmEntriesPerDeposit = MaxEntries; type MaxYieldFarmsPerGlobalFarm = MaxFarms; type AssetRegistry = Assets2; type NonDustableWhitelistHandler = DustWhite; type PriceAdjustment = Adjust;
}
impl pallet_omnipool_liquidity_mining::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type Currency = Tokens; type CreateOrigin = EnsureRoot<Acc>; type PalletId = Desk; type NFTCollectionId = Coll; type NFTHandler = Uniques; type LiquidityMiningHandler = Farms; type OracleSource = Feed; type OraclePeriod = Period; type PriceOracle = Quotes; type WeightInfo = ();
}
const P: &str = "C32";
const R: &str = "C09 C32";
const E18: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Debug, PartialEq, Eq, Decode, Encode, Copy)]
enum St { Active, Stopped, Terminated }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct Gf { id: u32, owner: Acc, at: u32, z: u128, rpz: u128, cur: u32, pending: u128, paid: u128, yield_pp: u64, planned: u32, bpp: u32, inc: u32, max: u128, min_dep: u128, live: u32, total: u32, pa: u128, state: St }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct Yf { id: u32, at: u32, shares: u128, valued: u128, rpvs: u128, rpz: u128, curve: Option<(u128, u32)>, m: u128, state: St, entries: u64, left: u128, stopped: u32 }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct En { g: u32, y: u32, v: u128, rpvs: u128, claimed: u128, entered: u32, at: u32, stopped0: u32 }
#[derive(Clone, Debug, PartialEq, Eq, Decode)]
struct Dep { shares: u128, pool: u32, entries: Vec<En> }
type Yk = (u32, u32, u32);
#[derive(Clone, Debug, Default)]
struct View { g: BTreeMap<u32, Gf>, y: BTreeMap<Yk, Yf>, d: BTreeMap<u128, Dep>, active: BTreeMap<(u32, u32), u32>, nft: BTreeMap<u128, Acc>, book: Book, white: BTreeSet<Acc>, next: (u32, u128), pos: BTreeMap<u128, Pos>, locked: BTreeMap<u128, u128> }
#[derive(Clone, Debug, PartialEq, Eq)]
struct Pos { asset: u32, amount: u128, shares: u128, owner: Option<Acc> }
/// which position each deposit locks
fn locked() -> BTreeMap<u128, u128> { let pre = frame_support::storage::storage_prefix(b"Lm", b"OmniPositionId"); let mut key = pre.to_vec(); let mut out = BTreeMap::new(); while let Some(k) = sp_io::storage::next_key(&key) { if !k.starts_with(&pre) { break; } if let Some(v) = sp_io::storage::get(&k) { out.insert(u128::decode(&mut &k[48..]).expect("key"), u128::decode(&mut &v[..]).expect("value")); } key = k; } out }
fn decode<T: Decode>(x: &impl Encode) -> T { T::decode(&mut &x.encode()[..]).expect("layout") }
fn pot() -> Acc { Farms::pot_account_id().unwrap() }
fn desk() -> Acc { Lm::account_id() }
fn facc(g: u32) -> Acc { Farms::farm_account_id(g).ok().unwrap() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn view() -> View {
	View { g: pallet_liquidity_mining::GlobalFarm::<Rt>::iter().map(|(k, v)| (k, decode(&v))).collect(), y: pallet_liquidity_mining::YieldFarm::<Rt>::iter().map(|(k, v)| (k, decode(&v))).collect(), d: pallet_liquidity_mining::Deposit::<Rt>::iter().map(|(k, v)| (k, decode(&v))).collect(),
		active: pallet_liquidity_mining::ActiveYieldFarm::<Rt>::iter().map(|(a, b, v)| ((a, b), v)).collect(), nft: pallet_uniques::Account::<Rt>::iter().filter(|x| x.0 .1 == 2584).map(|(k, _)| (k.2, k.0)).collect(), book: Book::tokens::<Rt>(), white: NoDust::get(), next: (Farms::last_farm_id(), Farms::deposit_id()), locked: locked(),
		pos: (0..Omnipool::next_position_id()).filter_map(|i| Omnipool::positions(i).map(|p| (i, p))).map(|(i, p)| (i, Pos { asset: p.asset_id, amount: p.amount, shares: p.shares, owner: Uniques::owner(1337, i) })).collect() }
}
fn mul(x: u128, y: u128) -> u128 { muldiv(x, y, E18) }
fn div(x: u128, y: u128) -> u128 { muldiv(x, E18, y) }
/// A view that the rules are applied to, with the balance changes they call for.
#[derive(Clone)]
struct Plan { v: View, moves: Moves, released: u128 }
impl Plan {
	fn of(v: &View) -> Self { Plan { v: v.clone(), moves: Moves::new(), released: 0 } }
	fn pay(&mut self, from: &Acc, to: &Acc, c: u32, x: u128) { self.moves.bump(from, c, -(x as i128)); self.moves.bump(to, c, x as i128); }
	fn bal(&self, a: &Acc, c: u32) -> u128 { (self.v.book.free(a, c) as i128 + self.moves.get(a, c)) as u128 }
	fn period(&self, g: u32) -> u32 { Block::get() / self.v.g[&g].bpp }
	/// rewards released by a global farm for the periods gone by
	fn sync_g(&mut self, g: u32) {
		let now = self.period(g); let f = self.v.g[&g].clone();
		if f.state != St::Active || f.at == now { return; }
		if f.z > 0 {
			let left = self.bal(&facc(g), f.cur).saturating_sub(ed(f.cur)); let n = (now - f.at) as u128; let pa = Oracle::get().unwrap_or(f.pa);
			let due = (w(mul(pa, f.z)) * w(f.yield_pp as u128) * w(n) / w(E18)).min(w(f.max) * w(n)).min(w(left)).low_u128();
			self.pay(&facc(g), &pot(), f.cur, due); self.released = due;
			let q = self.v.g.get_mut(&g).unwrap(); q.pa = pa; q.rpz += div(due, f.z); q.pending += due;
		}
		self.v.g.get_mut(&g).unwrap().at = now;
	}
	/// a yield farm's part of them
	fn sync_y(&mut self, k: &Yk) {
		let now = self.period(k.1); let f = self.v.g[&k.1].clone(); let y = self.v.y.get_mut(k).unwrap();
		if y.state != St::Active { return; }
		if y.valued == 0 { y.rpz = f.rpz; y.at = now; return; }
		if y.at == now { return; }
		let part = mul(f.rpz - y.rpz, mul(y.m, y.valued));
		y.rpz = f.rpz; y.rpvs += div(part, y.valued); y.left += part; y.at = now;
		let q = self.v.g.get_mut(&k.1).unwrap(); q.paid += part; q.pending -= part.min(q.pending);
	}
	fn stake(&self, k: &Yk) -> u128 { let y = &self.v.y[k]; if y.state == St::Active { mul(y.m, y.valued) } else { 0 } }
	/// runs `f` on a yield farm and carries the change of its stake over to the global farm
	fn staked(&mut self, k: &Yk, f: impl FnOnce(&mut Yf)) { let a = self.stake(k); f(self.v.y.get_mut(k).unwrap()); let b = self.stake(k); let g = self.v.g.get_mut(&k.1).unwrap(); g.z = (g.z + b).saturating_sub(a); }
	/// what an entry may take now, and what it gives up by leaving now
	fn reward(&self, k: &Yk, e: &En) -> Option<(u128, u128)> {
		let y = &self.v.y[k]; let most = mul(y.rpvs - e.rpvs, e.v); if most == 0 { return Some((0, 0)); }
		let t = (y.at - e.entered - (y.stopped - e.stopped0)) as u128;
		let l = match y.curve { None => E18, Some((init, sc)) => { if t + sc as u128 == 0 { return None; } div(mul(init, sc as u128 * E18) + t * E18, (t + sc as u128) * E18) } };
		let can = mul(l, most); Some((can.checked_sub(e.claimed)?, most - can))
	}
	fn tidy(&mut self, k: &Yk) {
		if let Some(y) = self.v.y.get(k) { if y.state == St::Terminated && y.entries == 0 { self.v.y.remove(k); self.v.g.get_mut(&k.1).unwrap().total -= 1; } }
	}
	fn tidy_g(&mut self, g: u32) { if let Some(f) = self.v.g.get(&g) { if f.state == St::Terminated && f.total == 0 { self.v.g.remove(&g); } } }
}
#[derive(Clone, Debug)]
struct Log { funded: BTreeMap<u32, u128>, released: BTreeMap<u32, u128>, born: BTreeMap<u32, (u32, u32, u128)>, seeds: BTreeMap<u32, u128> }
fn invariants(c: &Ctx, v: &View, log: &Log) {
	for (k, y) in &v.y {
		let es: Vec<(&u128, &Dep, &En)> = v.d.iter().flat_map(|(i, d)| d.entries.iter().map(move |e| (i, d, e))).filter(|x| x.1.pool == k.0 && x.2.g == k.1 && x.2.y == k.2).collect();
		c.check_in(P, "farm-totals-are-the-sums-of-its-entries", y.valued == es.iter().map(|x| x.2.v).sum::<u128>() && y.shares == es.iter().map(|x| x.1.shares).sum::<u128>() && y.entries == es.len() as u64, || format!("{y:?} with {} entries", es.len()));
		if y.state != St::Terminated { let owed: u128 = es.iter().map(|x| mul(y.rpvs - x.2.rpvs, x.2.v).saturating_sub(x.2.claimed)).sum(); c.check_in(R, "yield-farm-holds-what-it-owes", owed <= y.left, || format!("farm {} owes {owed}, holds {}", y.id, y.left)); }
		c.check_in(P, "active-list-is-the-active-farms", (v.active.get(&(k.0, k.1)) == Some(&k.2)) == (y.state == St::Active), || format!("{y:?} {:?}", v.active));
		c.check_in(P, "farm-of-a-live-program", v.g.get(&k.1).map_or(false, |g| g.state == St::Active || y.state == St::Terminated), || format!("{y:?}"));
		c.check_in(P, "empty-ended-farms-are-gone", y.state != St::Terminated || y.entries > 0, || format!("{y:?}"));
	}
	c.check_in(P, "active-list-is-the-active-farms", v.active.len() == v.y.values().filter(|y| y.state == St::Active).count(), || format!("{:?}", v.active));
	let mut need: BTreeMap<u32, u128> = log.seeds.clone();
	for (i, g) in &v.g {
		let mine: Vec<(&Yk, &Yf)> = v.y.iter().filter(|y| y.0 .1 == *i).collect();
		let stake: u128 = mine.iter().filter(|y| y.1.state == St::Active).map(|y| mul(y.1.m, y.1.valued)).sum();
		c.check_in(P, "stake-is-the-sum-of-the-farms", g.z == stake, || format!("farm {i}: recorded {}, sum {stake}", g.z));
		c.check_in(P, "farm-counts", g.total as usize == mine.len() && g.live as usize == mine.iter().filter(|y| y.1.state != St::Terminated).count() && g.total <= MaxFarms::get(), || format!("{g:?} with {} farms", mine.len()));
		let due: u128 = mine.iter().filter(|y| y.1.state == St::Active).map(|y| mul(g.rpz - y.1.rpz, mul(y.1.m, y.1.valued))).sum();
		c.check_in(R, "pending-rewards-cover-the-farms", due <= g.pending, || format!("farm {i}: due {due}, pending {}", g.pending));
		c.check_in(P, "programs-live-or-hold-entries", g.state == St::Active || g.total > 0, || format!("{g:?}"));
		let (born, at, max) = log.born[i]; let _ = at; let out = log.released[i];
		c.check_in(R, "released-within-the-rate", out <= max * (Block::get() / g.bpp - born) as u128, || format!("farm {i}: {out} in {} periods of {max}", Block::get() / g.bpp - born));
		*need.entry(g.cur).or_default() += g.pending + mine.iter().map(|y| y.1.left).sum::<u128>();
	}
	for (a, x) in need { c.check_in(P, "pot-covers-its-farms", v.book.free(&pot(), a) >= x, || format!("asset {a}: pot {}, needed {x}", v.book.free(&pot(), a))); }
	c.check_in(P, "one-locked-position-per-deposit", v.locked.keys().eq(v.d.keys()) && v.locked.values().collect::<BTreeSet<_>>().len() == v.locked.len(), || format!("{:?} / {:?}", v.locked, v.d.keys()));
	for (d, i) in &v.locked { let p = v.pos.get(i); c.check_in(P, "desk-holds-the-positions-of-its-deposits", p.map_or(false, |p| p.owner == Some(desk()) && p.asset == v.d[d].pool && p.shares == v.d[d].shares), || format!("deposit {d} {:?}: position {i} {p:?}", v.d[d])); }
	c.check_in(P, "desk-holds-nothing-else", v.pos.iter().filter(|p| p.1.owner == Some(desk())).count() == v.locked.len(), || format!("{:?} {:?}", v.pos, v.locked));
	c.check_in(P, "right-price-is-asked-for", Misasked::get() == 0, || "the oracle was asked for another price".into());
	c.check_in(P, "one-token-per-deposit", v.nft.keys().eq(v.d.keys()), || format!("{:?} / {:?}", v.nft.keys(), v.d.keys()));
	c.check_in(P, "deposits-hold-entries", v.d.values().all(|d| !d.entries.is_empty() && d.entries.len() <= MaxEntries::get() as usize), || format!("{:?}", v.d));
	let b = v.book.balanced(); c.check_in(P, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn dispatch(c: Call<Rt>, who: Option<&Acc>) -> Result<(), DispatchError> { call(RuntimeCall::Lm(c), match who { None => RuntimeOrigin::root(), Some(w) => RuntimeOrigin::signed(w.clone()) }) }
/// Judges one call: `plan` is what must come of it (`None`: it must be refused).
fn judge(c: &mut Ctx, name: &'static str, pre: &View, plan: Option<Plan>, log: &mut Log, g: u32, run: impl FnOnce() -> Result<(), DispatchError>) -> Option<View> {
	System::reset_events(); let root = raw();
	let r = run(); c.log(|| format!("  {name}: {}", match &r { Ok(_) => "ok".to_string(), Err(e) => err(e) }));
	match (r, plan) {
		(Ok(_), Some(p)) => {
			let post = view(); c.event(name);
			if p.released > 0 { *log.released.entry(g).or_default() += p.released; c.event("rewards-released"); }
			let m = pre.book.moved(&post.book);
			c.check_in(R, "balances-move-by-the-rules", m == p.moves, || format!("{name}: moved {m:?}, expected {:?}", p.moves));
			c.check_in(R, "programs-follow-the-rules", post.g == p.v.g, || format!("{name}: {:?}\nexpected {:?}", post.g, p.v.g));
			c.check_in(R, "farms-follow-the-rules", post.y == p.v.y, || format!("{name}: {:?}\nexpected {:?}", post.y, p.v.y));
			c.check_in(R, "deposits-follow-the-rules", post.d == p.v.d, || format!("{name}: {:?}\nexpected {:?}", post.d, p.v.d));
			c.check_in(P, "registers-follow-the-rules", post.active == p.v.active && post.nft == p.v.nft && post.next == p.v.next && post.white == p.v.white && post.pos == p.v.pos && post.locked == p.v.locked, || format!("{name}: {:?} {:?} {:?} {:?}\nexpected {:?} {:?} {:?} {:?}", post.active, post.nft, post.next, post.white, p.v.active, p.v.nft, p.v.next, p.v.white));
			Some(post)
		}
		(Err(e), None) => { c.event("refused"); c.distinct("refusals", (name, err(&e))); c.check_in(P, "refusal-changes-nothing", raw() == root, || format!("{name} {}", err(&e))); None }
		(Ok(_), None) => { c.check_in(P, "forbidden-is-refused", false, || format!("{name} accepted")); None }
		(Err(e), Some(_)) => { c.check_in(P, "allowed-is-accepted", false, || format!("{name} refused: {}", err(&e))); None }
	}
}
fn emitted(c: &Ctx, name: &str, f: impl Fn(&Event<Rt>) -> bool) { let ev = take_events::<Rt>(); let n = ev.iter().filter(|e| match e { RuntimeEvent::Lm(e) => f(e), _ => false }).count(); c.check_in(P, "event-tells-what-happened", n == 1, || format!("{name}: {ev:?}")); }
fn curve_of(x: Option<(u128, u32)>) -> Option<LoyaltyCurve> { x.map(|(i, s)| LoyaltyCurve { initial_reward_percentage: FixedU128::from_inner(i), scale_coef: s }) }
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); Block::set(c.rng.range(0, 1000) as u32); NoDust::set(Default::default()); Oracle::set(None);
		let r = &mut c.rng;
		Misasked::set(0);
		Assets::set([0u32, 1, 2, 3, 4, 5].into_iter().map(|a| (a, 12)).collect());
		Eds::set([(0, 1000u128), (1, 400), (2, *r.pick(&[1u128, 1000])), (3, *r.pick(&[1u128, 10_000])), (4, 500), (5, 1)].into_iter().collect());
		Insufficient::set([4u32].into_iter().collect());
		LeastRewards::set(*r.pick(&[1_000u128, 1_000_000])); LeastPeriods::set(*r.pick(&[1u32, 10])); MaxEntries::set(*r.pick(&[1u32, 2, 3, 5])); MaxFarms::set(*r.pick(&[1u32, 2, 4, 4]));
Prices::set(POOLED.iter().map(|a| (*a, quote(r))).collect());
		use sp_runtime::BuildStorage; let mut ext = sp_runtime::Storage::default(); let _ = &mut ext;
		<pallet_liquidity_mining::GenesisConfig<Rt> as frame_support::traits::BuildGenesisConfig>::build(&Default::default()); <pallet_omnipool_liquidity_mining::GenesisConfig<Rt> as frame_support::traits::BuildGenesisConfig>::build(&Default::default());
		let _ = |x: pallet_liquidity_mining::GenesisConfig<Rt>| x.build_storage();
		for o in 1..3 { for a in 0..6 { give::<Rt>(&acc(o), a, 10u128.pow(27)); } }
		for a in POOLED { let res = r.log(10u128.pow(9), 10u128.pow(24)); give::<Rt>(&Omnipool::protocol_account(), a, res); let price = FixedU128::from_rational(r.log(10u128.pow(9), 10u128.pow(20)), res); let u = acc(3 + r.idx(4) as u8); let x = call(RuntimeCall::Omnipool(pallet_omnipool::Call::add_token { asset: a, initial_price: price, weight_cap: Permill::from_percent(100), position_owner: u }), RuntimeOrigin::root()); if x.is_ok() { for u in 3..7 { if r.chance(4, 5) { let v = r.log(10_000, res * 2); give::<Rt>(&acc(u), a, v); } } } }
		if r.chance(1, 2) { for u in 3..7 { for a in 1..5 { give::<Rt>(&acc(u), a, ed(a) * 2); } } }
		for _ in 0..8 { add(c); }
		let r = &mut c.rng;
		for a in 0..5 { give::<Rt>(&Treasury::get(), a, ed(a)); }
		let mut log = Log { funded: Default::default(), released: Default::default(), born: Default::default(), seeds: Default::default() };
		let steps = 40 + c.rng.idx(40);
		for _ in 0..steps { step(c, &mut log); if c.failed() { return; } invariants(c, &view(), &log); if c.failed() { return; } }
		leave(c, &mut log);
	});
}
fn pick_y(c: &mut Ctx, v: &View) -> Option<Yk> { if v.y.is_empty() { return None; } let live: Vec<Yk> = v.y.iter().filter(|y| y.1.state != St::Terminated).map(|x| x.0.clone()).collect(); if !live.is_empty() && c.rng.chance(9, 10) { return Some(live[c.rng.idx(live.len())].clone()); } let k = c.rng.idx(v.y.len()); v.y.keys().nth(k).cloned() }
fn any_asset(c: &mut Ctx, right: u32) -> u32 { if c.rng.chance(1, 20) { *c.rng.pick(&[0u32, 2, 3, 4, 9, 1]) } else { right } }
fn quote(r: &mut Rng) -> (u128, u128) { match r.idx(12) { 0 => (r.log(1, u128::MAX / 2), r.log(1, u128::MAX / 2)), 1 => (r.range(0, 3), r.range(0, 3)), _ => { let d = r.log(1_000_000, u128::MAX >> 40); (muldiv(d, r.log(1000, 100_000_000), 1_000_000), d) } } }
/// value of a position in the hub asset at the oracle price
fn value(p: &Pos) -> Option<u128> { let (n, d) = Prices::with(|m| m.get(&p.asset).copied())?; if d == 0 { return None; } let x = w(p.amount) * w(n) / w(d); if x.bits() > 128 { None } else { Some(x.low_u128()) } }
fn add(c: &mut Ctx) {
	let u = acc(3 + c.rng.idx(4) as u8); let a = *c.rng.pick(&POOLED); let have = Tokens::free_balance(a, &u); if have < 1000 { return; } let n = if c.rng.chance(1, 3) { c.rng.range(1000, 3000) } else { c.rng.log(1000, have / 2 + 1000) };
	let r = call(RuntimeCall::Omnipool(pallet_omnipool::Call::add_liquidity { asset: a, amount: n }), RuntimeOrigin::signed(u.clone())); c.log(|| format!("  {} adds {n} of {a}: {r:?}", nm(&u))); if r.is_ok() { c.event("position-made"); }
}
/// Positions that are locked cannot be touched, others can; the farms do not notice.
fn omnipool(c: &mut Ctx, v: &View) {
	if v.pos.is_empty() || c.rng.chance(1, 2) { add(c); } else {
		let k = c.rng.idx(v.pos.len()); let (i, p) = v.pos.iter().nth(k).unwrap(); let held = v.locked.values().any(|x| x == i);
		let who = if held { match v.locked.iter().find(|x| x.1 == i).and_then(|x| v.nft.get(x.0)) { Some(a) => a.clone(), None => acc(3) } } else { p.owner.clone().unwrap() };
		let r = match c.rng.idx(4) { 0 => call(RuntimeCall::Omnipool(pallet_omnipool::Call::sacrifice_position { position_id: *i }), RuntimeOrigin::signed(who)), 1 => call(RuntimeCall::Uniques(pallet_uniques::Call::transfer { collection: 1337, item: *i, dest: acc(3 + c.rng.idx(4) as u8) }), RuntimeOrigin::signed(who)), _ => { let x = c.rng.range(1, p.shares); call(RuntimeCall::Omnipool(pallet_omnipool::Call::remove_liquidity { position_id: *i, amount: x }), RuntimeOrigin::signed(who)) } };
		c.log(|| format!("  on position {i} {}: {r:?}", if held { "(locked)" } else { "" }));
		if held { c.event("locked-position-tried"); c.check_in(P, "locked-positions-cannot-be-used", r.is_err(), || format!("position {i} {p:?}")); } else if r.is_ok() { c.event("free-position-used"); }
	}
	let x = view(); c.check_in(P, "farms-do-not-notice-the-pool", x.d == v.d && x.g == v.g && x.y == v.y && x.locked == v.locked && x.nft == v.nft && v.locked.values().all(|i| x.pos.get(i) == v.pos.get(i)), || "changed".into());
}
fn any_m(c: &mut Ctx) -> u128 { match c.rng.idx(8) { 0 => E18, 1 => E18 / 2, 2 => E18 / 1000, 3 => E18 / 1000 - 1, 4 => E18 * 10, 5 => E18 / 3, _ => c.rng.log(E18 / 1000, 1000 * E18) } }
fn any_g(c: &mut Ctx, v: &View) -> u32 { if v.g.is_empty() || c.rng.chance(1, 25) { return c.rng.idx(8) as u32 + 1; } let k = c.rng.idx(v.g.len()); *v.g.keys().nth(k).unwrap() }
fn owner_of(c: &mut Ctx, v: &View, g: u32) -> Acc { if c.rng.chance(1, 20) { return acc(1 + c.rng.idx(4) as u8); } v.g.get(&g).map(|f| f.owner.clone()).unwrap_or(acc(1)) }
fn step(c: &mut Ctx, log: &mut Log) {
	if c.rng.chance(1, 3) { let n = if c.rng.chance(1, 6) { c.rng.log(1, 100_000) } else { c.rng.range(1, 60) } as u32; Block::set(Block::get() + n); }
	if c.rng.chance(1, 8) { Oracle::set(if c.rng.chance(1, 3) { None } else { Some(c.rng.log(E18 / 100, E18 * 100)) }); }
	if c.rng.chance(1, 6) { let a = *c.rng.pick(&POOLED); let q = quote(&mut c.rng); let gone = c.rng.chance(1, 8); Prices::with(|m| { if gone { m.remove(&a); } else { m.insert(a, q); } }); }
	let v = view();
	let kind = if v.g.is_empty() { 0 } else if v.y.is_empty() && c.rng.chance(3, 4) { 10 } else { c.rng.idx(100) };
	match kind {
		0..=4 => create_global(c, log, &v),
		5..=6 => omnipool(c, &v),
		7 => end_global(c, log, &v),
		8..=15 => {
			let g = any_g(c, &v); let who = owner_of(c, &v, g); let pr = *c.rng.pick(&POOLED); let id = any_asset(c, pr); let m = any_m(c); let curve = match c.rng.idx(4) { 0 => None, 1 => Some((E18 / 2, 100)), 2 => Some((E18, 10)), _ => Some((c.rng.range(0, E18 - 1), c.rng.log(1, 10_000) as u32)) };
			let ok = Omnipool::exists(id) && m >= E18 / 1000 && curve.map_or(true, |x| x.0 < E18) && v.g.get(&g).map_or(false, |f| f.state == St::Active && f.owner == who && f.total < MaxFarms::get()) && !v.active.contains_key(&(id, g));
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(g); let now = p.period(g); p.v.next.0 += 1; let y = p.v.next.0; let rpz = p.v.g[&g].rpz; p.v.y.insert((id, g, y), Yf { id: y, at: now, shares: 0, valued: 0, rpvs: 0, rpz, curve, m, state: St::Active, entries: 0, left: 0, stopped: 0 }); let f = p.v.g.get_mut(&g).unwrap(); f.live += 1; f.total += 1; p.v.active.insert((id, g), y); Some(p) };
			let y = v.next.0 + 1;
			// where a farm without entries starts counting from does not show until its first entry
			let plan = plan.map(|mut p| { let k = (id, g, y); p.v.y.get_mut(&k).unwrap().rpz = u128::MAX; p });
			let root = raw(); let _ = root;
			if judge_y(c, "create-farm", &v, plan, log, g, (id, g, y), || dispatch(Call::create_yield_farm { global_farm_id: g, asset_id: id, multiplier: FixedU128::from_inner(m), loyalty_curve: curve_of(curve) }, Some(&who))).is_some() { emitted(c, "create-farm", |e| matches!(e, Event::YieldFarmCreated { global_farm_id, yield_farm_id, .. } if *global_farm_id == g && *yield_farm_id == y)); }
		}
		16..=20 => { let Some(k) = pick_y(c, &v) else { return; }; let who = owner_of(c, &v, k.1); let id = any_asset(c, k.0); let m = any_m(c); let y = v.active.get(&(id, k.1)).copied();
			let plan = y.filter(|_| Omnipool::exists(id) && m >= E18 / 1000 && v.g[&k.1].owner == who).map(|y| { let k = (id, k.1, y); let mut p = Plan::of(&v); p.sync_g(k.1); p.sync_y(&k); p.staked(&k, |f| f.m = m); p });
			if judge(c, "update-farm", &v, plan, log, k.1, || dispatch(Call::update_yield_farm { global_farm_id: k.1, asset_id: id, multiplier: FixedU128::from_inner(m) }, Some(&who))).is_some() { emitted(c, "update-farm", |e| matches!(e, Event::YieldFarmUpdated { yield_farm_id, multiplier, .. } if Some(*yield_farm_id) == y && multiplier.into_inner() == m)); } }
		21..=24 => { let Some(k) = pick_y(c, &v) else { return; }; stop(c, log, &v, &k); }
		25..=30 => { let Some(k) = pick_y(c, &v) else { return; }; let k = v.y.iter().filter(|y| y.1.state == St::Stopped).map(|x| x.0.clone()).next().unwrap_or(k); let who = owner_of(c, &v, k.1); let id = any_asset(c, k.0); let m = any_m(c); let k = (id, k.1, k.2);
			let ok = Omnipool::exists(id) && m >= E18 / 1000 && !v.active.contains_key(&(id, k.1)) && v.y.get(&k).map_or(false, |y| y.state == St::Stopped) && v.g.get(&k.1).map_or(false, |f| f.owner == who);
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(k.1); let now = p.period(k.1); let rpz = p.v.g[&k.1].rpz; p.staked(&k, |y| { y.stopped += now - y.at; y.at = now; y.rpz = rpz; y.state = St::Active; y.m = m; }); p.v.active.insert((id, k.1), k.2); Some(p) };
			if judge(c, "resume-farm", &v, plan, log, k.1, || dispatch(Call::resume_yield_farm { global_farm_id: k.1, yield_farm_id: k.2, asset_id: id, multiplier: FixedU128::from_inner(m) }, Some(&who))).is_some() { emitted(c, "resume-farm", |e| matches!(e, Event::YieldFarmResumed { yield_farm_id, .. } if *yield_farm_id == k.2)); } }
		31..=32 => { let Some(k) = pick_y(c, &v) else { return; }; end(c, log, &v, &k); }
		33..=58 => {
			let Some(k) = pick_y(c, &v) else { return; }; let g = if c.rng.chance(1, 30) { any_g(c, &v) } else { k.1 };
			let mine: Vec<(u128, Pos)> = v.pos.iter().filter(|p| p.1.asset == k.0 && p.1.owner != Some(desk())).map(|p| (*p.0, p.1.clone())).collect();
			let (i, p0) = if mine.is_empty() || c.rng.chance(1, 15) { if v.pos.is_empty() || c.rng.chance(1, 20) { let i = c.rng.below(50); (i, v.pos.get(&i).cloned().unwrap_or(Pos { asset: 9, amount: 0, shares: 0, owner: None })) } else { let n = c.rng.idx(v.pos.len()); let x = v.pos.iter().nth(n).unwrap(); (*x.0, x.1.clone()) } } else { mine[c.rng.idx(mine.len())].clone() };
			let who = match &p0.owner { Some(a) if *a != desk() && !c.rng.chance(1, 25) => a.clone(), _ => acc(3 + c.rng.idx(4) as u8) };
			let n = p0.shares; let k = (p0.asset, g, k.2); let val = value(&p0);
			let ok = p0.owner == Some(who.clone()) && v.pos.contains_key(&i) && v.y.get(&k).map_or(false, |y| y.state == St::Active) && v.g.get(&g).map_or(false, |f| n >= f.min_dep && val.map_or(false, |x| x >= f.min_dep));
			let heavy = val.map_or(false, |x| x > 10u128.pow(27)); if heavy { return; }
			let plan = if !ok { None } else { let mut p = Plan::of(&v); p.sync_g(g); p.sync_y(&k); let val = val.unwrap(); p.staked(&k, |y| { y.shares += n; y.valued += val; y.entries += 1; }); let now = p.period(g); let y = p.v.y[&k].clone(); p.v.next.1 += 1; let id = p.v.next.1; p.v.d.insert(id, Dep { shares: n, pool: k.0, entries: vec![En { g, y: k.2, v: val, rpvs: y.rpvs, claimed: 0, entered: now, at: now, stopped0: y.stopped }] }); p.v.nft.insert(id, who.clone()); p.v.locked.insert(id, i); p.v.pos.get_mut(&i).unwrap().owner = Some(desk()); Some(p) };
			if judge(c, "deposit", &v, plan, log, g, || dispatch(Call::deposit_shares { global_farm_id: g, yield_farm_id: k.2, position_id: i }, Some(&who))).is_some() { c.nontrivial((n, val, g, k.2)); let id = v.next.1 + 1; emitted(c, "deposit", |e| matches!(e, Event::SharesDeposited { deposit_id, shares_amount, who: x, position_id, .. } if *deposit_id == id && *shares_amount == n && *x == who && *position_id == i)); }
		}
		59..=66 => {
			let Some(d) = pick_d(c, &v) else { return; }; let dep = v.d[&d].clone(); let who = holder(c, &v, d); let odd = c.rng.chance(1, 25); let cands: Vec<Yk> = v.y.keys().filter(|k| odd || k.0 == dep.pool).cloned().collect(); if cands.is_empty() { return; } let open: Vec<Yk> = cands.iter().filter(|k| v.y[*k].state == St::Active && !dep.entries.iter().any(|e| e.y == k.2)).cloned().collect(); let k = if !open.is_empty() && c.rng.chance(3, 4) { open[c.rng.idx(open.len())].clone() } else { cands[c.rng.idx(cands.len())].clone() };
			let f = &v.g[&k.1]; let val = value(&v.pos[&v.locked[&d]]); if val.map_or(false, |x| x > 10u128.pow(27)) { return; }
			let ok = v.nft[&d] == who && k.0 == dep.pool && !dep.entries.iter().any(|e| e.y == k.2) && v.y[&k].state == St::Active && dep.shares >= f.min_dep && val.map_or(false, |x| x >= f.min_dep) && dep.entries.len() < MaxEntries::get() as usize;
			let plan = if !ok { None } else { let val = val.unwrap(); let mut p = Plan::of(&v); p.sync_g(k.1); p.sync_y(&k); p.staked(&k, |y| { y.shares += dep.shares; y.valued += val; y.entries += 1; }); let now = p.period(k.1); let y = p.v.y[&k].clone(); p.v.d.get_mut(&d).unwrap().entries.push(En { g: k.1, y: k.2, v: val, rpvs: y.rpvs, claimed: 0, entered: now, at: now, stopped0: y.stopped }); Some(p) };
			if judge(c, "redeposit", &v, plan, log, k.1, || dispatch(Call::redeposit_shares { global_farm_id: k.1, yield_farm_id: k.2, deposit_id: d }, Some(&who))).is_some() { c.nontrivial((d, val, k.1, k.2)); emitted(c, "redeposit", |e| matches!(e, Event::SharesRedeposited { deposit_id, shares_amount, .. } if *deposit_id == d && *shares_amount == dep.shares)); }
		}
		67..=82 => {
			let Some(d) = pick_d(c, &v) else { return; }; let who = holder(c, &v, d); let dep = v.d[&d].clone(); let y = if c.rng.chance(1, 25) { c.rng.idx(8) as u32 } else { dep.entries[c.rng.idx(dep.entries.len())].y };
			let mut got = 0; let g = dep.entries.iter().find(|e| e.y == y).map_or(0, |e| e.g);
			let plan = dep.entries.iter().position(|e| e.y == y).filter(|_| v.nft[&d] == who).and_then(|i| { let k = (dep.pool, dep.entries[i].g, y); if v.y[&k].state == St::Terminated { return None; } let mut p = Plan::of(&v); if dep.entries[i].at == p.period(k.1) { return None; } p.sync_g(k.1); p.sync_y(&k); let (r, _) = p.reward(&k, &dep.entries[i])?; let cur = p.v.g[&k.1].cur; if r == 0 || r < ed(cur) && v.book.free(&who, cur) < ed(cur) { return None; } got = r; p.pay(&pot(), &who, cur, r); p.v.y.get_mut(&k).unwrap().left -= r.min(p.v.y[&k].left); let now = p.period(k.1); let e = &mut p.v.d.get_mut(&d).unwrap().entries[i]; e.claimed += r; e.at = now; Some(p) });
			if judge(c, "claim", &v, plan, log, g, || dispatch(Call::claim_rewards { deposit_id: d, yield_farm_id: y }, Some(&who))).is_some() { c.nontrivial((d, y, got)); emitted(c, "claim", |e| matches!(e, Event::RewardClaimed { deposit_id, claimed, yield_farm_id, .. } if *deposit_id == d && *claimed == got && *yield_farm_id == y)); }
		}
		83..=92 => { let Some(d) = pick_d(c, &v) else { return; }; let dep = v.d[&d].clone(); let who = holder(c, &v, d); let y = dep.entries[c.rng.idx(dep.entries.len())].y; withdraw(c, log, &v, d, &who, y); }
		93..=95 => { let Some(d) = pick_d(c, &v) else { return; }; let to = acc(3 + c.rng.idx(4) as u8); let from = v.nft[&d].clone(); let r = call(RuntimeCall::Uniques(pallet_uniques::Call::transfer { collection: 2584, item: d, dest: to.clone() }), RuntimeOrigin::signed(from)); c.log(|| format!("  nft {d} to {} {r:?}", nm(&to))); if r.is_ok() { c.event("position-handed-on"); } }
		96 => { let g = any_g(c, &v); if let Some(f) = v.g.get(&g) { if f.state == St::Active { let x = c.rng.log(1, 1_000_000_000); let _ = <Tokens as MultiCurrency<Acc>>::transfer(f.cur, &acc(1), &facc(g), x); c.event("donation"); } } }
		_ => { let n = c.rng.range(1, 400) as u32; Block::set(Block::get() + n); }
	}
}
/// as `judge`, but where the first counting point of a farm without entries is left open
fn judge_y(c: &mut Ctx, name: &'static str, pre: &View, plan: Option<Plan>, log: &mut Log, g: u32, k: Yk, run: impl FnOnce() -> Result<(), DispatchError>) -> Option<View> {
	System::reset_events(); let root = raw(); let r = run(); c.log(|| format!("  {name}: {}", match &r { Ok(_) => "ok".to_string(), Err(e) => err(e) }));
	match (r, plan) {
		(Ok(_), Some(mut p)) => { let post = view(); c.event(name); if p.released > 0 { *log.released.entry(g).or_default() += p.released; } if let (Some(a), Some(b)) = (p.v.y.get_mut(&k), post.y.get(&k)) { a.rpz = b.rpz; }
			let m = pre.book.moved(&post.book); c.check_in(R, "balances-move-by-the-rules", m == p.moves, || format!("{name}: moved {m:?}, expected {:?}", p.moves));
			c.check_in(R, "programs-follow-the-rules", post.g == p.v.g, || format!("{name}: {:?}\nexpected {:?}", post.g, p.v.g)); c.check_in(R, "farms-follow-the-rules", post.y == p.v.y, || format!("{name}: {:?}\nexpected {:?}", post.y, p.v.y));
			c.check_in(P, "registers-follow-the-rules", post.active == p.v.active && post.nft == p.v.nft && post.next == p.v.next && post.d == p.v.d && post.white == p.v.white && post.pos == p.v.pos && post.locked == p.v.locked, || name.to_string()); Some(post) }
		(Err(e), None) => { c.event("refused"); c.distinct("refusals", (name, err(&e))); c.check_in(P, "refusal-changes-nothing", raw() == root, || format!("{name} {}", err(&e))); None }
		(Ok(_), None) => { c.check_in(P, "forbidden-is-refused", false, || format!("{name} accepted")); None }
		(Err(e), Some(_)) => { c.check_in(P, "allowed-is-accepted", false, || format!("{name} refused: {}", err(&e))); None }
	}
}
fn pick_d(c: &mut Ctx, v: &View) -> Option<u128> { if v.d.is_empty() { return None; } let k = c.rng.idx(v.d.len()); v.d.keys().nth(k).copied() }
fn holder(c: &mut Ctx, v: &View, d: u128) -> Acc { if c.rng.chance(1, 25) { acc(3 + c.rng.idx(4) as u8) } else { v.nft[&d].clone() } }
fn create_global(c: &mut Ctx, log: &mut Log, v: &View) {
	let r = &mut c.rng; let owner = acc(1 + r.idx(2) as u8); let cur = *r.pick(&[0u32, 2, 3, 0, 2, 3, 4, 1, 5, 9]); let inc = HUB;
	let total = match r.idx(8) { 0 => r.range(0, LeastRewards::get() + 2), 1 => r.log(10u128.pow(26), 10u128.pow(29)), _ => r.log(LeastRewards::get(), 10u128.pow(24)) }; let planned = match r.idx(6) { 0 => r.range(0, 12), _ => r.log(10, 1_000_000) } as u32; let bpp = if r.chance(1, 20) { 0 } else { r.log(1, 200) as u32 };
	let ypp = if r.chance(1, 20) { 0 } else { r.log(E18 / 1_000_000_000, E18) as u64 }; let min_dep = match r.idx(8) { 0 => 999, 1 => r.log(1000, 1_000_000), _ => 1000 }; let pa = if r.chance(1, 20) { 0 } else { r.log(E18 / 100, E18 * 100) }; let by_root = !r.chance(1, 20);
	let seed = 0u128; let have = v.book.free(&owner, cur);
	let ok = by_root && min_dep >= 1000 && pa > 0 && total >= LeastRewards::get() && planned >= LeastPeriods::get() && bpp > 0 && ypp > 0 && Reg::exists(cur) && Reg::exists(inc) && total + seed <= have;
	// an account may not be left with dust, and rewards below the least balance cannot be held
	if total + seed <= have && have - total - seed < ed(cur) || total < ed(cur) { return; }
	let g = v.next.0 + 1;
	let plan = if !ok { None } else { let mut p = Plan::of(v); p.v.next.0 += 1; let now = Block::get() / bpp; p.v.g.insert(g, Gf { id: g, owner: owner.clone(), at: now, z: 0, rpz: 0, cur, pending: 0, paid: 0, yield_pp: ypp, planned, bpp, inc, max: total / planned as u128, min_dep, live: 0, total: 0, pa, state: St::Active }); if seed > 0 { p.pay(&owner, &pot(), cur, seed); } p.pay(&owner, &facc(g), cur, total); p.v.white.insert(facc(g)); Some(p) };
	let o = acc(1);
	if judge(c, "create-program", v, plan, log, g, || dispatch(Call::create_global_farm { total_rewards: total, planned_yielding_periods: planned, blocks_per_period: bpp, reward_currency: cur, owner: owner.clone(), yield_per_period: Perquintill::from_parts(ypp), min_deposit: min_dep, lrna_price_adjustment: FixedU128::from_inner(pa) }, if by_root { None } else { Some(&o) })).is_some() {
		log.funded.insert(g, total); log.released.insert(g, 0); log.born.insert(g, (Block::get() / bpp, Block::get(), total / planned as u128)); *log.seeds.entry(cur).or_default() += seed;
		emitted(c, "create-program", |e| matches!(e, Event::GlobalFarmCreated { id, total_rewards, max_reward_per_period, .. } if *id == g && *total_rewards == total && *max_reward_per_period == total / planned as u128));
	}
}
fn end_global(c: &mut Ctx, log: &mut Log, v: &View) {
	let g = any_g(c, v); let who = owner_of(c, v, g); finish_global(c, log, v, g, &who);
}
fn finish_global(c: &mut Ctx, log: &mut Log, v: &View, g: u32, who: &Acc) {
	let mut back = 0;
	let plan = v.g.get(&g).filter(|f| f.state == St::Active && f.owner == *who && f.live == 0).cloned().map(|f| { let mut p = Plan::of(v); back = v.book.free(&facc(g), f.cur); p.pay(&facc(g), who, f.cur, back); p.v.white.remove(&facc(g)); p.v.g.get_mut(&g).unwrap().state = St::Terminated; p.tidy_g(g); p });
	if judge(c, "end-program", v, plan, log, g, || dispatch(Call::terminate_global_farm { global_farm_id: g }, Some(who))).is_some() { emitted(c, "end-program", |e| matches!(e, Event::GlobalFarmTerminated { global_farm_id, undistributed_rewards, .. } if *global_farm_id == g && *undistributed_rewards == back)); }
}
fn stop(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk) { let who = owner_of(c, v, k.1); let pr = any_asset(c, k.0); stop_by(c, log, v, k, &who, pr) }
fn stop_by(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk, who: &Acc, id: u32) {
	let y = v.active.get(&(id, k.1)).copied();
	let plan = y.filter(|_| v.g[&k.1].owner == *who).map(|y| { let k = (id, k.1, y); let mut p = Plan::of(v); p.sync_g(k.1); p.sync_y(&k); p.staked(&k, |f| { f.state = St::Stopped; f.m = 0; }); p.v.active.remove(&(id, k.1)); p });
	if judge(c, "stop-farm", v, plan, log, k.1, || dispatch(Call::stop_yield_farm { global_farm_id: k.1, asset_id: id }, Some(who))).is_some() { emitted(c, "stop-farm", |e| matches!(e, Event::YieldFarmStopped { yield_farm_id, .. } if Some(*yield_farm_id) == y)); }
}
fn end(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk) { let who = owner_of(c, v, k.1); let pr = any_asset(c, k.0); end_by(c, log, v, k, &who, pr) }
fn end_by(c: &mut Ctx, log: &mut Log, v: &View, k: &Yk, who: &Acc, id: u32) {
	let k = (id, k.1, k.2);
	let plan = v.y.get(&k).filter(|y| y.state == St::Stopped && v.g[&k.1].owner == *who).map(|y| { let mut p = Plan::of(v); let cur = v.g[&k.1].cur; p.pay(&pot(), &facc(k.1), cur, y.left); let f = p.v.g.get_mut(&k.1).unwrap(); f.paid -= y.left; f.live -= 1; let q = p.v.y.get_mut(&k).unwrap(); q.left = 0; q.state = St::Terminated; p.tidy(&k); p });
	if judge(c, "end-farm", v, plan, log, k.1, || dispatch(Call::terminate_yield_farm { global_farm_id: k.1, yield_farm_id: k.2, asset_id: id }, Some(who))).is_some() { emitted(c, "end-farm", |e| matches!(e, Event::YieldFarmTerminated { yield_farm_id, .. } if *yield_farm_id == k.2)); }
}
fn withdraw(c: &mut Ctx, log: &mut Log, v: &View, d: u128, who: &Acc, y: u32) {
	let dep = v.d[&d].clone(); let g = dep.entries.iter().find(|e| e.y == y).map_or(0, |e| e.g); let mut paid = 0;
	let plan = dep.entries.iter().position(|e| e.y == y).filter(|_| v.nft[&d] == *who).map(|i| {
		let e = dep.entries[i].clone(); let k = (dep.pool, e.g, y); let mut p = Plan::of(v);
		if v.y[&k].state != St::Terminated {
			p.sync_g(k.1); p.sync_y(&k); let (r, lost) = p.reward(&k, &e).expect("loyalty"); let cur = p.v.g[&k.1].cur;
			if r > 0 { if r < ed(cur) && v.book.free(who, cur) < ed(cur) { p.pay(&pot(), &Treasury::get(), cur, r); c.event("rewards-to-treasury"); } else { p.pay(&pot(), who, cur, r); paid = r; } }
			if lost > 0 { p.pay(&pot(), &facc(k.1), cur, lost); p.v.g.get_mut(&k.1).unwrap().paid -= lost; c.event("rewards-given-up"); }
			let q = p.v.y.get_mut(&k).unwrap(); q.left -= (r + lost).min(q.left);
		} else { c.event("left-an-ended-farm"); }
		p.staked(&k, |q| { q.shares -= dep.shares; q.valued -= e.v; q.entries -= 1; });
		p.tidy(&k); p.tidy_g(k.1);
		let q = p.v.d.get_mut(&d).unwrap(); q.entries.swap_remove(i);
		if q.entries.is_empty() { p.v.d.remove(&d); p.v.nft.remove(&d); let i = p.v.locked.remove(&d).unwrap(); p.v.pos.get_mut(&i).unwrap().owner = Some(who.clone()); c.event("shares-returned"); }
		p
	});
	if judge(c, "withdraw", v, plan, log, g, || dispatch(Call::withdraw_shares { deposit_id: d, yield_farm_id: y }, Some(who))).is_some() { c.nontrivial((d, y, paid)); emitted(c, "withdraw", |e| matches!(e, Event::SharesWithdrawn { deposit_id, amount, .. } if *deposit_id == d && *amount == dep.shares)); }
}
/// At the end everyone can leave and every program can be wound up; the pot keeps only rounding.
fn leave(c: &mut Ctx, log: &mut Log) {
	if c.rng.chance(1, 2) { let v = view(); for k in v.y.keys() { let v = view(); if v.y.get(k).map_or(false, |y| y.state == St::Active) { stop_by(c, log, &v, k, &v.g[&k.1].owner.clone(), k.0); if c.failed() { return; } } } c.event("stopped-before-leaving"); }
	if c.rng.chance(1, 2) { let v = view(); for k in v.y.keys() { let v = view(); if v.y.get(k).map_or(false, |y| y.state == St::Stopped) { end_by(c, log, &v, k, &v.g[&k.1].owner.clone(), k.0); if c.failed() { return; } } } }
	loop {
		let v = view(); let Some((d, dep)) = v.d.iter().next() else { break; }; let who = v.nft[d].clone(); if c.rng.chance(1, 3) { Block::set(Block::get() + 7); }
		withdraw(c, log, &v, *d, &who, dep.entries[0].y); if c.failed() { return; } invariants(c, &view(), log); if c.failed() { return; }
	}
	c.event("everyone-left");
	let v = view(); for k in v.y.keys() { let pr = k.0; let w = view(); let o = w.g[&k.1].owner.clone(); if w.y.get(k).map_or(false, |y| y.state == St::Active) { stop_by(c, log, &w, k, &o, pr); } if c.failed() { return; } let w = view(); if w.y.contains_key(k) { end_by(c, log, &w, k, &o, pr); } if c.failed() { return; } }
	let v = view(); for (g, f) in &v.g { finish_global(c, log, &view(), *g, &f.owner.clone()); if c.failed() { return; } }
	let v = view(); c.check_in(P, "nothing-is-left-of-wound-up-programs", v.g.is_empty() && v.y.is_empty() && v.d.is_empty() && v.active.is_empty() && v.nft.is_empty(), || format!("{:?} {:?}", v.g, v.y));
	c.event("wound-up");
	c.sample(|| json!({"programs": log.born.len(), "released": log.released.values().map(|x| x.to_string()).collect::<Vec<_>>(), "funded": log.funded.values().map(|x| x.to_string()).collect::<Vec<_>>()}));
}
fn run(m: &mut Monitor) {
	m.workload("histories", 10_000, 400_000, |c| history(c));
	for (e, n) in [("create-program", 3_000), ("create-farm", 3_000), ("deposit", 20_000), ("claim", 5_000), ("withdraw", 10_000), ("redeposit", 300), ("locked-position-tried", 300), ("stop-farm", 1_000), ("resume-farm", 300), ("end-farm", 1_000), ("end-program", 1_000), ("update-farm", 500), ("wound-up", 2_000)] { m.expect(&format!("histories/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct accepted deposits, redeposits, claims and withdrawals", ["the pallets run on a stand-in for FRAME, orml-tokens and pallet-uniques (calibrated by the pallets' own 125, 164 and 35 tests)", "the oracle price of the hub asset is a parameter of the case", "reward amounts stay below the overflow bounds of 128-bit accumulators"]; "C32" => run, "C09" => run);
}

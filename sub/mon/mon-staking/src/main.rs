//! Staking: random stakes, votes, referenda, fees and exits, judged on every position, the reward pot, all balances and the staking lock.
use frame_support::traits::{StorageVersion, TypedGet};
use mon_core::big::w;
use mon_frame::*;
use pallet_democracy::traits::DemocracyHooks;
use pallet_democracy::{AccountVote, Conviction, Vote as Ballot};
use pallet_staking::integrations::democracy::StakingDemocracy;
use pallet_staking::traits::{DemocracyReferendum, Freeze, VestingDetails};
use pallet_staking::types::{Action, Point};
use pallet_staking::{Call, Event, SigmoidPercentage};
use frame_support::storage::{with_transaction, TransactionOutcome};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Uniques: pallet_uniques, Staking: pallet_staking });
base!(Rt, (), DustWhite);
base_uniques!(Rt);
param! { Period: u32 = 10; Least: u128 = 1000; TimeW: Permill = Permill::from_percent(100); ActW: Perbill = Perbill::from_percent(20); Unclaimable: u32 = 1; Slope: FixedU128 = FixedU128::from_inner(0); StakeW: u8 = 2; PerPeriod: u8 = 1; PerAction: u32 = 100; MinSl: u128 = 50; MostVotes: u32 = 5; Vest: BTreeMap<Acc, u128> = Default::default(); Done: BTreeSet<u32> = Default::default(); }
parameter_types! { pub const Native: u32 = 0; pub const Pid: PalletId = PalletId(*b"staking#"); }
pub struct Coll; impl Get<u128> for Coll { fn get() -> u128 { 2222 } }
pub struct B40; impl Get<u32> for B40 { fn get() -> u32 { 2000 } }
pub struct Slo; impl Get<FixedU128> for Slo { fn get() -> FixedU128 { Slope::get() } }
pub struct Un; impl Get<u128> for Un { fn get() -> u128 { Unclaimable::get() as u128 } }
pub struct MinSlashes; impl GetByKey<FixedU128, Point> for MinSlashes { fn get(k: &FixedU128) -> Point { if *k > FixedU128::from_inner(500_000_000_000_000_000) { MinSl::get() * 2 } else { MinSl::get() } } }
pub struct Points; impl GetByKey<Action, u32> for Points { fn get(_: &Action) -> u32 { PerAction::get() } }
pub struct Referenda; impl DemocracyReferendum for Referenda { fn is_referendum_finished(i: u32) -> bool { Done::with(|d| d.contains(&i)) } }
pub struct Vesting; impl VestingDetails<Acc, u128> for Vesting { fn locked(a: Acc) -> u128 { Vest::with(|v| v.get(&a).copied().unwrap_or(0)) } }
pub struct Ice; impl Freeze<Acc, u128> for Ice { fn freeze_collection(o: Acc, k: u128) -> DispatchResult { Uniques::freeze_collection(RuntimeOrigin::signed(o), k) } }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_staking::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type AssetId = u32; type Currency = Currencies; type PeriodLength = Period; type PalletId = Pid; type NativeAssetId = Native; type MinStake = Least; type TimePointsWeight = TimeW; type ActionPointsWeight = ActW;
	type TimePointsPerPeriod = PerPeriod; type UnclaimablePeriods = Un; type CurrentStakeWeight = StakeW; type PayablePercentage = SigmoidPercentage<Slo, B40>; type BlockNumberProvider = System; type PositionItemId = u128; type CollectionId = u128; type NFTCollectionId = Coll; type Collections = Ice; type NFTHandler = Uniques;
	type MaxVotes = MostVotes; type ReferendumInfo = Referenda; type MaxPointsPerAction = Points; type Vesting = Vesting; type WeightInfo = (); type MinSlash = MinSlashes;
}
const P: &str = "C30";
const E18: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Debug, PartialEq, Eq, Default, codec::Decode)]
struct Pos { stake: u128, action: u128, rps: u128, at: u32, slash: u128, unpaid: u128, locked: u128 }
#[derive(Clone, Debug, Default)]
struct Model { init: Option<u128>, total: u128, rps: u128, kept: u128, next: u128, pos: BTreeMap<u128, Pos>, own: BTreeMap<Acc, u128>, votes: BTreeMap<u128, BTreeMap<u32, (u128, u8)>>, processed: BTreeMap<(Acc, u32), (u128, u8)> }
fn book() -> Book { Book::all::<Rt>() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn pot() -> Acc { Staking::pot_account_id() }
fn mul(x: u128, y: u128) -> u128 { (w(x) * w(y) / w(E18)).low_u128() }
/// votes in tenths, as democracy counts them
fn tenths(c: u8) -> u128 { if c == 0 { 1 } else { 10 * c as u128 } }
fn per_vote(stake: u128, v: (u128, u8)) -> u128 { let cast = v.0 * tenths(v.1) / 10; cast * PerAction::get() as u128 / (6 * stake) }
fn period(b: u32) -> u128 { (b / Period::get()) as u128 }
fn decode<T: codec::Decode>(x: &impl codec::Encode) -> T { T::decode(&mut &x.encode()[..]).expect("layout") }
impl Model {
	fn now(&self) -> u128 { period(System::block_number()) }
	/// what a position has earned since it last settled
	fn fresh_rewards(&self, p: &Pos) -> u128 { mul(self.rps - p.rps, p.stake) }
	fn points(&self, p: &Pos) -> u128 { let t = (self.now() - period(p.at)) * PerPeriod::get() as u128; let t = t * TimeW::get().deconstruct() as u128 / 1_000_000; let a = p.action * ActW::get().deconstruct() as u128 / 1_000_000_000; (t + a).checked_sub(p.slash).expect("points were slashed twice") }
	/// shares of the fees that came in since the last settlement
	fn accrue(&mut self) -> bool {
		if self.total == 0 { return false; }
		let news = Currencies::free_balance(0, &pot()) - self.kept; let up = (w(news) * w(E18) / w(self.total)).low_u128(); if news == 0 || up == 0 { return false; }
		self.rps += up; self.kept += news; true
	}
	fn count_votes(&mut self, who: &Acc, id: u128) {
		let stake = self.pos[&id].stake; let mut sum = 0; let v = self.votes.entry(id).or_default(); let gone: Vec<u32> = v.keys().copied().filter(|r| Done::with(|d| d.contains(r))).collect();
		for r in gone { let x = v.remove(&r).unwrap(); sum += per_vote(stake, x); self.processed.insert((who.clone(), r), x); }
		self.pos.get_mut(&id).unwrap().action += sum;
	}
	/// (paid now, kept back) at a payable share
	fn payout(&self, p: &Pos, share: u128) -> (u128, u128) {
		let new = self.fresh_rewards(p); if self.now() - period(p.at) <= Unclaimable::get() as u128 { return (0, p.unpaid + new); }
		let all = new + p.locked + p.unpaid; let pay = mul(share, all).saturating_sub(p.locked); (pay, all.saturating_sub(p.locked) - pay)
	}
	/// the payable share for some points, in 1e-18
	fn share(&self, p: &Pos) -> u128 { if self.now() - period(p.at) <= Unclaimable::get() as u128 { return 0; } let x = w(Slope::get().into_inner()) * w(self.points(p)); let x4 = { let a = x * x / w(E18); if a > w(u128::MAX) { return E18; } let b = a * a / w(E18); if b > w(u128::MAX) { return E18; } b }; (x4 * w(E18) / (x4 + w(2000) * w(E18))).low_u128() }
	fn has_processed(&self, who: &Acc) -> bool { self.processed.keys().any(|k| k.0 == *who) }
}
fn state(c: &Ctx, m: &Model) {
	let stored: BTreeMap<u128, Pos> = (0..m.next + 2).filter_map(|k| Staking::positions(k).map(|v| (k, decode(&v)))).collect();
	c.check_in("C10 C30", "positions-as-expected", stored == m.pos, || format!("stored {stored:?}, expected {:?}", m.pos));
	let (total, rps, kept): (u128, u128, u128) = decode(&Staking::staking());
	c.check_in("C10 C30", "totals-as-expected", (total, rps, kept) == (m.total, m.rps, m.kept) && Staking::next_position_id() == m.next, || format!("stored {total} {rps} {kept}, expected {} {} {}", m.total, m.rps, m.kept));
	c.check_in(P, "total-is-sum-of-stakes", total == m.pos.values().map(|p| p.stake).sum::<u128>(), || format!("{total}"));
	let votes: BTreeMap<u128, BTreeMap<u32, (u128, u8)>> = m.pos.keys().map(|k| (*k, Staking::get_position_votes(*k).votes.iter().map(|(r, v)| (*r, decode::<(u128, u8)>(v))).collect())).collect();
	c.check_in(P, "votes-as-expected", votes.iter().all(|(k, v)| *v == m.votes.get(k).cloned().unwrap_or_default()), || format!("stored {votes:?}, expected {:?}", m.votes));
	let processed: BTreeMap<(Acc, u32), (u128, u8)> = (1..=5u8).flat_map(|i| (0..20u32).map(move |r| (acc(i), r))).filter_map(|k| Staking::processed_votes(k.0.clone(), k.1).map(|v| (k, decode(&v)))).collect();
	c.check_in(P, "counted-votes-as-expected", processed == m.processed, || format!("stored {processed:?}, expected {:?}", m.processed));
	// the pot can pay everybody at once
	let owed: u128 = m.pos.values().map(|p| p.unpaid + m.fresh_rewards(p)).sum(); let held = Currencies::free_balance(0, &pot());
	c.check_in("C10 C30", "the-pot-covers-all-rewards", held >= kept && m.init.map_or(owed == 0, |i| kept >= i + owed), || format!("pot {held}, reserved {kept}, initially {:?}, owed {owed}", m.init));
	for i in 1..=5u8 { let a = acc(i); let id = m.own.get(&a);
		let lock = pallet_balances::Locks::<Rt>::get(&a).iter().find(|l| l.id == pallet_staking::STAKING_LOCK_ID).map_or(0, |l| l.amount); let want = id.map_or(0, |i| m.pos[i].stake + m.pos[i].locked);
		c.check_in(P, "lock-is-stake-and-locked-rewards", lock == want, || format!("#{i} has {lock} locked, expected {want}"));
		c.check_in(P, "one-position-each", Staking::get_user_position_id(&a) == Ok(id.copied()), || format!("#{i}: {:?}, expected {id:?}", Staking::get_user_position_id(&a))); }
	let b = book().balanced(); c.check_in(P, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
/// runs a call; on failure nothing may have changed
fn act(c: &mut Ctx, call_: Call<Rt>, who: &Acc) -> Result<(), DispatchError> {
	let _ = take_events::<Rt>(); let root = raw(); let s = format!("{} {call_:?}", nm(who)); let r = call(RuntimeCall::Staking(call_), RuntimeOrigin::signed(who.clone())); c.log(|| format!("{s} at {}: {r:?}", System::block_number()));
	if r.is_err() { c.event("refused"); c.check_in(P, "refusal-leaves-no-trace", raw() == root, || s.clone()); } r
}
fn staking_events() -> Vec<Event<Rt>> { take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Staking(e) = e { Some(e) } else { None }).collect() }
fn close(a: FixedU128, b: u128) -> bool { a.into_inner().abs_diff(b) <= 1000 }
fn amount(c: &mut Ctx, room: u128) -> u128 { let l = Least::get(); match c.rng.idx(24) { 0 => room, 1 => room + 1, 2 => l.saturating_sub(1), 3 => c.rng.log(1, room.max(1)), 4..=8 => l, _ => l + c.rng.below((room / 4).max(1)) } }
fn stake(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let free = Currencies::free_balance(0, &who); let vest = Vest::with(|v| v.get(&who).copied().unwrap_or(0)); let room = free.saturating_sub(vest);
	let amt = amount(c, room);
	let ok = amt >= Least::get() && m.init.is_some() && !m.own.contains_key(&who) && free >= vest && room >= amt; let before = book(); let total = m.total; let save = m.clone(); let news = m.accrue();
	let r = act(c, Call::stake { amount: amt }, &who); c.check_in(P, "stakes-only-what-is-free", r.is_ok() == ok, || format!("#{i} stakes {amt} of {free} with {vest} vesting: {r:?}")); if r.is_err() { *m = save; return; }
	let id = m.next; m.next += 1; m.pos.insert(id, Pos { stake: amt, rps: m.rps, at: System::block_number(), ..Default::default() }); m.own.insert(who.clone(), id); m.total += amt; c.event("staked");
	let ev = staking_events(); let mut want = vec![]; if news { want.push(Event::AccumulatedRpsUpdated { accumulated_rps: FixedU128::from_inner(m.rps), total_stake: total }); } want.push(Event::PositionCreated { who, position_id: id, stake: amt });
	c.check_in(P, "staking-moves-nothing", before.moved_total(&book()).is_empty() && ev == want, || format!("{:?} {ev:?}", before.moved_total(&book())));
}
/// the position a call is about: mostly the caller's
fn target(c: &mut Ctx, m: &Model, who: &Acc) -> (u128, bool) { match m.own.get(who) { Some(id) if !c.rng.chance(1, 12) => (*id, true), x => { let id = c.rng.below(m.next.max(1) + 1); (id, x == Some(&id)) } } }
fn increase(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let (id, mine) = target(c, m, &who); let free = Currencies::free_balance(0, &who); let vest = Vest::with(|v| v.get(&who).copied().unwrap_or(0)); let room = free.saturating_sub(vest).saturating_sub(if mine { m.pos[&id].stake + m.pos[&id].locked } else { 0 });
	let amt = amount(c, room);
	let ok = amt >= Least::get() && m.init.is_some() && mine && !m.has_processed(&who) && free >= vest && room >= amt; let before = book();
	let save = m.clone(); m.accrue(); let r = act(c, Call::increase_stake { position_id: id, amount: amt }, &who); c.check_in(P, "adds-only-what-is-free", r.is_ok() == ok, || format!("#{i} adds {amt} of {free} with {vest} vesting to {:?}: {r:?}", m.pos.get(&id))); if r.is_err() { *m = save; return; }
	m.count_votes(&who, id); let p = m.pos[&id].clone(); let ev = staking_events(); let Some(Event::StakeAdded { payable_percentage, locked_rewards, slashed_points, total_stake, stake, position_id, who: w2 }) = ev.last().cloned() else { return c.violate("increase-is-reported", format!("{ev:?}")) };
	c.check_in("C10 C30", "share-follows-points", close(payable_percentage, m.share(&p)), || format!("{payable_percentage:?}, expected {} for {} points", m.share(&p), m.points(&p)));
	let (pay, rest) = m.payout(&p, payable_percentage.into_inner()); let pts = m.points(&p); let slash = ((w(amt) * w(pts) / (w(p.stake) * w(StakeW::get() as u128))).min(w(pts)).low_u128()).max(<MinSlashes as GetByKey<_, _>>::get(&payable_percentage)).min(pts);
	let q = m.pos.get_mut(&id).unwrap(); q.locked += pay; q.unpaid = rest; q.rps = m.rps; q.slash += slash; q.stake += amt; m.total += amt; m.kept -= pay; c.event("increased"); if pay > 0 { c.event("rewards-locked"); c.nontrivial((pay, rest, pts)); }
	c.check_in("C10 C30", "increase-reports-itself", (locked_rewards, slashed_points, total_stake, stake, position_id) == (pay, slash, p.stake + amt, amt, id) && w2 == who, || format!("{ev:?}, expected {pay} {slash}"));
	c.check_in(P, "increase-pays-the-rewards", before.moved_total(&book()) == Moves::new().mv(&pot(), &who, 0, pay), || format!("{:?}, expected {pay}", before.moved_total(&book())));
}
fn leave(c: &mut Ctx, m: &mut Model, i: u8, all: bool) {
	let who = acc(i); let (id, mine) = target(c, m, &who); let votes = m.votes.get(&id).map_or(0, |v| v.len()); let ok = m.init.is_some() && mine && !m.has_processed(&who) && !(all && votes > 0); let before = book();
	let save = m.clone(); m.accrue(); let r = act(c, if all { Call::unstake { position_id: id } } else { Call::claim { position_id: id } }, &who); c.check_in(P, "only-owners-claim", r.is_ok() == ok, || format!("#{i} {id} ({mine}, {votes} votes, counted {}): {r:?}", m.has_processed(&who))); if r.is_err() { *m = save; return; }
	if !all { m.count_votes(&who, id); } let p = m.pos[&id].clone(); let ev = staking_events(); let Some(Event::RewardsClaimed { paid_rewards, unlocked_rewards, slashed_points, slashed_unpaid_rewards, payable_percentage, position_id, who: w2 }) = ev.iter().find(|e| matches!(e, Event::RewardsClaimed { .. })).cloned() else { return c.violate("claim-is-reported", format!("{ev:?}")) };
	c.check_in("C10 C30", "share-follows-points", close(payable_percentage, m.share(&p)), || format!("{payable_percentage:?}, expected {} for {} points", m.share(&p), m.points(&p)));
	let (pay, rest) = m.payout(&p, payable_percentage.into_inner()); let pts = m.points(&p); let late = m.now() - period(p.at) > Unclaimable::get() as u128; let back = if all || late { rest } else { 0 };
	c.check_in("C10 C30", "claim-reports-itself", (paid_rewards, unlocked_rewards, slashed_points, slashed_unpaid_rewards, position_id) == (pay, p.locked, pts, back, id) && w2 == who, || format!("{ev:?}, expected {pay} {} {pts} {back}", p.locked));
	c.check_in(P, "claim-pays-the-rewards", before.moved_total(&book()) == Moves::new().mv(&pot(), &who, 0, pay), || format!("{:?}, expected {pay}", before.moved_total(&book())));
	m.kept -= pay + back; c.event(if all { "unstaked" } else { "claimed" }); if pay > 0 { c.event("paid"); c.nontrivial((pay, rest, pts)); }
	if all { m.total -= p.stake; m.pos.remove(&id); m.own.remove(&who); m.votes.remove(&id); c.check_in(P, "leaving-is-reported", ev.last() == Some(&Event::Unstaked { who, position_id: id, unlocked_stake: p.stake }), || format!("{ev:?}")); }
	else { let q = m.pos.get_mut(&id).unwrap(); q.locked = 0; q.unpaid = rest - back; q.slash += pts; q.rps = m.rps; }
}
fn vote(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let r = c.rng.idx(20) as u32; let free = Currencies::free_balance(0, &who); let amt = match c.rng.idx(4) { 0 => free, 1 => free * 2, _ => c.rng.log(1, free.max(1)) }; let k = c.rng.idx(8) as u8;
	let v = if k == 7 { AccountVote::Split { aye: amt / 3, nay: amt - amt / 3 } } else { AccountVote::Standard { vote: Ballot { aye: c.rng.chance(1, 2), conviction: Conviction::try_from(k).unwrap() }, balance: amt } };
	if Done::with(|d| d.contains(&r)) { return; } let root = raw(); let id = m.own.get(&who).copied(); let fits = id.map_or(true, |i| { let v = m.votes.get(&i).cloned().unwrap_or_default(); let open: Vec<_> = v.keys().filter(|x| !Done::with(|d| d.contains(x))).collect(); open.contains(&&r) || open.len() < MostVotes::get() as usize });
	let res = with_transaction(|| { let r = StakingDemocracy::<Rt>::on_vote(&who, r, v); match r { Ok(()) => TransactionOutcome::Commit(Ok::<_, DispatchError>(r)), _ => TransactionOutcome::Rollback(Ok(r)) } }).unwrap();
	c.log(|| format!("#{i} votes {v:?} on {r}: {res:?}")); c.check_in(P, "votes-are-recorded-while-there-is-room", res.is_ok() == fits, || format!("{res:?}")); if res.is_err() { c.event("too-many-votes"); return; }
	let Some(id) = id else { c.event("vote-without-stake"); c.check_in(P, "voting-needs-no-stake", raw() == root, || "changed".into()); return };
	m.count_votes(&who, id); let p = &m.pos[&id]; let most = free.saturating_sub(Vest::with(|v| v.get(&who).copied().unwrap_or(0))).saturating_sub(p.locked).min(p.stake);
	m.votes.entry(id).or_default().insert(r, (amt.min(most), if k == 7 { 0 } else { k })); c.event("voted");
}
fn unvote(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let id = m.own.get(&who).copied(); let counted = m.processed.keys().filter(|k| k.0 == who).map(|k| k.1); let open = id.and_then(|i| m.votes.get(&i)).map(|v| v.keys().copied().collect::<Vec<_>>()).unwrap_or_default(); let all: Vec<u32> = counted.chain(open).collect();
	let r = if all.is_empty() || c.rng.chance(1, 12) { c.rng.idx(20) as u32 } else { *c.rng.pick(&all) }; let done = Done::with(|d| d.contains(&r)); let fin = if done { Some(true) } else if c.rng.chance(1, 4) { None } else { Some(false) };
	let (root, before) = (raw(), book()); let lock = StakingDemocracy::<Rt>::remove_vote_locks_if_needed(&who, r); let want = id.and_then(|i| m.processed.get(&(who.clone(), r)).or_else(|| m.votes.get(&i).and_then(|v| v.get(&r)))).map(|v| v.0);
	c.check_in(P, "counted-votes-stay-locked", lock == want && raw() == root, || format!("#{i} on {r}: {lock:?}, expected {want:?}"));
	StakingDemocracy::<Rt>::on_remove_vote(&who, r, fin); c.log(|| format!("#{i} takes back the vote on {r} ({fin:?})")); c.check_in(P, "votes-move-nothing", before.moved_total(&book()).is_empty(), || "moved".into());
	if let Some(id) = id { if m.processed.remove(&(who, r)).is_some() { c.event("counted-vote-removed"); return; } if let Some(v) = m.votes.get_mut(&id).and_then(|v| v.remove(&r)) { c.event(if done { "vote-counted-on-removal" } else { "open-vote-removed" }); if done { let s = m.pos[&id].stake; m.pos.get_mut(&id).unwrap().action += per_vote(s, v); } } }
}
fn fee(c: &mut Ctx, m: &mut Model) {
	let a = if c.rng.chance(1, 8) { 1 } else { 0 }; let src = acc(9); let have = Currencies::free_balance(a, &src); let amt = match c.rng.idx(8) { 0 => have + 1, 1 => 1, 2 => 0, _ => c.rng.log(1, (have / 4).max(1)) }; let before = book();
	let r = with_transaction(|| { let r = Staking::process_trade_fee(src.clone(), a, amt); match r { Ok(_) => TransactionOutcome::Commit(Ok::<_, DispatchError>(r)), _ => TransactionOutcome::Rollback(Ok(r)) } }).unwrap(); c.log(|| format!("fee {amt} of {a}: {r:?}"));
	let takes = a == 0 && m.init.is_some(); c.check_in(P, "native-fees-go-to-the-pot", match r { Ok(v) => v == if takes { amt } else { 0 }, Err(_) => takes && (amt > have || have - amt < ed(0)) } && before.moved_total(&book()) == if r.is_ok() && takes { Moves::new().mv(&src, &pot(), 0, amt) } else { Moves::new() }, || format!("fee {amt} of {a}: {r:?} {:?}", before.moved_total(&book())));
	if r.is_ok() && takes { c.event("fee"); }
}
fn history(c: &mut Ctx) {
	fresh(|| {
		let unit = 10u128.pow(*c.rng.pick(&[0u32, 3, 12])); Eds::set([(0u32, *c.rng.pick(&[1, 1000]))].into()); Done::set(Default::default()); Vest::set(Default::default());
		Period::set(c.rng.range(1, 20) as u32); Least::set(unit * c.rng.range(1, 1000)); TimeW::set(*c.rng.pick(&[Permill::from_percent(100), Permill::from_percent(80), Permill::from_percent(33)])); ActW::set(*c.rng.pick(&[Perbill::from_percent(20), Perbill::from_percent(100), Perbill::from_parts(333_333_333)])); Unclaimable::set(c.rng.idx(4) as u32);
		Slope::set(FixedU128::from_inner(*c.rng.pick(&[20_000_000_000_000_000u128, 150_000_000_000_000_000, 700_000_000_000_000_000]))); StakeW::set(c.rng.range(1, 4) as u8); PerPeriod::set(c.rng.range(1, 5) as u8); PerAction::set(*c.rng.pick(&[100, 7])); MinSl::set(*c.rng.pick(&[0u128, 1, 50])); MostVotes::set(c.rng.range(2, 6) as u32);
		System::set_block_number(1); let mut m = Model::default();
		for i in 1..=5u8 { let v = if c.rng.chance(1, 6) { unit * c.rng.log(1, 1_000_000) } else { Least::get() * c.rng.range(2, 400) } + ed(0); give_native::<Rt>(&acc(i), v); if c.rng.chance(1, 4) { let k = if c.rng.chance(1, 2) { c.rng.below(v + v / 8) } else { c.rng.below(v / 2 + 1) }; Vest::with(|m| m.insert(acc(i), k)); } }
		give_native::<Rt>(&acc(9), unit * 100_000_000 + ed(0)); give::<Rt>(&acc(9), 1, unit * 1000);
		if c.rng.chance(3, 4) { give_native::<Rt>(&pot(), ed(0) + c.rng.log(1, unit * 100)); }
		for _ in 0..80 {
			if c.failed() { return; } let mut i = 1 + c.rng.idx(5) as u8; let stakers: Vec<u8> = (1..=5u8).filter(|i| m.own.contains_key(&acc(*i))).collect(); let k = c.rng.idx(28); if matches!(k, 6..=16 | 21..=23) && !stakers.is_empty() && !c.rng.chance(1, 10) { i = *c.rng.pick(&stakers); }
			match k {
				0..=1 if m.init.is_some() && !c.rng.chance(1, 10) => stake(c, &mut m, i),
				0..=1 => { let root = c.rng.chance(7, 8); let held = Currencies::free_balance(0, &pot()); let (r0, o) = (raw(), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(i)) }); let r = call(RuntimeCall::Staking(Call::initialize_staking {}), o); c.log(|| format!("initialise: {r:?}"));
					c.check_in(P, "initialised-once-by-the-authority", r.is_ok() == (root && m.init.is_none() && held > 0), || format!("{r:?} with {held}, {:?}", m.init)); if r.is_ok() { m.init = Some(held); m.kept = held; c.event("initialised"); } else { c.check_in(P, "refusal-leaves-no-trace", raw() == r0, || "initialise".into()); if held == 0 { give_native::<Rt>(&pot(), ed(0) + unit); } } }
				2..=5 => stake(c, &mut m, i), 6..=8 => increase(c, &mut m, i), 9..=10 => leave(c, &mut m, i, false), 11 => leave(c, &mut m, i, true), 12..=14 => vote(c, &mut m, i), 15..=16 => unvote(c, &mut m, i),
				17..=19 => fee(c, &mut m), 20 => { let voted: Vec<u32> = m.votes.values().flat_map(|v| v.keys().copied()).collect(); let r = if voted.is_empty() || c.rng.chance(1, 4) { c.rng.idx(20) as u32 } else { *c.rng.pick(&voted) }; Done::with(|d| { d.insert(r); }); c.log(|| format!("referendum {r} ends")); }
				22..=23 => unvote(c, &mut m, i), 21 => { let who = acc(i); if let Some(id) = m.own.get(&who) { let (root, b) = (raw(), c.rng.chance(1, 2)); let r = call(RuntimeCall::Uniques(pallet_uniques::Call::transfer { collection: 2222, item: *id, dest: acc(1 + i % 5) }), RuntimeOrigin::signed(who.clone())); c.check_in(P, "positions-stay-with-their-owner", r.is_err() && raw() == root, || format!("{r:?}")); let _ = b;
					// staked money cannot leave
					let free = Currencies::free_balance(0, &who); let lock = m.pos[id].stake + m.pos[id].locked; let most = free.saturating_sub(lock); let r = with_transaction(|| { let r = Currencies::transfer(RuntimeOrigin::signed(who.clone()), acc(9), 0, most + 1); TransactionOutcome::Rollback(Ok::<_, DispatchError>(r)) }).unwrap(); c.event("held-back"); c.check_in(P, "staked-money-stays", r.is_err(), || format!("{} of {free} with {lock} locked: {r:?}", most + 1)); } }
				_ => { let n = match c.rng.idx(3) { 0 => 1, 1 => c.rng.range(1, 30) as u32, _ => Period::get() * c.rng.range(1, 60) as u32 }; System::set_block_number(System::block_number() + n); c.event("time"); }
			}
			state(c, &m);
		}
		c.distinct("shape", (m.pos.len(), m.next, Unclaimable::get())); c.sample(|| json!({"positions": m.pos.len(), "rewards_per_stake": m.rps.to_string(), "kept": m.kept.to_string()}));
	});
}
fn run(m: &mut Monitor) {
	m.workload("staking", 3_000, 120_000, history);
	for (e, n) in [("initialised", 2000), ("staked", 4000), ("increased", 2000), ("claimed", 2000), ("unstaked", 500), ("paid", 500), ("rewards-locked", 500), ("voted", 2000), ("open-vote-removed", 300), ("vote-counted-on-removal", 100), ("counted-vote-removed", 300), ("too-many-votes", 20), ("fee", 5000), ("refused", 1000), ("held-back", 500)] { m.expect(&format!("staking/{e}"), n); }
}
#[allow(unused)] fn unused() { let _: Option<StorageVersion> = None; fn t<T: TypedGet>() {} }
fn main() { mon_core::run!(1.0, "distinct payouts: rewards paid, rewards kept back, points", ["the staking pallet is compiled from the source tree on a stand-in for FRAME", "referendum results and vesting schedules are scripted"]; "C30" => run, "C10" => run); }

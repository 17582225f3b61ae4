//! Democracy: proposals, referenda, votes, delegations and locks over whole histories of blocks, against a model that
//! counts every tally anew from who votes what and who follows whom.
use mon_core::big::{w, U512};
use mon_frame::*;
use frame_support::{storage::{with_transaction, TransactionOutcome}, traits::{schedule, Bounded, EnsureOrigin, Hooks, QueryPreimage, StorePreimage, ReservableCurrency}};
use frame_support::traits::schedule::DispatchTime;
use pallet_democracy::{AccountVote, Blacklist, Call as C, Cancellations, Conviction, DepositOf, Event as Ev, MetadataOf, MetadataOwner, NextExternal, PublicProps, ReferendumInfo, ReferendumInfoOf, Tally, Vote, VoteThreshold, Voting, VotingOf, Approved};
use codec::{Decode, Encode};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Democracy: pallet_democracy });
base!(Rt);
const ID: [u8; 8] = *b"democrac";
const MAX_VOTES: u32 = 4; const MAX_PROPS: u32 = 4; const MAX_DEPOSITS: u32 = 4; const MAX_VETOES: u32 = 2;
#[derive(Clone, Copy, Debug)] pub struct P { enact: u32, launch: u32, voting: u32, locking: u32, min: u128, instant: bool, fast: u32, cooloff: u32 }
param! { Pm: P = P { enact: 1, launch: 1, voting: 1, locking: 1, min: 1, instant: false, fast: 1, cooloff: 1 }; FailVote: bool = false; FailSched: bool = false; ToLock: BTreeMap<(Acc, u32), u128> = Default::default();
	Told: Vec<String> = vec![]; Sched: Vec<([u8; 32], DispatchTime<u32>, H256, bool, u8, bool)> = vec![]; Known: BTreeSet<u8> = Default::default(); }
macro_rules! gets { ($($n:ident: $t:ty = $f:ident;)+) => { $(pub struct $n; impl Get<$t> for $n { fn get() -> $t { Pm::get().$f } })+ } }
gets! { Enact: u32 = enact; Launch: u32 = launch; VotingP: u32 = voting; Locking: u32 = locking; MinDep: u128 = min; Instant: bool = instant; Fast: u32 = fast; Cool: u32 = cooloff; }
/// an origin held by the accounts A..A+N
pub struct Only<const A: u8, const N: u8 = 1>;
impl<const A: u8, const N: u8> EnsureOrigin<RuntimeOrigin> for Only<A, N> { type Success = Acc; fn try_origin(o: RuntimeOrigin) -> Result<Acc, RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(a) if (A..A + N).any(|n| acc(n) == a) => Ok(a), _ => Err(o) } } }
const EXT: u8 = 101; const MAJ: u8 = 102; const DEF: u8 = 103; const FASTT: u8 = 104; const INST: u8 = 105; const CANC: u8 = 106; const BLACK: u8 = 107; const CPROP: u8 = 108; const VETO: u8 = 110;
pub struct Hook;
impl pallet_democracy::traits::DemocracyHooks<Acc, u128> for Hook {
	fn on_vote(a: &Acc, r: u32, v: AccountVote<u128>) -> DispatchResult { Told::with(|t| t.push(format!("{} votes {v:?} on {r}", nm(a)))); if FailVote::get() { Err(DispatchError::Other("no")) } else { Ok(()) } }
	fn on_remove_vote(a: &Acc, r: u32, f: Option<bool>) { Told::with(|t| t.push(format!("{} removes {r} {f:?}", nm(a)))); }
	fn remove_vote_locks_if_needed(a: &Acc, r: u32) -> Option<u128> { ToLock::with(|t| t.get(&(a.clone(), r)).copied()) }
}
fn hh(i: u8) -> H256 { H256::repeat_byte(i) }
pub struct Pre;
impl QueryPreimage for Pre { type H = BlakeTwo256; fn len(h: &H256) -> Option<u32> { Known::with(|k| k.iter().any(|i| hh(*i) == *h)).then(|| 5) } fn fetch(_: &H256, _: Option<u32>) -> Result<std::borrow::Cow<'static, [u8]>, DispatchError> { Err(DispatchError::Unavailable) } fn is_requested(_: &H256) -> bool { false } fn request(_: &H256) {} fn unrequest(_: &H256) {} }
impl StorePreimage for Pre { const MAX_LENGTH: usize = 1024; fn note(_: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError> { Err(DispatchError::Unavailable) } }
pub struct Diary;
impl schedule::v3::Named<u32, RuntimeCall, OriginCaller> for Diary {
	type Address = (); type Hasher = BlakeTwo256;
	fn schedule_named(id: [u8; 32], w: DispatchTime<u32>, p: Option<(u32, u32)>, pr: u8, o: OriginCaller, c: Bounded<RuntimeCall, BlakeTwo256>) -> Result<(), DispatchError> { if FailSched::get() { return Err(DispatchError::Other("full")); } let root = matches!(frame_system::RawOrigin::<Acc>::try_from(o), Ok(frame_system::RawOrigin::Root)); Sched::with(|s| s.push((id, w, c.hash(), root, pr, p.is_some()))); Ok(()) }
	fn cancel_named(_: [u8; 32]) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) } fn reschedule_named(_: [u8; 32], _: DispatchTime<u32>) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) } fn next_dispatch_time(_: [u8; 32]) -> Result<u32, DispatchError> { Err(DispatchError::Unavailable) }
}
impl pallet_democracy::Config for Rt {
	type WeightInfo = (); type RuntimeEvent = RuntimeEvent; type Scheduler = Diary; type Preimages = Pre; type Currency = Balances; type EnactmentPeriod = Enact; type LaunchPeriod = Launch; type VotingPeriod = VotingP; type VoteLockingPeriod = Locking; type MinimumDeposit = MinDep; type InstantAllowed = Instant; type FastTrackVotingPeriod = Fast; type CooloffPeriod = Cool;
	type MaxVotes = frame_support::traits::ConstU32<MAX_VOTES>; type MaxProposals = frame_support::traits::ConstU32<MAX_PROPS>; type MaxDeposits = frame_support::traits::ConstU32<MAX_DEPOSITS>; type MaxBlacklisted = frame_support::traits::ConstU32<MAX_VETOES>;
	type ExternalOrigin = Only<EXT>; type ExternalMajorityOrigin = Only<MAJ>; type ExternalDefaultOrigin = Only<DEF>; type SubmitOrigin = frame_system::EnsureSigned<Acc>; type FastTrackOrigin = Only<FASTT>; type InstantOrigin = Only<INST>; type CancellationOrigin = Only<CANC>; type BlacklistOrigin = Only<BLACK>; type CancelProposalOrigin = Only<CPROP>; type VetoOrigin = Only<VETO, 4>;
	type PalletsOrigin = OriginCaller; type Slash = (); type DemocracyHooks = Hook;
}
type Prop = Bounded<RuntimeCall, BlakeTwo256>;
fn pr(i: u8) -> Prop { Bounded::Lookup { hash: hh(i), len: 10 } }

type AV = AccountVote<u128>;
#[derive(Clone, Default, Debug, PartialEq)] struct Voter { votes: BTreeMap<u32, AV>, follows: Option<(Acc, u8, u128)>, prior: (u32, u128), lock: u128, owed: Vec<(u32, u128)> }
#[derive(Clone, Debug, PartialEq)] enum Ref { On { end: u32, h: u8, th: VoteThreshold, delay: u32 }, Over { end: u32, ok: bool } }
#[derive(Clone, Default, Debug, PartialEq)]
struct Model { now: u32, count: u32, nprops: u32, props: Vec<(u32, u8, Acc)>, deps: BTreeMap<u32, (Vec<Acc>, u128)>, ext: Option<(u8, VoteThreshold)>, last_ext: bool, refs: BTreeMap<u32, Ref>, voters: BTreeMap<Acc, Voter>, black: BTreeMap<u8, (u32, BTreeSet<Acc>)>, cancelled: BTreeSet<u8>, meta: BTreeMap<Vec<u8>, u8>, free: BTreeMap<Acc, u128>, res: BTreeMap<Acc, u128>, evs: Vec<Ev<Rt>>, told: Vec<String>, sched: Vec<(u32, u32, u8)> }
fn conv(c: u8) -> Conviction { Conviction::try_from(c).unwrap() }
const PERIODS: [u32; 7] = [0, 1, 2, 4, 8, 16, 32];
fn weight(c: u8, b: u128) -> u128 { if c == 0 { b / 10 } else { b * c as u128 } }
fn bal(v: &AV) -> u128 { match v { AccountVote::Standard { balance, .. } => *balance, AccountVote::Split { aye, nay } => aye.saturating_add(*nay) } }
impl Model {
	fn voter(&self, a: &Acc) -> Voter { self.voters.get(a).cloned().unwrap_or_default() }
	/// ayes, nays, turnout from scratch
	fn tally(&self, r: u32) -> (u128, u128, u128) {
		let mut t = (0, 0, 0);
		for (a, v) in &self.voters { if let Some(x) = v.votes.get(&r) { match x {
			AccountVote::Standard { vote, balance } => {
				let (mut wt, mut cap) = (weight(u8::from(vote.conviction), *balance), *balance);
				for f in self.voters.values() { if let Some((to, c, b)) = &f.follows { if to == a { wt += weight(*c, *b); cap += b; } } }
				t.2 += cap; if vote.aye { t.0 += wt } else { t.1 += wt }
			}
			AccountVote::Split { aye, nay } => { t.0 += aye / 10; t.1 += nay / 10; t.2 += aye + nay; }
		} } }
		t
	}
	fn delegated(&self, a: &Acc) -> (u128, u128) { let mut t = (0, 0); for f in self.voters.values() { if let Some((to, c, b)) = &f.follows { if to == a { t.0 += weight(*c, *b); t.1 += b; } } } t }
	fn need(&self, a: &Acc) -> u128 { let v = self.voter(a); v.votes.values().map(bal).chain(v.follows.iter().map(|f| f.2)).fold(v.prior.1, u128::max) }
	fn ev(&mut self, e: Ev<Rt>) { self.evs.push(e) }
	fn clear(&mut self, o: MetadataOwner) { if let Some(h) = self.meta.remove(&o.encode()) { self.ev(Ev::MetadataCleared { owner: o, hash: hh(h) }); } }
	fn hand(&mut self, o: MetadataOwner, n: MetadataOwner) { if let Some(h) = self.meta.remove(&o.encode()) { self.meta.insert(n.encode(), h); self.ev(Ev::MetadataTransferred { prev_owner: o, owner: n, hash: hh(h) }); } }
	fn start(&mut self, end: u32, h: u8, th: VoteThreshold, delay: u32) -> u32 { let i = self.count; self.count += 1; self.refs.insert(i, Ref::On { end, h, th, delay }); self.ev(Ev::Started { ref_index: i, threshold: th }); i }
	fn cancel(&mut self, r: u32) { self.ev(Ev::Cancelled { ref_index: r }); self.refs.remove(&r); self.clear(MetadataOwner::Referendum(r)); }
	fn slash(&mut self, i: u32) { if let Some((who, v)) = self.deps.remove(&i) { for a in who { *self.res.get_mut(&a).unwrap() -= v; } } }
	fn launch_public(&mut self) -> bool {
		if self.props.is_empty() { return false; }
		let back = |p: &(u32, u8, Acc)| self.deps.get(&p.0).map_or(0, |d| d.1 * d.0.len() as u128);
		let k = (0..self.props.len()).max_by_key(|k| back(&self.props[*k])).unwrap(); let (i, h, _) = self.props.swap_remove(k);
		if let Some((who, v)) = self.deps.remove(&i) { for a in who { *self.res.get_mut(&a).unwrap() -= v; *self.free.get_mut(&a).unwrap() += v; } self.ev(Ev::Tabled { proposal_index: i, deposit: v }); let p = Pm::get(); let r = self.start(self.now + p.voting, h, VoteThreshold::SuperMajorityApprove, p.enact); self.hand(MetadataOwner::Proposal(i), MetadataOwner::Referendum(r)); }
		true
	}
	fn launch_external(&mut self) -> bool { match self.ext.take() { None => false, Some((h, th)) => { let p = Pm::get(); self.last_ext = true; self.ev(Ev::ExternalTabled); let r = self.start(self.now + p.voting, h, th, p.enact); self.hand(MetadataOwner::External, MetadataOwner::Referendum(r)); true } } }
	fn block(&mut self, issuance: u128) {
		self.now += 1; let due: Vec<u32> = self.refs.iter().filter(|(_, r)| matches!(r, Ref::On { end, .. } if *end == self.now)).map(|x| *x.0).collect();
		if self.now % Pm::get().launch == 0 { if std::mem::take(&mut self.last_ext) { let _ = self.launch_public() || self.launch_external(); } else { let _ = self.launch_external() || self.launch_public(); } }
		for i in due { if let Ref::On { h, th, delay, .. } = self.refs[&i].clone() {
			let ok = passes(th, self.tally(i), issuance); self.ev(if ok { Ev::Passed { ref_index: i } } else { Ev::NotPassed { ref_index: i } });
			if ok && !FailSched::get() { self.sched.push((i, self.now + delay.max(1), h)); }
			self.refs.insert(i, Ref::Over { end: self.now, ok });
		} }
	}
}
fn isqrt(n: u128) -> u128 { let (mut lo, mut hi) = (0u128, 1u128 << 64); while lo + 1 < hi { let m = lo + (hi - lo) / 2; if m.checked_mul(m).map_or(false, |x| x <= n) { lo = m } else { hi = m } } lo }
/// whether the vote carries, by cross-multiplication in 512 bits
fn passes(th: VoteThreshold, t: (u128, u128, u128), electorate: u128) -> bool {
	let (v, e): (U512, U512) = (w(isqrt(t.2)), w(isqrt(electorate))); if t.2 == 0 { return false; }
	match th { VoteThreshold::SuperMajorityApprove => w(t.1) * e < w(t.0) * v, VoteThreshold::SuperMajorityAgainst => w(t.1) * v < w(t.0) * e, VoteThreshold::SimpleMajority => t.0 > t.1 }
}
const WHO: u8 = 6;
fn compare(c: &mut Ctx, m: &Model, what: &str) {
	let mut props: Vec<(u32, H256, Acc)> = PublicProps::<Rt>::get().into_iter().map(|x| (x.0, x.1.hash(), x.2)).collect(); props.sort(); let mut want: Vec<_> = m.props.iter().map(|x| (x.0, hh(x.1), x.2.clone())).collect(); want.sort();
	c.check("proposals-wait-until-tabled", props == want, || format!("after {what}: {props:?}, model {want:?}"));
	let deps: BTreeMap<u32, (Vec<Acc>, u128)> = DepositOf::<Rt>::iter().map(|(k, (a, v))| (k, (a.to_vec(), v))).collect();
	c.check("backers-are-recorded", deps == m.deps, || format!("after {what}: {deps:?}, model {:?}", m.deps));
	let ext = NextExternal::<Rt>::get().map(|x| (x.0.hash(), x.1)); c.check("external-proposal", ext == m.ext.map(|x| (hh(x.0), x.1)), || format!("after {what}: {ext:?}, model {:?}", m.ext));
	let mut refs = BTreeMap::new(); let mut tallies = BTreeMap::new();
	for (k, i) in ReferendumInfoOf::<Rt>::iter() { match i { ReferendumInfo::Ongoing(s) => { refs.insert(k, format!("{:?} {} {:?} {}", s.proposal.hash(), s.end, s.threshold, s.delay)); tallies.insert(k, (s.tally.ayes, s.tally.nays, s.tally.turnout)); } ReferendumInfo::Finished { approved, end } => { refs.insert(k, format!("{approved} {end}")); } } }
	let want: BTreeMap<u32, String> = m.refs.iter().map(|(k, r)| (*k, match r { Ref::On { end, h, th, delay } => format!("{:?} {} {:?} {}", hh(*h), end, th, delay), Ref::Over { end, ok } => format!("{ok} {end}") })).collect();
	c.check("referenda-run-their-course", refs == want && Democracy::referendum_count() == m.count, || format!("after {what}: {refs:?}, model {want:?}"));
	let want: BTreeMap<u32, _> = m.refs.iter().filter(|r| matches!(r.1, Ref::On { .. })).map(|r| (*r.0, m.tally(*r.0))).collect();
	c.check("tally-counts-every-vote-once", tallies == want, || format!("after {what}: {tallies:?}, counted {want:?}"));
	let meta: BTreeMap<Vec<u8>, H256> = MetadataOf::<Rt>::iter().map(|(k, v)| (k.encode(), v)).collect(); c.check("metadata-follows-its-subject", meta == m.meta.iter().map(|(k, v)| (k.clone(), hh(*v))).collect(), || format!("after {what}: {meta:?}, model {:?}", m.meta));
	let black: BTreeMap<H256, (u32, Vec<Acc>)> = Blacklist::<Rt>::iter().map(|(k, (u, v))| (k, (u, { let mut v = v.to_vec(); v.sort(); v }))).collect(); c.check("vetoes-and-blacklist", black == m.black.iter().map(|(k, (u, v))| (hh(*k), (*u, v.iter().cloned().collect()))).collect(), || format!("after {what}: {black:?}, model {:?}", m.black));
	let can: BTreeSet<H256> = Cancellations::<Rt>::iter().map(|x| x.0).collect(); c.check("cancellations-are-remembered", can == m.cancelled.iter().map(|x| hh(*x)).collect(), || format!("after {what}: {can:?}"));
	for n in 0..WHO {
		let a = acc(n); let (f, r) = (Balances::free_balance(&a), <Balances as ReservableCurrency<Acc>>::reserved_balance(&a));
		c.check("deposits-are-held-given-back-or-slashed", f == m.free[&a] && r == m.res[&a], || format!("after {what}: {} has {f} free, {r} reserved; model {} and {}", nm(&a), m.free[&a], m.res[&a]));
		let lock = Balances::locks(&a).iter().find(|l| l.id == ID).map_or(0, |l| l.amount); let v = m.voter(&a);
		c.check("lock-is-the-largest-commitment", lock == v.lock, || format!("after {what}: {} is locked {lock}, model {v:?}", nm(&a)));
		let owed = v.owed.iter().filter(|o| o.0 > m.now).map(|o| o.1).chain(v.votes.values().map(bal)).chain(v.follows.iter().map(|f| f.2)).max().unwrap_or(0);
		c.check("nobody-is-freed-early", lock >= owed, || format!("after {what}: {} is locked {lock} at {} and owes {owed}: {v:?}", nm(&a), m.now));
		let d = m.delegated(&a);
		let same = match VotingOf::<Rt>::get(&a) {
			Voting::Direct { votes, delegations, prior } => v.follows.is_none() && votes.iter().cloned().collect::<BTreeMap<_, _>>() == v.votes && (delegations.votes, delegations.capital) == d && prior.locked() == v.prior.1,
			Voting::Delegating { balance, target, conviction, delegations, prior } => v.follows == Some((target, u8::from(conviction), balance)) && (delegations.votes, delegations.capital) == d && prior.locked() == v.prior.1,
		};
		c.check("votes-and-delegations-are-those-cast", same, || format!("after {what}: {} {:?}, model {v:?} followed by {d:?}", nm(&a), VotingOf::<Rt>::get(&a)));
	}
}
fn history(c: &mut Ctx) {
	fresh(|| {
		let r = &mut c.rng;
		Pm::set(P { enact: r.range(0, 3) as u32, launch: r.range(1, 6) as u32, voting: r.range(1, 9) as u32, locking: r.range(1, 5) as u32, min: r.range(1, 1000), instant: r.chance(1, 2), fast: r.range(1, 5) as u32, cooloff: r.range(1, 12) as u32 });
		FailVote::set(false); FailSched::set(false); ToLock::set(Default::default()); Told::set(vec![]); Sched::set(vec![]); Known::set([1, 2, 3].into());
		let mut m = Model { now: r.range(1, 20) as u32, ..Default::default() }; System::set_block_number(m.now); let _ = take_events::<Rt>();
		for n in 0..WHO { let v = match r.idx(4) { 0 => r.range(1_000, 100_000), _ => r.log(10_000, 10u128.pow(24)) }; give_native::<Rt>(&acc(n), v); m.free.insert(acc(n), v); m.res.insert(acc(n), 0); }
		if r.chance(1, 2) { give_native::<Rt>(&acc(200), r.log(1, 10u128.pow(25))); }
		for _ in 0..90 {
			let r = &mut c.rng; FailVote::set(r.chance(1, 12)); FailSched::set(r.chance(1, 20)); Told::set(vec![]); let _ = take_events::<Rt>();
			let a = acc(r.idx(WHO as usize) as u8); let b = acc(r.idx(WHO as usize) as u8); let h = r.range(1, 6) as u8;
			let on: Vec<u32> = m.refs.iter().filter(|x| matches!(x.1, Ref::On { .. })).map(|x| *x.0).collect();
			let any = if !on.is_empty() && r.chance(5, 6) { *r.pick(&on) } else { r.below(m.count as u128 + 2) as u32 };
			let priv_ = |r: &mut Rng, n: u8| if r.chance(4, 5) { acc(n) } else { acc(*r.pick(&[0, EXT, MAJ, DEF, FASTT, INST, CANC, BLACK, CPROP, VETO])) };
			let before = m.clone(); let mut n = m.clone(); n.evs.clear(); n.told.clear(); n.sched.clear(); let p = Pm::get(); let now = m.now;
			let barred = |h: u8| m.black.get(&h).map_or(false, |x| now < x.0);
			// what can be reserved is decided by the currency
			let money = |a: &Acc, v: u128, ok: bool| if !ok { Some(false) } else if <Balances as ReservableCurrency<Acc>>::can_reserve(a, v) { Some(true) } else if Balances::free_balance(a) < v.saturating_add(m.voter(a).lock) { Some(false) } else { None };
			let op = r.idx(30);
			let (name, want, call_, who): (&str, Option<bool>, Option<C<Rt>>, Acc) = match op {
				0..=5 => ("block", Some(true), None, a),
				6 | 7 => {
					let v = match r.idx(8) { 0 => p.min - 1, 1 => m.free[&a], _ => p.min + r.range(0, 500) }; let ok = v >= p.min && (m.props.len() as u32) < MAX_PROPS && !barred(h); let i = m.nprops;
					n.nprops += 1; n.props.push((i, h, a.clone())); n.deps.insert(i, (vec![a.clone()], v)); n.ev(Ev::Proposed { proposal_index: i, deposit: v });
					let want = money(&a, v, ok); *n.free.get_mut(&a).unwrap() = m.free[&a].saturating_sub(v); *n.res.get_mut(&a).unwrap() += v;
					("propose", want, Some(C::propose { proposal: pr(h), value: v }), a)
				}
				8 => {
					let i = if !m.deps.is_empty() && r.chance(7, 8) { *r.pick(&m.deps.keys().copied().collect::<Vec<_>>()) } else { r.below(m.nprops as u128 + 1) as u32 };
					let d = m.deps.get(&i).cloned(); let v = d.as_ref().map_or(0, |x| x.1); let ok = d.map_or(false, |x| (x.0.len() as u32) < MAX_DEPOSITS);
					if let Some(x) = n.deps.get_mut(&i) { x.0.push(a.clone()); } n.ev(Ev::Seconded { seconder: a.clone(), prop_index: i });
					let want = money(&a, v, ok); *n.free.get_mut(&a).unwrap() = m.free[&a].saturating_sub(v); *n.res.get_mut(&a).unwrap() += v;
					("second", want, Some(C::second { proposal: i }), a)
				}
				9..=14 => {
					let f = m.free[&a]; let amt = |r: &mut Rng| match r.idx(8) { 0 => 0, 1 => f, 2 => f + 1, _ => r.log(1, f.max(1)) };
					let vote = if r.chance(1, 5) { let x = amt(r); let y = match r.idx(6) { 0 => u128::MAX, _ => f.saturating_sub(x) / r.range(1, 9) }; AccountVote::Split { aye: x, nay: y } } else { AccountVote::Standard { vote: Vote { aye: r.chance(1, 2), conviction: conv(r.idx(7) as u8) }, balance: amt(r) } };
					let v = m.voter(&a); let ok = on.contains(&any) && bal(&vote) <= f && v.follows.is_none() && (v.votes.contains_key(&any) || (v.votes.len() as u32) < MAX_VOTES) && !FailVote::get();
					let x = n.voters.entry(a.clone()).or_default(); x.votes.insert(any, vote); x.lock = x.lock.max(bal(&vote)); n.ev(Ev::Voted { voter: a.clone(), ref_index: any, vote }); n.told.push(format!("{} votes {vote:?} on {any}", nm(&a)));
					("vote", Some(ok), Some(C::vote { ref_index: any, vote }), a)
				}
				15 | 16 => {
					let over = |x: &Acc| m.voter(x).votes.keys().copied().filter(|i| matches!(m.refs.get(i), Some(Ref::Over { .. }))).collect::<Vec<u32>>(); let t = if r.chance(1, 2) { a.clone() } else { b.clone() }; let v = m.voter(&t); let i = if !over(&t).is_empty() && r.chance(1, 2) { *r.pick(&over(&t)) } else if !v.votes.is_empty() && r.chance(7, 8) { *r.pick(&v.votes.keys().copied().collect::<Vec<_>>()) } else { any };
					let most = v.votes.get(&i).map_or(0, bal); if most > 0 && r.chance(1, 2) { let x = r.log(1, most); ToLock::with(|l| { l.insert((t.clone(), i), x); }); } else { ToLock::with(|l| { l.remove(&(t.clone(), i)); }); }
					let own = a == t; let mut ok = v.follows.is_some() || v.votes.contains_key(&i);
					if v.follows.is_none() && ok {
						let mut fin = None; let x = n.voters.get_mut(&t).unwrap();
						match m.refs.get(&i) { Some(Ref::On { .. }) => { ok = own; fin = Some(false); } Some(Ref::Over { end, ok: passed }) => {
							fin = Some(true);
							if let AccountVote::Standard { vote, balance } = v.votes[&i] {
								let until = end + p.locking * PERIODS[u8::from(vote.conviction) as usize]; let held = if vote.aye == *passed { Some(balance) } else { ToLock::with(|l| l.get(&(t.clone(), i)).copied()) };
								if let Some(z) = held { if now < until { ok = own; x.prior = (x.prior.0.max(until), x.prior.1.max(z)); x.owed.push((until, z)); c.event(if vote.aye == *passed { "conviction kept" } else { "lost vote kept locked" }); } }
							} } None => {} }
						x.votes.remove(&i); n.told.push(format!("{} removes {i} {fin:?}", nm(&t)));
					}
					if own && c.rng.chance(1, 2) { ("remove vote", Some(ok), Some(C::remove_vote { index: i }), a) } else { ("remove vote of", Some(ok), Some(C::remove_other_vote { target: t, index: i }), a) }
				}
				17 | 18 => {
					let cv = r.idx(7) as u8; let f = m.free[&a]; let v = match r.idx(6) { 0 => f + 1, 1 => f, 2 => 0, _ => r.log(1, f.max(1)) }; let x = m.voter(&a); let ok = a != b && v <= f && x.votes.is_empty();
					let y = n.voters.entry(a.clone()).or_default(); if let Some((_, oc, ob)) = &x.follows { let u = now + p.locking * PERIODS[*oc as usize]; y.prior = (y.prior.0.max(u), y.prior.1.max(*ob)); y.owed.push((u, *ob)); }
					y.follows = Some((b.clone(), cv, v)); y.lock = y.lock.max(v); n.ev(Ev::Delegated { who: a.clone(), target: b.clone() });
					("delegate", Some(ok), Some(C::delegate { to: b, conviction: conv(cv), balance: v }), a)
				}
				19 => {
					let x = m.voter(&a); let y = n.voters.entry(a.clone()).or_default(); if let Some((_, oc, ob)) = &x.follows { let u = now + p.locking * PERIODS[*oc as usize]; y.prior = (y.prior.0.max(u), y.prior.1.max(*ob)); y.owed.push((u, *ob)); }
					y.follows = None; n.ev(Ev::Undelegated { account: a.clone() });
					("undelegate", Some(x.follows.is_some()), Some(C::undelegate {}), a)
				}
				20 => { let y = n.voters.entry(b.clone()).or_default(); if now >= y.prior.0 { y.prior = (0, 0); } y.owed.retain(|o| o.0 > now); let l = n.need(&b); n.voters.get_mut(&b).unwrap().lock = l; ("unlock", Some(true), Some(C::unlock { target: b }), a) }
				21 => { let o = priv_(r, EXT); n.ext = Some((h, VoteThreshold::SuperMajorityApprove)); ("external", Some(o == acc(EXT) && m.ext.is_none() && !barred(h)), Some(C::external_propose { proposal: pr(h) }), o) }
				22 => { let maj = r.chance(1, 2); let o = priv_(r, if maj { MAJ } else { DEF }); n.ext = Some((h, if maj { VoteThreshold::SimpleMajority } else { VoteThreshold::SuperMajorityAgainst })); if maj { ("external majority", Some(o == acc(MAJ)), Some(C::external_propose_majority { proposal: pr(h) }), o) } else { ("external default", Some(o == acc(DEF)), Some(C::external_propose_default { proposal: pr(h) }), o) } }
				23 => {
					let inst = r.chance(1, 3); let o = priv_(r, if inst { INST } else { FASTT }); let h = m.ext.filter(|_| r.chance(5, 6)).map_or(h, |x| x.0); let vp = r.below(p.fast as u128 + 3) as u32; let delay = r.below(4) as u32;
					let may = (vp >= p.fast && o == acc(FASTT)) || (p.instant && o == acc(INST)); let ok = may && vp > 0 && m.ext.map_or(false, |x| x.0 == h && x.1 != VoteThreshold::SuperMajorityApprove);
					if let Some((_, th)) = m.ext { n.ext = None; let i = n.start(now + vp, h, th, delay); n.hand(MetadataOwner::External, MetadataOwner::Referendum(i)); }
					("fast track", Some(ok), Some(C::fast_track { proposal_hash: hh(h), voting_period: vp, delay }), o)
				}
				24 => {
					let k = r.idx(5) as u8; let o = acc(VETO + k); let h = m.ext.filter(|_| r.chance(7, 8)).map_or(h, |x| x.0); let by = m.black.get(&h).map(|x| x.1.clone()).unwrap_or_default();
					let ok = k < 4 && m.ext.map_or(false, |x| x.0 == h) && !by.contains(&o) && (by.len() as u32) < MAX_VETOES; let until = now + p.cooloff;
					let e = n.black.entry(h).or_default(); e.0 = until; e.1.insert(o.clone()); n.ev(Ev::Vetoed { who: o.clone(), proposal_hash: hh(h), until }); n.ext = None; n.clear(MetadataOwner::External);
					("veto", Some(ok), Some(C::veto_external { proposal_hash: hh(h) }), o)
				}
				25 => {
					if r.chance(1, 2) {
						let o = priv_(r, CANC); let hd = match m.refs.get(&any) { Some(Ref::On { h, .. }) => Some(*h), _ => None }; let ok = o == acc(CANC) && hd.map_or(false, |h| !m.cancelled.contains(&h));
						if let Some(h) = hd { n.cancelled.insert(h); n.cancel(any); } ("emergency cancel", Some(ok), Some(C::emergency_cancel { ref_index: any }), o)
					} else { let o = if r.chance(1, 3) { acc(255) } else { priv_(r, CANC) }; n.cancel(any); ("cancel referendum", Some(o == acc(255)), Some(C::cancel_referendum { ref_index: any }), o) }
				}
				26 => {
					if r.chance(1, 2) {
						let o = priv_(r, BLACK); let h = if r.chance(1, 4) { h } else { 6 }; let mr = r.chance(1, 2).then(|| any); n.black.insert(h, (u32::MAX, Default::default()));
						if let Some(k) = n.props.iter().position(|x| x.1 == h) { let (i, ..) = n.props.remove(k); n.slash(i); n.clear(MetadataOwner::Proposal(i)); }
						if n.ext.map_or(false, |x| x.0 == h) { n.ext = None; n.clear(MetadataOwner::External); }
						if let Some(i) = mr { if matches!(m.refs.get(&i), Some(Ref::On { h: x, .. }) if *x == h) { n.cancel(i); } }
						n.ev(Ev::Blacklisted { proposal_hash: hh(h) });
						("blacklist", Some(o == acc(BLACK)), Some(C::blacklist { proposal_hash: hh(h), maybe_ref_index: mr }), o)
					} else if r.chance(3, 4) { let o = priv_(r, CPROP); let i = if !m.deps.is_empty() && r.chance(3, 4) { *r.pick(&m.deps.keys().copied().collect::<Vec<_>>()) } else { r.below(m.nprops as u128 + 1) as u32 }; n.props.retain(|x| x.0 != i); n.slash(i); n.ev(Ev::ProposalCanceled { prop_index: i }); n.clear(MetadataOwner::Proposal(i)); ("cancel proposal", Some(o == acc(CPROP)), Some(C::cancel_proposal { prop_index: i }), o) }
					else { let o = if r.chance(1, 3) { acc(255) } else { a }; n.props.clear(); ("clear proposals", Some(o == acc(255)), Some(C::clear_public_proposals {}), o) }
				}
				_ => {
					let md = r.chance(2, 3).then(|| r.range(1, 4) as u8); let known = md.map_or(true, |x| x < 4);
					let (o, who, may) = match r.idx(3) {
						0 => { let need = m.ext.map(|x| match x.1 { VoteThreshold::SuperMajorityApprove => EXT, VoteThreshold::SuperMajorityAgainst => DEF, _ => MAJ }); let o = priv_(r, need.unwrap_or(EXT)); (MetadataOwner::External, o.clone(), need.map_or(false, |x| acc(x) == o)) }
						1 => { let i = if !m.props.is_empty() && r.chance(7, 8) { r.pick(&m.props).0 } else { r.below(m.nprops as u128 + 1) as u32 }; let own = m.props.iter().find(|x| x.0 == i).map(|x| x.2.clone()); let o = own.clone().filter(|_| r.chance(3, 4)).unwrap_or(a); (MetadataOwner::Proposal(i), o.clone(), own == Some(o)) }
						_ => { let root = r.chance(1, 2); let o = if root { acc(255) } else { a }; (MetadataOwner::Referendum(any), o, root || (md.is_none() && !on.contains(&any))) }
					};
					match md { Some(x) => { n.meta.insert(o.encode(), x); n.ev(Ev::MetadataSet { owner: o.clone(), hash: hh(x) }); } None => n.clear(o.clone()) }
					("metadata", Some(may && known), Some(C::set_metadata { owner: o, maybe_hash: md.map(hh) }), who)
				}
			};
			let sched0 = Sched::get().len();
			let got = match call_ {
				None => { n = m.clone(); n.evs.clear(); n.told.clear(); n.sched.clear(); n.block(Balances::total_issuance()); System::set_block_number(n.now); let _ = take_events::<Rt>(); <Democracy as Hooks<u32>>::on_initialize(n.now); Ok(()) }
				Some(x) => { let o = if who == acc(255) { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who.clone()) }; with_transaction(|| { let r = call(RuntimeCall::Democracy(x), o); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } }) }
			};
			c.log(|| format!("block {now}: {name} by {}: {got:?}; {:?}", nm(&who), n.evs));
			c.event(&format!("{name} {}", if got.is_ok() { "done" } else { "refused" })); c.nontrivial((op, now, m.refs.len(), m.props.len(), format!("{:?}", n.evs)));
			if let Some(x) = want { c.check("allowed-exactly-when-it-should", got.is_ok() == x, || format!("{name} by {}: {got:?}, expected {x}; {before:?}", nm(&who))); }
			let mut evs: Vec<String> = take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Democracy(e) = e { Some(format!("{e:?}")) } else { None }).collect(); let mut exp: Vec<String> = if got.is_ok() { n.evs.iter().map(|e| format!("{e:?}")).collect() } else { vec![] };
			if got.is_ok() && name == "block" { for e in &n.evs { match e { Ev::Passed { .. } => c.event("passed"), Ev::NotPassed { .. } => c.event("not passed"), Ev::Tabled { .. } => c.event("tabled"), Ev::ExternalTabled => c.event("external tabled"), _ => {} } } }
			evs.sort(); exp.sort(); c.check("events-tell-what-happened", evs == exp, || format!("{name}: {evs:?}, expected {exp:?}"));
			if got.is_ok() { let told = Told::get(); c.check("hooks-hear-of-votes-once", told == n.told, || format!("{name}: {told:?}, expected {:?}", n.told)); }
			let new: Vec<_> = Sched::get()[sched0..].to_vec(); let exp: Vec<_> = if got.is_ok() { n.sched.clone() } else { vec![] };
			c.check("what-passed-is-enacted-when-due", new.len() == exp.len() && new.iter().zip(&exp).all(|(x, y)| x.1 == DispatchTime::At(y.1) && x.2 == hh(y.2) && x.3 && x.4 == 63 && !x.5), || format!("{new:?}, expected {exp:?}"));
			let all = Sched::get(); c.check("enactments-have-their-own-names", all.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() == all.len(), || format!("{all:?}"));
			if got.is_ok() { m = n; }
			compare(c, &m, name);
			for i in m.deps.keys() { let v = Democracy::backing_for(*i); c.check("backing-read", v == m.deps.get(i).map(|d| d.1 * d.0.len() as u128), || format!("{i}: {v:?}")); }
			let due: BTreeSet<u32> = Democracy::maturing_referenda_at(m.now + 1).into_iter().map(|x| x.0).collect(); c.check("ripe-referenda-read", due == m.refs.iter().filter(|x| matches!(x.1, Ref::On { end, .. } if *end == m.now + 1)).map(|x| *x.0).collect(), || format!("{due:?}"));
			c.distinct("population", (m.refs.len().min(9), m.props.len(), m.voters.values().filter(|v| v.follows.is_some()).count()));
			if c.index < 2 { c.sample(|| serde_json::json!({ "op": name, "block": now, "ok": got.is_ok(), "referenda": m.refs.len() })); }
			if c.failed() { return; }
		}
	})
}
/// the decision by itself, over all tallies
fn thresholds(c: &mut Ctx) {
	let r = &mut c.rng; let top = u128::MAX >> r.idx(100); let e = r.log(1, top).max(1); let turnout = match r.idx(6) { 0 => r.below(3).min(e), 1 => e, _ => r.log(1, e) };
	let ayes = match r.idx(6) { 0 => 0, 1 => r.u128(), _ => r.log(1, turnout.max(1).saturating_mul(6)) };
	// near the line often
	let (sv, se) = (isqrt(turnout), isqrt(e)); let near = |a: u128, x: u128, y: u128| if y == 0 { 0 } else { (w(a) * w(x) / w(y)).min(w(u128::MAX)).low_u128() };
	let nays = match r.idx(6) { 0 => 0, 1 => ayes, 2 => r.u128(), 3 => near(ayes, sv, se).saturating_add(r.below(3)).saturating_sub(1), 4 => near(ayes, se, sv).saturating_add(r.below(3)).saturating_sub(1), _ => r.log(1, turnout.max(1).saturating_mul(6)) };
	for th in [VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority] {
		let got = th.approved(Tally { ayes, nays, turnout }, e); let want = passes(th, (ayes, nays, turnout), e);
		c.event(&format!("{th:?} {got}")); c.check("the-vote-carries-by-its-threshold", got == want, || format!("{th:?}: {ayes} to {nays}, turnout {turnout} of {e}: {got}"));
	}
	c.nontrivial((ayes, nays, turnout, e));
	// a vote's byte
	let b = c.rng.u64() as u8; let v = Vote::decode(&mut &[b][..]);
	c.check("vote-byte", match &v { Ok(v) => b & 127 < 7 && v.aye == (b >= 128) && u8::from(v.conviction) == b & 127 && v.encode() == vec![b], Err(_) => b & 127 >= 7 }, || format!("{b}: {v:?}"));
	if b & 127 < 7 { let (cv, cap) = (conv(b & 127), c.rng.log(1, u128::MAX)); let d = cv.votes(cap); c.check("conviction-multiplies-the-vote", d.capital == cap && d.votes == if b & 127 == 0 { cap / 10 } else { cap.saturating_mul((b & 127) as u128) } && cv.lock_periods() == PERIODS[(b & 127) as usize], || format!("{cv:?} of {cap}: {d:?}")); }
}
fn main() {
	mon_core::run!(1.0, "one case is a history of 90 operations by six voters and the privileged origins, blocks included, or one tally; non-trivial operations are distinct by operation, block, population and events",
		["the balances pallet is the stand-in of sub/shims; scheduler, preimages and the hooks are recording stand-ins; the hooks ask for no more than the vote to stay locked, as staking does"];
		"C44" => |m: &mut mon_core::Monitor| {
			m.workload("history", 4_000, 60_000, history);
			m.workload("thresholds", 200_000, 4_000_000, thresholds);
			for e in ["block done", "propose done", "second done", "vote done", "vote refused", "remove vote done", "remove vote of done", "delegate done", "delegate refused", "undelegate done", "unlock done", "external done", "external majority done", "external default done", "fast track done", "fast track refused", "veto done", "emergency cancel done", "cancel referendum done", "blacklist done", "cancel proposal done", "clear proposals done", "metadata done", "passed", "not passed", "tabled", "external tabled", "conviction kept", "lost vote kept locked"] { m.expect(&format!("history/{e}"), 25); }
		});
}

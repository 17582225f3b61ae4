//! Referrals: random codes, links, trade fees, conversions and claims, judged on every share, level, reward and balance.
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::price::PriceProvider;
use mon_core::big::w;
use mon_frame::*;
use pallet_referrals::traits::Convert;
use pallet_referrals::{AssetAmount, Call, Error, Event, FeeDistribution, Level};
use pallet_referrals::weights::WeightInfo;
use frame_support::storage::{with_transaction, TransactionOutcome};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Referrals: pallet_referrals });
base!(Rt, (), Nothing);
param! { Fee: (u32, u128) = (0, 10); MinLen: u32 = 3; Seed: u128 = 0; Ext: Option<Acc> = None; Table: BTreeMap<u8, (u128, [u32; 3])> = Default::default(); Prices: BTreeMap<u32, (u128, u128)> = Default::default(); Rates: BTreeMap<u32, (u128, u128)> = Default::default(); LeastTrade: u128 = 0; Broken: BTreeSet<u32> = Default::default(); }
parameter_types! { pub const Native: u32 = 0; pub const Pid: PalletId = PalletId(*b"referral"); pub const MaxLen: u32 = 7; }
pub struct FeeOf; impl Get<(u32, u128, Acc)> for FeeOf { fn get() -> (u32, u128, Acc) { let f = Fee::get(); (f.0, f.1, acc(200)) } }
pub struct External; impl Get<Option<Acc>> for External { fn get() -> Option<Acc> { Ext::get() } }
fn lv(l: Level) -> u8 { l.encode()[0] }
fn level(i: u8) -> Level { [Level::None, Level::Tier0, Level::Tier1, Level::Tier2, Level::Tier3, Level::Tier4][i as usize] }
fn dist(p: [u32; 3]) -> FeeDistribution { FeeDistribution { referrer: Permill::from_parts(p[0]), trader: Permill::from_parts(p[1]), external: Permill::from_parts(p[2]) } }
pub struct Levels; impl GetByKey<Level, (u128, FeeDistribution)> for Levels { fn get(l: &Level) -> (u128, FeeDistribution) { let t = Table::with(|t| t[&lv(*l)]); (t.0, dist(t.1)) } }
pub struct Oracle; impl PriceProvider<u32> for Oracle { type Price = EmaPrice; fn get_price(a: u32, b: u32) -> Option<EmaPrice> { assert_eq!(a, 0); Prices::with(|p| p.get(&b).map(|p| EmaPrice::new(p.0, p.1))) } }
/// The exchange that turns fees into rewards: sells at a scripted rate, or refuses.
pub struct Amm;
impl Amm { fn quote(a: u32, amount: u128) -> Result<u128, DispatchError> {
	if amount < LeastTrade::get() { return Err(Error::<Rt>::ConversionMinTradingAmountNotReached.into()); } if a == 0 || Broken::with(|b| b.contains(&a)) { return Err(DispatchError::Other("closed")); }
	let r = Rates::with(|r| r[&a]); let out = muldiv(amount, r.0, r.1); if out == 0 { return Err(Error::<Rt>::ConversionZeroAmountReceived.into()); } Ok(out) } }
impl Convert<Acc, u32, u128> for Amm { type Error = DispatchError; fn convert(who: Acc, a: u32, b: u32, amount: u128) -> Result<u128, DispatchError> {
	assert_eq!(b, 0); let out = Self::quote(a, amount)?; <Currencies as MultiCurrency<Acc>>::transfer(a, &who, &acc(99), amount)?; <Currencies as MultiCurrency<Acc>>::transfer(0, &acc(99), &who, out)?; Ok(out) } }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_referrals::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type AssetId = u32; type Currency = pallet_currencies::fungibles::FungibleCurrencies<Rt>; type Convert = Amm; type PriceProvider = Oracle; type RewardAsset = Native; type PalletId = Pid; type RegistrationFee = FeeOf;
	type CodeLength = MaxLen; type MinCodeLength = MinLen; type LevelVolumeAndRewardPercentages = Levels; type ExternalAccount = External; type SeedNativeAmount = Seed; type WeightInfo = ();
}
use codec::Encode;
const P: &str = "C33";
const N: u8 = 6;
#[derive(Clone, Debug, Default)]
struct Model { codes: BTreeMap<Vec<u8>, Acc>, of: BTreeMap<Acc, Vec<u8>>, linked: BTreeMap<Acc, Acc>, referred: BTreeMap<Acc, u128>, traded: BTreeMap<Acc, u128>, levels: BTreeMap<Acc, (u8, u128)>, split: BTreeMap<(u32, u8), [u32; 3]>, pending: BTreeSet<u32> }
fn book() -> Book { Book::all::<Rt>() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn pot() -> Acc { Referrals::pot_account_id() }
fn bal(a: u32, who: &Acc) -> u128 { <Currencies as MultiCurrency<Acc>>::free_balance(a, who) }
fn people() -> Vec<Acc> { (1..=N + 2).map(acc).collect() }
fn tolerated(e: &DispatchError) -> bool { *e == Error::<Rt>::ConversionMinTradingAmountNotReached.into() || *e == Error::<Rt>::ConversionZeroAmountReceived.into() }
fn events() -> Vec<Event<Rt>> { take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Referrals(e) = e { Some(e) } else { None }).collect() }
impl Model {
	fn shares(&self, a: &Acc) -> (u128, u128) { (self.referred.get(a).copied().unwrap_or(0), self.traded.get(a).copied().unwrap_or(0)) }
	fn total(&self) -> u128 { self.referred.values().sum::<u128>() + self.traded.values().sum::<u128>() }
}
fn reached(mut l: u8, total: u128) -> u8 { while (1..5).contains(&l) && total >= Table::with(|t| t[&(l + 1)].0) { l += 1; } l }
fn state(c: &Ctx, m: &Model) {
	let all: Vec<Acc> = people();
	let codes: BTreeMap<Vec<u8>, Acc> = m.codes.keys().filter_map(|k| Referrals::referral_account(sp_core::bounded::BoundedVec::truncate_from(k.clone())).map(|a| (k.clone(), a))).collect();
	c.check_in(P, "codes-belong-to-their-owners", codes == m.codes, || format!("stored {codes:?}, expected {:?}", m.codes));
	let of: BTreeMap<Acc, Vec<u8>> = all.iter().filter_map(|a| Referrals::referral_code(a).map(|k| (a.clone(), k.into_inner()))).collect(); c.check_in(P, "one-code-each", of == m.of, || format!("stored {of:?}, expected {:?}", m.of));
	let linked: BTreeMap<Acc, Acc> = all.iter().filter_map(|a| Referrals::linked_referral_account(a).map(|k| (a.clone(), k))).collect(); c.check_in(P, "links-as-made", linked == m.linked, || format!("stored {linked:?}, expected {:?}", m.linked));
	let levels: BTreeMap<Acc, (u8, u128)> = all.iter().filter_map(|a| Referrals::referrer_level(a).map(|k| (a.clone(), (lv(k.0), k.1)))).collect(); c.check_in(P, "levels-follow-rewards", levels == m.levels, || format!("stored {levels:?}, expected {:?}", m.levels));
	for a in &all { let s = (Referrals::referrer_shares(a), Referrals::trader_shares(a)); c.check_in(P, "shares-as-earned", s == m.shares(a), || format!("{}: stored {s:?}, expected {:?}", nm(a), m.shares(a))); }
	c.check_in(P, "total-is-sum-of-shares", Referrals::total_shares() == m.total(), || format!("stored {}, shares sum to {}", Referrals::total_shares(), m.total()));
	let pending: BTreeSet<u32> = (0..5).filter(|a| Referrals::pending_conversions(a).is_some()).collect(); c.check_in(P, "pending-conversions-as-expected", pending == m.pending, || format!("stored {pending:?}, expected {:?}", m.pending));
	let b = book().balanced(); c.check_in(P, "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
/// runs a call; on failure nothing may have changed
fn act(c: &mut Ctx, k: Call<Rt>, o: Option<&Acc>) -> Result<(), DispatchError> {
	let _ = take_events::<Rt>(); let root = raw(); let s = format!("{} {k:?}", o.map_or("root".into(), nm)); let r = call(RuntimeCall::Referrals(k), o.map_or(RuntimeOrigin::root(), |a| RuntimeOrigin::signed(a.clone()))); c.log(|| format!("{s}: {r:?}"));
	if r.is_err() { c.event("refused"); c.check_in(P, "refusal-leaves-no-trace", raw() == root, || s.clone()); } r
}
fn code(c: &mut Ctx, m: &Model) -> Vec<u8> {
	if !m.codes.is_empty() && c.rng.chance(1, 3) { let ks: Vec<_> = m.codes.keys().cloned().collect(); let mut k = c.rng.pick(&ks).clone(); if c.rng.chance(1, 2) { k.make_ascii_lowercase(); } return k; }
	let n = c.rng.range(0, 7) as usize; let odd = c.rng.chance(1, 5); (0..n).map(|_| if odd && c.rng.chance(1, 3) { c.rng.below(256) as u8 } else { *c.rng.pick(b"ABCxyz0189Qq") }).collect()
}
fn register(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let k = code(c, m); let up = k.to_ascii_uppercase(); let (fa, fee) = Fee::get(); let have = bal(fa, &who); let before = book();
	let valid = k.len() as u32 >= MinLen::get() && k.iter().all(u8::is_ascii_alphanumeric); let ok = valid && !m.of.contains_key(&who) && !m.codes.contains_key(&up) && (fee == 0 || have >= fee && have - fee >= ed(fa) && bal(fa, &acc(200)) + fee >= ed(fa));
	let r = act(c, Call::register_code { code: sp_core::bounded::BoundedVec::truncate_from(k.clone()) }, Some(&who));
	c.check_in(P, "only-proper-free-codes-register", r.is_ok() == ok, || format!("#{i} registers {:?} with {have} for a fee of {fee} of {fa}: {r:?}", String::from_utf8_lossy(&k))); if !ok || r.is_err() { if !valid { c.event("bad-code"); } else if m.codes.contains_key(&up) { c.event("taken-code"); } return; }
	let ev = events(); c.check_in(P, "registration-is-reported", ev == [Event::CodeRegistered { code: sp_core::bounded::BoundedVec::truncate_from(up.clone()), account: who.clone() }], || format!("{ev:?}"));
	c.check_in(P, "registration-costs-its-fee", before.moved(&book()) == Moves::new().mv(&who, &acc(200), fa, fee), || format!("{:?}, fee {fee}", before.moved(&book())));
	m.codes.insert(up.clone(), who.clone()); m.of.insert(who.clone(), up); m.levels.insert(who, (1, 0)); c.event("registered");
}
fn link(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let k = code(c, m); let up = k.to_ascii_uppercase(); let to = m.codes.get(&up).cloned(); let ok = to.as_ref().map_or(false, |t| *t != who) && !m.linked.contains_key(&who); let before = book();
	let r = act(c, Call::link_code { code: sp_core::bounded::BoundedVec::truncate_from(k.clone()) }, Some(&who)); c.check_in(P, "links-once-and-to-others", r.is_ok() == ok, || format!("#{i} links {:?} of {to:?}, linked to {:?}: {r:?}", String::from_utf8_lossy(&k), m.linked.get(&who))); if r.is_err() || !ok { if to == Some(who) { c.event("own-code"); } return; }
	let ev = events(); let to = to.unwrap(); c.check_in(P, "link-is-reported", ev == [Event::CodeLinked { account: who.clone(), code: sp_core::bounded::BoundedVec::truncate_from(up), referral_account: to.clone() }] && before.moved(&book()).is_empty(), || format!("{ev:?}")); m.linked.insert(who, to); c.event("linked");
}
fn trade(c: &mut Ctx, m: &mut Model, i: u8) {
	let (who, src) = (acc(i), acc(50)); let a = c.rng.idx(5) as u32; let have = bal(a, &src); let amt = match c.rng.idx(14) { 0 => 0, 1 => c.rng.range(1, 30), 2 => have, 3 => have.saturating_mul(2), _ => c.rng.log(1, (have / 50).max(2)) };
	let price = Prices::with(|p| p.get(&a).copied()); let to = m.linked.get(&who).cloned(); let l = to.as_ref().map_or(0, |t| m.levels[t].0); let p = m.split.get(&(a, l)).copied().unwrap_or_else(|| Table::with(|t| t[&l].1));
	let part = |x: u32| muldiv(amt, x as u128, 1_000_000); let (rr, tr, er) = (if to.is_some() { part(p[0]) } else { 0 }, part(p[1]), if Ext::get().is_some() { part(p[2]) } else { 0 }); let taken = rr + tr + er;
	let share = |x: u128| price.map(|q| w(x) * w(q.0) / w(q.1)); let fits = [rr, tr, er].iter().all(|x| share(*x).map_or(true, |s| s <= w(u128::MAX / 1000)));
	if !fits { c.event("too-precious"); return; }
	let ok = price.is_none() || (taken <= have && (taken == 0 || (have - taken >= ed(a) && bal(a, &pot()) + taken >= ed(a)))); let _ = take_events::<Rt>(); let (before, root) = (book(), raw());
	let r = with_transaction(|| { let r = Referrals::process_trade_fee(src.clone(), who.clone(), a, amt); if r.is_ok() { TransactionOutcome::Commit(Ok::<_, DispatchError>(r)) } else { TransactionOutcome::Rollback(Ok(r)) } }).unwrap();
	c.log(|| format!("#{i} trades, fee {amt} of {a}, price {price:?}, split {p:?} of level {l}: {r:?}"));
	c.check_in(P, "fees-are-taken", r.is_ok() == ok, || format!("{r:?} with {have}, {taken} taken")); if r.is_err() { c.event("fee-refused"); return; }
	if price.is_none() { c.event("no-price"); c.check_in(P, "no-price-no-share", r == Ok(0) && raw() == root, || format!("{r:?}")); return; }
	c.check_in(P, "takes-the-agreed-split", r == Ok(taken) && before.moved(&book()) == Moves::new().mv(&src, &pot(), a, taken) && taken <= amt, || format!("{r:?} {:?}, expected {rr} + {tr} + {er} of {amt}", before.moved(&book())));
	let s = |x: u128| share(x).unwrap().low_u128(); if let Some(t) = to { *m.referred.entry(t).or_default() += s(rr); c.event("referred-fee"); } *m.traded.entry(who).or_default() += s(tr); if let Some(e) = Ext::get() { *m.traded.entry(e).or_default() += s(er); } if a != 0 { m.pending.insert(a); }
	c.event("fee"); c.nontrivial((rr, tr, er, s(tr))); if m.split.contains_key(&(a, l)) { c.event("own-split-fee"); } if l > 1 { c.event("high-level-fee"); }
}
fn convert(c: &mut Ctx, m: &mut Model, i: u8) {
	let a = c.rng.idx(5) as u32; let have = bal(a, &pot()); let q = Amm::quote(a, have); let before = book(); let can = q.as_ref().map_or(false, |o| bal(0, &acc(99)) >= *o + ed(0) && bal(a, &acc(99)) + have >= ed(a) && bal(0, &pot()) + *o >= ed(0));
	let r = act(c, Call::convert { asset_id: a }, Some(&acc(i))); c.check_in(P, "anybody-converts-what-is-there", r.is_ok() == (have > 0 && can), || format!("{have} of {a}, quote {q:?}: {r:?}")); if r.is_err() { return; } let out = q.unwrap_or(0);
	c.check_in(P, "converts-everything", before.moved(&book()) == Moves::new().mv(&pot(), &acc(99), a, have).mv(&acc(99), &pot(), 0, out), || format!("{:?}", before.moved(&book()))); let ev = events();
	c.check_in(P, "conversion-is-reported", ev == [Event::Converted { from: AssetAmount::new(a, have), to: AssetAmount::new(0, out) }], || format!("{ev:?}")); m.pending.remove(&a); c.event("converted");
}
/// what converting the pending assets does, and whether each works
fn conversions(m: &Model) -> Vec<(u32, u128, Result<u128, DispatchError>)> { m.pending.iter().map(|a| { let have = bal(*a, &pot()); (*a, have, Amm::quote(*a, have)) }).collect() }
fn claim(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let before = book(); let cv = conversions(m); let fails = cv.iter().any(|x| matches!(&x.2, Err(e) if !tolerated(e))); let mut want = Moves::new(); for (a, n, q) in &cv { if let Ok(o) = q { want = want.mv(&pot(), &acc(99), *a, *n).mv(&acc(99), &pot(), 0, *o); } }
	let got: u128 = cv.iter().filter_map(|x| x.2.clone().ok()).sum(); let reserve = (bal(0, &pot()) + got).saturating_sub(Seed::get()); let (rs, ts) = m.shares(&who); let total = m.total();
	let pay = |s: u128| if total == 0 { 0 } else { (w(s) * w(reserve) / w(total)).low_u128() }; let (rp, tp) = (pay(rs), pay(ts)); let all = rp + tp;
	// the receiver has to be able to hold it
	let ok = !fails && (rs + ts == 0 || all == 0 || bal(0, &who) + all >= ed(0));
	let r = act(c, Call::claim_rewards {}, Some(&who)); c.check_in(P, "claims-are-paid", r.is_ok() == ok, || format!("#{i} with {rs}+{ts} of {total} shares, {reserve} to share, conversions {cv:?}: {r:?}")); if r.is_err() { c.event("claim-refused"); return; }
	m.pending.clear(); if !cv.is_empty() { c.event("claim-converts"); } if cv.iter().any(|x| x.2.is_err()) { c.event("claim-skips-small-conversion"); } let ev = events();
	if rs + ts == 0 { c.event("nothing-to-claim"); c.check_in(P, "no-shares-no-rewards", before.moved(&book()) == want && ev.is_empty(), || format!("{:?}", before.moved(&book()))); m.referred.remove(&who); m.traded.remove(&who); return; }
	c.check_in(P, "claim-pays-its-share", before.moved(&book()) == want.mv(&pot(), &who, 0, all), || format!("{:?}, expected {rp} + {tp} of {reserve}", before.moved(&book()))); c.check_in(P, "the-seed-stays", bal(0, &pot()) + all >= Seed::get().min(before.free(&pot(), 0)) + all, || format!("{} left of {}", bal(0, &pot()), Seed::get()));
	let mut evs = vec![]; if let Some(l) = m.levels.get_mut(&who) { l.1 += rp; let n = reached(l.0, l.1); if n != l.0 { l.0 = n; evs.push(Event::LevelUp { who: who.clone(), level: level(n) }); c.event("level-up"); } }
	evs.push(Event::Claimed { who: who.clone(), referrer_rewards: rp, trade_rewards: tp }); c.check_in(P, "claim-is-reported", ev == evs, || format!("{ev:?}, expected {evs:?}")); m.referred.remove(&who); m.traded.remove(&who); c.event("claimed"); if all > 0 { c.event("paid"); c.nontrivial((rp, tp)); } if m.total() == 0 { c.event("last-claim"); }
}
fn idle(c: &mut Ctx, m: &mut Model) {
	let one = <() as WeightInfo>::convert().ref_time(); let k = c.rng.idx(5) as u64; let part = c.rng.below(one as u128) as u64; let before = book(); let cv = conversions(m); let left = Weight::from_parts(one * k + part, u64::MAX); let _ = take_events::<Rt>();
	let used = <Referrals as OnIdle<u32>>::on_idle(System::block_number(), left); c.log(|| format!("idle with weight for {k}: {used:?}"));
	c.check_in(P, "idle-stays-within-its-weight", used.ref_time() <= left.ref_time(), || format!("{used:?} of {left:?}"));
	let rest: BTreeSet<u32> = (0..5).filter(|a| Referrals::pending_conversions(a).is_some()).collect(); let gone: BTreeSet<u32> = m.pending.difference(&rest).copied().collect(); c.check_in(P, "idle-takes-as-many-as-fit", rest.is_subset(&m.pending) && gone.len() as u64 == k.min(m.pending.len() as u64), || format!("{gone:?} of {:?}, weight for {k}", m.pending));
	let mut want = Moves::new(); for (a, n, q) in &cv { if let (true, Ok(o)) = (gone.contains(a), q) { want = want.mv(&pot(), &acc(99), *a, *n).mv(&acc(99), &pot(), 0, *o); c.event("idle-conversion"); } } c.check_in(P, "idle-converts", before.moved(&book()) == want, || format!("{:?}, expected {want:?}", before.moved(&book()))); m.pending = rest;
}
fn configure(c: &mut Ctx, m: &mut Model, i: u8) {
	let (a, l) = (c.rng.idx(5) as u32, c.rng.idx(6) as u8); let mut p = [0u32; 3]; let mut room = 1_000_000u32; for x in p.iter_mut() { *x = match c.rng.idx(5) { 0 => 0, 1 => room, _ => c.rng.below(room as u128 + 1) as u32 }; room = room.saturating_sub(*x); } if c.rng.chance(1, 4) { let k = c.rng.idx(3); p[k] = (p[k] as u128 + c.rng.log(1, 1_000_000)).min(1_000_000) as u32; }
	let root = c.rng.chance(7, 8); let ok = root && p.iter().sum::<u32>() <= 1_000_000; let r = act(c, Call::set_reward_percentage { asset_id: a, level: level(l), rewards: dist(p) }, if root { None } else { Some(acc(i)) }.as_ref());
	c.check_in(P, "splits-are-set-by-the-authority-up-to-all", r.is_ok() == ok, || format!("{p:?} by root {root}: {r:?}")); if r.is_ok() { let got = Referrals::asset_rewards(a, level(l)).map(|d| [d.referrer.deconstruct(), d.trader.deconstruct(), d.external.deconstruct()]); c.check_in(P, "split-is-stored", got == Some(p), || format!("{got:?}, expected {p:?}")); m.split.insert((a, l), p); c.event("configured"); } else if root { c.event("too-much"); }
}
fn history(c: &mut Ctx) {
	fresh(|| {
		let unit = 10u128.pow(*c.rng.pick(&[0u32, 6, 12])); Eds::set((0..5u32).map(|a| (a, *c.rng.pick(&[1u128, 1, 20, 1000]))).collect()); Fee::set((*c.rng.pick(&[0u32, 0, 1]), c.rng.log(1, unit * 1000) * (c.rng.idx(8) > 0) as u128)); MinLen::set(c.rng.range(1, 5) as u32); Seed::set(ed(0) + if c.rng.chance(1, 2) { 0 } else { c.rng.log(1, unit * 10) });
		Ext::set(if c.rng.chance(1, 2) { Some(acc(N + 1)) } else { None }); LeastTrade::set(*c.rng.pick(&[0, 1000])); Broken::set(Default::default());
		let mut vol = 0; Table::set((0..6u8).map(|l| { if l > 1 { vol += c.rng.log(1, unit * 10); } let mut room = 1_000_000u32; (l, (vol, [0; 3].map(|_: i32| { let x = c.rng.below(room as u128 / 2 + 1) as u32; room -= x; x }))) }).collect());
		Prices::set(Default::default()); let newprice = |c: &mut Ctx| (c.rng.log(1, 1 << 60), c.rng.log(1 << 20, 1 << 60)); for a in 0..5u32 { if !c.rng.chance(1, 8) { let p = if a == 0 { (1, 1) } else { newprice(c) }; Prices::with(|m| m.insert(a, p)); } Rates::with(|m| m.insert(a, (c.rng.log(1, 1 << 40), c.rng.log(1 << 20, 1 << 40)))); }
		System::set_block_number(1); let mut m = Model::default();
		for i in 1..=N { let v = ed(0) + c.rng.log(1, unit * 10_000); give_native::<Rt>(&acc(i), v); if c.rng.chance(3, 4) { give::<Rt>(&acc(i), 1, ed(1) + unit * 2000); } }
		give_native::<Rt>(&acc(50), unit * 1_000_000 + ed(0)); give_native::<Rt>(&acc(99), 1 << 110); for a in 1..5u32 { give::<Rt>(&acc(50), a, unit * 1_000_000 + ed(a)); give::<Rt>(&acc(99), a, ed(a)); } // the pot is seeded, as the runtime has it
		give_native::<Rt>(&pot(), Seed::get());
		for n in 0..60 {
			if c.failed() { return; } let i = 1 + c.rng.idx(N as usize) as u8;
			match if n < 12 && c.rng.chance(1, 2) { c.rng.idx(6) } else { c.rng.idx(24) } { 0..=2 => register(c, &mut m, i), 3..=5 => link(c, &mut m, i), 6..=13 => trade(c, &mut m, i), 14..=15 => convert(c, &mut m, i), 16..=18 => { let i = if c.rng.chance(1, 8) { N + 1 } else { i }; claim(c, &mut m, i) } 19 => idle(c, &mut m), 20..=21 => configure(c, &mut m, i),
				22 => { let a = 1 + c.rng.idx(4) as u32; match c.rng.idx(4) { 0 => { let p = newprice(c); Prices::with(|m| m.insert(a, p)); } 1 => { Prices::with(|m| m.remove(&a)); } 2 => { let r = (c.rng.log(1, 1 << 40), c.rng.log(1 << 20, 1 << 40)); Rates::with(|m| m.insert(a, r)); } _ => Broken::with(|b| { if !b.remove(&a) && c.rng.chance(1, 2) { b.insert(a); } }) } }
				_ => { System::set_block_number(System::block_number() + 1); } }
			// rates low enough that the exchange keeps a reserve
			state(c, &m);
		}
		c.distinct("shape", (m.codes.len(), m.linked.len(), m.pending.len())); c.sample(|| json!({"codes": m.codes.len(), "linked": m.linked.len(), "shares": m.total().to_string()}));
	});
}
fn run(m: &mut Monitor) {
	m.workload("referrals", 12_000, 400_000, history);
	for (e, n) in [("registered", 4000), ("linked", 3000), ("fee", 20_000), ("referred-fee", 3000), ("own-split-fee", 2000), ("high-level-fee", 300), ("converted", 2000), ("claimed", 3000), ("paid", 1500), ("level-up", 200), ("claim-converts", 3000), ("claim-skips-small-conversion", 300), ("claim-refused", 100), ("last-claim", 200), ("idle-conversion", 1000), ("configured", 3000), ("too-much", 300), ("no-price", 1000), ("bad-code", 1000), ("taken-code", 300), ("own-code", 50), ("refused", 3000), ("fee-refused", 300)] { m.expect(&format!("referrals/{e}"), n); }
}
fn main() { mon_core::run!(1.0, "distinct splits of a fee and distinct payouts", ["the referrals pallet is compiled from the source tree on a stand-in for FRAME", "prices and the exchange that converts fees are scripted"]; "C33" => run); }

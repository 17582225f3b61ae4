//! Orders over the counter and their settlement against a route: random orders, fills, cancellations, settlements and off-chain workers, judged on every balance, reserve and submitted transaction.
use hydradx_traits::router::{AmmTradeWeights, AmountInAndOut, AssetPair, PoolType, RouteProvider, RouteSpotPriceProvider, RouterT, Trade};
use mon_core::big::w;
use mon_core::panics;
use mon_frame::*;
use pallet_currencies::fungibles::FungibleCurrencies;
use pallet_otc::{Call, Event, Order, NAMED_RESERVE_ID};
use sp_runtime::traits::ValidateUnsigned;
use sp_runtime::transaction_validity::TransactionSource;
use sp_runtime::FixedPointNumber;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Otc: pallet_otc, Settle: pallet_otc_settlements });
base!(Rt, (), DustWhite);
type Hop = Trade<u32>;
param! { Times: u8 = 5; Via: BTreeMap<(u32, u32), u32> = Default::default(); FeeBp: u128 = 30; MinProfit: Perbill = Perbill::from_parts(0); Precision: FixedU128 = FixedU128::from_inner(0); MinTrade: u128 = 1; Iters: u32 = 40; Ran: Vec<(u128, Vec<Hop>)> = vec![]; }
parameter_types! { pub const Native: u32 = 0; }
pub struct Receiver; impl Get<Acc> for Receiver { fn get() -> Acc { acc(50) } }
pub struct Mult; impl Get<u8> for Mult { fn get() -> u8 { Times::get() } }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_otc::Config for Rt { type RuntimeEvent = RuntimeEvent; type AssetId = u32; type AssetRegistry = Reg; type Currency = Currencies; type ExistentialDeposits = EdOf; type ExistentialDepositMultiplier = Mult; type WeightInfo = (); }
type Xt = sp_runtime::testing::TestXt<RuntimeCall, ()>;
impl<C> frame_system::offchain::SendTransactionTypes<C> for Rt where RuntimeCall: From<C> { type OverarchingCall = RuntimeCall; type Extrinsic = Xt; }
pub struct Router;
fn home(h: &Hop) -> Acc { pool_acc(b"amm", h.asset_in.min(h.asset_out), h.asset_in.max(h.asset_out)) }
fn hop(a: u32, b: u32) -> Hop { Trade { pool: PoolType::XYK, asset_in: a, asset_out: b } }
fn path(a: u32, b: u32) -> Vec<Hop> { match Via::with(|m| m.get(&(a, b)).copied()) { Some(v) if v != a && v != b => vec![hop(a, v), hop(v, b)], _ => vec![hop(a, b)] } }
fn held(h: &Hop) -> (u128, u128) { (Currencies::free_balance(h.asset_in, &home(h)), Currencies::free_balance(h.asset_out, &home(h))) }
/// the amounts along a route, and the price of the whole after that trade
fn quote(r: &[Hop], amt: u128) -> Option<(Vec<u128>, Option<FixedU128>)> {
	let (mut x, mut v, mut p) = (amt, vec![], Some(FixedU128::from_u32(1)));
	for h in r { let (i, o) = held(h); if h.asset_in == h.asset_out || i == 0 || o == 0 || x < MinTrade::get().max(1) || x > i / 2 { return None; } let y = muldiv(muldiv(o, x, i + x), 10_000 - FeeBp::get(), 10_000); p = p.and_then(|p| p.checked_mul(&price(i + x, o - y)?)); v.push(y); x = y; }
	Some((v, p))
}
fn price(i: u128, o: u128) -> Option<FixedU128> { let (n, d) = (i.checked_mul(10_000)?, o.checked_mul(10_000 - FeeBp::get())?); if d == 0 { return None; } let x = w(n) * w(10u128.pow(18)) / w(d); if x > w(u128::MAX) { None } else { Some(FixedU128::from_inner(x.low_u128())) } }
use sp_runtime::traits::CheckedMul;
impl RouteProvider<u32> for Router { fn get_route(p: AssetPair<u32>) -> Vec<Hop> { path(p.asset_in, p.asset_out) } }
impl RouteSpotPriceProvider<u32> for Router { fn spot_price_with_fee(r: &[Hop]) -> Option<FixedU128> { let mut p = FixedU128::from_u32(1); for h in r { let (i, o) = held(h); p = p.checked_mul(&price(i, o)?)?; } Some(p) } }
impl RouterT<RuntimeOrigin, u32, u128, Hop, AmountInAndOut<u128>> for Router {
	fn sell(o: RuntimeOrigin, a: u32, b: u32, amt: u128, limit: u128, r: Vec<Hop>) -> DispatchResult {
		let who = frame_system::ensure_signed(o)?; let no = DispatchError::Other("route"); let (v, _) = quote(&r, amt).ok_or(no)?;
		if r[0].asset_in != a || r[r.len() - 1].asset_out != b || v[v.len() - 1] < limit { return Err(no); }
		Ran::with(|x| x.push((amt, r.clone()))); let mut x = amt;
		for (h, y) in r.iter().zip(v) { <Currencies as MultiCurrency<Acc>>::transfer(h.asset_in, &who, &home(h), x)?; <Currencies as MultiCurrency<Acc>>::transfer(h.asset_out, &home(h), &who, y)?; x = y; }
		Ok(())
	}
	fn buy(_: RuntimeOrigin, _: u32, _: u32, _: u128, _: u128, _: Vec<Hop>) -> DispatchResult { Err(DispatchError::Other("unused")) }
	fn calculate_sell_trade_amounts(_: &[Hop], _: u128) -> Result<Vec<AmountInAndOut<u128>>, DispatchError> { Err(DispatchError::Other("unused")) }
	fn calculate_buy_trade_amounts(_: &[Hop], _: u128) -> Result<Vec<AmountInAndOut<u128>>, DispatchError> { Err(DispatchError::Other("unused")) }
	fn set_route(_: RuntimeOrigin, _: AssetPair<u32>, _: Vec<Hop>) -> frame_support::dispatch::DispatchResultWithPostInfo { Err(DispatchError::Other("unused").into()) }
	fn force_insert_route(_: RuntimeOrigin, _: AssetPair<u32>, _: Vec<Hop>) -> frame_support::dispatch::DispatchResultWithPostInfo { Err(DispatchError::Other("unused").into()) }
}
impl pallet_otc_settlements::Config for Rt { type RuntimeEvent = RuntimeEvent; type Currency = FungibleCurrencies<Rt>; type Router = Router; type ProfitReceiver = Receiver; type MinProfitPercentage = MinProfit; type PricePrecision = Precision; type MinTradingLimit = MinTrade; type MaxIterations = Iters; type RouterWeightInfo = (); type WeightInfo = (); }
const P: &str = "C26";
const S: &str = "C27";
const BOTH: &str = "C26 C27";
#[derive(Clone, Debug)]
struct Item { o: Order<Acc, u32>, first: (u128, u128), done: (u128, u128) }
#[derive(Clone, Default)]
struct Model { orders: BTreeMap<u32, Item>, next: u32, height: u32 }
fn book() -> Book { Book::all::<Rt>() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn me() -> Acc { pallet_otc_settlements::Pallet::<Rt>::account_id() }
fn least(a: u32) -> u128 { ed(a) * Times::get() as u128 }
fn state(c: &Ctx, m: &Model) {
	let stored: BTreeMap<u32, Order<Acc, u32>> = pallet_otc::Orders::<Rt>::iter().collect();
	c.check_in(BOTH, "orders-as-expected", stored.len() == m.orders.len() && m.orders.iter().all(|(k, v)| stored.get(k) == Some(&v.o)) && pallet_otc::NextOrderId::<Rt>::get() == m.next, || format!("stored {stored:?}, expected {:?}", m.orders));
	let mut sums: BTreeMap<(Acc, u32), u128> = BTreeMap::new(); for i in m.orders.values() { *sums.entry((i.o.owner.clone(), i.o.asset_out)).or_default() += i.o.amount_out; }
	for i in 1..=4u8 { for a in 0..4u32 { let (r, e) = (Currencies::reserved_balance_named(&NAMED_RESERVE_ID, a, &acc(i)), sums.get(&(acc(i), a)).copied().unwrap_or(0)); c.check_in("C17 C26 C27", "reserve-is-what-orders-offer", r == e, || format!("#{i} has {r} of {a} reserved, the orders offer {e}")); } }
	for (k, i) in &m.orders { c.check_in(P, "open-orders-are-worth-it", i.o.amount_in >= least(i.o.asset_in) && i.o.amount_out >= least(i.o.asset_out), || format!("{k}: {:?}", i.o)); c.check_in(P, "owner-never-below-his-price", w(i.done.0) * w(i.first.1) >= w(i.done.1) * w(i.first.0), || format!("{k}: took {} for {} of {:?}", i.done.0, i.done.1, i.first)); }
	let b = book().balanced(); c.check_in("C17 C26 C27", "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
/// what a fill of `amt` pays: None when the order does not allow it
fn fill(o: &Order<Acc, u32>, amt: u128, whole: bool) -> Option<u128> { if whole { return Some(o.amount_out); } if !o.partially_fillable || amt > o.amount_in { return None; } let out = muldiv(o.amount_out, amt, o.amount_in); if o.amount_in - amt >= least(o.asset_in) && o.amount_out - out >= least(o.asset_out) { Some(out) } else { None } }
fn pick(r: &mut Rng, m: &Model) -> u32 { if m.orders.is_empty() || r.chance(1, 15) { m.next.saturating_sub(r.idx(3) as u32) } else { *m.orders.keys().nth(r.idx(m.orders.len())).unwrap() } }
fn apply(m: &mut Model, id: u32, amt: u128, out: u128, whole: bool) { if whole { m.orders.remove(&id); } else { let i = m.orders.get_mut(&id).unwrap(); i.o.amount_in -= amt; i.o.amount_out -= out; i.done.0 += amt; i.done.1 += out; } }
fn show(r: &DispatchResult) -> String { r.as_ref().err().map_or("ok".into(), err) }
fn base_value(a: u32) -> u128 { [1_000_000u128, 50_000, 30_000_000, 7_777][a as usize] }
fn place(c: &mut Ctx, m: &mut Model) {
	let r = &mut c.rng; let who = acc(1 + r.idx(4) as u8); let before = book(); let (i, o) = { let i = r.idx(4) as u32; (if r.chance(1, 25) { 7 } else { i }, if r.chance(1, 40) { i } else { (i + 1 + r.idx(3) as u32) % 4 }) };
	let out = match r.idx(10) { 0 => least(o).saturating_sub(r.idx(2) as u128), 1 => before.free(&who, o).saturating_add(r.idx(2) as u128), 2 => r.log(1, u128::MAX), _ => r.log(least(o).max(1), before.free(&who, o) / 3 + least(o) + 1) };
	let inn = match r.idx(10) { 0 => least(i).saturating_sub(r.idx(2) as u128), 1 => r.log(1, u128::MAX), _ => muldiv(out, base_value(o) * (900_000 + r.range(0, 200_000)), base_value(i.min(3)) * 1_000_000).max(least(i)) };
	let part = r.chance(2, 3); let fine = Assets::with(|x| x.contains_key(&i)) && inn >= least(i) && out >= least(o) && before.free(&who, o) >= out; let edge = o == 0 && before.free(&who, o).saturating_sub(out) < ed(0);
	let _ = take_events::<Rt>(); let root = raw(); let res = call(RuntimeCall::Otc(Call::place_order { asset_in: i, asset_out: o, amount_in: inn, amount_out: out, partially_fillable: part }), RuntimeOrigin::signed(who.clone())); let ev = take_events::<Rt>(); let after = book();
	c.log(|| format!("{} offers {out} of {o} for {inn} of {i} (partial {part}) -> {}", nm(&who), show(&res)));
	if res.is_err() { c.event("order-refused"); c.check_in(P, "good-orders-are-taken", !fine || edge, || show(&res)); c.check_in(P, "refusal-changes-nothing", raw() == root, || "state differs".into()); return; }
	if !c.check_in(P, "order-within-the-rules", fine, || format!("{inn} of {i} for {out} of {o}")) { return; }
	c.event("placed"); let id = m.next; c.check_in(P, "placing-is-announced", ev.iter().any(|e| *e == RuntimeEvent::Otc(Event::Placed { order_id: id, asset_in: i, asset_out: o, amount_in: inn, amount_out: out, partially_fillable: part })), || format!("{ev:?}"));
	c.check_in(P, "offer-is-reserved", before.moved(&after) == Moves::new().sub(&who, o, out) && before.moved_total(&after).is_empty(), || format!("{:?}", before.moved(&after)));
	m.next += 1; m.orders.insert(id, Item { o: Order { owner: who, asset_in: i, asset_out: o, amount_in: inn, amount_out: out, partially_fillable: part }, first: (inn, out), done: (0, 0) });
}
fn trade(c: &mut Ctx, m: &mut Model) {
	let id = pick(&mut c.rng, m); let who = acc(1 + c.rng.idx(5) as u8); let item = m.orders.get(&id).cloned(); let whole = c.rng.chance(1, 3); let before = book();
	let amt = item.as_ref().map_or(5, |i| { let x = i.o.amount_in; let r = &mut c.rng; if whole { x } else { match r.idx(10) { 0 => x, 1 => x.saturating_sub(least(i.o.asset_in)), 2 => x.saturating_add(1).saturating_sub(least(i.o.asset_in)), 3 => x.saturating_add(1), 4 => r.idx(3) as u128, 5 => r.log(1, u128::MAX), _ => r.log(1, x) } } });
	let pays = item.as_ref().and_then(|i| fill(&i.o, amt, whole));
	let me_too = item.as_ref().map_or(false, |i| i.o.owner == who); let (fine, edge) = match (&item, pays) { (Some(i), Some(_)) => (before.free(&who, i.o.asset_in) >= amt, i.o.asset_in == 0 && before.free(&who, 0).saturating_sub(amt) <= ed(0) || me_too && i.o.asset_in == i.o.asset_out), _ => (false, false) };
	let _ = take_events::<Rt>(); let root = raw(); let cl = if whole { Call::fill_order { order_id: id } } else { Call::partial_fill_order { order_id: id, amount_in: amt } };
	let res = call(RuntimeCall::Otc(cl), RuntimeOrigin::signed(who.clone())); let ev = take_events::<Rt>(); let after = book();
	c.log(|| format!("{} fills {id} with {amt} (whole {whole}) -> {}", nm(&who), show(&res)));
	if res.is_err() { c.event("fill-refused"); c.check_in(P, "allowed-fills-succeed", !fine || edge, || format!("{} for {item:?} by {}", show(&res), nm(&who))); c.check_in(P, "refusal-changes-nothing", raw() == root, || "state differs".into()); return; }
	let (Some(i), Some(out)) = (item, pays) else { c.check_in(P, "fill-within-the-rules", false, || format!("{id} filled with {amt} (whole {whole})")); return };
	c.event(if whole { "filled" } else { "partially-filled" }); if me_too { c.event("filled-own"); } c.nontrivial((amt, out, whole));
	let want = Moves::new().mv(&who, &i.o.owner, i.o.asset_in, amt).mv(&i.o.owner, &who, i.o.asset_out, out); c.check_in("C17 C26", "fill-exchanges-the-two-amounts", before.moved_total(&after) == want && before.moved_reserved(&after) == Moves::new().sub(&i.o.owner, i.o.asset_out, out), || format!("{:?}, expected {want:?}; reserved {:?}", before.moved_total(&after), before.moved_reserved(&after)));
	let e = if whole { Event::Filled { order_id: id, who: who.clone(), amount_in: amt, amount_out: out } } else { Event::PartiallyFilled { order_id: id, who: who.clone(), amount_in: amt, amount_out: out } };
	c.check_in(P, "fill-is-announced", ev.contains(&RuntimeEvent::Otc(e)), || format!("{ev:?}")); apply(m, id, amt, out, whole);
}
fn cancel(c: &mut Ctx, m: &mut Model) {
	let id = pick(&mut c.rng, m); let item = m.orders.get(&id).cloned(); let who = match &item { Some(i) if c.rng.chance(4, 5) => i.o.owner.clone(), _ => acc(1 + c.rng.idx(5) as u8) }; let fine = item.as_ref().map_or(false, |i| i.o.owner == who);
	let _ = take_events::<Rt>(); let (before, root) = (book(), raw()); let res = call(RuntimeCall::Otc(Call::cancel_order { order_id: id }), RuntimeOrigin::signed(who.clone())); let _ = take_events::<Rt>(); let after = book();
	c.log(|| format!("{} cancels {id} -> {}", nm(&who), show(&res)));
	c.check_in(P, "only-owner-cancels", res.is_ok() == fine, || format!("{} for {item:?} by {}", show(&res), nm(&who)));
	if res.is_err() { c.event("cancel-refused"); c.check_in(P, "refusal-changes-nothing", raw() == root, || "state differs".into()); return; }
	let Some(i) = m.orders.remove(&id) else { return }; c.event("cancelled");
	c.check_in("C17 C26", "cancelling-returns-the-rest", before.moved(&after) == Moves::new().add(&i.o.owner, i.o.asset_out, i.o.amount_out) && before.moved_total(&after).is_empty(), || format!("{:?}", before.moved(&after)));
}
/// with part of the reserve gone by other means, nothing is paid out of other funds
fn robbed(c: &mut Ctx, m: &Model) {
	let Some(id) = m.orders.keys().nth(c.rng.idx(m.orders.len().max(1))).copied() else { return }; let i = m.orders[&id].clone(); let cancels = c.rng.chance(1, 2);
	let bad = frame_support::storage::with_transaction(|| {
		let all = Currencies::reserved_balance_named(&NAMED_RESERVE_ID, i.o.asset_out, &i.o.owner); Currencies::unreserve_named(&NAMED_RESERVE_ID, i.o.asset_out, &i.o.owner, all - i.o.amount_out + 1); let _ = take_events::<Rt>(); let root = raw();
		let res = if cancels { call(RuntimeCall::Otc(Call::cancel_order { order_id: id }), RuntimeOrigin::signed(i.o.owner.clone())) } else { call(RuntimeCall::Otc(Call::fill_order { order_id: id }), RuntimeOrigin::signed(acc(5))) };
		let ok = res.is_err() && raw() == root; frame_support::storage::TransactionOutcome::Rollback(Ok::<_, DispatchError>(if ok { None } else { Some(show(&res)) }))
	}).unwrap();
	c.event("short-reserve"); c.check_in(P, "pays-from-the-reserve-only", bad.is_none(), || format!("{id} (cancel {cancels}) with a reserve one short: {bad:?}"));
}
/// Whether a settlement must succeed: Ok(amounts of B and A), Err(certain) when not.
fn settlement(o: &Order<Acc, u32>, amt: u128, route: &[Hop]) -> Result<(u128, u128), bool> {
	if (!o.partially_fillable && amt != o.amount_in) || route != &path(o.asset_out, o.asset_in)[..] || amt == 0 { return Err(true); }
	let whole = amt == o.amount_in; let b = fill(o, amt, whole).ok_or(true)?; let (v, after) = quote(route, b).ok_or(true)?; let a = v[v.len() - 1]; if a == 0 || a < amt { return Err(true); }
	if a - amt < MinProfit::get().mul_floor(o.amount_in) { return Err(true); }
	if o.partially_fillable {
		let Some(after) = after else { return Err(true) }; let p = w(o.amount_out) * w(10u128.pow(18)) / w(o.amount_in); if p > w(u128::MAX) { return Err(true); } let p = p.low_u128();
		let (diff, max) = (w(after.into_inner().abs_diff(p)) * w(10u128.pow(18)), w(Precision::get().into_inner()) * w(p)); let slack = w(4) * w(10u128.pow(18)); if diff > max + slack { return Err(true); } if diff + slack > max && diff > w(0) { return Err(false); }
	}
	// existential deposits and own funds of the settling account decide the small cases
	let small = |c: u32, x: u128| c == 0 && x <= ed(0) || x < ed(c); if small(o.asset_in, amt) || small(o.asset_out, b) || a == amt || o.asset_in == o.asset_out || route.iter().zip(&v).any(|(h, y)| small(h.asset_out, *y)) { return Err(false); }
	Ok((b, a))
}
fn settle(c: &mut Ctx, m: &mut Model) {
	let id = pick(&mut c.rng, m); let item = m.orders.get(&id).cloned();
	let route = item.as_ref().map_or(vec![], |i| if c.rng.chance(1, 12) { vec![hop(i.o.asset_in, i.o.asset_out)] } else { path(i.o.asset_out, i.o.asset_in) });
	let amt = item.as_ref().map_or(7, |i| { let x = i.o.amount_in; match c.rng.idx(6) { 0 => x, 1 => c.rng.log(1, x), _ => { if !i.o.partially_fillable { x } else { let (mut lo, mut hi) = (1u128, x); while lo < hi { let mid = lo + (hi - lo) / 2; let up = fill(&i.o, mid, mid == x).and_then(|b| quote(&route, b)).and_then(|q| q.1).map_or(true, |p| w(p.into_inner()) * w(i.o.amount_in) > w(i.o.amount_out) * w(10u128.pow(18))); if up { hi = mid } else { lo = mid + 1 } } if c.rng.chance(1, 4) { lo + c.rng.idx(3) as u128 } else { lo.saturating_sub(1).max(1) } } } } });
	attempt(c, m, id, amt, route, "settled");
}
fn attempt(c: &mut Ctx, m: &mut Model, id: u32, amt: u128, route: Vec<Hop>, name: &str) -> bool {
	let item = m.orders.get(&id).cloned(); let want = match &item { Some(i) => settlement(&i.o, amt, &route), None => Err(true) };
	let origin = if c.rng.chance(1, 2) { RuntimeOrigin::none() } else { RuntimeOrigin::signed(acc(1 + c.rng.idx(5) as u8)) }; Ran::set(vec![]); let _ = take_events::<Rt>(); let (before, root) = (book(), raw()); let quoted = item.as_ref().and_then(|i| quote(&route, fill(&i.o, amt, amt == i.o.amount_in)?));
	let res = call(RuntimeCall::Settle(pallet_otc_settlements::Call::settle_otc_order { otc_id: id, amount: amt, route: route.clone() }), origin); let ev = take_events::<Rt>(); let after = book();
	c.log(|| format!("settle {id} {:?} with {amt} along {route:?}: expected {want:?} -> {}", item.as_ref().map(|i| &i.o), show(&res)));
	if res.is_err() { c.event("settlement-refused"); c.check_in(S, "open-arbitrage-is-settled", want.is_err(), || format!("{} for {item:?}, expected {want:?}", show(&res))); c.check_in(S, "failed-settlement-changes-nothing", raw() == root, || "state differs".into()); return false; }
	if !c.check_in(S, "settlement-within-the-rules", !matches!(want, Err(true)), || format!("{id} {item:?} was settled with {amt} along {route:?}: profit {:?}", before.moved_total(&after))) { return false; }
	let (Some(i), Some((v, _))) = (item, quoted) else { return false }; let whole = amt == i.o.amount_in; let b = fill(&i.o, amt, whole).unwrap_or(0); let a = v[v.len() - 1]; c.event(name); if !whole { c.event("settled-partially"); } if route.len() > 1 { c.event("settled-over-two-hops"); } c.nontrivial((amt, a, b));
	let mut x = Moves::new().add(&i.o.owner, i.o.asset_in, amt).sub(&i.o.owner, i.o.asset_out, b).add(&Receiver::get(), i.o.asset_in, a.saturating_sub(amt)); let mut y = b; for (h, z) in route.iter().zip(&v) { x = x.add(&home(h), h.asset_in, y).sub(&home(h), h.asset_out, *z); y = *z; }
	c.check_in("C17 C27", "settlement-pays-owner-pool-and-receiver-only", before.moved_total(&after) == x, || format!("{:?}, expected {x:?}", before.moved_total(&after)));
	c.check_in("C17 C27", "settlement-creates-nothing", before.issuance == after.issuance, || format!("{:?} then {:?}", before.issuance, after.issuance));
	c.check_in(S, "profit-is-announced", ev.contains(&RuntimeEvent::Settle(pallet_otc_settlements::Event::Executed { asset_id: i.o.asset_in, profit: a.saturating_sub(amt) })) && Ran::get() == vec![(b, route.clone())], || format!("{ev:?}"));
	apply(m, id, amt, b, whole); true
}
fn offchain(c: &mut Ctx, m: &mut Model) {
	m.height += c.rng.idx(2) as u32; let n = m.height; let valid = c.rng.chance(9, 10);
	sp_core::offchain::STATE.with(|s| { let mut s = s.borrow_mut(); s.validator = valid; s.pool.write().transactions.clear(); });
	let seen: u32 = stored(pallet_otc_settlements::OFFCHAIN_WORKER_DATA_LAST_UPDATE).unwrap_or(0);
	let list = || stored::<Vec<u32>>(pallet_otc_settlements::OFFCHAIN_WORKER_DATA); let old = list();
	let ran = panics::catch(|| frame_support::storage::with_transaction(|| { <Settle as Hooks<u32>>::offchain_worker(n); frame_support::storage::TransactionOutcome::Rollback(Ok::<(), DispatchError>(())) })); let _ = take_events::<Rt>();
	let sent: Vec<RuntimeCall> = sp_core::offchain::STATE.with(|s| s.borrow().pool.read().transactions.iter().filter_map(|x| <Xt as codec::Decode>::decode(&mut &x[..]).ok()).map(|x| x.call).collect());
	c.log(|| format!("off-chain worker at {n} (last {seen}, validator {valid}), list {old:?} -> {:?}: {} sent", list(), sent.len()));
	if !c.check_in(S, "off-chain-worker-does-not-crash", ran.is_ok(), || format!("{ran:?} at {n} with list {old:?}, orders {:?}", m.orders.keys())) { sp_core::offchain::STATE.with(|s| s.borrow_mut().locked = false); return; }
	if !valid { c.event("not-a-validator"); c.check_in(S, "only-validators-settle", sent.is_empty() && list() == old, || format!("{sent:?}")); return; }
	c.event("off-chain-worker");
	if n > seen {
		let gap = |i: &Item| -> Option<(u128, u128)> { let q = w(i.o.amount_out) * w(10u128.pow(18)) / w(i.o.amount_in); if q > w(u128::MAX) { return None; } Some((q.low_u128(), Router::spot_price_with_fee(&path(i.o.asset_out, i.o.asset_in))?.into_inner())) };
		let want: BTreeMap<u32, u128> = m.orders.iter().filter_map(|(k, i)| gap(i).filter(|g| g.1 <= g.0).map(|g| (*k, g.0 - g.1))).collect();
		let got = list().unwrap_or_default(); let sorted = got.windows(2).all(|x| match (want.get(&x[0]), want.get(&x[1])) { (Some(a), Some(b)) => *a + 2 >= *b, _ => true });
		// the two prices may differ in their last decimal
		let same = got.iter().collect::<BTreeSet<_>>().len() == got.len() && got.iter().all(|k| want.contains_key(k) || m.orders.get(k).and_then(gap).map_or(false, |g| g.1.abs_diff(g.0) <= 2)) && want.iter().all(|(k, g)| got.contains(k) || *g <= 2);
		c.check_in(S, "worker-lists-open-arbitrage", sorted && same, || format!("{got:?}, expected {want:?}"));
	} else { c.event("same-block-again"); c.check_in(S, "worker-lists-once-a-block", list() == old, || format!("{old:?} then {:?}", list())); }
	for x in &sent { let RuntimeCall::Settle(x) = x else { c.check_in(S, "worker-sends-settlements-only", false, || format!("{x:?}")); continue };
		c.check_in(S, "unsigned-only-from-own-node", <Settle as ValidateUnsigned>::validate_unsigned(TransactionSource::Local, x).is_ok() && <Settle as ValidateUnsigned>::validate_unsigned(TransactionSource::InBlock, x).is_ok() && <Settle as ValidateUnsigned>::validate_unsigned(TransactionSource::External, x).is_err(), || format!("{x:?}")); }
	// all of its transactions exclude each other: only the first can be in the next block
	if let Some(first) = list().unwrap_or_default().into_iter().find(|k| m.orders.contains_key(k)) { let o = m.orders[&first].o.clone(); if settlement(&o, o.amount_in, &path(o.asset_out, o.asset_in)).is_ok() { let is = matches!(sent.first(), Some(RuntimeCall::Settle(pallet_otc_settlements::Call::settle_otc_order { otc_id, amount, .. })) if *otc_id == first && *amount == o.amount_in); c.event("whole-settlement-found"); c.check_in(S, "worker-finds-whole-settlements", is, || format!("{sent:?} for {first} {o:?}")); } }
	if let Some(RuntimeCall::Settle(pallet_otc_settlements::Call::settle_otc_order { otc_id, amount, route })) = sent.into_iter().next() { let ok = attempt(c, m, otc_id, amount, route, "settled-by-worker"); c.check_in(S, "worker-sends-what-succeeds", ok, || format!("{otc_id} with {amount}")); }
}
fn stored<T: codec::Decode>(k: &[u8]) -> Option<T> { sp_io::offchain::local_get(k).and_then(|x| T::decode(&mut &x[..]).ok()) }
fn setup(r: &mut Rng) {
	Eds::set(Default::default()); NoDust::set(Default::default()); System::set_block_number(1); System::reset_events(); Assets::set((0..4u32).map(|a| (a, 12)).collect());
	sp_core::offchain::STATE.with(|s| { let mut s = s.borrow_mut(); s.local.clear(); s.locked = false; s.pool.write().transactions.clear(); });
	if r.chance(1, 2) { for a in 1..4u32 { let e = r.log(1, 1000); Eds::with(|m| m.insert(a, e)); } }
	Times::set([1, 5, 10][r.idx(3)]); FeeBp::set([0, 30, 100][r.idx(3)]); MinProfit::set(Perbill::from_parts(if r.chance(1, 2) { 0 } else { r.log(1, 10_000_000) as u32 })); Precision::set(FixedU128::from_inner([10u128.pow(16), 10u128.pow(15), 10u128.pow(13), 0][r.idx(4)])); MinTrade::set(r.log(1, 10_000)); Iters::set(1 + r.idx(50) as u32);
	let via = (0..4u32).flat_map(|a| (0..4u32).map(move |b| (a, b))).filter_map(|k| if r.chance(1, 4) { Some((k, r.idx(4) as u32)) } else { None }).collect(); Via::set(via);
	// a floor no operation can reach keeps every account above its existential deposits
	for i in 1..=5u8 { give_native::<Rt>(&acc(i), r.log(10_000, 10u128.pow(16)) + 5); for a in 1..4u32 { let x = r.log(10_000, 10u128.pow(16)); give::<Rt>(&acc(i), a, x + ed(a)); Tokens::reserve(a, &acc(i), ed(a)).unwrap(); } }
	give_native::<Rt>(&Receiver::get(), 1000); for a in 1..4u32 { give::<Rt>(&Receiver::get(), a, ed(a)); if r.chance(1, 3) { give::<Rt>(&me(), a, ed(a) + r.log(1, 1_000_000)); } } if r.chance(1, 3) { give_native::<Rt>(&me(), r.log(1, 1_000_000)); }
	for a in 0..4u32 { for b in a + 1..4 { let h = hop(a, b); let v = r.log(10u128.pow(14), 10u128.pow(26)); for x in [a, b] { let amt = v / base_value(x) * (950 + r.range(0, 100)) / 1000 + 1_000_000; if x == 0 { give_native::<Rt>(&home(&h), amt) } else { give::<Rt>(&home(&h), x, amt) } } } }
}
fn run(m: &mut Monitor) {
	m.workload("otc", 3000, 100_000, |c| fresh(|| {
		setup(&mut c.rng); let mut x = Model::default();
		for _ in 0..50 {
			if c.failed() { return; }
			match c.rng.idx(10) { 0..=2 => place(c, &mut x), 3 | 4 => trade(c, &mut x), 5 => cancel(c, &mut x), 6 => robbed(c, &x), 7 => settle(c, &mut x), _ => offchain(c, &mut x) }
			state(c, &x);
		}
	}));
	for (e, n) in [("placed", 5000), ("order-refused", 1000), ("filled", 1000), ("partially-filled", 1000), ("filled-own", 100), ("fill-refused", 1000), ("cancelled", 1000), ("cancel-refused", 100), ("short-reserve", 500), ("settled", 200), ("settled-partially", 200), ("settled-over-two-hops", 50), ("settlement-refused", 500), ("off-chain-worker", 1000), ("same-block-again", 300), ("settled-by-worker", 300), ("whole-settlement-found", 100)] { m.expect(&format!("otc/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct fills and settlements by (amount in, amount out)", ["the pallets run on a stand-in for FRAME (calibrated by their own 21 and 13 tests)", "the router is a constant-product stand-in that moves real tokens", "comparisons decided by the last decimal of a price are accepted either way"]; "C17" => run, "C26" => run, "C27" => run);
}

//! Fee payment in any accepted currency: random blocks of transactions, transfers, price changes and permits, judged on every balance.
use frame_support::dispatch::{DispatchErrorWithPostInfo, DispatchResultWithPostInfo, PostDispatchInfo};
use frame_support::storage::{with_transaction, TransactionOutcome};
use frame_support::weights::IdentityFee;
use hydradx_traits::evm::InspectEvmAccounts;
use hydradx_traits::router::{RouteProvider, Trade};
use hydradx_traits::{AccountFeeCurrency, NativePriceOracle, OraclePeriod, PriceOracle};
use mon_core::big::w;
use mon_frame::*;
use orml_traits::currency::MutationHooks;
use pallet_transaction_multi_payment::{AddTxAssetOnAccount, Call, DepositAll, EVMPermit, Error, PaymentInfo, RemoveTxAssetOnKilled, TransferFees, TryCallCurrency};
use pallet_transaction_payment::OnChargeTransaction;
use sp_runtime::traits::ValidateUnsigned;
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Evm: pallet_evm_accounts, Utility: pallet_utility, TxPay: pallet_transaction_payment, Pay: pallet_transaction_multi_payment });
base!(Rt, CurrencyHooks, DustWhite);
pub struct CurrencyHooks;
impl MutationHooks<Acc, u32, u128> for CurrencyHooks { type OnDust = (); type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = AddTxAssetOnAccount<Rt>; type OnKilledTokenAccount = RemoveTxAssetOnKilled<Rt>; }
param! { Table: BTreeMap<u32, (u128, u128)> = Default::default(); Asked: Vec<(u32, u32, bool)> = vec![]; Script: (bool, u8) = (true, 0); Seen: Vec<(Option<u32>, Acc)> = vec![]; Handler: u32 = 0; Nonce: u64 = 0; }
parameter_types! { pub const Native: u32 = 0; pub const Weth: u32 = 4; }
pub struct Receiver; impl Get<Acc> for Receiver { fn get() -> Acc { acc(50) } }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
pub struct NonceOf; impl pallet_evm_accounts::EvmNonceProvider for NonceOf { fn get_nonce(a: H160) -> U256 { U256::from(Nonce::get() * (a.0[19] as u64 & 1)) } }
impl pallet_evm_accounts::Config for Rt { type RuntimeEvent = RuntimeEvent; type EvmNonceProvider = NonceOf; type FeeMultiplier = frame_support::traits::ConstU32<10>; type ControllerOrigin = EnsureRoot<Acc>; type WeightInfo = (); }
impl pallet_utility::Config for Rt { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
type Charge = TransferFees<Currencies, DepositAll<Rt>, Receiver>;
impl pallet_transaction_payment::Config for Rt { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = Charge; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<u128>; type LengthToFee = IdentityFee<u128>; type FeeMultiplierUpdate = (); }
pub struct Routes; impl RouteProvider<u32> for Routes {}
pub struct Oracle; impl PriceOracle<u32> for Oracle { type Price = hydra_dx_math::types::Ratio; fn price(r: &[Trade<u32>], p: OraclePeriod) -> Option<hydra_dx_math::types::Ratio> { let a = r.first()?.asset_in; Asked::with(|v| v.push((a, r.last().unwrap().asset_out, p == OraclePeriod::Short))); Table::with(|t| t.get(&a).map(|x| hydra_dx_math::types::Ratio { n: x.0, d: x.1 })) } }
impl pallet_transaction_multi_payment::Config for Rt { type RuntimeEvent = RuntimeEvent; type AcceptedCurrencyOrigin = EnsureRoot<Acc>; type Currencies = Currencies; type RouteProvider = Routes; type OraclePriceProvider = Oracle; type WeightInfo = (); type WeightToFee = IdentityFee<u128>; type NativeAssetId = Native; type EvmAssetId = Weth; type InspectEvmAccounts = Evm; type EvmPermit = Permit; type TryCallCurrency<'a> = TryCallCurrency<Rt>; }
/// A scripted permit contract: it records under which fee currency it was run and moves a token so that dry runs are seen if kept.
pub struct Permit;
const POST: PostDispatchInfo = PostDispatchInfo { actual_weight: Some(Weight::from_parts(7, 0)), pays_fee: frame_support::dispatch::Pays::No };
impl EVMPermit for Permit {
	fn validate_permit(_: H160, _: H160, _: Vec<u8>, _: U256, _: u64, _: U256, _: u8, _: H256, _: H256) -> DispatchResult { if Script::get().0 { Ok(()) } else { Err(Error::<Rt>::EvmPermitInvalid.into()) } }
	fn dispatch_permit(s: H160, _: H160, _: Vec<u8>, _: U256, _: u64, _: U256, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo {
		let who = Evm::account_id(s); Seen::with(|v| v.push((Pay::tx_fee_currency_override(&who), who.clone())));
		let fail = |e: Error<Rt>| Err(DispatchErrorWithPostInfo { post_info: POST, error: e.into() });
		let _ = Tokens::deposit(3, &acc(60), 1000);
		match Script::get().1 { 0 => Ok(POST), 1 => fail(Error::<Rt>::EvmPermitRunnerError), _ => fail(Error::<Rt>::EvmPermitCallExecutionError) }
	}
	fn gas_price() -> (U256, Weight) { (U256::from(3), Weight::zero()) }
	fn dispatch_weight(_: u64) -> Weight { Weight::zero() }
	fn permit_nonce(_: H160) -> U256 { U256::zero() }
	fn on_dispatch_permit_error() { Handler::with(|h| *h += 1); }
}
const P: &str = "C24";
type Map = BTreeMap<Acc, u32>;
#[derive(Clone, Default)]
struct Model { accepted: BTreeMap<u32, FixedU128>, prices: BTreeMap<u32, FixedU128>, chosen: Map }
fn price_of(t: (u128, u128)) -> Option<FixedU128> { if t.1 == 0 { return None; } let r = w(t.0) * w(1_000_000_000_000_000_000) / w(t.1); if r > w(u128::MAX) { None } else { Some(FixedU128::from_inner(r.low_u128())) } }
/// equal up to the rounding of the last decimal
fn same_price(a: Option<FixedU128>, b: Option<FixedU128>) -> bool { match (a, b) { (Some(a), Some(b)) => a.into_inner().abs_diff(b.into_inner()) <= 1, (a, b) => a.is_none() && b.is_none() || edge(a) || edge(b) } }
fn edge(a: Option<FixedU128>) -> bool { a.map_or(false, |x| x.into_inner() == u128::MAX) }
fn book() -> Book { Book::all::<Rt>() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn evm(i: u8) -> Acc { let mut b = [0u8; 32]; b[..4].copy_from_slice(b"ETH\0"); b[4..24].copy_from_slice(&[i; 20]); Acc::new(b) }
fn who(i: usize) -> Acc { if i < 6 { acc(1 + i as u8) } else { evm(i as u8) } }
/// account creation and removal hooks, from what appeared and disappeared
fn hooks(m: &mut Model, a: &Book, b: &Book) {
	let keys: BTreeSet<_> = a.free.keys().chain(a.reserved.keys()).chain(b.free.keys()).chain(b.reserved.keys()).cloned().collect();
	for (x, c) in keys { if c == NATIVE { continue; }
		let (was, is) = (a.total(&x, c), b.total(&x, c));
		if was == 0 && is > 0 && !m.chosen.contains_key(&x) && m.accepted.contains_key(&c) && b.total(&x, NATIVE) == 0 { m.chosen.insert(x.clone(), c); }
		if was > 0 && is == 0 { let none = (0..8u32).all(|k| b.total(&x, k) == 0); if none || m.chosen.get(&x).map_or(false, |k| b.total(&x, *k) == 0) { m.chosen.remove(&x); } }
	}
}
fn state(c: &Ctx, m: &Model) {
	let chosen: Map = pallet_transaction_multi_payment::AccountCurrencyMap::<Rt>::iter().collect();
	c.check_in(P, "fee-currencies-as-chosen", chosen == m.chosen, || format!("stored {:?}, expected {:?}", show(&chosen), show(&m.chosen)));
	let acc_: BTreeMap<_, _> = pallet_transaction_multi_payment::AcceptedCurrencies::<Rt>::iter().collect();
	c.check_in(P, "accepted-as-voted", acc_ == m.accepted, || format!("{acc_:?}, expected {:?}", m.accepted));
	let pr: BTreeMap<_, _> = pallet_transaction_multi_payment::AcceptedCurrencyPrice::<Rt>::iter().collect();
	c.check_in(P, "prices-fixed-for-the-block", pr.len() == m.prices.len() && m.prices.iter().all(|(k, v)| same_price(pr.get(k).copied(), Some(*v))), || format!("{pr:?}, expected {:?}", m.prices));
	c.check_in(P, "no-override-left", pallet_transaction_multi_payment::TransactionCurrencyOverride::<Rt>::iter().count() == 0, || "a currency override survived".into());
	let b = book().balanced(); c.check_in("C17 C24", "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
fn show(m: &Map) -> Vec<(String, u32)> { m.iter().map(|(k, v)| (nm(k), *v)).collect() }
fn rational(r: &mut Rng) -> (u128, u128) { match r.idx(24) { 0 => (0, 0), 1 => (r.log(1, u128::MAX), 0), 2 => (0, r.log(1, 1_000_000)), 3 => (r.log(1, u128::MAX), r.log(1, u128::MAX)), 4 => (u128::MAX, 1), 5 => (1, u128::MAX), _ => { let d = r.log(1_000_000, 10u128.pow(24)); (muldiv(d, r.log(1, 1_000_000_000_000), 1_000_000).max(1), d) } } }
fn set(c: u32) -> RuntimeCall { RuntimeCall::Pay(Call::set_currency { currency: c }) }
fn remark() -> RuntimeCall { RuntimeCall::System(frame_system::Call::remark { remark: vec![1] }) }
/// a call, and the currency it names for its own fee
fn some_call(r: &mut Rng) -> (RuntimeCall, Option<u32>) {
	let k = r.idx(6) as u32; let u = |x| RuntimeCall::Utility(x);
	match r.idx(9) {
		0 | 1 => (set(k), Some(k)),
		2 => (u(pallet_utility::Call::batch { calls: vec![set(k), remark()] }), Some(k)),
		3 => (u(pallet_utility::Call::batch_all { calls: vec![set(k), set(0)] }), Some(k)),
		4 => (u(pallet_utility::Call::force_batch { calls: vec![set(k)] }), Some(k)),
		5 => (u(pallet_utility::Call::batch { calls: vec![remark(), set(k)] }), None),
		6 => (u(pallet_utility::Call::batch_all { calls: vec![] }), None),
		7 => (u(pallet_utility::Call::batch { calls: vec![u(pallet_utility::Call::batch { calls: vec![set(k)] })] }), None),
		_ => (remark(), None),
	}
}
fn apply_set(m: &mut Model, x: &Acc, k: u32) -> bool { let ok = k == 0 || m.accepted.contains_key(&k); if ok { m.chosen.insert(x.clone(), k); } ok }
/// what dispatching one of `some_call` does to the chosen currency
fn apply_call(m: &mut Model, x: &Acc, c: &RuntimeCall) -> bool {
	match c {
		RuntimeCall::Pay(Call::set_currency { currency }) => apply_set(m, x, *currency),
		RuntimeCall::Utility(pallet_utility::Call::batch { calls }) => { for k in calls { if !apply_call(m, x, k) { break; } } true }
		RuntimeCall::Utility(pallet_utility::Call::batch_all { calls }) => { let save = m.chosen.clone(); for k in calls { if !apply_call(m, x, k) { m.chosen = save; return false; } } true }
		RuntimeCall::Utility(pallet_utility::Call::force_batch { calls }) => { for k in calls { apply_call(m, x, k); } true }
		_ => true,
	}
}
fn conv(fee: u128, p: FixedU128) -> Option<u128> { let r = w(fee) * w(p.into_inner()) / w(1_000_000_000_000_000_000); if r > w(u128::MAX) { None } else { Some(r.low_u128().max(1)) } }
fn price_now(m: &Model, k: u32) -> Option<FixedU128> { if k == NATIVE { return Some(FixedU128::from_inner(1_000_000_000_000_000_000)); } pallet_transaction_multi_payment::AcceptedCurrencyPrice::<Rt>::get(k).or_else(|| Table::with(|t| t.get(&k).copied()).and_then(price_of)).or_else(|| m.accepted.get(&k).copied()) }
fn transaction(c: &mut Ctx, m: &mut Model) {
	let x = { let i = c.rng.idx(9); if i == 8 { Receiver::get() } else { who(i) } }; let (call_, named) = some_call(&mut c.rng);
	let fee = match c.rng.idx(12) { 0 => 0, 1 => 1, 2 => c.rng.log(1, u128::MAX), _ => c.rng.log(1, 1_000_000_000_000) }; let tip = match c.rng.idx(3) { 0 => 0, 1 => c.rng.below(fee + if fee == u128::MAX { 0 } else { 1 }), _ => c.rng.below(fee / 10 + 1) };
	let kcur = named.unwrap_or_else(|| m.chosen.get(&x).copied().unwrap_or(0));
	c.check_in(P, "fee-currency-of-the-account", <Pay as AccountFeeCurrency<Acc>>::get(&x) == m.chosen.get(&x).copied().unwrap_or(0), || format!("{} pays in {}", nm(&x), <Pay as AccountFeeCurrency<Acc>>::get(&x)));
	let (before, root) = (book(), raw()); let price = price_now(m, kcur); let amount = price.and_then(|p| conv(fee, p));
	let can = amount.map_or(false, |a| <Currencies as MultiCurrency<Acc>>::ensure_can_withdraw(kcur, &x, a).is_ok()); let tight = amount.map_or(true, |a| { let f = before.free(&x, kcur); a.abs_diff(f) <= 1 + fee / 1_000_000_000_000_000_000 || a > u128::MAX / 2 }); let info = Default::default();
	let res = <Charge as OnChargeTransaction<Rt>>::withdraw_fee(&x, &call_, &info, fee, tip); let mid = book();
	c.log(|| format!("tx of {} fee {fee} tip {tip} in {kcur} (named {named:?}) price {price:?} -> {res:?}", nm(&x)));
	let Ok(info_) = res else {
		c.event("refused"); c.check_in(P, "payable-fees-are-taken", tight || !(fee == 0 || can && price.is_some()), || format!("{res:?}: price {price:?}, amount {amount:?}, held {}", before.free(&x, kcur)));
		c.check_in(P, "refusal-changes-nothing", raw() == root && res == Err(TransactionValidityError::Invalid(InvalidTransaction::Payment)), || format!("{res:?}")); return;
	};
	if fee == 0 { c.event("free"); c.check_in(P, "no-fee-no-charge", info_.is_none() && raw() == root, || format!("{info_:?}")); return; }
	let Some(amount) = amount else { c.check_in(P, "fee-has-a-price", false, || format!("{info_:?} without a price")); return };
	let (price, amount) = match &info_ { Some(PaymentInfo::NonNative(_, _, p)) if same_price(price, Some(*p)) => (Some(*p), conv(fee, *p).unwrap_or(0)), _ => (price, amount) };
	let ok = match &info_ { Some(PaymentInfo::Native(f)) => kcur == 0 && *f == fee, Some(PaymentInfo::NonNative(f, k, p)) => kcur != 0 && *k == kcur && *f == amount && Some(*p) == price, None => false };
	c.check_in(P, "payment-record-is-true", ok && (can || tight), || format!("{info_:?}, expected {amount} of {kcur}"));
	// the native currency loses a remainder below the existential deposit
	let rest = before.free(&x, kcur).saturating_sub(amount); let dust = if kcur == 0 && rest < ed(0) && before.reserved(&x, 0) == 0 { rest } else { 0 };
	let want = Moves::new().sub(&x, kcur, amount + dust); let got = before.moved_total(&mid);
	c.check_in(P, "charged-exactly-the-fee", got == want, || format!("{got:?}, expected {want:?}"));
	hooks(m, &before, &mid); state(c, m); c.event(if kcur == 0 { "paid-native" } else { "paid-other" }); c.nontrivial((kcur, fee, amount));
	// the call itself
	let keep = m.chosen.clone(); let ok = apply_call(m, &x, &call_); let res = call(call_, RuntimeOrigin::signed(x.clone())); if !ok { m.chosen = keep; }
	c.check_in(P, "only-accepted-currencies-can-be-chosen", res.is_ok() == ok, || format!("{res:?}, expected {ok}"));
	if named.is_some() && ok { c.event("currency-set"); }
	let _ = take_events::<Rt>();
	let mid = book(); let fin = if c.rng.chance(1, 3) { fee } else { c.rng.range(tip, fee) }; let keep = m.clone();
	let price = price.unwrap(); let due = if kcur == 0 { fin } else { conv(fin, price).unwrap() }; let tipc = if kcur == 0 { tip } else { (w(tip) * w(price.into_inner()) / w(1_000_000_000_000_000_000)).low_u128() };
	let refund = amount - due.min(amount); let to = due.max(tipc);
	let r = with_transaction(|| { let r = <Charge as OnChargeTransaction<Rt>>::correct_and_deposit_fee(&x, &info, &Default::default(), fin, tip, info_.clone()); match r { Ok(()) => TransactionOutcome::Commit(Ok::<_, DispatchError>(Ok(()))), Err(e) => TransactionOutcome::Rollback(Ok(Err(e))) } }).unwrap();
	let after = book(); let rc = Receiver::get();
	c.log(|| format!("  settled at {fin}: refund {refund}, collected {to} -> {r:?}"));
	match r {
		Ok(()) => {
			let got = mid.moved_total(&after); let want = Moves::new().add(&x, kcur, refund).add(&rc, kcur, to);
			c.check_in(P, "collected-what-is-due-and-returned-the-rest", got == want, || format!("{got:?}, expected {want:?}")); c.check_in(P, "fees-are-conserved", refund + to == amount, || format!("charged {amount}, returned {refund}, collected {to}"));
			c.event(if refund > 0 { "refunded" } else { "kept" }); hooks(m, &mid, &after);
		}
		Err(_) => { *m = keep; // a share too small to open an account is the only reason to fail
			let small = |a: &Acc, v: u128| v > 0 && v < ed(kcur) && mid.total(a, kcur) == 0; let big = mid.issuance(kcur).checked_add(refund).and_then(|v| v.checked_add(to)).is_none();
			c.check_in(P, "settlement-fails-only-below-existence", small(&x, refund) || small(&rc, to) || big, || format!("{r:?}: refund {refund}, collected {to}")); c.event("unsettled");
		}
	}
}
fn permit(c: &mut Ctx, m: &mut Model) {
	use codec::Encode;
	let i = 6 + c.rng.idx(2) as u8; let (src, bound) = if c.rng.chance(1, 2) { (H160([i; 20]), evm(i)) } else { let a = acc(1 + c.rng.idx(6) as u8); let s = H160::from_slice(&(a.as_ref() as &[u8; 32])[..20]); (s, if Evm::bound_account_id(s).is_some() { a } else { Evm::truncated_account_id(s) }) };
	c.check_in(P, "permit-account", Evm::account_id(src) == bound, || format!("{src:?}"));
	let (mut call_, mut named) = some_call(&mut c.rng); let mut data = call_.encode();
	match c.rng.idx(6) { 0 => { data.push(0); named = None; } 1 => { data = vec![]; named = None; } 2 => { for _ in 0..34 { call_ = RuntimeCall::Utility(pallet_utility::Call::batch { calls: vec![call_] }); } data = call_.encode(); named = None; } _ => {} }
	let want = named.unwrap_or_else(|| m.chosen.get(&bound).copied().unwrap_or(0));
	let script = (c.rng.chance(4, 5), c.rng.idx(3) as u8); Script::set(script); Seen::set(vec![]); Handler::set(0);
	let z = (U256::zero(), 0u8, H256::zero());
	let root = raw();
	let cl = Call::<Rt>::dispatch_permit { from: src, to: H160([9; 20]), value: z.0, data: data.clone(), gas_limit: 21_000, deadline: U256::MAX, v: 27, r: z.2, s: z.2 };
	let v = Pay::validate_unsigned(TransactionSource::External, &cl);
	let code = |e: Error<Rt>| match DispatchError::from(e) { DispatchError::Module(x) => x.error[0], _ => 0 };
	let expect = match script { (false, _) => Some(code(Error::EvmPermitInvalid)), (_, 0) => None, (_, 1) => Some(code(Error::EvmPermitRunnerError)), _ => Some(code(Error::EvmPermitCallExecutionError)) };
	c.log(|| format!("permit of {} (wants {want}) script {script:?} -> {v:?}", nm(&bound)));
	c.check_in(P, "only-working-permits-are-valid", match expect { None => v.is_ok(), Some(x) => v == Err(TransactionValidityError::Invalid(InvalidTransaction::Custom(x))) }, || format!("{v:?}, expected {expect:?}"));
	c.check_in(P, "validation-leaves-no-trace", raw() == root, || "validating a permit changed the state".into());
	let dry = Seen::get(); c.check_in(P, "permit-pays-in-the-signers-currency", dry == if script.0 { vec![(Some(want), bound.clone())] } else { vec![] }, || format!("{dry:?}, expected {want}"));
	// a signed or root caller is refused
	let bad = if c.rng.chance(1, 2) { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(1)) }; let r = call(RuntimeCall::Pay(cl.clone()), bad); c.check_in(P, "permits-are-unsigned", r == Err(DispatchError::BadOrigin) && raw() == root, || format!("{r:?}"));
	Seen::set(vec![]); let before = book();
	let r = Pay::dispatch_permit(RuntimeOrigin::none(), src, H160([9; 20]), z.0, data, 21_000, U256::MAX, 27, z.2, z.2);
	let ran = Seen::get(); let want_seen = if script.0 { vec![(Some(want), bound.clone())] } else { vec![] };
	c.check_in(P, "permit-dispatch-never-fails", r == Ok(if script.0 { POST } else { PostDispatchInfo::default() }), || format!("{r:?}")); c.check_in(P, "permit-pays-in-the-signers-currency", ran == want_seen, || format!("{ran:?}, expected {want_seen:?}"));
	c.check_in(P, "unpaid-failures-raise-the-alarm", Handler::get() == u32::from(!script.0 || script.1 == 1), || format!("{} for {script:?}", Handler::get()));
	if script.0 { c.event("permit-run"); } else { c.event("permit-refused"); } let after = book(); hooks(m, &before, &after);
}
fn history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); let r = &mut c.rng; Table::set(Default::default()); Nonce::set(r.below(2) as u64); NoDust::set(Default::default());
		Eds::set((0..8).map(|a| (a, *r.pick(&[1u128, 2, 1000]))).collect()); let mut m = Model::default();
		let (mut cur, mut ch) = (vec![], vec![]); for k in 1..6u32 { if r.chance(1, 2) { let p = FixedU128::from_inner(r.log(1, 10u128.pow(24))); cur.push((k, p)); m.accepted.insert(k, p); } if r.chance(2, 3) { Table::with(|t| t.insert(k, rational(r))); } }
		if let Some((k, _)) = cur.first() { if r.chance(1, 2) { ch.push((acc(1), *k)); m.chosen.insert(acc(1), *k); } }
		{ use frame_support::traits::BuildGenesisConfig; pallet_transaction_multi_payment::GenesisConfig::<Rt> { currencies: cur, account_currencies: ch }.build(); }
		for i in 0..8 { for k in 0..6u32 { if r.chance(1, 2) { let top = 10u128.pow(*r.pick(&[6u32, 15, 30])); let v = r.log(1000, top); let b = book(); if k == 0 { give_native::<Rt>(&who(i), v) } else { give::<Rt>(&who(i), k, v) } hooks(&mut m, &b, &book()); } } }
		for _ in 0..6 {
			let now = System::block_number();
			Asked::set(vec![]); let _ = <Pay as Hooks<u32>>::on_initialize(now);
			m.prices = m.accepted.iter().map(|(k, f)| (*k, Table::with(|t| t.get(k).copied()).and_then(price_of).unwrap_or(*f))).collect();
			c.check_in(P, "prices-come-from-the-route-to-native", Asked::get().iter().all(|x| x.1 == 0 && x.2) && Asked::get().iter().map(|x| x.0).collect::<BTreeSet<_>>() == m.accepted.keys().copied().collect(), || format!("{:?}", Asked::get()));
			state(c, &m); c.event("block"); if c.failed() { return; }
			for _ in 0..6 { step(c, &mut m); if c.failed() { return; } state(c, &m); if c.failed() { return; } }
			<Pay as Hooks<u32>>::on_finalize(now); m.prices.clear(); state(c, &m); System::set_block_number(now + 1); let _ = take_events::<Rt>(); if c.failed() { return; }
		}
		c.sample(|| json!({"accepted": m.accepted.len(), "chosen": show(&m.chosen)}));
	});
}
fn step(c: &mut Ctx, m: &mut Model) {
	let k = c.rng.idx(6) as u32;
	match c.rng.idx(100) {
		0..=49 => transaction(c, m),
		50..=64 => {
			let (a, b) = (who(c.rng.idx(8)), who(c.rng.idx(8))); let before = book(); let have = before.free(&a, k); let v = match c.rng.idx(3) { 0 => have, 1 => have.saturating_sub(1), _ => c.rng.below(have + 2) };
			let res = call(RuntimeCall::Currencies(pallet_currencies::Call::transfer { dest: b.clone(), currency_id: k, amount: v }), RuntimeOrigin::signed(a.clone())); let after = book();
			c.log(|| format!("transfer {v} of {k} from {} to {} -> {res:?}", nm(&a), nm(&b))); if res.is_ok() { c.event("transfer"); } hooks(m, &before, &after);
		}
		65..=72 => { let p = FixedU128::from_inner(c.rng.log(1, 10u128.pow(24))); let root = c.rng.chance(5, 6); let before = raw(); let res = call(RuntimeCall::Pay(Call::add_currency { currency: k, price: p }), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(1)) }); let ok = root && k != 0 && !m.accepted.contains_key(&k);
			c.log(|| format!("add {k} root {root} -> {res:?}")); c.check_in(P, "only-the-authority-accepts-currencies", res.is_ok() == ok, || format!("{res:?}")); if ok { m.accepted.insert(k, p); c.event("added"); } else { c.check_in(P, "refusal-changes-nothing", before == raw(), || "changed".into()); } }
		73..=77 => { let root = c.rng.chance(5, 6); let before = raw(); let res = call(RuntimeCall::Pay(Call::remove_currency { currency: k }), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(1)) }); let ok = root && k != 0 && m.accepted.contains_key(&k);
			c.log(|| format!("remove {k} root {root} -> {res:?}")); c.check_in(P, "only-the-authority-accepts-currencies", res.is_ok() == ok, || format!("{res:?}")); if ok { m.accepted.remove(&k); c.event("removed"); } else { c.check_in(P, "refusal-changes-nothing", before == raw(), || "changed".into()); } }
		78..=82 => { let root = c.rng.chance(5, 6); let x = who(c.rng.idx(8)); let before = raw(); let res = call(RuntimeCall::Pay(Call::reset_payment_currency { account_id: x.clone() }), if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(x.clone()) });
			c.log(|| format!("reset {} root {root} -> {res:?}", nm(&x))); c.check_in(P, "only-the-authority-resets", res.is_ok() == root, || format!("{res:?}")); if root { if (x.as_ref() as &[u8; 32])[..4] == *b"ETH\0" { m.chosen.insert(x, 4); } else { m.chosen.remove(&x); } c.event("reset"); } else { c.check_in(P, "refusal-changes-nothing", before == raw(), || "changed".into()); } }
		83..=88 => { let p = rational(&mut c.rng); Table::with(|t| if p.1 % 7 == 3 { t.remove(&k); } else { t.insert(k, p); }); c.log(|| format!("oracle {k}: {p:?}"));
			let want = if k == 0 { Some(FixedU128::from_inner(1_000_000_000_000_000_000)) } else { m.prices.get(&k).copied().or_else(|| Table::with(|t| t.get(&k).copied()).and_then(price_of)) }; let got = <Pay as NativePriceOracle<u32, FixedU128>>::price(k);
			c.check_in(P, "one-price-per-block", same_price(got, want), || format!("{k}: {got:?}, expected {want:?}")); c.event("price"); }
		89..=92 => { let x = acc(1 + c.rng.idx(6) as u8); let s = H160::from_slice(&(x.as_ref() as &[u8; 32])[..20]); let was = Evm::bound_account_id(s).is_some(); let before = raw(); let res = call(RuntimeCall::Evm(pallet_evm_accounts::Call::bind_evm_address {}), RuntimeOrigin::signed(x.clone())); let used = NonceOf_(s);
			c.check_in(P, "an-unused-address-is-bound-once", res.is_ok() == !(was || used), || format!("{res:?}")); if res.is_ok() { c.event("bound"); c.check_in(P, "bound-to-its-account", Evm::account_id(s) == x && Evm::evm_address(&x) == s, || nm(&Evm::account_id(s))); } else { c.check_in(P, "refusal-changes-nothing", before == raw(), || "changed".into()); } }
		_ => permit(c, m),
	}
}
#[allow(non_snake_case)]
fn NonceOf_(s: H160) -> bool { !<NonceOf as pallet_evm_accounts::EvmNonceProvider>::get_nonce(s).is_zero() }
fn run(m: &mut Monitor) {
	m.workload("fee-blocks", 6_000, 240_000, history);
	for (e, n) in [("block", 30_000), ("paid-native", 8_000), ("paid-other", 15_000), ("refused", 8_000), ("refunded", 10_000), ("kept", 5_000), ("unsettled", 20), ("transfer", 10_000), ("added", 2_000), ("removed", 1_000), ("reset", 4_000), ("price", 8_000), ("permit-run", 8_000), ("permit-refused", 2_000), ("currency-set", 3_000), ("bound", 1_000), ("free", 2_000)] { m.expect(&format!("fee-blocks/{e}"), n); }
}
fn main() {
	mon_core::run!(1.0, "distinct charged fees by (currency, fee, amount)", ["the pallet runs on a stand-in for FRAME (calibrated by the pallet's own 43 tests)", "the oracle and the permit contract are scripted"]; "C17" => run, "C24" => run);
}

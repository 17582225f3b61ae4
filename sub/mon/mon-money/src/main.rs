//! Money at rest and on the move: the currencies facade, dusting, claims, paused calls, collator rewards and the deferral of XCM deposits.
use codec::Encode;
use cumulus_pallet_xcmp_queue::XcmDeferFilter;
use frame_support::storage::{with_transaction, TransactionOutcome};
use frame_support::traits::tokens::{fungible, fungibles, BalanceStatus, Fortitude, Precision, Preservation, Provenance};
use frame_support::traits::{BuildGenesisConfig, Contains, Currency as Frame, ExistenceRequirement::AllowDeath, LockableCurrency, NamedReservableCurrency, ReservableCurrency, WithdrawReasons};
use mon_frame::*;
use orml_traits::currency::{MutationHooks, TransferAll};
use orml_traits::{BasicCurrency, BasicCurrencyExtended, BasicLockableCurrency, BasicReservableCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency, NamedMultiReservableCurrency};
use pallet_claims::{Call as ClaimCall, Event as ClaimEvent};
use pallet_currencies::fungibles::FungibleCurrencies as Fun;
use pallet_currencies::{Call as CurCall, Currency as Wrapped, Event as CurEvent};
use pallet_duster::{Call as DustCall, DusterWhitelist, Event as DustEvent};
use pallet_session::SessionManager;
use pallet_transaction_pause::{Call as PauseCall, Event as PauseEvent, PausedTransactionFilter};
use primitive_types::U256;
use sp_runtime::traits::{BlockNumberProvider, Convert, SignedExtension};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Duster: pallet_duster, Claims: pallet_claims, TransactionPause: pallet_transaction_pause, Rewards: pallet_collator_rewards, Limiter: pallet_xcm_rate_limiter });
base!(Rt, Hooks, DusterWhitelist<Rt>);
pub struct Hooks;
impl MutationHooks<Acc, u32, u128> for Hooks { type OnDust = Duster; type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = (); type OnKilledTokenAccount = (); }
param! { Tip: u128 = 100; Pay: u128 = 100; PayIn: u32 = 0; NotPaid: Vec<Acc> = vec![]; Next: Option<Vec<Acc>> = None; Asked: Vec<(u8, u32)> = vec![]; Defer: u32 = 10; MaxDefer: u32 = 100; Now: u32 = 0; Limits: BTreeMap<u32, u128> = Default::default(); Word: usize = 0; }
parameter_types! { pub const Native: u32 = 0; pub const MaxC: u32 = 6; }
const PREFIXES: [&[u8]; 3] = [b"I hereby claim all my xHDX tokens to wallet:", b"", b"0123456789012345678901234567890123456789012345678901234567890123456789"];
pub struct Prefix; impl Get<&'static [u8]> for Prefix { fn get() -> &'static [u8] { PREFIXES[Word::get()] } }
/// the technical committee
pub struct Tech; impl EnsureOrigin<RuntimeOrigin> for Tech { type Success = (); fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(a) if a == acc(7) => Ok(()), _ => Err(o) } } }
use frame_support::traits::EnsureOrigin;
pub struct Sessions;
impl SessionManager<Acc> for Sessions { fn new_session(i: u32) -> Option<Vec<Acc>> { Asked::with(|l| l.push((0, i))); Next::get() } fn start_session(i: u32) { Asked::with(|l| l.push((1, i))); } fn end_session(i: u32) { Asked::with(|l| l.push((2, i))); } }
pub struct Relay; impl BlockNumberProvider for Relay { type BlockNumber = u32; fn current_block_number() -> u32 { Now::get() } }
pub struct Ids; impl Convert<xcm::lts::MultiLocation, Option<u32>> for Ids { fn convert(l: xcm::lts::MultiLocation) -> Option<u32> { use xcm::lts::prelude::*; match l { MultiLocation { parents: 1, interior: X2(Parachain(2000), GeneralIndex(i)) } if i < 8 => Some(i as u32), _ => None } } }
pub struct LimitOf; impl GetByKey<u32, Option<u128>> for LimitOf { fn get(a: &u32) -> Option<u128> { Limits::with(|l| l.get(a).copied()) } }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_duster::Config for Rt { type RuntimeEvent = RuntimeEvent; type Balance = u128; type Amount = i128; type CurrencyId = u32; type MultiCurrency = Currencies; type MinCurrencyDeposits = EdOf; type Reward = Tip; type NativeCurrencyId = Native; type BlacklistUpdateOrigin = Tech; type WeightInfo = (); }
impl pallet_claims::Config for Rt { type RuntimeEvent = RuntimeEvent; type Prefix = Prefix; type WeightInfo = (); type Currency = Balances; type CurrencyBalance = u128; }
impl pallet_transaction_pause::Config for Rt { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = Tech; type WeightInfo = (); }
impl pallet_collator_rewards::Config for Rt { type RuntimeEvent = RuntimeEvent; type Balance = u128; type CurrencyId = u32; type Currency = Currencies; type RewardPerCollator = Pay; type RewardCurrencyId = PayIn; type ExcludedCollators = NotPaid; type SessionManager = Sessions; type MaxCandidates = MaxC; }
impl pallet_xcm_rate_limiter::Config for Rt { type RuntimeEvent = RuntimeEvent; type AssetId = u32; type DeferDuration = Defer; type MaxDeferDuration = MaxDefer; type RelayBlockNumberProvider = Relay; type CurrencyIdConvert = Ids; type RateLimitFor = LimitOf; }

const F: &str = "C36";
const D: &str = "C37";
const CL: &str = "C38";
const P: &str = "C39";
const CO: &str = "C40";
const X: &str = "C12";
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn book() -> Book { Book::all::<Rt>() }
fn keccak(b: &[u8]) -> [u8; 32] { use tiny_keccak::Hasher; let mut h = tiny_keccak::Keccak::v256(); h.update(b); let mut o = [0; 32]; h.finalize(&mut o); o }
/// a failed call is rolled back, as every call of the chain is
fn attempt<R>(keep: impl Fn(&R) -> bool, f: impl FnOnce() -> R) -> R { with_transaction(|| { let r = f(); if keep(&r) { TransactionOutcome::Commit(Ok::<R, DispatchError>(r)) } else { TransactionOutcome::Rollback(Ok(r)) } }).unwrap_or_else(|e| panic!("{e:?}")) }
fn what_if<R>(keep: bool, f: impl FnOnce() -> R) -> R { with_transaction(|| { let r = f(); if keep { TransactionOutcome::Commit(Ok::<R, DispatchError>(r)) } else { TransactionOutcome::Rollback(Ok(r)) } }).unwrap_or_else(|e| panic!("{e:?}")) }
fn amount(c: &mut Ctx, have: u128) -> u128 { match c.rng.idx(12) { 0 => 0, 1 => have, 2 => have.saturating_add(1), 3 => have.saturating_sub(1), 4 => c.rng.below(200), 5 => c.rng.log(1, u128::MAX), _ => c.rng.log(1, (have / 2).max(2)) } }

// ---- the facade ----
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Do { Transfer, NativeTransfer, Deposit, Withdraw, Update, CanWithdraw, CanSlash, Slash, SetLock, ExtendLock, RemoveLock, CanReserve, Reserve, Unreserve, SlashReserved, Repatriate, NamedReserve, NamedUnreserve, NamedSlash, NamedRepatriate, All, Read, ReadNamed, FunRead, FunMint, FunBurn, FunTransfer, FunWrite }
use Do::*;
const ALL: [Do; 28] = [Transfer, NativeTransfer, Deposit, Withdraw, Update, CanWithdraw, CanSlash, Slash, SetLock, ExtendLock, RemoveLock, CanReserve, Reserve, Unreserve, SlashReserved, Repatriate, NamedReserve, NamedUnreserve, NamedSlash, NamedRepatriate, All, Read, ReadNamed, FunRead, FunMint, FunBurn, FunTransfer, FunWrite];
param! { Cur: u32 = 0; }
type One = Wrapped<Rt, Cur>;
type Cs = Currencies;
#[derive(Clone, Debug)] struct Op { d: Do, a: u32, who: Acc, to: Acc, n: u128, id: [u8; 8], st: BalanceStatus, keep: Preservation, force: Fortitude, best: Precision, neg: bool, via: u8 }
fn e<T: std::fmt::Debug, E: Into<DispatchError>>(r: Result<T, E>) -> String { match r { Ok(v) => format!("{v:?}"), Err(e) => format!("E {}", err(&e.into())) } }
fn signed(o: &Op) -> i128 { let v = (o.n >> 1) as i128; if o.neg { -v } else { v } }
/// the operation as its users call it
fn facade(o: &Op) -> String {
	let (a, w, t, n, id) = (o.a, &o.who, &o.to, o.n, o.id); Cur::set(a); let so = || RuntimeOrigin::signed(o.who.clone());
	match (o.d, o.via) {
		(Transfer, 0) => e(call(RuntimeCall::Currencies(CurCall::transfer { dest: t.clone(), currency_id: a, amount: n }), so())), (Transfer, 1) => e(<Cs as MultiCurrency<Acc>>::transfer(a, w, t, n)), (Transfer, _) => e(<One as BasicCurrency<Acc>>::transfer(w, t, n)),
		(NativeTransfer, _) => e(call(RuntimeCall::Currencies(CurCall::transfer_native_currency { dest: t.clone(), amount: n }), so())),
		(Deposit, 0) => e(<One as BasicCurrency<Acc>>::deposit(w, n)), (Deposit, _) => e(Cs::deposit(a, w, n)), (Withdraw, 0) => e(<One as BasicCurrency<Acc>>::withdraw(w, n)), (Withdraw, _) => e(Cs::withdraw(a, w, n)),
		(Update, 0) => e(<One as BasicCurrencyExtended<Acc>>::update_balance(w, signed(o))), (Update, 1) => e(<Cs as MultiCurrencyExtended<Acc>>::update_balance(a, w, signed(o))), (Update, _) => e(call(RuntimeCall::Currencies(CurCall::update_balance { who: w.clone(), currency_id: a, amount: signed(o) }), RuntimeOrigin::root())),
		(CanWithdraw, 0) => e(<One as BasicCurrency<Acc>>::ensure_can_withdraw(w, n)), (CanWithdraw, _) => e(Cs::ensure_can_withdraw(a, w, n)), (CanSlash, 0) => format!("{:?}", <One as BasicCurrency<Acc>>::can_slash(w, n)), (CanSlash, _) => format!("{:?}", <Cs as MultiCurrency<Acc>>::can_slash(a, w, n)), (Slash, 0) => format!("{}", <One as BasicCurrency<Acc>>::slash(w, n)), (Slash, _) => format!("{}", <Cs as MultiCurrency<Acc>>::slash(a, w, n)),
		(SetLock, 0) => e(<One as BasicLockableCurrency<Acc>>::set_lock(id, w, n)), (SetLock, _) => e(<Cs as MultiLockableCurrency<Acc>>::set_lock(id, a, w, n)), (ExtendLock, 0) => e(<One as BasicLockableCurrency<Acc>>::extend_lock(id, w, n)), (ExtendLock, _) => e(<Cs as MultiLockableCurrency<Acc>>::extend_lock(id, a, w, n)), (RemoveLock, 0) => e(<One as BasicLockableCurrency<Acc>>::remove_lock(id, w)), (RemoveLock, _) => e(<Cs as MultiLockableCurrency<Acc>>::remove_lock(id, a, w)),
		(CanReserve, 0) => format!("{:?}", <One as BasicReservableCurrency<Acc>>::can_reserve(w, n)), (CanReserve, _) => format!("{:?}", <Cs as MultiReservableCurrency<Acc>>::can_reserve(a, w, n)), (Reserve, 0) => e(<One as BasicReservableCurrency<Acc>>::reserve(w, n)), (Reserve, _) => e(<Cs as MultiReservableCurrency<Acc>>::reserve(a, w, n)), (Unreserve, 0) => format!("{}", <One as BasicReservableCurrency<Acc>>::unreserve(w, n)), (Unreserve, _) => format!("{}", <Cs as MultiReservableCurrency<Acc>>::unreserve(a, w, n)),
		(SlashReserved, 0) => format!("{}", <One as BasicReservableCurrency<Acc>>::slash_reserved(w, n)), (SlashReserved, _) => format!("{}", <Cs as MultiReservableCurrency<Acc>>::slash_reserved(a, w, n)), (Repatriate, 0) => e(<One as BasicReservableCurrency<Acc>>::repatriate_reserved(w, t, n, o.st)), (Repatriate, _) => e(<Cs as MultiReservableCurrency<Acc>>::repatriate_reserved(a, w, t, n, o.st)),
		(NamedReserve, _) => e(<Cs as NamedMultiReservableCurrency<Acc>>::reserve_named(&id, a, w, n)), (NamedUnreserve, _) => format!("{}", <Cs as NamedMultiReservableCurrency<Acc>>::unreserve_named(&id, a, w, n)), (NamedSlash, _) => format!("{}", <Cs as NamedMultiReservableCurrency<Acc>>::slash_reserved_named(&id, a, w, n)), (NamedRepatriate, _) => e(<Cs as NamedMultiReservableCurrency<Acc>>::repatriate_reserved_named(&id, a, w, t, n, o.st)),
		(All, _) => e(<Cs as TransferAll<Acc>>::transfer_all(w, t)),
		(Read, 0) => format!("{:?}", (<One as BasicCurrency<Acc>>::minimum_balance(), <One as BasicCurrency<Acc>>::total_issuance(), <One as BasicCurrency<Acc>>::total_balance(w), <One as BasicCurrency<Acc>>::free_balance(w), <One as BasicReservableCurrency<Acc>>::reserved_balance(w))),
		(Read, _) => format!("{:?}", (Cs::minimum_balance(a), Cs::total_issuance(a), Cs::total_balance(a, w), Cs::free_balance(a, w), <Cs as MultiReservableCurrency<Acc>>::reserved_balance(a, w))),
		(ReadNamed, _) => format!("{}", <Cs as NamedMultiReservableCurrency<Acc>>::reserved_balance_named(&id, a, w)),
		(FunRead, _) => { type X = Fun<Rt>; use fungibles::Inspect as I; format!("{:?}", (<X as I<Acc>>::total_issuance(a), <X as I<Acc>>::minimum_balance(a), <X as I<Acc>>::total_balance(a, w), <X as I<Acc>>::balance(a, w), <X as I<Acc>>::reducible_balance(a, w, o.keep, o.force), <X as I<Acc>>::can_deposit(a, w, n, if o.neg { Provenance::Minted } else { Provenance::Extant }), <X as I<Acc>>::can_withdraw(a, w, n), <X as I<Acc>>::asset_exists(a))) }
		(FunMint, _) => e(<Fun<Rt> as fungibles::Mutate<Acc>>::mint_into(a, w, n)), (FunBurn, _) => e(<Fun<Rt> as fungibles::Mutate<Acc>>::burn_from(a, w, n, o.best, o.force)), (FunTransfer, _) => e(<Fun<Rt> as fungibles::Mutate<Acc>>::transfer(a, w, t, n, o.keep)), (FunWrite, _) => e(<Fun<Rt> as fungibles::Unbalanced<Acc>>::write_balance(a, w, n).map(|x| x.map(|_| ()))),
	}
}
/// the same on the ledger that holds the asset
fn ledger(o: &Op) -> String {
	let (a, w, t, n, id) = (o.a, &o.who, &o.to, o.n, o.id); type B = Balances; type T = Tokens; let nat = a == 0 || o.d == NativeTransfer; let all = WithdrawReasons::all();
	let put = |n: u128| if n == 0 { Ok(()) } else if nat { let got = <B as Frame<Acc>>::deposit_creating(w, n); use frame_support::traits::Imbalance; if got.peek() == n { Ok(()) } else { Err(pallet_currencies::Error::<Rt>::DepositFailed.into()) } } else { <T as MultiCurrency<Acc>>::deposit(a, w, n) };
	let take = |n: u128| if nat { <B as Frame<Acc>>::withdraw(w, n, all, AllowDeath).map(|_| ()) } else { <T as MultiCurrency<Acc>>::withdraw(a, w, n) };
	match o.d {
		Transfer if n == 0 || w == t => "()".into(), Transfer | NativeTransfer => e(if nat { <B as Frame<Acc>>::transfer(w, t, n, AllowDeath) } else { <T as MultiCurrency<Acc>>::transfer(a, w, t, n) }),
		Deposit => e(put(n)), Withdraw if n == 0 => "()".into(), Withdraw => e(take(n)), Update => { let v = signed(o); e(if nat { if v > 0 { put(v.unsigned_abs()) } else { take(v.unsigned_abs()) } } else { <T as MultiCurrencyExtended<Acc>>::update_balance(a, w, v) }) }
		CanWithdraw => e(if nat { match <B as Frame<Acc>>::free_balance(w).checked_sub(n) { None => Err(pallet_currencies::Error::<Rt>::BalanceTooLow.into()), Some(left) => <B as Frame<Acc>>::ensure_can_withdraw(w, n, all, left) } } else { <T as MultiCurrency<Acc>>::ensure_can_withdraw(a, w, n) }),
		CanSlash => format!("{:?}", if nat { <B as Frame<Acc>>::can_slash(w, n) } else { <T as MultiCurrency<Acc>>::can_slash(a, w, n) }), Slash => format!("{}", if nat { <B as Frame<Acc>>::slash(w, n).1 } else { <T as MultiCurrency<Acc>>::slash(a, w, n) }),
		SetLock => e(if nat { <B as LockableCurrency<Acc>>::set_lock(id, w, n, all); Ok(()) } else { <T as MultiLockableCurrency<Acc>>::set_lock(id, a, w, n) }), ExtendLock => e(if nat { <B as LockableCurrency<Acc>>::extend_lock(id, w, n, all); Ok(()) } else { <T as MultiLockableCurrency<Acc>>::extend_lock(id, a, w, n) }), RemoveLock => e(if nat { <B as LockableCurrency<Acc>>::remove_lock(id, w); Ok(()) } else { <T as MultiLockableCurrency<Acc>>::remove_lock(id, a, w) }),
		CanReserve => format!("{:?}", if nat { <B as ReservableCurrency<Acc>>::can_reserve(w, n) } else { <T as MultiReservableCurrency<Acc>>::can_reserve(a, w, n) }), Reserve => e(if nat { <B as ReservableCurrency<Acc>>::reserve(w, n) } else { <T as MultiReservableCurrency<Acc>>::reserve(a, w, n) }), Unreserve => format!("{}", if nat { <B as ReservableCurrency<Acc>>::unreserve(w, n) } else { <T as MultiReservableCurrency<Acc>>::unreserve(a, w, n) }),
		SlashReserved => format!("{}", if nat { <B as ReservableCurrency<Acc>>::slash_reserved(w, n).1 } else { <T as MultiReservableCurrency<Acc>>::slash_reserved(a, w, n) }), Repatriate => e(if nat { <B as ReservableCurrency<Acc>>::repatriate_reserved(w, t, n, o.st) } else { <T as MultiReservableCurrency<Acc>>::repatriate_reserved(a, w, t, n, o.st) }),
		NamedReserve => e(if nat { <B as NamedReservableCurrency<Acc>>::reserve_named(&id, w, n) } else { <T as NamedMultiReservableCurrency<Acc>>::reserve_named(&id, a, w, n) }), NamedUnreserve => format!("{}", if nat { <B as NamedReservableCurrency<Acc>>::unreserve_named(&id, w, n) } else { <T as NamedMultiReservableCurrency<Acc>>::unreserve_named(&id, a, w, n) }),
		NamedSlash => format!("{}", if nat { <B as NamedReservableCurrency<Acc>>::slash_reserved_named(&id, w, n).1 } else { <T as NamedMultiReservableCurrency<Acc>>::slash_reserved_named(&id, a, w, n) }), NamedRepatriate => e(if nat { <B as NamedReservableCurrency<Acc>>::repatriate_reserved_named(&id, w, t, n, o.st) } else { <T as NamedMultiReservableCurrency<Acc>>::repatriate_reserved_named(&id, a, w, t, n, o.st) }),
		All => { let r = with_transaction(|| { let r = <T as TransferAll<Acc>>::transfer_all(w, t).and_then(|_| <B as Frame<Acc>>::transfer(w, t, <B as Frame<Acc>>::free_balance(w), AllowDeath)); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } }); e(r) }
		Read => if nat { format!("{:?}", (ed(0), <B as Frame<Acc>>::total_issuance(), <B as Frame<Acc>>::total_balance(w), <B as Frame<Acc>>::free_balance(w), <B as ReservableCurrency<Acc>>::reserved_balance(w))) } else { format!("{:?}", (ed(a), <T as MultiCurrency<Acc>>::total_issuance(a), <T as MultiCurrency<Acc>>::total_balance(a, w), <T as MultiCurrency<Acc>>::free_balance(a, w), <T as MultiReservableCurrency<Acc>>::reserved_balance(a, w))) },
		ReadNamed => format!("{}", if nat { <B as NamedReservableCurrency<Acc>>::reserved_balance_named(&id, w) } else { <T as NamedMultiReservableCurrency<Acc>>::reserved_balance_named(&id, a, w) }),
		FunRead => { let p = if o.neg { Provenance::Minted } else { Provenance::Extant }; if nat { use fungible::Inspect as I; format!("{:?}", (<B as I<Acc>>::total_issuance(), <B as I<Acc>>::minimum_balance(), <B as I<Acc>>::total_balance(w), <B as I<Acc>>::balance(w), <B as I<Acc>>::reducible_balance(w, o.keep, o.force), <B as I<Acc>>::can_deposit(w, n, p), <B as I<Acc>>::can_withdraw(w, n), true)) } else { use fungibles::Inspect as I; format!("{:?}", (<T as I<Acc>>::total_issuance(a), <T as I<Acc>>::minimum_balance(a), <T as I<Acc>>::total_balance(a, w), <T as I<Acc>>::balance(a, w), <T as I<Acc>>::reducible_balance(a, w, o.keep, o.force), <T as I<Acc>>::can_deposit(a, w, n, p), <T as I<Acc>>::can_withdraw(a, w, n), <T as I<Acc>>::asset_exists(a))) } }
		FunMint => e(if nat { <B as fungible::Mutate<Acc>>::mint_into(w, n) } else { <T as fungibles::Mutate<Acc>>::mint_into(a, w, n) }), FunBurn => e(if nat { <B as fungible::Mutate<Acc>>::burn_from(w, n, o.best, o.force) } else { <T as fungibles::Mutate<Acc>>::burn_from(a, w, n, o.best, o.force) }), FunTransfer => e(if nat { <B as fungible::Mutate<Acc>>::transfer(w, t, n, o.keep) } else { <T as fungibles::Mutate<Acc>>::transfer(a, w, t, n, o.keep) }),
		FunWrite => e(if nat { <B as fungible::Unbalanced<Acc>>::write_balance(w, n).map(|x| x.map(|_| ())) } else { <T as fungibles::Unbalanced<Acc>>::write_balance(a, w, n).map(|x| x.map(|_| ())) }),
	}
}
/// what the facade reported, swept dust left out
fn cur_events() -> Vec<CurEvent<Rt>> { take_events::<Rt>().into_iter().filter_map(|e| match e { RuntimeEvent::Currencies(CurEvent::Transferred { to, .. }) if to == acc(100) => None, RuntimeEvent::Currencies(e) => Some(e), _ => None }).collect() }
fn step(c: &mut Ctx) {
	let d = *c.rng.pick(&ALL); let a = if d == NativeTransfer { 0 } else { c.rng.below(4) as u32 }; let who = acc(1 + c.rng.idx(4) as u8); let to = acc(1 + c.rng.idx(5) as u8);
	let have = match d { Unreserve | SlashReserved | Repatriate | NamedUnreserve | NamedSlash | NamedRepatriate => <Cs as MultiReservableCurrency<Acc>>::reserved_balance(a, &who), _ => book().free(&who, a) };
	// slashing more than an account has and locking tokens nobody has are all allowed
	let o = Op { d, a, n: match amount(c, have) { n if matches!(d, Deposit | FunMint) => n >> 40, n if d == Update => n & !(1 << 127), n => n }, who, to, id: *c.rng.pick(&[*b"oneone__", *b"twotwo__"]), st: if c.rng.chance(1, 2) { BalanceStatus::Free } else { BalanceStatus::Reserved }, keep: *c.rng.pick(&[Preservation::Expendable, Preservation::Preserve, Preservation::Protect]), force: if c.rng.chance(1, 3) { Fortitude::Force } else { Fortitude::Polite }, best: if c.rng.chance(1, 2) { Precision::Exact } else { Precision::BestEffort }, neg: c.rng.chance(1, 2), via: c.rng.idx(3) as u8 };
	if matches!(d, FunWrite) && !c.rng.chance(1, 4) { return; }
	let _ = take_events::<Rt>(); let root = raw(); let before = book(); let (r2, s2) = what_if(false, || { let r = ledger(&o); let _ = take_events::<Rt>(); (r, raw()) });
	// writing a balance directly breaks conservation, that is for the caller to repair
	let (r1, s1, ev) = attempt(|x: &(String, Vec<u8>, Vec<CurEvent<Rt>>)| d != FunWrite && !x.0.starts_with("E "), || { let r = facade(&o); let ev = cur_events(); (r, raw(), ev) }); let ok = !r1.starts_with("E ");
	c.log(|| format!("{o:?}: {r1}")); c.event(&format!("{d:?}")); c.event(if ok { "done" } else { "refused" }); c.nontrivial((d, a == 0, ok, o.n.leading_zeros()));
	c.check_in(F, "facade-answers-as-the-ledger", r1 == r2, || format!("{o:?}: {r1}, the ledger says {r2}")); c.check_in(F, "facade-does-what-the-ledger-does", s1 == s2, || format!("{o:?}: another state than after the same operation on the ledger"));
	let who = o.who.clone(); let (a, n) = (o.a, o.n); let want = if !ok { vec![] } else { match d { Transfer if n > 0 && who != o.to => vec![CurEvent::Transferred { currency_id: a, from: who.clone(), to: o.to.clone(), amount: n }], NativeTransfer => vec![CurEvent::Transferred { currency_id: 0, from: who.clone(), to: o.to.clone(), amount: n }], Deposit if n > 0 => vec![CurEvent::Deposited { currency_id: a, who: who.clone(), amount: n }], Withdraw if n > 0 => vec![CurEvent::Withdrawn { currency_id: a, who: who.clone(), amount: n }], Update => vec![CurEvent::BalanceUpdated { currency_id: a, who: who.clone(), amount: signed(&o) }], _ => vec![] } };
	c.check_in(F, "movements-are-reported", ev == want, || format!("{o:?}: {ev:?}, expected {want:?}"));
	let after = book(); if ok && d != FunWrite { let m = before.moved_total(&after); let others = m.assets().into_iter().all(|x| x == a || d == All); c.check_in(F, "only-the-asset-named-moves", others, || format!("{o:?}: {m:?}"));
		let people: BTreeSet<Acc> = [who.clone(), o.to.clone(), acc(100)].into(); c.check_in(F, "only-the-accounts-named-are-touched", m.accounts().is_subset(&people), || format!("{o:?}: {m:?}"));
		if matches!(d, Transfer | NativeTransfer) && who != o.to { let dust = before.total(&who, a) - n; if dust == 0 || dust >= ed(a) { c.check_in(F, "transfers-move-what-was-asked", m == Moves::new().mv(&who, &o.to, a, n), || format!("{o:?}: {m:?}")); } } if d == Deposit { c.check_in(F, "deposits-add-what-was-asked", m == Moves::new().add(&who, a, n), || format!("{o:?}: {m:?}")); } }
	if !ok { c.check_in(F, "refusal-leaves-no-trace", matches!(d, FunWrite) || raw() == root, || format!("{o:?}")); } let b = after.balanced(); c.check_in(F, "issuance-is-sum-of-balances", d == FunWrite || b.is_ok(), || b.unwrap_err());
}
fn unsafe_root(c: &mut Ctx) { let k = RuntimeCall::Currencies(CurCall::update_balance { who: acc(1), currency_id: c.rng.below(3) as u32, amount: 1000 }); let root = raw(); let r = call(k, RuntimeOrigin::signed(acc(7))); c.check_in(F, "only-governance-writes-balances", r.is_err() && raw() == root, || format!("{r:?}")); }
fn facade_history(c: &mut Ctx) {
	fresh(|| {
		Eds::set([(0u32, *c.rng.pick(&[1, 500, 1000])), (1, 1), (2, *c.rng.pick(&[7, 1000])), (3, 100)].into()); System::set_block_number(1); pallet_duster::GenesisConfig::<Rt> { account_blacklist: vec![acc(100)], reward_account: Some(acc(101)), dust_account: Some(acc(100)) }.build();
		for i in 1..=4 { give_native::<Rt>(&acc(i), ed(0) + c.rng.log(1, 1 << 80)); for a in 1..4 { if c.rng.chance(3, 4) { give::<Rt>(&acc(i), a, ed(a) + c.rng.log(1, 1 << 80)); } } } for a in 1..4 { give::<Rt>(&acc(100), a, ed(a) * 10); } give_native::<Rt>(&acc(100), ed(0));
		unsafe_root(c); for _ in 0..40 { if c.failed() { return; } step(c); } c.sample(|| json!({"holders": book().free.len()}));
	});
}

// ---- dusting ----
fn duster_history(c: &mut Ctx) {
	fresh(|| {
		Eds::set([(0u32, 500), (1, 1000), (2, 7)].into()); Tip::set(*c.rng.pick(&[100, 10_000, 1])); System::set_block_number(1); let spared: Vec<Acc> = (4..=5).filter(|_| c.rng.chance(1, 2)).map(acc).chain([acc(100), acc(101)]).collect(); let mut m: BTreeSet<Acc> = spared.iter().cloned().collect();
		pallet_duster::GenesisConfig::<Rt> { account_blacklist: spared, reward_account: Some(acc(101)), dust_account: Some(acc(100)) }.build(); for i in 1..=6u8 { give_native::<Rt>(&acc(i), 500 + c.rng.log(1, 100_000)); for a in 1..3 { if c.rng.chance(3, 4) { give::<Rt>(&acc(i), a, ed(a) + c.rng.log(1, 20_000)); } } } give_native::<Rt>(&acc(100), 1 << 60); for a in 1..3 { give::<Rt>(&acc(100), a, 1 << 60); } give_native::<Rt>(&acc(101), c.rng.log(600, 1 << 40));
		for _ in 0..40 {
			if c.failed() { return; } let (i, j, a) = (acc(1 + c.rng.idx(6) as u8), acc(1 + c.rng.idx(6) as u8), c.rng.below(3) as u32); let _ = take_events::<Rt>(); let before = book(); let root = raw();
			match c.rng.idx(12) {
				// the existential deposit goes up, or down
				0..=1 => { let n = c.rng.log(1, 30_000); Eds::with(|e| e.insert(a, n)); c.log(|| format!("existential deposit of {a}: {n}")); if a == 0 { c.event("native-ed-changed"); } }
				2 => { let add = c.rng.chance(1, 2); let by = if c.rng.chance(1, 5) { i.clone() } else { acc(7) }; let k = if add { DustCall::add_nondustable_account { account: j.clone() } } else { DustCall::remove_nondustable_account { account: j.clone() } }; let r = call(RuntimeCall::Duster(k), RuntimeOrigin::signed(by.clone())); let ok = by == acc(7) && (add || m.contains(&j)); c.log(|| format!("spare {} {add} by {}: {r:?}", nm(&j), nm(&by)));
					c.check_in(D, "governance-spares-accounts", r.is_ok() == ok, || format!("{} {add} by {}: {r:?}", nm(&j), nm(&by))); let ev: Vec<_> = take_events::<Rt>().into_iter().collect(); if ok { if add { m.insert(j.clone()); } else { m.remove(&j); } c.event("list-changed"); let want = RuntimeEvent::Duster(if add { DustEvent::Added { who: j.clone() } } else { DustEvent::Removed { who: j.clone() } }); c.check_in(D, "sparing-is-reported", ev == [want], || format!("{ev:?}")); } else { c.check_in(D, "refusal-leaves-no-trace", raw() == root, || "list".into()); } }
				3 => { use hydradx_traits::pools::DustRemovalAccountWhitelist as W; let add = c.rng.chance(1, 2); let r = if add { <Duster as W<Acc>>::add_account(&j) } else { <Duster as W<Acc>>::remove_account(&j) }; c.check_in(D, "pallets-spare-their-accounts", r.is_ok() == (add || m.contains(&j)), || format!("{} {add}: {r:?}", nm(&j))); if add { m.insert(j.clone()); } else { m.remove(&j); } }
				4..=6 => { let have = before.free(&i, a); let n = match c.rng.idx(3) { 0 => have, 1 => have.saturating_sub(c.rng.below(ed(a) + 1)), _ => c.rng.below(have.max(1)) }; if i == j || n == 0 { continue; } let r = <Tokens as MultiCurrency<Acc>>::transfer(a, &i, &j, n); if a == 0 { let _ = <Cs as MultiCurrency<Acc>>::transfer(0, &i, &j, n); continue; } if r.is_err() { continue; } let left = have - n; let after = book(); c.event("token-sent"); c.log(|| format!("{} sends {n} of {a} to {}, {left} left", nm(&i), nm(&j)));
					let swept = left > 0 && before.reserved(&i, a) == 0 && left < ed(a) && !m.contains(&i); let mut want = Moves::new().mv(&i, &j, a, n); if swept { want = want.mv(&i, &acc(100), a, left); c.event("swept"); } if left > 0 && left < ed(a) && m.contains(&i) { c.event("spared-keeps-dust"); } c.check_in(D, "remnants-go-to-the-treasury", before.moved(&after) == want, || format!("{} sends {n} of {a}, {left} left (deposit {}), spared {}: {:?}", nm(&i), ed(a), m.contains(&i), before.moved(&after))); }
				7 => { let n = c.rng.log(1, 300); let r = <Cs as MultiReservableCurrency<Acc>>::reserve(a, &i, n); c.log(|| format!("reserve {n} of {a} for {}: {r:?}", nm(&i))); }
				_ => { let total = before.total(&j, a); let held: u128 = (0..3).map(|x| before.reserved(&j, x)).sum(); let small = total < ed(a); let r = call(RuntimeCall::Duster(DustCall::dust_account { account: j.clone(), currency_id: a }), RuntimeOrigin::signed(i.clone())); let ok = !m.contains(&j) && total > 0 && small; c.log(|| format!("{} dusts {} {total} of {a} (deposit {}, {held} reserved): {r:?}", nm(&i), nm(&j), ed(a)));
					if r.is_ok() || held == 0 { c.check_in(D, "dusts-exactly-small-unspared-accounts", if held == 0 { r.is_ok() == ok } else { ok && before.reserved(&j, a) == 0 }, || format!("{} dusts {} {total} of {a} (deposit {}), spared {}: {r:?}", nm(&i), nm(&j), ed(a), m.contains(&j))); }
					let evs = take_events::<Rt>(); if r.is_err() { c.event("not-dusted"); c.check_in(D, "refusal-leaves-no-trace", raw() == root, || format!("dust {} of {a}", nm(&j))); continue; } c.event("dusted"); c.nontrivial((a, total, i == j)); let ev: Vec<_> = evs.into_iter().filter_map(|e| if let RuntimeEvent::Duster(e) = e { Some(e) } else { None }).collect(); c.check_in(D, "dusting-is-reported", ev == [DustEvent::Dusted { who: j.clone(), amount: total }], || format!("{ev:?}"));
					let after = book(); let m2 = before.moved(&after); let dusted = Moves::new().mv(&j, &acc(100), a, total); let tip = Tip::get(); let paid = dusted.clone().mv(&acc(101), &i, 0, tip); let pot = before.free(&acc(101), 0); let mine = before.free(&i, 0) - if i == j && a == 0 { total } else { 0 };
					if pot >= tip + ed(0) && mine + tip >= ed(0) { c.event("tipped"); c.check_in(D, "dusting-is-rewarded", m2 == paid, || format!("{m2:?}, expected {paid:?}, pot {pot}, tip {tip}, {mine} of the caller's own, deposit {}, {:?}", ed(0), what_if(false, || <Cs as MultiCurrency<Acc>>::transfer(0, &acc(101), &i, tip)))); } else { let last = pot >= tip && mine + tip >= ed(0) && pot - tip < ed(0); if last { c.check_in(D, "dusting-is-rewarded", m2.get(&i, 0) == paid.get(&i, 0), || format!("{m2:?}")); } else { c.check_in(D, "no-reward-from-an-empty-pot", m2 == dusted, || format!("{m2:?}, expected {dusted:?}, pot {pot}")); } } }
			}
			let got: BTreeSet<Acc> = pallet_duster::AccountBlacklist::<Rt>::iter().map(|x| x.0).collect(); c.check_in(D, "spared-as-decided", got == m && m.iter().all(|x| DusterWhitelist::<Rt>::contains(x)) && !DusterWhitelist::<Rt>::contains(&acc(9)), || format!("{got:?}, expected {m:?}"));
			c.check_in(D, "token-dust-is-never-lost", (1..3).all(|x| book().issuance(x) == before.issuance(x)), || "issuance of a token changed".into());
		}
	});
}

// ---- claims ----
struct Key { sk: U256, addr: [u8; 20] }
fn keys() -> &'static [Key] { static K: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new(); K.get_or_init(|| (11..16u64).map(|i| { let sk = U256::from_big_endian(&keccak(&i.to_le_bytes())) >> 1; Key { sk, addr: keccak(&sp_core::secp256k1::public(sk))[12..].try_into().unwrap() } }).collect()) }
fn message(who: &Acc, word: usize, upper: bool) -> Vec<u8> { let hex: String = who.encode().iter().map(|b| if upper { format!("{b:02X}") } else { format!("{b:02x}") }).collect(); let p = PREFIXES[word]; [b"\x19Ethereum Signed Message:\n", (p.len() + hex.len()).to_string().as_bytes(), p, hex.as_bytes()].concat() }
fn claims_history(c: &mut Ctx) {
	use pallet_claims::{EcdsaSignature, EthereumAddress as Eth, ValidateClaim};
	fresh(|| {
		Eds::set([(0u32, *c.rng.pick(&[1, 1000]))].into()); System::set_block_number(1); Word::set(c.rng.idx(3)); let mut m: BTreeMap<[u8; 20], u128> = BTreeMap::new(); let mut list = vec![]; for _ in 0..c.rng.range(1, 8) { let k = &keys()[c.rng.idx(4)]; let n = match c.rng.idx(5) { 0 => 0, 1 => c.rng.below(1000), _ => c.rng.log(1, 1 << 100) }; *m.entry(k.addr).or_default() += n; list.push((Eth(k.addr), n)); }
		pallet_claims::GenesisConfig::<Rt> { claims: list.clone() }.build(); for i in 1..3 { give_native::<Rt>(&acc(i), ed(0)); } let mut old: Vec<(Acc, [u8; 65])> = vec![]; let mut granted = 0u128; let start = book().issuance(0);
		for _ in 0..14 {
			if c.failed() { return; } let who = acc(1 + c.rng.idx(4) as u8); let k = &keys()[c.rng.idx(5)]; let odd = c.rng.idx(10); let whom = if odd == 0 { acc(1 + c.rng.idx(4) as u8) } else { who.clone() }; let word = if odd == 1 { c.rng.idx(3) } else { Word::get() };
			let msg = message(&whom, word, odd == 2); let mut sig = match sp_core::secp256k1::sign(k.sk, &keccak(&msg), U256::from(c.rng.u128()) + 1) { Some(s) => s, None => continue }; match odd { 3 => sig[c.rng.idx(65)] ^= 1 << c.rng.idx(8), 4 => { for b in sig.iter_mut() { *b = c.rng.u64() as u8; } } 5 => sig[64] = if sig[64] >= 27 { sig[64] - 27 } else { sig[64] + 27 }, _ => {} } let mut who = who; if odd >= 8 && !old.is_empty() { let o = c.rng.pick(&old).clone(); sig = o.1; if odd == 8 { who = o.0; } }
			// whoever signed this exact message for this account
			let signer: Option<[u8; 20]> = sp_core::secp256k1::recover(&sig, &keccak(&message(&who, Word::get(), false))).map(|k| keccak(&k)[12..].try_into().unwrap()); let due = signer.map_or(0, |s| m.get(&s).copied().unwrap_or(0)); let lives = book().total(&who, 0) > 0; let ok = due > 0 && (lives || due >= ed(0));
			let _ = take_events::<Rt>(); let before = book(); let root = raw(); let k = RuntimeCall::Claims(ClaimCall::claim { ethereum_signature: EcdsaSignature(sig) }); let v = ValidateClaim::<Rt>::new().validate(&who, &k, &Default::default(), 0); let pre = ValidateClaim::<Rt>::new().pre_dispatch(&who, &k, &Default::default(), 0); c.check_in(CL, "only-real-claims-enter-the-pool", v.is_ok() == (due > 0) && pre.is_ok() == v.is_ok() && raw() == root, || format!("{} due {due}: {v:?} {pre:?}", nm(&who)));
			let other = RuntimeCall::System(frame_system::Call::remark { remark: vec![1] }); c.check_in(CL, "other-calls-are-not-held-up", ValidateClaim::<Rt>::new().validate(&who, &other, &Default::default(), 0).is_ok(), || "remark refused".into());
			let r = call(k.clone(), RuntimeOrigin::signed(who.clone())); c.log(|| format!("{} claims {due} with {signer:?}: {r:?}", nm(&who))); c.check_in(CL, "the-signer-is-paid-once", r.is_ok() == ok, || format!("{} claims {due} (alive {lives}) odd {odd}: {r:?}", nm(&who)));
			if r.is_err() { c.event("refused"); c.check_in(CL, "refusal-leaves-no-trace", raw() == root, || format!("{}", nm(&who))); let unsigned = call(k, RuntimeOrigin::none()); c.check_in(CL, "claims-are-signed", unsigned.is_err() && raw() == root, || "unsigned claim".into()); if due > 0 && !lives { c.event("too-little-to-live"); } if signer.is_some() && due == 0 { c.event("nothing-due"); } if signer.is_none() { c.event("bad-signature"); } continue; }
			let s = signer.unwrap_or_default(); let evs: Vec<_> = take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Claims(e) = e { Some(e) } else { None }).collect(); c.check_in(CL, "claim-is-reported", evs == [ClaimEvent::Claim(who.clone(), Eth(s), due)], || format!("{evs:?}")); let mv = before.moved(&book()); c.check_in(CL, "pays-what-was-due", mv == Moves::new().add(&who, 0, due), || format!("{mv:?}, expected {due}")); m.insert(s, 0); granted += due; old.push((who.clone(), sig)); c.event("claimed"); if odd == 9 { c.event("signature-seen-again"); } c.nontrivial((due, s));
			c.check_in(CL, "issuance-grows-by-the-claims", book().issuance(0) == start + granted, || format!("{granted}"));
		}
		for k in keys() { c.check_in(CL, "claims-as-left", Claims::claims(Eth(k.addr)) == m.get(&k.addr).copied().unwrap_or(0), || format!("{:?}", k.addr)); let j = serde_json::to_value(Eth(k.addr)).unwrap_or_default(); let hex: String = k.addr.iter().map(|b| format!("{b:02x}")).collect(); c.check_in(CL, "addresses-are-written-as-hex", j == json!(format!("0x{hex}")) && serde_json::from_value::<Eth>(json!(hex.clone())).ok() == Some(Eth(k.addr)) && serde_json::from_value::<Eth>(j).ok() == Some(Eth(k.addr)) && serde_json::from_value::<Eth>(json!(hex[..38])).is_err() && serde_json::from_value::<Eth>(json!(format!("{}zz", &hex[..38]))).is_err(), || hex.clone()); }
	});
}

// ---- paused calls ----
fn some_call(c: &mut Ctx) -> (RuntimeCall, &'static str, &'static str) {
	let a = acc(1); match c.rng.idx(10) { 0 => (RuntimeCall::Currencies(CurCall::transfer { dest: a, currency_id: 1, amount: 1 }), "Currencies", "transfer"), 1 => (RuntimeCall::Currencies(CurCall::transfer_native_currency { dest: a, amount: 1 }), "Currencies", "transfer_native_currency"), 2 => (RuntimeCall::Duster(DustCall::dust_account { account: a, currency_id: 1 }), "Duster", "dust_account"), 3 => (RuntimeCall::Duster(DustCall::add_nondustable_account { account: a }), "Duster", "add_nondustable_account"), 4 => (RuntimeCall::TransactionPause(PauseCall::pause_transaction { pallet_name: vec![], function_name: vec![] }), "TransactionPause", "pause_transaction"), 5 => (RuntimeCall::TransactionPause(PauseCall::unpause_transaction { pallet_name: vec![], function_name: vec![] }), "TransactionPause", "unpause_transaction"), 6 => (RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: a, value: 1 }), "Balances", "transfer_allow_death"), 7 => (RuntimeCall::Tokens(orml_tokens::Call::transfer { dest: a, currency_id: 1, amount: 1 }), "Tokens", "transfer"), 8 => (RuntimeCall::System(frame_system::Call::remark { remark: vec![] }), "System", "remark"), _ => (RuntimeCall::Claims(ClaimCall::claim { ethereum_signature: pallet_claims::EcdsaSignature([1; 65]) }), "Claims", "claim") }
}
fn pause_history(c: &mut Ctx) {
	fresh(|| {
		System::set_block_number(1); let mut m: BTreeSet<(Vec<u8>, Vec<u8>)> = BTreeSet::new(); let me = <TransactionPause as frame_support::traits::PalletInfoAccess>::name();
		for _ in 0..30 {
			if c.failed() { return; } let (_, p, f) = some_call(c); let mut p = p.as_bytes().to_vec(); let mut f = f.as_bytes().to_vec(); match c.rng.idx(12) { 0 => p = vec![b'a'; 38 + c.rng.idx(5)], 1 => f = vec![b'f'; 38 + c.rng.idx(5)], 2 => p.push(0xff), 3 => f.push(0xff), 4 => { p.pop(); } 5 => p = me.as_bytes().to_vec(), 6 => p = p.to_ascii_lowercase(), 7 => f.push(b' '), _ => {} } let pause = c.rng.chance(3, 5); if !pause && !m.is_empty() && c.rng.chance(1, 2) { let v: Vec<_> = m.iter().cloned().collect(); (p, f) = c.rng.pick(&v).clone(); }
			let by = if c.rng.chance(1, 8) { acc(1) } else { acc(7) }; let fits = p.len() <= 40 && f.len() <= 40; let ok = by == acc(7) && fits && (!pause || (std::str::from_utf8(&p).is_ok() && p != me.as_bytes())); let _ = take_events::<Rt>(); let root = raw();
			let k = if pause { PauseCall::pause_transaction { pallet_name: p.clone(), function_name: f.clone() } } else { PauseCall::unpause_transaction { pallet_name: p.clone(), function_name: f.clone() } }; let r = call(RuntimeCall::TransactionPause(k), RuntimeOrigin::signed(by.clone())); c.log(|| format!("pause {pause} {p:?} {f:?} by {}: {r:?}", nm(&by)));
			c.check_in(P, "governance-pauses-anything-but-unpausing", r.is_ok() == ok, || format!("pause {pause} {} {} by {}: {r:?}", String::from_utf8_lossy(&p), String::from_utf8_lossy(&f), nm(&by))); let ev = take_events::<Rt>();
			if r.is_err() { c.event("refused"); if p == me.as_bytes() { c.event("own-calls"); } c.check_in(P, "refusal-leaves-no-trace", raw() == root && ev.is_empty(), || format!("{p:?}")); continue; } let changed = if pause { m.insert((p.clone(), f.clone())) } else { m.remove(&(p.clone(), f.clone())) }; if changed { c.event(if pause { "paused" } else { "unpaused" }); }
			let want: Vec<RuntimeEvent> = if !changed { vec![] } else { vec![RuntimeEvent::TransactionPause(if pause { PauseEvent::TransactionPaused { pallet_name_bytes: p, function_name_bytes: f } } else { PauseEvent::TransactionUnpaused { pallet_name_bytes: p, function_name_bytes: f } })] }; c.check_in(P, "changes-are-reported", ev == want, || format!("{ev:?}, expected {want:?}"));
			for _ in 0..4 { let (k, p, f) = some_call(c); let on = PausedTransactionFilter::<Rt>::contains(&k); let want = m.contains(&(p.as_bytes().to_vec(), f.as_bytes().to_vec())); if want { c.event("call-stopped"); } c.check_in(P, "exactly-the-paused-calls-are-stopped", on == want, || format!("{p}.{f} paused {want}, filter says {on}")); }
			let got: BTreeSet<_> = pallet_transaction_pause::PausedTransactions::<Rt>::iter().map(|((a, b), _)| (a.into_inner(), b.into_inner())).collect(); c.check_in(P, "paused-as-decided", got == m, || format!("{got:?}")); c.nontrivial((m.len(), pause, changed));
		}
	});
}

// ---- collator rewards ----
fn collator_history(c: &mut Ctx) {
	fresh(|| {
		Eds::set([(0u32, *c.rng.pick(&[1, 1000])), (1, 50)].into()); Pay::set(*c.rng.pick(&[100, 1000, 455_371_584_699_000])); PayIn::set(c.rng.below(2) as u32); NotPaid::set((1..=8).filter(|_| c.rng.chance(1, 4)).map(acc).collect()); System::set_block_number(1); let mut m: BTreeMap<u32, Vec<Acc>> = BTreeMap::new(); let mut n = 0u32;
		for _ in 0..16 {
			if c.failed() { return; } Asked::set(vec![]); let _ = take_events::<Rt>(); let before = book();
			match c.rng.idx(5) {
				0..=1 => { let v: Option<Vec<Acc>> = if c.rng.chance(1, 6) { None } else { Some((0..c.rng.idx(8)).map(|_| acc(1 + c.rng.idx(8) as u8)).collect()) }; Next::set(v.clone()); let r = <Rewards as SessionManager<Acc>>::new_session(n); c.log(|| format!("session {n}: {v:?}: {r:?}")); let fits = v.as_ref().map_or(true, |v| v.len() <= 6); c.check_in(CO, "session-keeps-its-collators", r == if fits { v.clone() } else { None } && Asked::get() == [(0, n)], || format!("{v:?}: {r:?}")); if let (Some(v), true) = (v, fits) { m.insert(n, v); c.event("session"); } else { c.event("no-collators"); } n += 1; }
				2 => { <Rewards as SessionManager<Acc>>::start_session(n); c.check_in(CO, "session-calls-are-passed-on", Asked::get() == [(1, n)] && before.moved(&book()).is_empty(), || "start".into()); }
				_ => { let s = c.rng.below(n as u128 + 1) as u32; <Rewards as SessionManager<Acc>>::end_session(s); let list = m.remove(&s).unwrap_or_default(); let mut want = Moves::new(); let mut ev = vec![]; let (a, pay) = (PayIn::get(), Pay::get()); for x in list { if NotPaid::get().contains(&x) { c.event("excluded"); continue; } let lives = before.total(&x, a) as i128 + want.get(&x, a) > 0; if lives || pay >= ed(a) { want = want.add(&x, a, pay); ev.push(RuntimeEvent::Rewards(pallet_collator_rewards::Event::CollatorRewarded { who: x, amount: pay, currency: a })); c.event("rewarded"); } else { c.event("below-deposit"); } }
					c.check_in(CO, "session-calls-are-passed-on", Asked::get() == [(2, s)], || format!("{:?}", Asked::get())); let mv = before.moved(&book()); c.check_in(CO, "each-collator-is-paid-once", mv == want, || format!("session {s}: {mv:?}, expected {want:?}")); let got: Vec<_> = take_events::<Rt>().into_iter().filter(|e| matches!(e, RuntimeEvent::Rewards(_))).collect(); c.check_in(CO, "rewards-are-reported", got == ev, || format!("{got:?}")); c.nontrivial((s, ev.len())); }
			}
			let got: BTreeMap<u32, Vec<Acc>> = pallet_collator_rewards::Collators::<Rt>::iter().map(|(k, v)| (k, v.into_inner())).filter(|x| !x.1.is_empty()).collect(); let mut want = m.clone(); want.retain(|_, v| !v.is_empty()); c.check_in(CO, "collators-kept-until-paid", got == want, || format!("{got:?}, expected {want:?}"));
		}
	});
}

// ---- deferred XCM ----
fn xcm_history(c: &mut Ctx) {
	use xcm::lts::prelude::*; use xcm::VersionedXcm;
	fresh(|| {
		System::set_block_number(1); Defer::set(*c.rng.pick(&[1, 10, 600, 14_400])); MaxDefer::set(*c.rng.pick(&[5, 100, 7200, 100_000])); Now::set(c.rng.below(1000) as u32); Limits::set((0..6).filter_map(|a| if c.rng.chance(3, 4) { Some((a, c.rng.log(1, 1 << 70))) } else { None }).collect()); let mut m: BTreeMap<MultiLocation, (u128, u32)> = BTreeMap::new();
		for _ in 0..20 {
			if c.failed() { return; } match c.rng.idx(4) { 0 => Now::set(Now::get() + 1), 1 => { let d = c.rng.log(1, 30_000) as u32; Now::set(Now::get() + d) } _ => {} } let now = Now::get();
			let mut list: Vec<MultiAsset> = vec![]; for _ in 0..c.rng.range(0, 3) { let i = c.rng.below(10); let l = if c.rng.chance(1, 8) { MultiLocation { parents: 1, interior: Here } } else { MultiLocation { parents: 1, interior: X2(Parachain(2000), GeneralIndex(i)) } }; let lim = Limits::with(|l| l.get(&(i as u32)).copied()).unwrap_or(1000); let n = match c.rng.idx(4) { 0 => lim, 1 => c.rng.log(1, lim.saturating_mul(10)), 2 => c.rng.log(1, u128::MAX), _ => 1 + c.rng.below(lim.saturating_mul(2)) }; let id = if c.rng.chance(1, 10) { AssetId::Abstract([1; 32]) } else { AssetId::Concrete(l) }; let fun = if c.rng.chance(1, 10) { NonFungible(AssetInstance::Index(n)) } else { Fungible(n) }; list.push(MultiAsset { id, fun }); }
			let assets: MultiAssets = list.clone().into(); let kind = c.rng.idx(6); let first: Option<Instruction<RuntimeCall>> = match kind { 0 => None, 1 => Some(WithdrawAsset(assets.clone())), 2 => Some(ReceiveTeleportedAsset(assets.clone())), _ => Some(ReserveAssetDeposited(assets.clone())) }; let mut v: Vec<Instruction<RuntimeCall>> = first.into_iter().collect(); if kind > 0 { v.push(ClearOrigin); if c.rng.chance(1, 4) { v.push(ReserveAssetDeposited(assets.clone())); } }
			let counts = kind >= 2; let msg = VersionedXcm::V3(Xcm(v)); let (w, got) = <Limiter as XcmDeferFilter<RuntimeCall>>::deferred_by(1000.into(), now, &msg);
			let mut worst = 0u128; let (d, mx) = (Defer::get() as u128, MaxDefer::get()); if counts { for a in assets.inner() { let (AssetId::Concrete(l), Fungible(n)) = (&a.id, &a.fun) else { continue }; let Some(id) = Ids::convert(*l) else { c.event("unknown-asset"); continue }; let Some(lim) = LimitOf::get(&id) else { c.event("unlimited-asset"); continue }; let (was, t) = m.get(l).copied().unwrap_or((0, 0)); let faded = U256::from(lim) * U256::from(now - t) / U256::from(d); let left = if faded > was.into() { 0 } else { was - faded.low_u128() }; let total = left.saturating_add(*n); m.insert(*l, (total, now)); if left > 0 { c.event("still-remembered"); } let over = U256::from(total.saturating_sub(lim)) * U256::from(d) / U256::from(lim); let over = if over > U256::from(u32::MAX) { u32::MAX as u128 } else { over.low_u128() }; worst = worst.max(over); } }
			let want = if worst == 0 { None } else { Some((worst.min(mx as u128)) as u32) }; c.log(|| format!("kind {kind} {list:?} at {now}: {got:?}, {w:?}")); 
			// amounts so large that the product leaves 128 bits saturate: still deferred
			let exact = m.values().all(|x| U256::from(x.0) * U256::from(d) < U256::from(u128::MAX)); c.check_in(X, "deferred-by-the-excess-over-the-limit", got == want || (!exact && got.is_some() == want.is_some()), || format!("kind {kind} {list:?} at {now}: {got:?}, expected {want:?} of {worst}")); if want.is_some() { c.event("deferred"); if worst > mx as u128 { c.event("capped"); } } else { c.event("passed"); } c.nontrivial((want, list.len()));
			let st: BTreeMap<MultiLocation, (u128, u32)> = pallet_xcm_rate_limiter::AccumulatedAmounts::<Rt>::iter().map(|(k, v)| (k, (v.amount, v.last_updated))).collect(); c.check_in(X, "amounts-accumulate-and-fade", st == m, || format!("{st:?}, expected {m:?}"));
		}
	});
}
fn facade_(m: &mut Monitor) { m.workload("facade", 10_000, 400_000, facade_history); for d in ALL { m.expect(&format!("facade/{d:?}"), 1500); } for (e, n) in [("done", 50_000), ("refused", 10_000)] { m.expect(&format!("facade/{e}"), n); } }
fn duster_(m: &mut Monitor) { m.workload("duster", 8_000, 400_000, duster_history); for (e, n) in [("dusted", 1500), ("not-dusted", 5000), ("tipped", 1000), ("swept", 500), ("spared-keeps-dust", 100), ("list-changed", 1000), ("native-ed-changed", 1000)] { m.expect(&format!("duster/{e}"), n); } }
fn claims_(m: &mut Monitor) { m.workload("claims", 700, 30_000, claims_history); for (e, n) in [("claimed", 500), ("refused", 2000), ("nothing-due", 500), ("bad-signature", 100), ("too-little-to-live", 20)] { m.expect(&format!("claims/{e}"), n); } }
fn pause_(m: &mut Monitor) { m.workload("pause", 4_000, 200_000, pause_history); for (e, n) in [("paused", 5000), ("unpaused", 2000), ("refused", 3000), ("own-calls", 500), ("call-stopped", 3000)] { m.expect(&format!("pause/{e}"), n); } }
fn collators_(m: &mut Monitor) { m.workload("collators", 8_000, 400_000, collator_history); for (e, n) in [("session", 5000), ("rewarded", 5000), ("excluded", 1000), ("below-deposit", 200), ("no-collators", 1000)] { m.expect(&format!("collators/{e}"), n); } }
fn xcm_(m: &mut Monitor) { m.workload("xcm", 10_000, 400_000, xcm_history); for (e, n) in [("deferred", 5000), ("capped", 1000), ("passed", 5000), ("unknown-asset", 1000), ("unlimited-asset", 1000), ("still-remembered", 1000)] { m.expect(&format!("xcm/{e}"), n); } }
fn main() { mon_core::run!(1.0, "distinct operations, amounts and outcomes", ["the pallets are compiled from the source tree on a stand-in for FRAME, orml and XCM"]; "C36" => facade_, "C37" => duster_, "C38" => claims_, "C39" => pause_, "C40" => collators_, "C12" => xcm_); }

//! The runtime's Ethereum side: the real precompile set, address mapping, fee charging, runner and permit handler from
//! `runtime/hydradx/src/evm`, run over histories of contract calls, Ethereum transactions and permits. The interpreter itself is
//! scripted: it charges, bumps the nonce, calls the target (a precompile or a made-up contract) and settles, as the platform's runner does.
use fp_evm::{CallInfo, Context, CreateInfo, ExitError, ExitReason, ExitRevert, ExitSucceed, IsPrecompileResult, PrecompileFailure, PrecompileSet, UsedGas};
use frame_support::storage::{with_transaction, TransactionOutcome};
use frame_support::weights::IdentityFee;
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::evm::InspectEvmAccounts;
use hydradx_traits::router::{RouteProvider, Trade};
use hydradx_traits::{NativePriceOracle, OraclePeriod, PriceOracle};
use mon_core::big::w;
use mon_evm::{handle::Handle, keccak, selector};
use mon_frame::*;
use pallet_evm::{OnChargeEVMTransaction, Runner, RunnerError};
use pallet_evm_precompile_call_permit::NoncesStorage;
use pallet_transaction_multi_payment::{DepositAll, TransferFees, TryCallCurrency};
use sp_runtime::traits::ValidateUnsigned;
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError};

mod evm_code {
	pub use frame_support::{traits::FindAuthor, ConsensusEngineId};
}
mod evm {
	pub use crate::evm_code::{ConsensusEngineId, FindAuthor};
	pub use crate::WethAssetId;
	#[path = "/repo/runtime/hydradx/src/evm/accounts_conversion.rs"] pub mod accounts_conversion;
	#[path = "/repo/runtime/hydradx/src/evm/evm_fee.rs"] pub mod evm_fee;
	#[path = "/repo/runtime/hydradx/src/evm/permit.rs"] pub mod permit;
	#[path = "/repo/runtime/hydradx/src/evm/precompiles/mod.rs"] pub mod precompiles;
	#[path = "/repo/runtime/hydradx/src/evm/runner.rs"] pub mod runner;
	pub use accounts_conversion::{ExtendedAddressMapping, FindAuthorTruncated};
}
pub type AccountId = Acc;
pub struct Aura; impl Aura { pub fn authorities() -> Vec<Acc> { (0..4).map(|i| { let mut b = [0u8; 32]; for (j, x) in b.iter_mut().enumerate() { *x = (i * 50 + j) as u8; } Acc::new(b) }).collect() } }
pub struct TreasuryAccount; impl Get<Acc> for TreasuryAccount { fn get() -> Acc { acc(50) } }
pub struct WethAssetId; impl Get<u32> for WethAssetId { fn get() -> u32 { Registry::location_to_asset(77).unwrap_or(u32::MAX) } }
construct_runtime!(pub enum Runtime { System: frame_system, Timestamp: pallet_timestamp, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Registry: pallet_asset_registry, EVM: pallet_evm, EVMAccounts: pallet_evm_accounts, TxPay: pallet_transaction_payment, MultiTransactionPayment: pallet_transaction_multi_payment, TransactionPause: pallet_transaction_pause, Utility: pallet_utility, DynamicEvmFee: pallet_dynamic_evm_fee, EmaOracle: pallet_ema_oracle });
base!(Runtime, (), DustWhite);
param! { Table: BTreeMap<(u32, u32), (u128, u128)> = Default::default(); Script: Ran = Default::default(); Log_: Vec<Asked> = vec![]; Mult: u128 = 1_000_000_000_000_000_000; EthHdx: Option<(u128, u128)> = None; }
parameter_types! { pub const Native: u32 = 0; pub const Wpg: Weight = Weight::from_parts(25_000, 0); pub Limit: U256 = U256::from(15_000_000u64); pub const Start: u32 = 1000; #[derive(PartialEq, Debug)] pub const Str: u32 = 32; #[derive(PartialEq, Debug)] pub const MinStr: u32 = 1; pub const DefFee: u128 = 15_000_000; pub const MinFee: u128 = 1_500_000; pub const MaxFee: u128 = 14_415_000_000; pub const Max: u32 = 20; pub Val: Set = Set::new(); pub Mu: FixedU128 = FixedU128::from_inner(Mult::get()); }
pub type Set = evm::precompiles::HydraDXPrecompiles<Runtime>;
impl pallet_timestamp::Config for Runtime { type Moment = u64; type OnTimestampSet = (); type MinimumPeriod = frame_support::traits::ConstU64<5>; type WeightInfo = (); }
impl pallet_currencies::Config for Runtime { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Runtime, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
type Fun = pallet_currencies::fungibles::FungibleCurrencies<Runtime>;
impl pallet_asset_registry::Config for Runtime { type RuntimeEvent = RuntimeEvent; type RegistryOrigin = EnsureRoot<Acc>; type UpdateOrigin = EnsureRoot<Acc>; type Currency = Fun; type AssetId = u32; type AssetNativeLocation = u8; type StringLimit = Str; type MinStringLimit = MinStr; type SequentialIdStartAt = Start; type RegExternalWeightMultiplier = frame_support::traits::ConstU64<1>; type WeightInfo = (); }
pub struct Nonces; impl pallet_evm_accounts::EvmNonceProvider for Nonces { fn get_nonce(a: H160) -> U256 { System::account_nonce(EVMAccounts::account_id(a)).into() } }
impl pallet_evm_accounts::Config for Runtime { type RuntimeEvent = RuntimeEvent; type EvmNonceProvider = Nonces; type FeeMultiplier = frame_support::traits::ConstU32<50>; type ControllerOrigin = EnsureRoot<Acc>; type WeightInfo = (); }
impl pallet_transaction_pause::Config for Runtime { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = EnsureRoot<Acc>; type WeightInfo = (); }
pub struct White; impl frame_support::traits::Contains<(hydradx_traits::oracle::Source, u32, u32)> for White { fn contains(_: &(hydradx_traits::oracle::Source, u32, u32)) -> bool { true } }
impl pallet_ema_oracle::Config for Runtime { type RuntimeEvent = RuntimeEvent; type AuthorityOrigin = EnsureRoot<Acc>; type BlockNumberProvider = System; type SupportedPeriods = (); type OracleWhitelist = frame_support::traits::Everything; type MaxUniqueEntries = Max; type WeightInfo = (); }
impl pallet_transaction_payment::Config for Runtime { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = TransferFees<Currencies, DepositAll<Runtime>, TreasuryAccount>; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<u128>; type LengthToFee = IdentityFee<u128>; type FeeMultiplierUpdate = (); }
pub struct Routes; impl RouteProvider<u32> for Routes {}
pub struct Oracle; impl PriceOracle<u32> for Oracle { type Price = hydra_dx_math::types::Ratio; fn price(_: &[Trade<u32>], _: OraclePeriod) -> Option<hydra_dx_math::types::Ratio> { None } }
impl pallet_utility::Config for Runtime { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
impl pallet_transaction_multi_payment::Config for Runtime { type RuntimeEvent = RuntimeEvent; type AcceptedCurrencyOrigin = EnsureRoot<Acc>; type Currencies = Currencies; type RouteProvider = Routes; type OraclePriceProvider = Oracle; type WeightInfo = (); type WeightToFee = IdentityFee<u128>; type NativeAssetId = Native; type EvmAssetId = WethAssetId; type InspectEvmAccounts = EVMAccounts; type EvmPermit = evm::permit::EvmPermitHandler<Runtime>; type TryCallCurrency<'a> = TryCallCurrency<Runtime>; }
pub struct Eth; impl NativePriceOracle<u32, EmaPrice> for Eth { fn price(a: u32) -> Option<EmaPrice> { if a != WethAssetId::get() { return None; } EthHdx::get().map(|(n, d)| EmaPrice::new_unchecked(n, d)) } }
impl pallet_dynamic_evm_fee::Config for Runtime { type AssetId = u32; type DefaultBaseFeePerGas = DefFee; type MinBaseFeePerGas = MinFee; type MaxBaseFeePerGas = MaxFee; type FeeMultiplier = Mu; type NativePriceOracle = Eth; type WethAssetId = WethAssetId; type WeightInfo = (); }
/// the runtime's price between two assets, scripted: what one unit of the second is worth in the first
pub struct Short; impl hydradx_traits::price::PriceProvider<u32> for Short { type Price = EmaPrice; fn get_price(a: u32, b: u32) -> Option<EmaPrice> { Table::with(|t| t.get(&(a, b)).map(|x| EmaPrice::new(x.0, x.1))) } }
type Conv = hydradx_adapters::price::ConvertAmount<Short>;
type FeeCur = evm::evm_fee::FeeCurrencyOverrideOrDefault<WethAssetId>;
pub type Charge = evm::evm_fee::TransferEvmFees<evm::evm_fee::DepositEvmFeeToTreasury, FeeCur, WethAssetId, Conv, Fun>;
pub type Wrapped = evm::runner::WrapRunner<Runtime, Inner, hydradx_adapters::price::FeeAssetBalanceInCurrency<Runtime, Conv, FeeCur, Fun>>;
impl pallet_evm::Config for Runtime { type FeeCalculator = DynamicEvmFee; type BlockGasLimit = Limit; type GasWeightMapping = pallet_evm::FixedGasWeightMapping<Self>; type WeightPerGas = Wpg; type AddressMapping = evm::ExtendedAddressMapping; type PrecompilesType = Set; type PrecompilesValue = Val; type ChainId = frame_support::traits::ConstU64<222_222>; type Timestamp = Timestamp; type Runner = Wrapped; }
/// what the interpreter is told to do, and what it was asked
#[derive(Clone, Debug, Default)] pub struct Ran { gas: u64, exit: u8, proof: Option<u64> }
#[derive(Clone, Debug, PartialEq)] pub struct Asked { kind: u8, source: H160, target: H160, input: Vec<u8>, salt: H256, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, transactional: bool, validate: bool, wl: Option<Weight>, pb: Option<u64> }
pub struct Inner;
fn stack(a: Asked) -> Result<(ExitReason, Vec<u8>, U256), RunnerError<pallet_evm::Error<Runtime>>> {
	Log_::with(|l| l.push(a.clone()));
	let fail = |error| RunnerError { error, weight: Weight::from_parts(11, 0) };
	let base = <DynamicEvmFee as fp_evm::FeeCalculator>::min_gas_price().0;
	let per = if !a.transactional { U256::zero() } else { match (a.max, a.tip) { (Some(m), _) if m.is_zero() => U256::zero(), (Some(_), None) => base, (Some(m), Some(t)) => base.saturating_add(m.saturating_sub(base).min(t)), _ => return Err(fail(pallet_evm::Error::GasPriceTooLow)) } };
	let total = per.checked_mul(a.gas.into()).ok_or_else(|| fail(pallet_evm::Error::FeeOverflow))?;
	let paid = <Charge as OnChargeEVMTransaction<Runtime>>::withdraw_fee(&a.source, total).map_err(fail)?;
	System::inc_account_nonce(EVMAccounts::account_id(a.source));
	let s = Script::get(); let used = U256::from(s.gas.min(a.gas));
	let (reason, out) = with_transaction(|| {
		let mut h = Handle::new(a.target, a.source, a.input.clone()); h.ctx.apparent_value = a.value;
		let r = if s.exit > 0 { (if s.exit == 1 { ExitReason::Revert(ExitRevert::Reverted) } else { ExitReason::Error(ExitError::OutOfGas) }, vec![]) } else { match Set::new().execute(&mut h) { None => (ExitReason::Succeed(ExitSucceed::Stopped), vec![]), Some(Ok(o)) => (ExitReason::Succeed(o.exit_status), o.output), Some(Err(PrecompileFailure::Error { exit_status })) => (ExitReason::Error(exit_status), vec![]), Some(Err(PrecompileFailure::Revert { exit_status, output })) => (ExitReason::Revert(exit_status), output), Some(Err(PrecompileFailure::Fatal { exit_status })) => (ExitReason::Fatal(exit_status), vec![]) } };
		if r.0.is_succeed() { TransactionOutcome::Commit(Ok::<_, DispatchError>(r)) } else { TransactionOutcome::Rollback(Ok(r)) }
	}).unwrap();
	let fee = used.saturating_mul(per); let tip = <Charge as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&a.source, fee, used.saturating_mul(base), paid).map_err(fail)?;
	<Charge as OnChargeEVMTransaction<Runtime>>::pay_priority_fee(tip);
	Ok((reason, out, used))
}
type Res<T> = Result<T, RunnerError<pallet_evm::Error<Runtime>>>;
impl Runner<Runtime> for Inner {
	type Error = pallet_evm::Error<Runtime>;
	fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: Option<Weight>, _: Option<u64>, _: &::evm::Config) -> Res<()> { Log_::with(|l| l.push(Asked { kind: 9, source: H160::zero(), target: H160::zero(), input: vec![], salt: H256::zero(), value: 0.into(), gas: 0, max: None, tip: None, nonce: None, list: vec![], transactional: false, validate: false, wl: None, pb: None })); Ok(()) }
	fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, transactional: bool, validate: bool, wl: Option<Weight>, pb: Option<u64>, _: &::evm::Config) -> Res<CallInfo> {
		let (exit_reason, value, used) = stack(Asked { kind: 0, source, target, input, salt: H256::zero(), value, gas, max, tip, nonce, list, transactional, validate, wl, pb })?;
		Ok(CallInfo { exit_reason, value, used_gas: UsedGas { standard: used, effective: used }, weight_info: Script::get().proof.map(|p| fp_evm::WeightInfo { proof_size_usage: Some(p), ..Default::default() }), logs: vec![] })
	}
	fn create(source: H160, input: Vec<u8>, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, transactional: bool, validate: bool, wl: Option<Weight>, pb: Option<u64>, _: &::evm::Config) -> Res<CreateInfo> {
		let (exit_reason, _, used) = stack(Asked { kind: 1, source, target: H160([0xcc; 20]), input, salt: H256::zero(), value, gas, max, tip, nonce, list, transactional, validate, wl, pb })?;
		Ok(CreateInfo { exit_reason, value: H160([0xcc; 20]), used_gas: UsedGas { standard: used, effective: used }, weight_info: None, logs: vec![] })
	}
	fn create2(source: H160, input: Vec<u8>, salt: H256, value: U256, gas: u64, max: Option<U256>, tip: Option<U256>, nonce: Option<U256>, list: Vec<(H160, Vec<H256>)>, transactional: bool, validate: bool, wl: Option<Weight>, pb: Option<u64>, _: &::evm::Config) -> Res<CreateInfo> {
		let (exit_reason, _, used) = stack(Asked { kind: 2, source, target: H160([0xcc; 20]), input, salt, value, gas, max, tip, nonce, list, transactional, validate, wl, pb })?;
		Ok(CreateInfo { exit_reason, value: H160([0xcc; 20]), used_gas: UsedGas { standard: used, effective: used }, weight_info: None, logs: vec![] })
	}
}
const T: &str = "C28";
const F: &str = "C29";
const PERMIT: H160 = H160([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 10]);
fn book() -> Book { Book::all::<Runtime>() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
/// the contract address of an asset, from the documentation: sixteen fixed bytes, then the id
fn token(a: u32) -> H160 { let mut b = [0u8; 20]; b[15] = 1; b[16..].copy_from_slice(&a.to_be_bytes()); H160(b) }
struct Key { sk: U256, addr: H160 }
fn keys() -> &'static [Key] { static K: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new(); K.get_or_init(|| (1..4u64).map(|i| { let sk = U256::from_big_endian(&keccak(&i.to_le_bytes())) >> 1; Key { sk, addr: H160::from_slice(&keccak(&sp_core::secp256k1::public(sk))[12..]) } }).collect()) }
/// people: three Ethereum keys, then the addresses of five chain accounts
fn eth(i: usize) -> H160 { if i < 3 { keys()[i].addr } else { let a = acc(i as u8); H160::from_slice(&(a.as_ref() as &[u8; 32])[..20]) } }
#[derive(Default, Clone)] struct Model { bound: BTreeMap<H160, Acc>, deployers: BTreeSet<H160>, names: BTreeMap<u32, (Option<Vec<u8>>, Option<Vec<u8>>, Option<u8>)>, permits: BTreeMap<H160, U256>, chosen: BTreeMap<Acc, u32> }
impl Model { fn account(&self, a: H160) -> Acc { self.bound.get(&a).cloned().unwrap_or_else(|| { let mut b = [0u8; 32]; b[..4].copy_from_slice(b"ETH\0"); b[4..24].copy_from_slice(&a.0); Acc::new(b) }) } }
fn word(v: U256) -> Vec<u8> { let mut b = [0u8; 32]; v.to_big_endian(&mut b); b.to_vec() }
fn text(v: &[u8]) -> Vec<u8> { let mut o = word(32.into()); o.extend(word(v.len().into())); o.extend(v); while o.len() % 32 != 0 { o.push(0); } o }
const FNS: [&str; 9] = ["name()", "symbol()", "decimals()", "totalSupply()", "balanceOf(address)", "transfer(address,uint256)", "allowance(address,address)", "approve(address,uint256)", "transferFrom(address,address,uint256)"];
fn up(a: u128, n: u128, d: u128) -> Option<u128> { if d == 0 { return None; } let r = (w(a) * w(n) + w(d) - w(1)) / w(d); if r > w(u128::MAX) { None } else { Some(r.low_u128()) } }
fn setup(c: &mut Ctx) -> Model {
	System::set_block_number(1); let r = &mut c.rng; Table::set(Default::default()); NoDust::set(Default::default()); Mult::set(1_000_000_000_000_000_000); EthHdx::set(None); Log_::set(vec![]); Script::set(Ran::default());
	Eds::set((0..8).map(|a| (a, *r.pick(&[1u128, 1, 1000]))).collect()); let mut m = Model::default();
	for a in 1..6u32 { if r.chance(7, 8) || a == 4 {
		let mut s = |n: usize| -> Option<Vec<u8>> { if r.chance(5, 6) { Some((0..1 + r.idx(n)).map(|_| b'a' + r.idx(26) as u8).collect()) } else { None } };
		let (name, sym) = (s(32), s(32)); let dec = if r.chance(5, 6) { Some(r.u64() as u8) } else { None };
		let bs = |v: &Option<Vec<u8>>| v.clone().map(|v| v.try_into().unwrap());
		// ids below the sequence start are given out by name
		if call(RuntimeCall::Registry(pallet_asset_registry::Call::register { asset_id: Some(a), name: bs(&name), asset_type: pallet_asset_registry::AssetType::Token, existential_deposit: Some(ed(a)), symbol: bs(&sym), decimals: dec, location: if a == 4 { Some(77) } else { None }, xcm_rate_limit: None, is_sufficient: true }), RuntimeOrigin::root()).is_ok() { m.names.insert(a, (name, sym, dec)); }
	} }
	if !m.names.contains_key(&4) { let name = b"weth".to_vec(); call(RuntimeCall::Registry(pallet_asset_registry::Call::register { asset_id: Some(4), name: Some(name.clone().try_into().unwrap()), asset_type: pallet_asset_registry::AssetType::Token, existential_deposit: Some(ed(4)), symbol: None, decimals: Some(18), location: Some(77), xcm_rate_limit: None, is_sufficient: true }), RuntimeOrigin::root()).unwrap(); m.names.insert(4, (Some(name), None, Some(18))); }
	for a in 0..6u32 { let top = 10u128.pow(*c.rng.pick(&[10u32, 18, 24])); if a == 0 { give_native::<Runtime>(&acc(50), top) } else { give::<Runtime>(&acc(50), a, top) } }
	for i in 0..8 { if i >= 3 && c.rng.chance(1, 2) { bind(c, &mut m, i); } let only = if c.rng.chance(1, 3) { Some(*c.rng.pick(&[4u32, 4, 0, 5])) } else { None }; for a in 0..6u32 { if only.map_or(c.rng.chance(2, 3), |o| o == a) { let v = if c.rng.chance(1, 2) { c.rng.log(10u128.pow(17), 10u128.pow(22)) } else { let top = 10u128.pow(*c.rng.pick(&[6u32, 15, 22])); c.rng.log(1000, top) }; let x = m.account(eth(i)); if a == 0 { give_native::<Runtime>(&x, v) } else { give::<Runtime>(&x, a, v) } } } }
	m
}
fn bind(c: &mut Ctx, m: &mut Model, i: usize) {
	let x = if i >= 3 { acc(i as u8) } else { m.account(eth(i)) }; let b: &[u8; 32] = x.as_ref(); let addr = H160::from_slice(&b[..20]);
	let used = System::account_nonce(m.account(addr)) != 0; let was = m.bound.contains_key(&addr); let root = raw();
	let r = call(RuntimeCall::EVMAccounts(pallet_evm_accounts::Call::bind_evm_address {}), RuntimeOrigin::signed(x.clone()));
	c.check_in(T, "an-unused-address-is-bound-once", r.is_ok() == !(used || was), || format!("{r:?}: used {used}, bound {was}"));
	if r.is_ok() { m.bound.insert(addr, x); c.event("bound"); } else { c.check_in(T, "refusal-changes-nothing", raw() == root, || format!("{r:?}")); }
	let _ = take_events::<Runtime>();
}
fn accounts(c: &mut Ctx, m: &mut Model) {
	let i = c.rng.idx(8);
	match c.rng.idx(4) {
		0 => bind(c, m, i),
		1 => { let root = c.rng.chance(3, 4); let add = c.rng.chance(2, 3); let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(i as u8)) }; let a = eth(i); let cl = if add { pallet_evm_accounts::Call::add_contract_deployer { address: a } } else { pallet_evm_accounts::Call::remove_contract_deployer { address: a } };
			let r = call(RuntimeCall::EVMAccounts(cl), o); c.check_in(T, "only-the-authority-admits-deployers", r.is_ok() == root, || format!("{r:?}")); if root { if add { m.deployers.insert(a); } else { m.deployers.remove(&a); } c.event("deployers-changed"); } }
		2 if i >= 3 => { let r = call(RuntimeCall::EVMAccounts(pallet_evm_accounts::Call::renounce_contract_deployer {}), RuntimeOrigin::signed(acc(i as u8))); c.check_in(T, "renouncing-is-free", r.is_ok(), || format!("{r:?}")); m.deployers.remove(&eth(i)); }
		_ => {}
	}
	for i in 0..8 {
		let a = eth(i); let x = m.account(a);
		c.check_in(T, "one-account-per-address", EVMAccounts::account_id(a) == x && EVMAccounts::bound_account_id(a) == m.bound.get(&a).cloned() && <evm::ExtendedAddressMapping as pallet_evm::AddressMapping<Acc>>::into_account_id(a) == x, || format!("{a:?}: {:?}, expected {x:?}", EVMAccounts::account_id(a)));
		c.check_in(T, "only-admitted-addresses-deploy", EVMAccounts::can_deploy_contracts(a) == m.deployers.contains(&a), || format!("{a:?}"));
		let t = EVMAccounts::truncated_account_id(a); c.check_in(T, "ethereum-accounts-are-recognised", EVMAccounts::is_evm_account(t) && !EVMAccounts::is_evm_account(acc(i as u8)), || format!("{a:?}"));
	}
	let k = c.rng.idx(4) as u32; struct Fixed; impl frame_support::traits::FindAuthor<u32> for Fixed { fn find_author<'a, I>(d: I) -> Option<u32> where I: 'a + IntoIterator<Item = (frame_support::ConsensusEngineId, &'a [u8])> { d.into_iter().next().map(|x| x.1[0] as u32) } }
	use frame_support::traits::FindAuthor; let d = [k as u8]; let got = evm::FindAuthorTruncated::<Fixed>::find_author(vec![(*b"aura", &d[..])]); let b: Vec<u8> = (4..24).map(|j| (k * 50 + j) as u8).collect();
	c.check_in(T, "author-address", got == Some(H160::from_slice(&b)) && evm::FindAuthorTruncated::<Fixed>::find_author(vec![]).is_none(), || format!("{got:?}"));
}
#[derive(Debug, PartialEq)] enum Want { Pass, Refuse, Answer(Vec<u8>), Standard(&'static str), Move(u32, Acc, Acc, u128) }
fn contract(c: &mut Ctx, m: &mut Model) {
	let r = &mut c.rng;
	let caller = eth(r.idx(8));
	let (mut at, kind) = match r.idx(20) { 0 => (H160::from_low_u64_be(r.range(0, 12) as u64), 0), 1 => (*r.pick(&[PERMIT, H160::from_low_u64_be(1025), H160::from_low_u64_be(0x80a + 1), H160::from_low_u64_be(1024), H160::zero()]), 0), 2 => { let mut b = token(r.idx(8) as u32); b.0[r.idx(16)] ^= 1 << r.idx(8); (b, 0) } 3 => (H160([r.u64() as u8 | 1; 20]), 0), 4 => (token(r.u64() as u32), 1), _ => (token(r.idx(7) as u32), 1) };
	if kind == 1 && r.chance(1, 64) { at = token(u32::MAX); }
	let f = r.idx(9); let mut input = selector(FNS[f]).to_be_bytes().to_vec(); let to = eth(r.idx(8)); let asset = u32::from_be_bytes(at.0[16..20].try_into().unwrap());
	let have = Currencies::free_balance(asset, &m.account(caller));
	let amount = match r.idx(8) { 0 => U256::from(have), 1 => U256::from(have).saturating_add(1.into()), 2 => U256::from(u128::MAX), 3 => U256::from(u128::MAX) + 1, 4 => U256::MAX, 5 => U256::from(r.u128()) << r.idx(128), 6 => 0.into(), _ => U256::from(r.below(have.max(1))) };
	let mut words: Vec<Vec<u8>> = match f { 4 => vec![word(U256::from_big_endian(&to.0))], 5 | 7 => vec![word(U256::from_big_endian(&to.0)), word(amount)], 6 => vec![word(U256::from_big_endian(&to.0)); 2], 8 => vec![word(U256::from_big_endian(&caller.0)), word(U256::from_big_endian(&to.0)), word(amount)], _ => vec![] };
	if r.chance(1, 8) && !words.is_empty() { let i = r.idx(words.len()); for b in words[i][..12].iter_mut() { if i == 0 { *b = r.u64() as u8; } } }
	for x in &words { input.extend(x); }
	let need = input.len();
	match r.idx(24) { 0 => input.truncate(r.idx(input.len() + 1)), 1 => { let n = r.idx(40); input.extend((0..n).map(|_| r.u64() as u8)); } 2 => { input[r.idx(4)] ^= 1 << r.idx(8); } 3 => input = (0..r.idx(100)).map(|_| r.u64() as u8).collect(), _ => {} }
	let mut h = Handle::new(at, caller, input.clone()); h.stat = r.chance(1, 10); if r.chance(1, 10) { h.ctx.apparent_value = (1 + r.idx(3)).into(); } let borrowed = r.chance(1, 10); if borrowed { h.ctx.address = H160([0xdd; 20]); }
	let is_token = at.0[..15].iter().all(|b| *b == 0) && at.0[15] == 1; let low = U256::from_big_endian(&at.0); let standard = ["", "ECRecover", "Sha256", "Ripemd160", "Identity", "Modexp", "Bn128Add", "Bn128Mul", "Bn128Pairing", "Blake2F"];
	let sel = input.get(..4).map(|b| u32::from_be_bytes(b.try_into().unwrap())); let which = sel.and_then(|s| FNS.iter().position(|f| selector(f) == s));
	let arg = |i: usize| U256::from_big_endian(&input[4 + 32 * i..36 + 32 * i]); let party = |i: usize| m.account(H160::from_slice(&input[4 + 32 * i + 12..36 + 32 * i]));
	let want = if !low.is_zero() && low < 10.into() { Want::Standard(standard[low.as_usize()]) }
		else if !is_token && at != PERMIT && low != 1025.into() { Want::Pass }
		else if borrowed { Want::Refuse }
		else if low == 1025.into() { Want::Standard("Dispatch") }
		else if at == PERMIT { if sel == Some(selector("DOMAIN_SEPARATOR()")) { return; } Want::Refuse }
		else { match which {
			None => Want::Refuse,
			Some(k) if input.len() < 4 + 32 * [0, 0, 0, 0, 1, 2, 2, 2, 3][k] => Want::Refuse,
			_ if h.ctx.apparent_value > 0.into() => Want::Refuse,
			Some(k @ 0..=2) => match m.names.get(&asset) { None => Want::Refuse, Some((n, s, d)) => match k { 0 => n.as_ref().map_or(Want::Refuse, |v| Want::Answer(text(v))), 1 => s.as_ref().map_or(Want::Refuse, |v| Want::Answer(text(v))), _ => d.map_or(Want::Refuse, |d| Want::Answer(word(d.into()))) } },
			Some(3) => Want::Answer(word(book().issuance(asset).into())),
			Some(4) => Want::Answer(word(book().free(&party(0), asset).into())),
			Some(5) if h.stat || arg(1) > u128::MAX.into() => Want::Refuse,
			Some(5) => Want::Move(asset, m.account(caller), party(0), arg(1).as_u128()),
			_ => Want::Refuse,
		} };
	let _ = take_events::<Runtime>(); let root = raw(); let before = book();
	// what the chain's own transfer would do
	let twin = if let Want::Move(a, x, y, v) = &want { Some(with_transaction(|| { let r = <Currencies as MultiCurrency<Acc>>::transfer(*a, x, y, *v); let o = (r, raw()); TransactionOutcome::Rollback(Ok::<_, DispatchError>(o)) }).unwrap()) } else { None };
	let res = with_transaction(|| { let r = Set::new().execute(&mut h); match &r { Some(Ok(_)) => TransactionOutcome::Commit(Ok::<_, DispatchError>(r)), _ => TransactionOutcome::Rollback(Ok(r)) } }).unwrap();
	let (stat, value) = (h.stat, h.ctx.apparent_value); let (logs, calls) = (h.logs.len(), h.calls.len());
	c.log(|| format!("{at:?} {} input of {} bytes (needs {need}), static {stat} value {value} borrowed {borrowed}: {res:?}, expected {want:?}", which.map_or("?", |k| FNS[k]), input.len()));
	let show = || format!("{at:?} {}({:02x?}) from {caller:?}, static {stat}, value {value}, borrowed {borrowed}: {res:?}, expected {want:?}", which.map_or("?", |k| FNS[k]), &input.get(4..).unwrap_or(&[]));
	let same = raw() == root;
	match &want {
		Want::Pass => { c.event("passed-on"); c.check_in(T, "other-contracts-are-left-to-the-interpreter", res.is_none(), show); }
		Want::Refuse => { c.event("refused"); c.check_in(T, "unsupported-calls-are-refused", matches!(res, Some(Err(_))) && same, show); }
		Want::Standard(n) => { c.event("standard"); c.check_in(T, "each-address-runs-its-contract", matches!(&res, Some(Ok(o)) if o.output == n.as_bytes()), show); }
		Want::Answer(v) => { c.event("answered"); c.check_in(T, "answers-are-the-chains-own", matches!(&res, Some(Ok(o)) if o.output == *v && o.exit_status == ExitSucceed::Returned) && same, show); if matches!(which, Some(3 | 4)) { c.nontrivial((at, v.clone())); } }
		Want::Move(a, x, y, v) => {
			let (t, troot) = twin.unwrap(); let after = book();
			c.check_in(T, "transfers-are-the-chains-own", matches!(&res, Some(Ok(_))) == t.is_ok() && raw() == if t.is_ok() { troot } else { root.clone() }, || format!("{}; the chain: {t:?}, {:?}", show(), before.moved_total(&after)));
			if let Some(Ok(o)) = &res { c.event("transferred"); let dust = if *a == 0 && x != y && before.free(x, 0) - v < ed(0) { before.free(x, 0) - v } else { 0 }; let want = if x == y { Moves::new() } else { Moves::new().mv(x, y, *a, *v).sub(x, *a, dust) }; c.check_in(T, "transfer-moves-exactly-the-amount", before.moved_total(&after) == want && o.output == word(1.into()), || format!("{}: {:?}, expected {want:?}", show(), before.moved_total(&after))); c.nontrivial((*a, *v)); }
			else { c.event("transfer-refused"); c.check_in(T, "affordable-transfers-work", before.free(x, *a) < *v || ed(*a) > *v || w(before.issuance(*a)) + w(*v) > w(u128::MAX) || (*a != 0 && before.free(x, *a) - v < ed(*a)), show); }
		}
	}
	c.check_in(T, "no-side-calls", logs == 0 && calls == 0, show);
	let known = is_token || low == 1025.into() || (!low.is_zero() && low < 10.into()); let isp = Set::new().is_precompile(at, 0);
	if at != PERMIT { c.check_in(T, "precompile-addresses", isp == IsPrecompileResult::Answer { is_precompile: known, extra_cost: 0 }, || format!("{at:?}: {isp:?}")); }
	use evm::precompiles::erc20_mapping::{is_asset_address, Erc20Mapping, HydraErc20Mapping as H};
	c.check_in(T, "address-of-an-asset", H::decode_evm_address(at) == if is_token { Some(asset) } else { None } && is_asset_address(at) == is_token && H::encode_evm_address(asset) == Some(token(asset)), || format!("{at:?}: {:?}", H::decode_evm_address(at)));
	let _ = take_events::<Runtime>();
}
fn price(r: &mut Rng) -> (u128, u128) { match r.idx(24) { 12..=23 => (r.range(1, 100), r.range(1, 100)), 0 => (r.log(1, u128::MAX), r.log(1, u128::MAX)), 1 => (r.log(1, 10), r.log(1, 10u128.pow(30))), 2 => (0, 1), _ => (r.log(1, 10u128.pow(12)), r.log(1, 10u128.pow(12))) } }
/// the world a fee depends on
fn reprice(c: &mut Ctx) {
	let weth = WethAssetId::get(); c.check_in(F, "weth-is-found-by-its-location", weth == 4, || format!("{weth}"));
	for a in 0..6u32 { if a != 4 && c.rng.chance(1, 2) { if c.rng.chance(1, 8) { Table::with(|t| { t.remove(&(a, 4)); t.remove(&(4, a)); }); } else { let p = price(&mut c.rng); Table::with(|t| { t.insert((a, 4), p); t.insert((4, a), (p.1, p.0)); }); } } }
	if c.rng.chance(1, 2) { Mult::set(c.rng.log(1_000_000_000_000, 10u128.pow(22))); } if c.rng.chance(1, 2) { EthHdx::set(if c.rng.chance(1, 6) { None } else { Some(match c.rng.idx(8) { 0 => (c.rng.log(1, u128::MAX), c.rng.log(1, u128::MAX)), 1 => (1, 0), _ => (c.rng.log(10u128.pow(17), 10u128.pow(20)), 10u128.pow(18)) }) }); }
	let old = DynamicEvmFee::base_evm_fee(); let _ = <DynamicEvmFee as Hooks<_>>::on_initialize(System::block_number()); let new = DynamicEvmFee::base_evm_fee();
	// default fee, and three times it per unit of congestion, scaled by the price of ether against its reference
	let want = EthHdx::get().and_then(|(n, d)| { if d == 0 { return None; } let one = w(1_000_000_000_000_000_000); let p = w(n) * one / w(d); if p > w(u128::MAX) { return None; } let diff = p * one / w(8_945_857_934_143_137_845); if diff > w(u128::MAX) { return None; } let f = w(15_000_000) + w(3) * (w(15_000_000) * w(Mult::get()) / one); Some((f * diff / one).max(w(1_500_000)).min(w(14_415_000_000))) });
	c.check_in(F, "base-fee-follows-congestion-and-price", match want { None => new == old, Some(f) => { let d = if w(new.as_u128()) > f { w(new.as_u128()) - f } else { f - w(new.as_u128()) }; d <= f / w(1_000_000_000_000) + w(8) } }, || format!("{old} -> {new}, expected {want:?} for {:?} at {}", EthHdx::get(), Mult::get()));
	c.check_in(F, "base-fee-stays-in-its-band", new == old || (new >= 1_500_000.into() && new <= 14_415_000_000u64.into()), || format!("{new}"));
	c.event("block");
}
/// what a payer in `cur` owes for `fee` of ether, and the price used
fn owed(cur: u32, fee: U256) -> Option<(u128, (u128, u128))> { let p = if cur == 4 { (1, 1) } else { Table::with(|t| t.get(&(cur, 4)).copied())? }; let f = if fee > u128::MAX.into() { u128::MAX } else { fee.as_u128() }; Some((up(f, p.0, p.1)?, p)) }
/// charging and settling, straight
fn charge(c: &mut Ctx, m: &mut Model) {
	let a = eth(c.rng.idx(8)); let x = m.account(a); let cur = if c.rng.chance(1, 2) { let k = c.rng.idx(6) as u32; pallet_transaction_multi_payment::TransactionCurrencyOverride::<Runtime>::insert(&x, k); k } else { 4 };
	let have = book().free(&x, cur); let fee = match c.rng.idx(8) { 0 => U256::zero(), 1 => U256::from(c.rng.u128()), 2 => U256::from(u128::MAX) + c.rng.idx(3), 3 => 1.into(), 4 => match Table::with(|t| t.get(&(cur, 4)).copied()) { Some((n, d)) if n > 0 => up(have, d, n).unwrap_or(1).into(), _ => have.into() }, _ => U256::from(c.rng.log(1, 10u128.pow(18))) };
	let _ = take_events::<Runtime>(); let (before, root) = (book(), raw()); let due = owed(cur, fee);
	let can = <Charge as OnChargeEVMTransaction<Runtime>>::can_withdraw(&a, fee).is_ok(); c.check_in(F, "asking-changes-nothing", raw() == root, || "changed".into());
	let res = <Charge as OnChargeEVMTransaction<Runtime>>::withdraw_fee(&a, fee); let mid = book();
	let show = || format!("fee {fee} of {x:?} in {cur} holding {have} at {due:?}");
	c.log(|| format!("{} -> {}", show(), if res.is_ok() { "taken" } else { "refused" }));
	let Ok(info) = res else {
		c.event("not-charged"); c.check_in(F, "refusal-changes-nothing", raw() == root, show);
		c.check_in(F, "payable-fees-are-taken", due.map_or(true, |(d, _)| d == 0 || d > have || have - d < ed(cur)), show);
		pallet_transaction_multi_payment::TransactionCurrencyOverride::<Runtime>::remove(&x); return;
	};
	if fee.is_zero() { c.check_in(F, "no-fee-no-charge", info.is_none() && raw() == root, show); pallet_transaction_multi_payment::TransactionCurrencyOverride::<Runtime>::remove(&x); c.event("free"); return; }
	let Some((d, p)) = due else { c.check_in(F, "a-charge-needs-a-price", false, show); return };
	let dust = if cur == 0 && have.saturating_sub(d) < ed(0) { have.saturating_sub(d) } else { 0 };
	c.check_in(F, "charged-the-converted-fee", d > 0 && before.moved_total(&mid) == Moves::new().sub(&x, cur, d + dust) && info.is_some(), || format!("{}: {:?}", show(), before.moved_total(&mid)));
	c.check_in(F, "can-withdraw-tells-the-truth", can || have.saturating_sub(d) < ed(cur), show);
	let spent = match c.rng.idx(5) { 0 => fee, 1 => U256::zero(), 2 => fee.saturating_add(c.rng.u64().into()), _ => U256::from((w(fee.low_u128()) * w(c.rng.below(1001)) / w(1000)).low_u128()).min(fee) };
	let r = <Charge as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&a, spent, spent, info); let end = book();
	let spent1 = if spent > u128::MAX.into() { u128::MAX } else { spent.as_u128() }; let part = up(spent1, p.0, p.1).map_or(d, |v| v.min(d)); let back = d - part; let lost = back > 0 && back < ed(cur) && mid.total(&x, cur) == 0; let part = if lost { d } else { part };
	c.check_in(F, "settled-for-what-was-used", matches!(r, Ok(None)) && mid.moved_total(&end) == Moves::new().add(&x, cur, d - part).add(&acc(50), cur, part), || format!("{}: used {spent}: {:?}, expected {part} to the treasury of {d}", show(), mid.moved_total(&end)));
	c.check_in(F, "fees-are-conserved", before.issuance(cur) - dust == end.issuance(cur), || format!("{} -> {}", before.issuance(cur), end.issuance(cur)));
	c.event(if part == d { "kept" } else { "returned" }); c.nontrivial((cur, d, part)); pallet_transaction_multi_payment::TransactionCurrencyOverride::<Runtime>::remove(&x); let _ = take_events::<Runtime>();
}
const NEED: u64 = 21_000;
fn intrinsic(input: &[u8], list: usize, create: bool) -> u64 { NEED + input.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum::<u64>() + 2400 * list as u64 + if create { 32_000 } else { 0 } }
fn transfer_input(c: &mut Ctx, m: &Model, who: H160, a: u32) -> (Vec<u8>, H160, u128) { let to = eth(c.rng.idx(8)); let have = book().free(&m.account(who), a); let v = match c.rng.idx(4) { 0 => have, 1 => have / 2, _ => c.rng.below(have.max(1)) }; let mut i = selector(FNS[5]).to_be_bytes().to_vec(); i.extend(word(U256::from_big_endian(&to.0))); i.extend(word(v.into())); (i, to, v) }
/// an Ethereum transaction through the wrapping runner
fn transaction(c: &mut Ctx, m: &mut Model) {
	let a = eth(c.rng.idx(8)); let x = m.account(a); let base = DynamicEvmFee::base_evm_fee(); let asset = c.rng.idx(6) as u32;
	let (input, target) = if c.rng.chance(1, 2) { let (i, _, _) = transfer_input(c, m, a, asset); (i, token(asset)) } else { ((0..c.rng.idx(40)).map(|_| c.rng.u64() as u8).collect(), H160([0xdd; 20])) };
	let kind = c.rng.idx(6).min(3) as u8; let kind = if kind == 3 { 0 } else { kind }; let list: Vec<(H160, Vec<H256>)> = if c.rng.chance(1, 6) { vec![(H160([1; 20]), vec![])] } else { vec![] }; let need = intrinsic(&input, list.len(), kind != 0);
	let good = c.rng.chance(2, 3); let odd = |c: &mut Ctx, n: usize| if good { 5 } else { c.rng.idx(n) };
	let gas = match odd(c, 8) { 0 => need - 1, 1 => need, 2 => 15_000_001, 3 => 15_000_000, _ => need + c.rng.below(1_000_000) as u64 };
	let max = match if good { 2 + c.rng.idx(4) } else { c.rng.idx(10) } { 0 => None, 1 => Some(base - 1), 2 => Some(base), 6 => Some(U256::MAX >> 64), _ => Some(base * (1 + c.rng.idx(3))) }; let tip = match c.rng.idx(6) { 0 => Some(U256::from(c.rng.below(20_000_000))), 1 if !good => Some(max.unwrap_or(base) + 1), _ => None };
	let now = System::account_nonce(&x); let nonce = match if good { 2 + c.rng.idx(2) } else { c.rng.idx(6) } { 0 => Some(U256::from(now + 1)), 1 if now > 0 => Some(U256::from(now - 1)), 2 => None, _ => Some(U256::from(now)) };
	let value = if c.rng.chance(1, 6) { U256::from(c.rng.log(1, 10u128.pow(16))) } else { U256::zero() }; let (wl, pb) = (if c.rng.chance(1, 2) { Some(Weight::from_parts(9, 3)) } else { None }, if c.rng.chance(1, 2) { Some(c.rng.u64()) } else { None });
	let salt = H256([c.rng.u64() as u8; 32]); let validate = c.rng.chance(5, 6); Script::set(Ran { gas: c.rng.range(21_000, 15_000_000) as u64, exit: c.rng.idx(6).saturating_sub(3) as u8, proof: None }); Log_::set(vec![]);
	let _ = take_events::<Runtime>(); let (before, root) = (book(), raw()); let cfg = <Runtime as pallet_evm::Config>::config();
	let spendable = <Fun as frame_support::traits::tokens::fungibles::Inspect<Acc>>::reducible_balance(4, &x, frame_support::traits::tokens::Preservation::Preserve, frame_support::traits::tokens::Fortitude::Polite);
	let per = match (max, tip) { (Some(_), None) => Some(base), (Some(mx), Some(t)) if t <= mx => Some(base.checked_add(t).unwrap_or(U256::MAX).min(mx)), _ => None };
	let fine = per.map_or(false, |p| nonce.unwrap_or(now.into()) == now.into() && gas >= need && gas <= 15_000_000 && max.unwrap() >= base && U256::from(spendable) >= value.saturating_add(p.saturating_mul(gas.into())));
	let (i2, l2) = (input.clone(), list.clone());
	let r: Result<(ExitReason, U256), ()> = match kind { 0 => Wrapped::call(a, target, i2, value, gas, max, tip, nonce, l2, true, validate, wl, pb, cfg).map(|o| (o.exit_reason, o.used_gas.standard)).map_err(|_| ()), 1 => Wrapped::create(a, i2, value, gas, max, tip, nonce, l2, true, validate, wl, pb, cfg).map(|o| (o.exit_reason, o.used_gas.standard)).map_err(|_| ()), _ => Wrapped::create2(a, i2, salt, value, gas, max, tip, nonce, l2, true, validate, wl, pb, cfg).map(|o| (o.exit_reason, o.used_gas.standard)).map_err(|_| ()) };
	let asked = Log_::get(); let show = || format!("kind {kind} from {x:?} gas {gas} (needs {need}) max {max:?} tip {tip:?} base {base} nonce {nonce:?} (now {now}) value {value} spendable {spendable} validate {validate}: {r:?}");
	c.log(show);
	let mut want = vec![]; if fine || !validate { want.push(Asked { kind, source: a, target: if kind == 0 { target } else { H160([0xcc; 20]) }, input, salt: if kind == 2 { salt } else { H256::zero() }, value, gas, max, tip, nonce, list, transactional: true, validate: false, wl, pb }); }
	c.check_in(F, "only-valid-transactions-reach-the-interpreter", asked == want, || format!("{}: passed on {asked:?}", show()));
	match r { Err(()) => { c.event("tx-refused"); c.check_in(F, "refusal-changes-nothing", raw() == root, show); c.check_in(F, "valid-transactions-run", !(fine && validate), show); }
		Ok((_, used)) => { c.event("tx-run"); let after = book();
			let paid = before.free(&acc(50), 4) as i128 - after.free(&acc(50), 4) as i128; let got = (-paid) as u128; let top = owed(4, match (max, tip) { (Some(mx), _) if mx.is_zero() => 0.into(), (Some(_), None) => base, (Some(mx), Some(t)) => base + mx.saturating_sub(base).min(t), _ => 0.into() } * used).unwrap().0;
			let gift = if kind == 0 && asset == 4 && m.account(eth(0)) == acc(50) { 0 } else { 0 }; c.check_in(F, "the-treasury-gets-the-gas-used", got == top + gift || after.total(&x, 4) == 0, || format!("{}: treasury +{got}, expected {top}", show()));
			for k in 0..6u32 { c.check_in(F, "fees-are-conserved", k == 0 || before.issuance(k) == after.issuance(k), || format!("{}: issuance of {k} {} -> {}", show(), before.issuance(k), after.issuance(k))); } } }
	let _ = take_events::<Runtime>();
}
#[derive(Clone, Debug)] struct Permit { from: H160, to: H160, value: U256, data: Vec<u8>, gas: u64, deadline: U256, v: u8, r: H256, s: H256 }
fn digest(p: &Permit, nonce: U256, chain: u64, verifier: H160) -> [u8; 32] {
	let a = |h: H160| word(U256::from_big_endian(&h.0)); let k = |b: &[u8]| keccak(b).to_vec();
	let dom = keccak(&[k(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"), k(b"Call Permit Precompile"), k(b"1"), word(chain.into()), a(verifier)].concat());
	let body = keccak(&[k(b"CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)"), a(p.from), a(p.to), word(p.value), k(&p.data), word(p.gas.into()), word(nonce), word(p.deadline)].concat());
	keccak(&[&[0x19u8, 0x01][..], &dom, &body].concat())
}
fn permit(c: &mut Ctx, m: &mut Model, old: &mut Vec<Permit>) {
	use codec::Encode;
	let secs = Timestamp::now() / 1000; let ki = c.rng.idx(3); let k = &keys()[ki]; let x = m.account(k.addr); let n = m.permits.get(&k.addr).copied().unwrap_or_default(); let asset = c.rng.idx(6) as u32;
	let mut bad = false;
	let p = if !old.is_empty() && c.rng.chance(1, 6) { old[c.rng.idx(old.len())].clone() } else {
		// a token transfer, a fee currency choice for the dispatch contract, or anything at a made-up contract
		let (data, to) = match c.rng.idx(4) { 0 => { let cur = c.rng.idx(6) as u32; (RuntimeCall::MultiTransactionPayment(pallet_transaction_multi_payment::Call::set_currency { currency: cur }).encode(), H160::from_low_u64_be(1025)) } 1 => ((0..c.rng.idx(30)).map(|_| c.rng.u64() as u8).collect(), H160([0xdd; 20])), _ => { let (i, _, _) = transfer_input(c, m, k.addr, asset); (i, token(asset)) } };
		// everything there is, after the fee
		let whole = c.rng.chance(1, 5); let pays = pallet_transaction_multi_payment::AccountCurrencyMap::<Runtime>::get(&x).unwrap_or(0);
		let (data, to) = match owed(pays, DynamicEvmFee::base_evm_fee() * 200_000) { Some((d, _)) if whole && book().free(&x, pays) > d => { let mut i = selector(FNS[5]).to_be_bytes().to_vec(); i.extend(word(U256::from_big_endian(&eth(c.rng.idx(8)).0))); i.extend(word((book().free(&x, pays) - d).into())); c.event("all-asked-for"); (i, token(pays)) } _ => (data, to) };
		let need = intrinsic(&data, 0, false); let good = c.rng.chance(2, 3); let odd = |c: &mut Ctx, n: usize| if good { 5 } else { c.rng.idx(n) };
		let mut p = Permit { from: k.addr, to, value: if odd(c, 8) == 0 { 1.into() } else { 0.into() }, gas: match odd(c, 8) { _ if whole => 200_000, 0 => need - 1, 1 => 15_000_001, _ => need + c.rng.below(300_000) as u64 }, data, deadline: match odd(c, 8) { 0 => secs.saturating_sub(1).into(), 1 => secs.into(), 2 => U256::MAX, _ => U256::from(secs) + c.rng.idx(1000) }, v: 0, r: H256::zero(), s: H256::zero() };
		let nn = match odd(c, 8) { 0 => n + 1, 1 => n.saturating_sub(1.into()), _ => n }; let signer = if odd(c, 8) == 0 { &keys()[c.rng.idx(3)] } else { k };
		let (chain, ver) = (if odd(c, 12) == 0 { 1 } else { 222_222 }, if odd(c, 12) == 0 { H160::from_low_u64_be(9) } else { PERMIT });
		let Some(sig) = sp_core::secp256k1::sign(signer.sk, &digest(&p, nn, chain, ver), U256::from(c.rng.u128()) + 1) else { return };
		p.r = H256::from_slice(&sig[..32]); p.s = H256::from_slice(&sig[32..64]); p.v = sig[64] + if c.rng.chance(1, 2) { 27 } else { 0 };
		if c.rng.chance(1, 8) { bad = true; match c.rng.idx(7) { 0 => p.from = keys()[(ki + 1) % 3].addr, 1 => p.to.0[c.rng.idx(20)] ^= 1, 2 => p.value ^= 2.into(), 3 => p.data.push(0), 4 => p.gas ^= 1, 5 => p.deadline = p.deadline.overflowing_add(1.into()).0, _ => p.v ^= 1 } }
		old.push(p.clone()); p
	};
	let x = if p.from == k.addr { x } else { m.account(p.from) }; let n = m.permits.get(&p.from).copied().unwrap_or_default();
	let mut sig = [0u8; 65]; sig[..32].copy_from_slice(&p.r.0); sig[32..64].copy_from_slice(&p.s.0); sig[64] = p.v;
	let signed = p.deadline >= secs.into() && sp_core::secp256k1::recover(&sig, &digest(&p, n, 222_222, PERMIT)).map(|k| H160::from_slice(&keccak(&k)[12..])) == Some(p.from);
	use codec::DecodeLimit; let named = RuntimeCall::decode_all_with_depth_limit(32, &mut &p.data[..]).ok().and_then(|q| match q { RuntimeCall::MultiTransactionPayment(pallet_transaction_multi_payment::Call::set_currency { currency }) => Some(currency), _ => None });
	let cur = named.unwrap_or_else(|| pallet_transaction_multi_payment::AccountCurrencyMap::<Runtime>::get(&x).unwrap_or(0));
	let base = DynamicEvmFee::base_evm_fee(); Script::set(Ran { gas: c.rng.range(21_000, 400_000) as u64, exit: c.rng.idx(8).saturating_sub(5) as u8, proof: if c.rng.chance(1, 2) { Some(c.rng.u64() >> 20) } else { None } }); Log_::set(vec![]);
	let _ = take_events::<Runtime>(); let (before, root) = (book(), raw()); let nonce = System::account_nonce(&x);
	let cl = pallet_transaction_multi_payment::Call::<Runtime>::dispatch_permit { from: p.from, to: p.to, value: p.value, data: p.data.clone(), gas_limit: p.gas, deadline: p.deadline, v: p.v, r: p.r, s: p.s };
	let v = MultiTransactionPayment::validate_unsigned(TransactionSource::External, &cl); c.check_in(F, "validation-leaves-no-trace", raw() == root, || format!("{p:?}")); Log_::set(vec![]); let _ = take_events::<Runtime>();
	// affordable?
	let spend = <Fun as frame_support::traits::tokens::fungibles::Inspect<Acc>>::reducible_balance(cur, &x, frame_support::traits::tokens::Preservation::Preserve, frame_support::traits::tokens::Fortitude::Polite);
	let in_eth = if cur == 4 { spend } else { Table::with(|t| t.get(&(4, cur)).copied()).and_then(|q| up(spend, q.0, q.1)).unwrap_or(0) };
	let fine = signed && p.gas >= intrinsic(&p.data, 0, false) && p.gas <= 15_000_000 && U256::from(in_eth) >= p.value.saturating_add(base.saturating_mul(p.gas.into()));
	let due = owed(cur, base * p.gas); let have = before.free(&x, cur); let takes = due.map_or(false, |(d, _)| d > 0 && d <= have); let edge = due.map_or(false, |(d, _)| d <= have && have - d < ed(cur));
	let r = MultiTransactionPayment::dispatch_permit(RuntimeOrigin::none(), p.from, p.to, p.value, p.data.clone(), p.gas, p.deadline, p.v, p.r, p.s);
	let ran = Log_::get(); let after = book(); let s = Script::get();
	let show = || format!("{p:?} of {x:?} nonce {nonce} permit nonce {n}, signed {signed}, pays in {cur} holding {have}, spendable {in_eth}, base {base}, due {due:?}, script {s:?}: pool {v:?}, {r:?}, ran {}", ran.len());
	c.log(show); if bad { c.event("tampered"); }
	c.check_in(F, "permit-dispatch-never-fails", r.is_ok(), show);
	c.check_in(F, "override-is-cleared", pallet_transaction_multi_payment::TransactionCurrencyOverride::<Runtime>::iter().count() == 0, show);
	let did = NoncesStorage::get(p.from) == n + 1; c.check_in(F, "permit-nonce-counts-permits", did || NoncesStorage::get(p.from) == n, show);
	let paused = pallet_transaction_pause::PausedTransactions::<Runtime>::iter().count() == 1; let named_pause = pallet_transaction_pause::PausedTransactions::<Runtime>::contains_key((sp_runtime::BoundedVec::try_from(b"MultiTransactionPayment".to_vec()).unwrap(), sp_runtime::BoundedVec::try_from(b"dispatch_permit".to_vec()).unwrap()));
	if !did {
		c.event(if signed { "permit-unpayable" } else { "permit-refused" });
		c.check_in(F, "a-valid-permit-runs", !(fine && takes) || edge, show); c.check_in(F, "unpaid-failures-pause-permits", paused && named_pause, show);
		for (k, _) in pallet_transaction_pause::PausedTransactions::<Runtime>::iter() { pallet_transaction_pause::PausedTransactions::<Runtime>::remove(k); } let _ = take_events::<Runtime>();
		c.check_in(F, "refusal-changes-nothing", raw() == root, show); c.check_in(F, "the-pool-refuses-what-cannot-run", matches!(v, Err(TransactionValidityError::Invalid(InvalidTransaction::Custom(_)))), show);
		return;
	}
	m.permits.insert(p.from, n + 1); c.event("permit-run"); c.check_in(F, "only-signed-and-paid-permits-run", fine && takes, show); c.check_in(F, "no-alarm-for-a-run-permit", !paused, show);
	let want = vec![Asked { kind: 0, source: p.from, target: p.to, input: p.data.clone(), salt: H256::zero(), value: p.value, gas: p.gas, max: Some(base), tip: None, nonce: None, list: vec![], transactional: true, validate: false, wl: None, pb: None }];
	c.check_in(F, "the-signed-call-runs-once", ran == want, || format!("{}: {ran:?}", show()));
	c.check_in(F, "the-account-nonce-stays", System::account_nonce(&x) == nonce, || format!("{}: account nonce {nonce} -> {}", show(), System::account_nonce(&x)));
	let used = s.gas.min(p.gas); let wt = Weight::from_parts(25_000, 0).saturating_mul(used); let wt = if let Some(q) = s.proof { Weight::from_parts(wt.ref_time(), q) } else { wt };
	c.check_in(F, "weight-is-the-gas-used", r.as_ref().map_or(false, |i| i.actual_weight == Some(wt) && i.pays_fee == frame_support::dispatch::Pays::No), show);
	// money: the fee, and the token transfer if there was one and it worked
	let (d, q) = due.unwrap_or_default(); let part = up((base * used).as_u128(), q.0, q.1).map_or(d, |v| v.min(d));
	let mut mv = Moves::new(); let mut vague = false; let ok = s.exit == 0;
	let inner = if ok && p.to != H160([0xdd; 20]) && p.value.is_zero() && p.to.0[15] == 1 { let a = u32::from_be_bytes(p.to.0[16..].try_into().unwrap()); if p.data.len() >= 68 && p.to == token(a) && p.data[..4] == selector(FNS[5]).to_be_bytes() { Some((a, m.account(H160::from_slice(&p.data[16..36])), U256::from_big_endian(&p.data[36..68]))) } else { None } } else { None };
	let mut moved = false;
	if let Some((a, y, v)) = inner.clone() { let left = before.free(&x, a) - if a == cur { d } else { 0 }; if v <= left.into() { let v = v.as_u128(); let fits = x == y || v == 0 || before.total(&y, a) + v >= ed(a); if a != 0 && left - v < ed(a) && left != v { vague = true; } if a == 0 && left - v < ed(0) { vague = true; } if fits { if x != y { mv = mv.mv(&x, &y, a, v); } moved = true; } if a == 0 && !fits { vague = true; } } }
	if cur == 0 && have - d < ed(0) { vague = true; }
	let rest = { let mut t = before.total(&x, cur) - d; if moved { if let Some((a, y, v)) = &inner { if *a == cur && x != *y { t -= v.as_u128(); } } } t }; let back = d - part; let lost = back > 0 && rest == 0 && back < ed(cur); let part = if lost { d } else { part };
	if p.to == H160::from_low_u64_be(1025) { vague |= false; }
	mv = mv.sub(&x, cur, part).add(&acc(50), cur, part);
	if !vague { c.check_in(F, "a-permit-costs-the-gas-used", before.moved_total(&after) == mv, || format!("{}: {:?}, expected {mv:?}", show(), before.moved_total(&after))); if rest == 0 { c.event("emptied"); } if moved { c.event("permit-transfer"); } }
	else { c.event("dusty"); for k in 1..6u32 { c.check_in(F, "fees-are-conserved", before.issuance(k) == after.issuance(k), show); } c.check_in(F, "the-fee-is-bounded", (after.free(&acc(50), cur) - before.free(&acc(50), cur)) <= d, show); }
	let succeeded = ok && p.to != H160::from_low_u64_be(9); c.check_in(F, "the-pool-admits-what-runs-well", if v.is_ok() { ok } else { true }, show);
	if let Ok(t) = &v { c.check_in(F, "pool-tag-is-the-permit-nonce", t.provides == vec![("EVMPermit", (n, p.from)).encode()] && succeeded, || format!("{:?}", t.provides)); c.event("pool-valid"); }
	c.nontrivial((cur, d, part));
}
fn tokens(c: &mut Ctx) { fresh(|| { let mut m = setup(c); accounts(c, &mut m); for _ in 0..14 { if c.rng.chance(1, 6) { accounts(c, &mut m) } else { contract(c, &mut m) } if c.failed() { return; } } c.sample(|| json!({"bound": m.bound.len(), "assets": m.names.len()})); }); }
fn fees(c: &mut Ctx) {
	fresh(|| {
		let mut m = setup(c); let mut old = vec![];
		let mut cur = vec![]; for k in 1..6u32 { if c.rng.chance(2, 3) { cur.push((k, FixedU128::from_u32(1))); } } { use frame_support::traits::BuildGenesisConfig; pallet_transaction_multi_payment::GenesisConfig::<Runtime> { currencies: cur.clone(), account_currencies: vec![] }.build(); }
		for i in 0..8 { if c.rng.chance(1, 2) { let k = c.rng.idx(6) as u32; let x = m.account(eth(i)); let _ = call(RuntimeCall::MultiTransactionPayment(pallet_transaction_multi_payment::Call::set_currency { currency: k }), RuntimeOrigin::signed(x)); } }
		Timestamp::set_timestamp(c.rng.below(2_000_000_000_000) as u64);
		for _ in 0..3 { reprice(c); for _ in 0..5 { match c.rng.idx(10) { 0..=2 => charge(c, &mut m), 3..=4 => transaction(c, &mut m), _ => permit(c, &mut m, &mut old) } if c.failed() { return; } } System::set_block_number(System::block_number() + 1); Timestamp::set_timestamp(Timestamp::now() + c.rng.below(500_000) as u64); }
		c.sample(|| json!({"permits": m.permits.values().map(|v| v.to_string()).collect::<Vec<_>>(), "base": DynamicEvmFee::base_evm_fee().to_string()}));
	});
}
fn run_tokens(m: &mut Monitor) {
	m.workload("evm-tokens", 12_000, 480_000, tokens);
	for (e, n) in [("answered", 10_000), ("bound", 10_000), ("deployers-changed", 2000), ("passed-on", 5000), ("refused", 20_000), ("standard", 2000), ("transfer-refused", 500), ("transferred", 1000)] { m.expect(&format!("evm-tokens/{e}"), n); }
}
fn run_fees(m: &mut Monitor) {
	m.workload("evm-fees", 3_000, 120_000, fees);
	for (e, n) in [("block", 5000), ("all-asked-for", 100), ("emptied", 20), ("free", 500), ("kept", 500), ("returned", 500), ("not-charged", 1000), ("permit-refused", 1000), ("permit-unpayable", 1000), ("permit-run", 1000), ("permit-transfer", 300), ("pool-valid", 300), ("tampered", 500), ("tx-run", 500), ("tx-refused", 1000)] { m.expect(&format!("evm-fees/{e}"), n); }
}
#[allow(unused)] fn unused() { let _: Option<Context> = None; }
fn main() {
	mon_core::run!(1.0, "distinct token movements, balances read, and fees charged", ["the runtime's Ethereum files are compiled from the source tree into a small runtime on a stand-in for FRAME", "the interpreter and the price oracle are scripted; the standard precompiles are named stubs"]; "C28" => run_tokens, "C29" => run_fees);
}

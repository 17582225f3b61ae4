//! A runtime with just the EVM configuration, and a precompile set that uses every builder check.
use frame_support::{construct_runtime, parameter_types, traits::*, weights::Weight};
use precompile_utils::precompile_set::*;
use fp_evm::*;
use sp_core::{H160, H256, U256};
use sp_runtime::traits::{BlakeTwo256, IdentityLookup};
type Block = frame_system::mocking::MockBlockU32<Runtime>;
construct_runtime!(pub enum Runtime { System: frame_system, Timestamp: pallet_timestamp, Evm: pallet_evm, Work: pallet_work });
/// what a read and a write weigh
pub struct Db; impl Get<frame_support::weights::RuntimeDbWeight> for Db { fn get() -> frame_support::weights::RuntimeDbWeight { frame_support::weights::RuntimeDbWeight { read: 70, write: 190 } } }
/// A call that weighs what it is told to, and tells who ran it and whether it saw the precompile that dispatched it.
#[frame_support::pallet(dev_mode)]
pub mod pallet_work {
	use frame_support::{dispatch::{DispatchErrorWithPostInfo, DispatchResultWithPostInfo, PostDispatchInfo, Pays}, pallet_prelude::*};
	use frame_system::pallet_prelude::*;
	thread_local! { pub static RAN: std::cell::RefCell<Vec<(Option<u64>, Option<u64>)>> = Default::default(); }
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config<AccountId = u64> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(*time, *proof))]
		pub fn work(origin: OriginFor<T>, time: u64, proof: u64, actual: Option<(u64, u64)>, fails: bool) -> DispatchResultWithPostInfo {
			let _ = (time, proof);
			let who = ensure_signed(origin)?;
			let seen = precompile_utils::evm::handle::with_precompile_handle(|h| h.remaining_gas());
			RAN.with(|r| r.borrow_mut().push((Some(who), seen)));
			let post = PostDispatchInfo { actual_weight: actual.map(|(t, p)| Weight::from_parts(t, p)), pays_fee: Pays::Yes };
			if fails { return Err(DispatchErrorWithPostInfo { post_info: post, error: DispatchError::Other("no") }); }
			Ok(post)
		}
	}
}
impl pallet_work::Config for Runtime {}
impl frame_system::Config for Runtime {
	type BaseCallFilter = Everything; type DbWeight = Db; type RuntimeOrigin = RuntimeOrigin; type RuntimeTask = RuntimeTask; type Nonce = u64; type Block = Block; type RuntimeCall = RuntimeCall;
	type Hash = H256; type Hashing = BlakeTwo256; type AccountId = u64; type Lookup = IdentityLookup<u64>; type RuntimeEvent = RuntimeEvent; type BlockHashCount = ConstU32<250>; type Version = (); type PalletInfo = PalletInfo;
	type AccountData = (); type OnNewAccount = (); type OnKilledAccount = (); type SystemWeightInfo = (); type BlockWeights = (); type BlockLength = (); type SS58Prefix = (); type OnSetCode = (); type MaxConsumers = ConstU32<16>;
}
impl pallet_timestamp::Config for Runtime { type Moment = u64; type OnTimestampSet = (); type MinimumPeriod = ConstU64<5>; type WeightInfo = (); }
pub struct Map; impl pallet_evm::AddressMapping<u64> for Map { fn into_account_id(a: H160) -> u64 { a.to_low_u64_be() } }
pub struct NoRunner;
impl pallet_evm::Runner<Runtime> for NoRunner {
	type Error = sp_runtime::DispatchError;
	fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: Option<Weight>, _: Option<u64>, _: &evm::Config) -> Result<(), pallet_evm::RunnerError<Self::Error>> { unimplemented!() }
	fn call(_: H160, _: H160, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: bool, _: Option<Weight>, _: Option<u64>, _: &evm::Config) -> Result<CallInfo, pallet_evm::RunnerError<Self::Error>> { unimplemented!() }
	fn create(_: H160, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: bool, _: Option<Weight>, _: Option<u64>, _: &evm::Config) -> Result<CreateInfo, pallet_evm::RunnerError<Self::Error>> { unimplemented!() }
	fn create2(_: H160, _: Vec<u8>, _: H256, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: bool, _: Option<Weight>, _: Option<u64>, _: &evm::Config) -> Result<CreateInfo, pallet_evm::RunnerError<Self::Error>> { unimplemented!() }
}
thread_local! { pub static CHAIN: std::cell::Cell<u64> = std::cell::Cell::new(1); pub static TRACE: std::cell::RefCell<Vec<(H160, Vec<u8>)>> = Default::default(); }
pub struct Chain; impl Get<u64> for Chain { fn get() -> u64 { CHAIN.with(|c| c.get()) } }
/// Runs and records; the fifth input byte says how deep to call itself again.
#[derive(Default)]
pub struct Probe;
fn probe(h: &mut impl PrecompileHandle) -> PrecompileResult {
	let (me, input) = (h.code_address(), h.input().to_vec());
	TRACE.with(|t| t.borrow_mut().push((me, input.clone())));
	let d = input.get(4).copied().unwrap_or(0);
	if d > 0 {
		let mut sub = input.clone(); sub[4] = d - 1;
		let ctx = Context { address: me, caller: me, apparent_value: 0.into() };
		let (r, out) = h.call(me, None, sub, None, false, &ctx);
		return match r { ExitReason::Succeed(_) => Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![out.first().copied().unwrap_or(0) + 1] }), _ => Err(PrecompileFailure::Revert { exit_status: ExitRevert::Reverted, output: out }) };
	}
	if input.get(5) == Some(&1) { return Err(PrecompileFailure::Revert { exit_status: ExitRevert::Reverted, output: vec![] }); }
	Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![0] })
}
impl Precompile for Probe { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { probe(h) } }
impl PrecompileSet for Probe {
	fn execute(&self, h: &mut impl PrecompileHandle) -> Option<PrecompileResult> { Some(probe(h)) }
	fn is_precompile(&self, a: H160, _: u64) -> IsPrecompileResult { IsPrecompileResult::Answer { is_precompile: a.as_bytes()[19] < 128, extra_cost: 0 } }
}
pub struct Prefix; impl Get<&'static [u8]> for Prefix { fn get() -> &'static [u8] { &[0xee, 0xdd, 0xcc] } }
type Open = (CallableByContract, CallableByPrecompile);
pub type Precompiles<R> = PrecompileSetBuilder<R, (
	PrecompileAt<AddressU64<9>, pallet_evm_precompile_call_permit::CallPermitPrecompile<R>, (SubcallWithMaxNesting<0>, CallableByContract, CallableByPrecompile)>,
	PrecompileAt<AddressU64<10>, Probe>,
	PrecompileAt<AddressU64<11>, Probe, AcceptDelegateCall>,
	PrecompileAt<AddressU64<12>, Probe, CallableByContract>,
	PrecompileAt<AddressU64<13>, Probe, CallableByPrecompile>,
	PrecompileAt<AddressU64<14>, Probe, (SubcallWithMaxNesting<0>, Open)>,
	PrecompileAt<AddressU64<15>, Probe, (SubcallWithMaxNesting<1>, CallableByPrecompile)>,
	PrecompileAt<AddressU64<16>, Probe, (AcceptDelegateCall, SubcallWithMaxNesting<4>, Open)>,
	PrecompileAt<AddressU64<17>, Probe, (CallableByContract<OnlyFrom<AddressU64<77>>>, CallableByPrecompile<OnlyFrom<AddressU64<10>>>)>,
	RevertPrecompile<AddressU64<20>>,
	RemovedPrecompileAt<AddressU64<21>>,
	PrecompilesInRangeInclusive<(AddressU64<100>, AddressU64<200>), (PrecompileAt<AddressU64<100>, Probe, Open>, PrecompileAt<AddressU64<200>, Probe, Open>, PrecompileAt<AddressU64<201>, Probe, Open>)>,
	PrecompileSetStartingWith<Prefix, Probe, (SubcallWithMaxNesting<2>, Open)>,
)>;
/// the same without the fragment that always reverts, which knows no addresses of its own
pub type Active = (
	PrecompileAt<AddressU64<10>, Probe>,
	RemovedPrecompileAt<AddressU64<21>>,
	RemovedPrecompilesAt<Gone>,
	PrecompilesInRangeInclusive<(AddressU64<100>, AddressU64<200>), (PrecompileAt<AddressU64<100>, Probe, (AcceptDelegateCall, Open)>, PrecompileAt<AddressU64<200>, Probe, CallableByContract>, PrecompileAt<AddressU64<201>, Probe, Open>)>,
	PrecompileSetStartingWith<Prefix, Probe, (SubcallWithMaxNesting<2>, Open)>,
);
pub struct Gone; impl Get<Vec<H160>> for Gone { fn get() -> Vec<H160> { vec![H160::from_low_u64_be(31), H160::from_low_u64_be(150), H160::from_low_u64_be(33)] } }
parameter_types! { pub Limit: U256 = U256::from(15_000_000u64); pub PrecompilesValue: Precompiles<Runtime> = Precompiles::new(); pub const WeightPerGas: Weight = Weight::from_parts(10, 0); }
impl pallet_evm::Config for Runtime {
	type GasWeightMapping = pallet_evm::FixedGasWeightMapping<Self>; type WeightPerGas = WeightPerGas; type AddressMapping = Map; type PrecompilesType = Precompiles<Runtime>; type PrecompilesValue = PrecompilesValue;
	type ChainId = Chain; type Timestamp = Timestamp; type Runner = NoRunner; type FeeCalculator = (); type BlockGasLimit = Limit;
}
pub fn ext<R>(f: impl FnOnce() -> R) -> R { sp_io::TestExternalities::default().execute_with(|| { System::set_block_number(1); f() }) }

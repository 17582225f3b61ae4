//! What the repository's precompiles and fee code read of the EVM pallet: configuration, deployed code, traits. No interpreter:
//! calls go to the `Runner` the runtime names.
pub use fp_evm::{Account, CallInfo, CreateInfo, Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, FeeCalculator, IsPrecompileResult, Log, Precompile, PrecompileFailure, PrecompileHandle, PrecompileOutput, PrecompileResult, PrecompileSet, Transfer, UsedGas, WeightInfo};
use frame_support::{traits::{Get, Time}, weights::Weight};
use sp_core::{H160, H256, U256};
pub trait GasWeightMapping { fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight; fn weight_to_gas(weight: Weight) -> u64; }
/// one unit of reference time per gas
pub struct FixedGasWeightMapping<T>(std::marker::PhantomData<T>);
impl<T: Config> GasWeightMapping for FixedGasWeightMapping<T> { fn gas_to_weight(gas: u64, _: bool) -> Weight { T::WeightPerGas::get().saturating_mul(gas) } fn weight_to_gas(w: Weight) -> u64 { w.div(T::WeightPerGas::get().ref_time()).ref_time() } }
impl GasWeightMapping for () { fn gas_to_weight(gas: u64, _: bool) -> Weight { Weight::from_parts(gas, 0) } fn weight_to_gas(w: Weight) -> u64 { w.ref_time() } }
pub trait AddressMapping<A> { fn into_account_id(address: H160) -> A; }
pub mod runner { pub use super::{Runner, RunnerError}; }
pub struct RunnerError<E> { pub error: E, pub weight: Weight }
pub trait Runner<T: Config> {
	type Error: Into<sp_runtime::DispatchError>;
	fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &evm::Config) -> Result<(), RunnerError<Self::Error>>;
	fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &evm::Config) -> Result<CallInfo, RunnerError<Self::Error>>;
	fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &evm::Config) -> Result<CreateInfo, RunnerError<Self::Error>>;
	fn create2(source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &evm::Config) -> Result<CreateInfo, RunnerError<Self::Error>>;
}
pub trait OnChargeEVMTransaction<T: Config> {
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
	fn can_withdraw(who: &H160, amount: U256) -> Result<(), Error<T>>;
	fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already_withdrawn: Self::LiquidityInfo) -> Result<Self::LiquidityInfo, Error<T>>;
	fn pay_priority_fee(tip: Self::LiquidityInfo);
}
#[derive(Clone, Debug, PartialEq, Eq, Default, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct CodeMetadata { pub size: u64, pub hash: H256 }
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type FeeCalculator: FeeCalculator;
		type BlockGasLimit: Get<U256>;
		type GasWeightMapping: super::GasWeightMapping;
		type WeightPerGas: Get<Weight>;
		type AddressMapping: super::AddressMapping<Self::AccountId>;
		type PrecompilesType: PrecompileSet;
		type PrecompilesValue: Get<Self::PrecompilesType>;
		type ChainId: Get<u64>;
		type Timestamp: Time;
		type Runner: super::Runner<Self>;
		fn config() -> &'static evm::Config { static C: evm::Config = evm::Config::london(); &C }
	}
	#[pallet::error]
	pub enum Error<T> { BalanceLow, FeeOverflow, PaymentOverflow, WithdrawFailed, GasPriceTooLow, InvalidNonce, GasLimitTooLow, GasLimitTooHigh, Undefined, Reentrancy, TransactionMustComeFromEOA }
	#[pallet::storage]
	pub type AccountCodes<T: Config> = StorageMap<_, Blake2_128Concat, H160, Vec<u8>, ValueQuery>;
	impl<T: Config> Pallet<T> {
		pub fn account_code_metadata(a: H160) -> CodeMetadata { let c = AccountCodes::<T>::get(a); CodeMetadata { size: c.len() as u64, hash: H256(sp_core::keccak_256(&c)) } }
		pub fn create_account(a: H160, code: Vec<u8>) { if !code.is_empty() { AccountCodes::<T>::insert(a, code); } }
	}
}

impl<T> From<fp_evm::TransactionValidationError> for Error<T> { fn from(e: fp_evm::TransactionValidationError) -> Self { use fp_evm::TransactionValidationError as V; match e { V::GasLimitTooLow => Error::GasLimitTooLow, V::GasLimitTooHigh => Error::GasLimitTooHigh, V::GasPriceTooLow => Error::GasPriceTooLow, V::BalanceTooLow => Error::BalanceLow, V::TxNonceTooLow | V::TxNonceTooHigh => Error::InvalidNonce, _ => Error::Undefined } } }

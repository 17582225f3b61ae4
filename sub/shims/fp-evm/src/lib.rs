//! Precompile traits.
pub use evm::{backend::{Basic as Account, Log}, Config, Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, Transfer};
use sp_core::{H160, H256, U256};
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PrecompileOutput { pub exit_status: ExitSucceed, pub output: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum PrecompileFailure { Error { exit_status: ExitError }, Revert { exit_status: ExitRevert, output: Vec<u8> }, Fatal { exit_status: ExitFatal } }
impl From<ExitError> for PrecompileFailure { fn from(e: ExitError) -> Self { Self::Error { exit_status: e } } }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum IsPrecompileResult { Answer { is_precompile: bool, extra_cost: u64 }, OutOfGas }
pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
pub trait PrecompileHandle {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
	fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>, storage_growth: Option<u64>) -> Result<(), ExitError>;
	fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
	fn remaining_gas(&self) -> u64;
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
	fn code_address(&self) -> H160;
	fn input(&self) -> &[u8];
	fn context(&self) -> &Context;
	fn is_static(&self) -> bool;
	fn gas_limit(&self) -> Option<u64>;
}
pub trait PrecompileSet { fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>; fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult; }
pub trait Precompile { fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult; }
pub trait FeeCalculator { fn min_gas_price() -> (U256, frame_support::weights::Weight); }
impl FeeCalculator for () { fn min_gas_price() -> (U256, frame_support::weights::Weight) { (U256::zero(), Default::default()) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct UsedGas { pub standard: U256, pub effective: U256 }
#[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct WeightInfo { pub ref_time_limit: Option<u64>, pub proof_size_limit: Option<u64>, pub ref_time_usage: Option<u64>, pub proof_size_usage: Option<u64> }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct CallInfo { pub exit_reason: ExitReason, pub value: Vec<u8>, pub used_gas: UsedGas, pub weight_info: Option<WeightInfo>, pub logs: Vec<Log> }

#[derive(Clone, Debug, PartialEq, Eq)] pub struct CreateInfo { pub exit_reason: ExitReason, pub value: H160, pub used_gas: UsedGas, pub weight_info: Option<WeightInfo>, pub logs: Vec<Log> }
/// what pool validation and block inclusion ask of a transaction, restated from the public description of the upstream checks
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum TransactionValidationError { GasLimitTooLow, GasLimitTooHigh, GasPriceTooLow, PriorityFeeTooHigh, BalanceTooLow, TxNonceTooLow, TxNonceTooHigh, InvalidFeeInput, InvalidChainId, InvalidSignature, UnknownError }
#[derive(Debug)] pub struct CheckEvmTransactionInput { pub chain_id: Option<u64>, pub to: Option<H160>, pub input: Vec<u8>, pub nonce: U256, pub gas_limit: U256, pub gas_price: Option<U256>, pub max_fee_per_gas: Option<U256>, pub max_priority_fee_per_gas: Option<U256>, pub value: U256, pub access_list: Vec<(H160, Vec<H256>)> }
#[derive(Debug)] pub struct CheckEvmTransactionConfig<'a> { pub evm_config: &'a Config, pub block_gas_limit: U256, pub base_fee: U256, pub chain_id: u64, pub is_transactional: bool }
pub struct CheckEvmTransaction<'a, E: From<TransactionValidationError>> { config: CheckEvmTransactionConfig<'a>, pub transaction: CheckEvmTransactionInput, _e: std::marker::PhantomData<E> }
impl<'a, E: From<TransactionValidationError>> CheckEvmTransaction<'a, E> {
	pub fn new(config: CheckEvmTransactionConfig<'a>, transaction: CheckEvmTransactionInput, _weight_limit: Option<frame_support::weights::Weight>, _proof_size_base_cost: Option<u64>) -> Self { Self { config, transaction, _e: Default::default() } }
	pub fn validate_in_pool_for(&self, who: &Account) -> Result<&Self, E> { if self.transaction.nonce < who.nonce { return Err(TransactionValidationError::TxNonceTooLow.into()); } self.common() }
	pub fn validate_in_block_for(&self, who: &Account) -> Result<&Self, E> {
		if self.transaction.nonce > who.nonce { return Err(TransactionValidationError::TxNonceTooHigh.into()); }
		if self.transaction.nonce < who.nonce { return Err(TransactionValidationError::TxNonceTooLow.into()); }
		self.common()
	}
	pub fn with_chain_id(&self) -> Result<&Self, E> { match self.transaction.chain_id { Some(c) if c != self.config.chain_id => Err(TransactionValidationError::InvalidChainId.into()), _ => Ok(self) } }
	pub fn with_base_fee(&self) -> Result<&Self, E> {
		let (price, _) = self.fee_input()?;
		if (self.config.is_transactional || price > U256::zero()) && price < self.config.base_fee { return Err(TransactionValidationError::GasPriceTooLow.into()); }
		Ok(self)
	}
	pub fn with_balance_for(&self, who: &Account) -> Result<&Self, E> {
		let (max_fee, effective) = self.fee_input()?;
		let fee = effective.unwrap_or(max_fee).saturating_mul(self.transaction.gas_limit);
		if (self.config.is_transactional || fee > U256::zero()) && who.balance < self.transaction.value.saturating_add(fee) { return Err(TransactionValidationError::BalanceTooLow.into()); }
		Ok(self)
	}
	fn fee_input(&self) -> Result<(U256, Option<U256>), E> {
		match (self.transaction.gas_price, self.transaction.max_fee_per_gas, self.transaction.max_priority_fee_per_gas) {
			(Some(p), None, None) => Ok((p, Some(p))),
			(None, Some(m), None) => Ok((m, Some(self.config.base_fee))),
			(None, Some(m), Some(t)) => { if t > m { return Err(TransactionValidationError::PriorityFeeTooHigh.into()); } Ok((m, Some(self.config.base_fee.checked_add(t).unwrap_or_else(U256::max_value).min(m)))) }
			_ if self.config.is_transactional => Err(TransactionValidationError::InvalidFeeInput.into()),
			_ => Ok((U256::zero(), None)),
		}
	}
	fn common(&self) -> Result<&Self, E> {
		if self.config.is_transactional {
			let t = &self.transaction;
			let data: u64 = t.input.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum();
			let need = 21_000 + data + if t.to.is_none() { 32_000 } else { 0 } + t.access_list.iter().map(|(_, k)| 2400 + 1900 * k.len() as u64).sum::<u64>();
			if t.gas_limit < U256::from(need) { return Err(TransactionValidationError::GasLimitTooLow.into()); }
			if t.gas_limit > self.config.block_gas_limit { return Err(TransactionValidationError::GasLimitTooHigh.into()); }
		}
		Ok(self)
	}
}

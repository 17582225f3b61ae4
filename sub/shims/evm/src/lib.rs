//! The value types of the EVM crate; no interpreter.
use sp_core::{H160, U256};
use std::borrow::Cow;
#[derive(Clone, Copy, Debug, PartialEq, Eq, codec::Encode, codec::Decode, scale_info::TypeInfo)] pub enum ExitSucceed { Stopped, Returned, Suicided }
#[derive(Clone, Copy, Debug, PartialEq, Eq, codec::Encode, codec::Decode, scale_info::TypeInfo)] pub enum ExitRevert { Reverted }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ExitError { StackUnderflow, StackOverflow, InvalidJump, InvalidRange, DesignatedInvalid, CallTooDeep, CreateCollision, CreateContractLimit, OutOfOffset, OutOfGas, OutOfFund, PCUnderflow, CreateEmpty, Other(Cow<'static, str>), MaxNonce, InvalidCode(u8) }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum ExitFatal { NotSupported, UnhandledInterrupt, CallErrorAsFatal(ExitError), Other(Cow<'static, str>) }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum ExitReason { Succeed(ExitSucceed), Error(ExitError), Revert(ExitRevert), Fatal(ExitFatal) }
impl From<ExitSucceed> for ExitReason { fn from(x: ExitSucceed) -> Self { Self::Succeed(x) } }
impl From<ExitRevert> for ExitReason { fn from(x: ExitRevert) -> Self { Self::Revert(x) } }
impl From<ExitError> for ExitReason { fn from(x: ExitError) -> Self { Self::Error(x) } }
impl From<ExitFatal> for ExitReason { fn from(x: ExitFatal) -> Self { Self::Fatal(x) } }
impl ExitReason { pub fn is_succeed(&self) -> bool { matches!(self, Self::Succeed(_)) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Context { pub address: H160, pub caller: H160, pub apparent_value: U256 }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Transfer { pub source: H160, pub target: H160, pub value: U256 }
/// the members the repository's cost functions read, with the London values
#[derive(Clone, Debug)] pub struct Config { pub increase_state_access_gas: bool, pub gas_account_access_cold: u64, pub gas_storage_read_warm: u64, pub gas_call: u64, pub empty_considered_exists: bool }
impl Config { pub const fn london() -> Self { Config { increase_state_access_gas: true, gas_account_access_cold: 2600, gas_storage_read_warm: 100, gas_call: 0, empty_considered_exists: false } } pub const fn shanghai() -> Self { Self::london() } }
pub mod backend {
	use super::*;
	#[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct Basic { pub balance: U256, pub nonce: U256 }
	#[derive(Clone, Debug, PartialEq, Eq)] pub struct Log { pub address: H160, pub topics: Vec<sp_core::H256>, pub data: Vec<u8> }
}

//! A precompile handle that records what the precompile did and lets the monitor answer its subcalls.
use fp_evm::*;
use sp_core::{H160, H256};
#[derive(Clone, Debug, PartialEq)]
pub struct SubCall { pub to: H160, pub transfer: Option<Transfer>, pub input: Vec<u8>, pub gas: Option<u64>, pub is_static: bool, pub context: Context }
pub struct Handle<'a> {
	pub code: H160, pub ctx: Context, pub input: Vec<u8>, pub gas: u64, pub used: u64, pub stat: bool,
	pub logs: Vec<Log>, pub ext: Vec<(Option<u64>, Option<u64>, Option<u64>)>, pub refunds: Vec<(Option<u64>, Option<u64>)>, pub ext_fails: bool, pub log_fails: bool, pub calls: Vec<SubCall>, pub answer: Option<Box<dyn FnMut(&SubCall) -> (ExitReason, Vec<u8>) + 'a>>,
}
impl<'a> Handle<'a> {
	pub fn new(code: H160, caller: H160, input: Vec<u8>) -> Self { Handle { code, ctx: Context { address: code, caller, apparent_value: 0.into() }, input, gas: 100_000_000_000, used: 0, stat: false, logs: vec![], ext: vec![], refunds: vec![], ext_fails: false, log_fails: false, calls: vec![], answer: None } }
}
impl<'a> PrecompileHandle for Handle<'a> {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: Option<u64>, is_static: bool, c: &Context) -> (ExitReason, Vec<u8>) {
		let s = SubCall { to, transfer, input, gas, is_static, context: c.clone() };
		self.calls.push(s.clone());
		match &mut self.answer { Some(f) => f(&s), None => (ExitReason::Succeed(ExitSucceed::Returned), vec![]) }
	}
	fn record_cost(&mut self, c: u64) -> Result<(), ExitError> { let n = self.used.saturating_add(c); if n > self.gas { return Err(ExitError::OutOfGas); } self.used = n; Ok(()) }
	fn record_external_cost(&mut self, a: Option<u64>, b: Option<u64>, c: Option<u64>) -> Result<(), ExitError> { if self.ext_fails { return Err(ExitError::MaxNonce); } self.ext.push((a, b, c)); Ok(()) }
	fn refund_external_cost(&mut self, a: Option<u64>, b: Option<u64>) { self.refunds.push((a, b)); }
	fn remaining_gas(&self) -> u64 { self.gas - self.used }
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> { if self.log_fails { return Err(ExitError::OutOfGas); } self.logs.push(Log { address, topics, data }); Ok(()) }
	fn code_address(&self) -> H160 { self.code }
	fn input(&self) -> &[u8] { &self.input }
	fn context(&self) -> &Context { &self.ctx }
	fn is_static(&self) -> bool { self.stat }
	fn gas_limit(&self) -> Option<u64> { Some(self.gas) }
}

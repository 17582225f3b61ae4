use codec::{Decode, Encode};
use scale_info::TypeInfo;
pub type TransactionPriority = u64;
pub type TransactionLongevity = u64;
pub type TransactionTag = Vec<u8>;
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, AncientBirthBlock, ExhaustsResources, Custom(u8), BadMandatory, MandatoryValidation, BadSigner }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum UnknownTransaction { CannotLookup, NoUnsignedValidator, Custom(u8) }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown(UnknownTransaction) }
impl InvalidTransaction { pub fn exhausted_resources(&self) -> bool { matches!(self, Self::ExhaustsResources) } }
impl From<InvalidTransaction> for TransactionValidityError { fn from(e: InvalidTransaction) -> Self { Self::Invalid(e) } }
impl From<UnknownTransaction> for TransactionValidityError { fn from(e: UnknownTransaction) -> Self { Self::Unknown(e) } }
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
impl From<InvalidTransaction> for TransactionValidity { fn from(e: InvalidTransaction) -> Self { Err(e.into()) } }
impl From<UnknownTransaction> for TransactionValidity { fn from(e: UnknownTransaction) -> Self { Err(e.into()) } }
#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
pub enum TransactionSource { InBlock, Local, External }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
pub struct ValidTransaction { pub priority: u64, pub requires: Vec<Vec<u8>>, pub provides: Vec<Vec<u8>>, pub longevity: u64, pub propagate: bool }
impl Default for ValidTransaction { fn default() -> Self { Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true } } }
impl ValidTransaction {
	pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder { ValidTransactionBuilder { prefix: Some(prefix), validity: Default::default() } }
	pub fn combine_with(mut self, mut o: ValidTransaction) -> Self { self.requires.append(&mut o.requires); self.provides.append(&mut o.provides); Self { priority: self.priority.saturating_add(o.priority), requires: self.requires, provides: self.provides, longevity: self.longevity.min(o.longevity), propagate: self.propagate && o.propagate } }
}
#[derive(Default, Clone)]
pub struct ValidTransactionBuilder { prefix: Option<&'static str>, validity: ValidTransaction }
impl ValidTransactionBuilder {
	pub fn priority(mut self, p: u64) -> Self { self.validity.priority = p; self }
	pub fn longevity(mut self, p: u64) -> Self { self.validity.longevity = p; self }
	pub fn propagate(mut self, p: bool) -> Self { self.validity.propagate = p; self }
	pub fn and_requires(mut self, t: impl Encode) -> Self { let x = match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }; self.validity.requires.push(x); self }
	pub fn and_provides(mut self, t: impl Encode) -> Self { let x = match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }; self.validity.provides.push(x); self }
	pub fn build(self) -> TransactionValidity { Ok(self.validity) }
}

//! Stand-in for `orml-utilities`.
use sp_runtime::{DispatchError, DispatchResult, TransactionOutcome};
pub fn with_transaction_result<R>(f: impl FnOnce() -> Result<R, DispatchError>) -> Result<R, DispatchError> {
	frame_support::storage::with_transaction(|| { let r = f(); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } })
}
#[doc(hidden)] pub fn _u() -> DispatchResult { Ok(()) }

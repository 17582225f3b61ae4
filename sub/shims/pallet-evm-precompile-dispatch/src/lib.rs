//! A stand-in that answers with its own name, so that a monitor can see which of the platform's contracts was reached.
use fp_evm::*;
pub struct Dispatch<R>(std::marker::PhantomData<R>); impl<R> Precompile for Dispatch<R> { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Dispatch".to_vec() }) } }

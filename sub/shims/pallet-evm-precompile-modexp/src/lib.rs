//! A stand-in that answers with its own name, so that a monitor can see which of the platform's contracts was reached.
use fp_evm::*;
pub struct Modexp; impl Precompile for Modexp { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Modexp".to_vec() }) } }

//! A stand-in that answers with its own name, so that a monitor can see which of the platform's contracts was reached.
use fp_evm::*;
pub struct Bn128Add; impl Precompile for Bn128Add { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Bn128Add".to_vec() }) } }
pub struct Bn128Mul; impl Precompile for Bn128Mul { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Bn128Mul".to_vec() }) } }
pub struct Bn128Pairing; impl Precompile for Bn128Pairing { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Bn128Pairing".to_vec() }) } }

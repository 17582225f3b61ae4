//! A stand-in that answers with its own name, so that a monitor can see which of the platform's contracts was reached.
use fp_evm::*;
pub struct ECRecover; impl Precompile for ECRecover { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"ECRecover".to_vec() }) } }
pub struct Identity; impl Precompile for Identity { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Identity".to_vec() }) } }
pub struct Ripemd160; impl Precompile for Ripemd160 { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Ripemd160".to_vec() }) } }
pub struct Sha256; impl Precompile for Sha256 { fn execute(_: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: b"Sha256".to_vec() }) } }

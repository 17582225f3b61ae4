//! Monitors over the real `hydra-dx-math` crate; oracles in exact wide-integer arithmetic.
pub use mon_core::big::*;
pub use mon_core::run;
pub use mon_core::{Ctx, Monitor, Rng};
pub use serde_json::json;
pub use sp_arithmetic::{FixedPointNumber, FixedU128};
pub use sp_arithmetic::traits::{One, Zero};
pub mod hp;

pub const E18: u128 = 1_000_000_000_000_000_000;

/// `got` is floor(n/d), or at most `slack` below it.
pub fn floor_like(c: &Ctx, oracle: &str, got: u128, n: U512, d: U512, slack: u128) -> bool {
	let e = n / d;
	c.check(oracle, w(got) <= e && w(got) + w(slack) >= e, || format!("value {got}, exact {e}"))
}
/// `got` is n/d within [-below, +above].
pub fn near(c: &Ctx, oracle: &str, got: u128, n: U512, d: U512, below: u128, above: u128) -> bool {
	let e = n / d;
	c.check(oracle, w(got) <= e + w(above) && w(got) + w(below) >= e, || format!("value {got}, exact {e}"))
}
#[macro_export]
macro_rules! run_math { ($($t:tt)*) => { $crate::run!(10.0, "seeded pool states, amounts and fees, log-distributed with boundary values, through the real calculation code; non-trivial: the code accepted the case and the oracle judged a result, counted as distinct results", ["sp-arithmetic's fixed-point and parts types are re-implemented, calibrated with the crate's 260 upstream unit tests"]; $($t)*) }; }

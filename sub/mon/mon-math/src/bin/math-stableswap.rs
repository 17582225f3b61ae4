use mon_math::*;
#[path = "../stableswap.rs"] mod stableswap;
fn main() { run_math! { "C03" => |m| stableswap::trade(m), "C04" => |m| stableswap::liquidity(m), "C13" => |m| stableswap::total(m) } }

use mon_math::*;
#[path = "../xyk.rs"] mod xyk;
fn main() { run_math! { "C05" => |m| { xyk::xyk_trade(m); xyk::xyk_liquidity(m); xyk::pool_fee(m) }, "C13" => |m| xyk::total(m) } }

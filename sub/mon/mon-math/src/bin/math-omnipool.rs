use mon_math::*;
#[path = "../helpers.rs"] mod helpers;
#[path = "../omnipool.rs"] mod omnipool;
fn main() { run_math! { "C01" => |m| omnipool::trade(m), "C02" => |m| { omnipool::liquidity(m); helpers::subpools(m) }, "C13" => |m| omnipool::total(m) } }

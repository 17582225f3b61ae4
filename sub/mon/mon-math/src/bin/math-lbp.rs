use mon_math::*;
#[path = "../lbp.rs"] mod lbp;
fn main() { run_math! { "C06" => |m| { lbp::lbp_trade(m); lbp::pool_fee(m) }, "C13" => |m| lbp::total(m) } }

use mon_math::*;
#[path = "../rewards.rs"] mod rewards;
fn main() { run_math! { "C09" => |m| rewards::mining(m), "C10" => |m| rewards::staking(m), "C11" => |m| rewards::fees(m), "C12" => |m| rewards::rate(m), "C13" => |m| rewards::total(m) } }

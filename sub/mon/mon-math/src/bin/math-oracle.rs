use mon_math::*;
#[path = "../oracle.rs"] mod oracle;
fn main() { run_math! { "C07" => |m| oracle::ema(m) } }

use mon_math::*;
#[path = "../numbers.rs"] mod numbers;
fn main() { run_math! { "C08" => |m| { numbers::numbers(m); numbers::words(m) } } }

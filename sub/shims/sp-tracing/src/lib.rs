//! Stand-in for `sp-tracing`.
pub fn try_init_simple() {}

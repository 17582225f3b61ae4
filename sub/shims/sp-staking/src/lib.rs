//! Stand-in for `sp-staking`.
pub type SessionIndex = u32;
pub type EraIndex = u32;

//! Stand-in for `sp-api`.
#[macro_export] macro_rules! decl_runtime_apis { ($($t:tt)*) => {}; }
#[macro_export] macro_rules! impl_runtime_apis { ($($t:tt)*) => {}; }

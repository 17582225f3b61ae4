//! Exact wide integers used by the oracles.
#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! { pub struct U512(8); }
construct_uint! { pub struct U1024(16); }
construct_uint! { pub struct U2048(32); }

pub fn w(x: u128) -> U512 { U512::from(x) }
pub fn ww(x: u128) -> U1024 { U1024::from(x) }
pub fn www(x: u128) -> U2048 { U2048::from(x) }

/// floor(a*b/c), exact; `None` when c == 0 or the result does not fit.
pub fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
	if c == 0 { return None; }
	let v = w(a) * w(b) / w(c);
	fit(v)
}
pub fn mul_div_up(a: u128, b: u128, c: u128) -> Option<u128> {
	if c == 0 { return None; }
	fit((w(a) * w(b) + w(c) - w(1)) / w(c))
}
pub fn fit(v: U512) -> Option<u128> { if v > w(u128::MAX) { None } else { Some(v.low_u128()) } }
pub fn sat(v: U512) -> u128 { fit(v).unwrap_or(u128::MAX) }
/// The exact floor square root.
pub fn isqrt(v: U512) -> U512 { v.integer_sqrt() }

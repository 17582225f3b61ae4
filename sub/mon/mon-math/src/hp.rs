//! High-precision fixed point (192 fractional bits in 512-bit integers): the independent logarithm and exponential
//! against which powers computed by the code are judged.
use crate::*;
use std::sync::OnceLock;
pub const FB: usize = 192;
pub fn one() -> U512 { w(1) << FB }
pub fn mul(a: U512, b: U512) -> U512 { (a * b) >> FB }
/// num/den
pub fn rat(n: U512, d: U512) -> U512 { (n << FB) / d }
/// ln of x in [1, 2)
fn ln_small(x: U512) -> U512 {
	let z = ((x - one()) << FB) / (x + one());
	let z2 = mul(z, z);
	let (mut t, mut s, mut k) = (z, z, 3u32);
	while !t.is_zero() { t = mul(t, z2); s = s + t / U512::from(k); k += 2; }
	s << 1
}
fn ln2() -> U512 { static L: OnceLock<U512> = OnceLock::new(); *L.get_or_init(|| { // ln 2 = 2 atanh(1/3)
	let z = one() / w(3); let z2 = mul(z, z); let (mut t, mut s, mut k) = (z, z, 3u32);
	while !t.is_zero() { t = mul(t, z2); s = s + t / U512::from(k); k += 2; } s << 1 }) }
/// ln(n/d) for n >= d > 0, with n, d below 2^256.
pub fn ln(n: U512, d: U512) -> U512 {
	let mut k = 0u32;
	let mut d2 = d;
	while d2 << 1 <= n { d2 = d2 << 1; k += 1; }
	ln_small(rat(n, d2)) + ln2() * U512::from(k)
}
/// e^-x
pub fn exp_neg(x: U512) -> U512 {
	let k = (x / ln2()).low_u128();
	if k > 190 { return w(0); }
	let r = (x - ln2() * w(k)) >> 8;
	// e^r by Taylor, then square 8 times, then invert
	let (mut t, mut s, mut i) = (one(), one(), 1u32);
	loop { t = mul(t, r) / U512::from(i); if t.is_zero() { break; } s = s + t; i += 1; }
	for _ in 0..8 { s = mul(s, s); }
	((one() << FB) / s) >> (k as usize)
}
/// e^x for x < 64 ln 2
pub fn exp_pos(x: U512) -> Option<U512> {
	let k = (x / ln2()).low_u128();
	if k > 60 { return None; }
	let r = (x - ln2() * w(k)) >> 8;
	let (mut t, mut s, mut i) = (one(), one(), 1u32);
	loop { t = mul(t, r) / U512::from(i); if t.is_zero() { break; } s = s + t; i += 1; }
	for _ in 0..8 { s = mul(s, s); }
	Some(s << (k as usize))
}

//! secp256k1 public-key recovery and (for workloads) signing; plain double-and-add, not constant time.
use primitive_types::{U256, U512};
fn h(s: &str) -> U256 { U256::from_str_radix(s, 16).unwrap() }
fn p() -> U256 { h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f") }
pub fn order() -> U256 { h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141") }
fn mul(a: U256, b: U256, m: U256) -> U256 { (a.full_mul(b) % U512::from(m)).try_into().unwrap() }
fn add(a: U256, b: U256, m: U256) -> U256 { ((U512::from(a) + U512::from(b)) % U512::from(m)).try_into().unwrap() }
fn sub(a: U256, b: U256, m: U256) -> U256 { add(a, m - b % m, m) }
fn pow(mut b: U256, mut e: U256, m: U256) -> U256 { let mut r = U256::one(); while !e.is_zero() { if e.bit(0) { r = mul(r, b, m); } b = mul(b, b, m); e >>= 1; } r }
fn inv(a: U256, m: U256) -> U256 { pow(a, m - 2, m) }
type P = Option<(U256, U256)>;
// Jacobian internally
fn jdbl(a: (U256, U256, U256)) -> (U256, U256, U256) {
	let m = p(); if a.2.is_zero() || a.1.is_zero() { return (U256::one(), U256::one(), U256::zero()); }
	let yy = mul(a.1, a.1, m); let s = mul(U256::from(4), mul(a.0, yy, m), m); let mm = mul(U256::from(3), mul(a.0, a.0, m), m);
	let x = sub(mul(mm, mm, m), add(s, s, m), m); let y = sub(mul(mm, sub(s, x, m), m), mul(U256::from(8), mul(yy, yy, m), m), m);
	(x, y, mul(U256::from(2), mul(a.1, a.2, m), m))
}
fn jadd(a: (U256, U256, U256), b: (U256, U256, U256)) -> (U256, U256, U256) {
	let m = p(); if a.2.is_zero() { return b; } if b.2.is_zero() { return a; }
	let (z1, z2) = (mul(a.2, a.2, m), mul(b.2, b.2, m)); let (u1, u2) = (mul(a.0, z2, m), mul(b.0, z1, m));
	let (s1, s2) = (mul(a.1, mul(z2, b.2, m), m), mul(b.1, mul(z1, a.2, m), m));
	if u1 == u2 { return if s1 == s2 { jdbl(a) } else { (U256::one(), U256::one(), U256::zero()) }; }
	let hh = sub(u2, u1, m); let r = sub(s2, s1, m); let h2 = mul(hh, hh, m); let h3 = mul(h2, hh, m); let v = mul(u1, h2, m);
	let x = sub(sub(mul(r, r, m), h3, m), add(v, v, m), m); let y = sub(mul(r, sub(v, x, m), m), mul(s1, h3, m), m);
	(x, y, mul(hh, mul(a.2, b.2, m), m))
}
fn pmul(k: U256, q: (U256, U256)) -> P {
	let mut acc = (U256::one(), U256::one(), U256::zero()); let q = (q.0, q.1, U256::one());
	for i in (0..256).rev() { acc = jdbl(acc); if k.bit(i) { acc = jadd(acc, q); } }
	aff(acc)
}
fn aff(a: (U256, U256, U256)) -> P { if a.2.is_zero() { return None; } let m = p(); let zi = inv(a.2, m); let z2 = mul(zi, zi, m); Some((mul(a.0, z2, m), mul(a.1, mul(z2, zi, m), m))) }
fn padd(a: P, b: P) -> P { let j = |x: P| x.map(|q| (q.0, q.1, U256::one())).unwrap_or((U256::one(), U256::one(), U256::zero())); aff(jadd(j(a), j(b))) }
fn g() -> (U256, U256) { (h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")) }
fn bytes(q: (U256, U256)) -> [u8; 64] { let mut o = [0; 64]; q.0.to_big_endian(&mut o[..32]); q.1.to_big_endian(&mut o[32..]); o }
pub fn public(sk: U256) -> [u8; 64] { bytes(pmul(sk, g()).unwrap()) }
/// 65-byte signature r, s, v; the key of the signer, or none
pub fn recover(sig: &[u8; 65], msg: &[u8; 32]) -> Option<[u8; 64]> {
	let n = order(); let m = p();
	let (r, s) = (U256::from_big_endian(&sig[..32]), U256::from_big_endian(&sig[32..64]));
	let v = if sig[64] >= 27 { sig[64] - 27 } else { sig[64] };
	if v > 3 || r.is_zero() || s.is_zero() || r >= n || s >= n { return None; }
	let x = if v & 2 != 0 { let (x, o) = r.overflowing_add(n); if o || x >= m { return None; } x } else { r };
	let y2 = add(mul(x, mul(x, x, m), m), U256::from(7), m);
	let mut y = pow(y2, (m + 1) >> 2, m);
	if mul(y, y, m) != y2 { return None; }
	if y.bit(0) != (v & 1 == 1) { y = m - y; }
	let z = U256::from_big_endian(msg) % n; let ri = inv(r, n);
	let u1 = mul(n - z, ri, n) % n; let u2 = mul(s, ri, n);
	padd(pmul(u1, g()), pmul(u2, (x, y))).map(bytes)
}
pub fn sign(sk: U256, msg: &[u8; 32], k: U256) -> Option<[u8; 65]> {
	let n = order(); let q = pmul(k, g())?; let r = q.0 % n; let z = U256::from_big_endian(msg) % n;
	let mut s = mul(inv(k, n), add(z, mul(r, sk, n), n), n);
	let mut v = (q.1.bit(0) as u8) | if q.0 >= n { 2 } else { 0 };
	if s > n >> 1 { s = n - s; v ^= 1; }
	if r.is_zero() || s.is_zero() { return None; }
	let mut o = [0; 65]; r.to_big_endian(&mut o[..32]); s.to_big_endian(&mut o[32..64]); o[64] = v; Some(o)
}
#[cfg(test)]
mod tests { use super::*;
	#[test] fn roundtrip() { for i in 1u64..6 { let sk = U256::from(i) * h("123456789abcdef123456789abcdef0011223344"); let m = crate::keccak_256(&i.to_le_bytes()); let s = sign(sk, &m, U256::from(i * 7919 + 3)).unwrap(); assert_eq!(recover(&s, &m), Some(public(sk))); } 
	assert_eq!(hex::encode(&crate::keccak_256(&public(U256::one()))[12..]), "7e5f4552091a69125d5dfcb7b8c2659029395bdf"); }
}

//! blake2b, xxHash64 and keccak.
const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3], [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8], [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9], [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10], [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]];
fn compress(h: &mut [u64; 8], b: &[u8; 128], t: u128, last: bool) {
	let mut m = [0u64; 16];
	for (i, c) in b.chunks(8).enumerate() { m[i] = u64::from_le_bytes(c.try_into().unwrap()); }
	let mut v = [0u64; 16];
	v[..8].copy_from_slice(h); v[8..].copy_from_slice(&IV);
	v[12] ^= t as u64; v[13] ^= (t >> 64) as u64;
	if last { v[14] = !v[14]; }
	for r in 0..12 {
		let s = &SIGMA[r % 10];
		let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32);
			v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24);
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16);
			v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63);
		};
		g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
		g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
	}
	for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
}
pub fn blake2b(d: &[u8], out: usize) -> [u8; 64] {
	let mut h = IV;
	h[0] ^= 0x01010000 ^ out as u64;
	let mut off = 0;
	loop {
		let last = d.len() - off <= 128;
		let n = (d.len() - off).min(128);
		let mut b = [0u8; 128];
		b[..n].copy_from_slice(&d[off..off + n]);
		off += n;
		compress(&mut h, &b, off as u128, last);
		if last { break; }
	}
	let mut o = [0u8; 64];
	for i in 0..8 { o[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes()); }
	o
}
pub fn blake2_256(d: &[u8]) -> [u8; 32] { blake2b(d, 32)[..32].try_into().unwrap() }
pub fn blake2_128(d: &[u8]) -> [u8; 16] { blake2b(d, 16)[..16].try_into().unwrap() }
pub fn blake2_64(d: &[u8]) -> [u8; 8] { blake2b(d, 8)[..8].try_into().unwrap() }
pub fn blake2_512(d: &[u8]) -> [u8; 64] { blake2b(d, 64) }
pub fn keccak_256(d: &[u8]) -> [u8; 32] { use tiny_keccak::Hasher; let mut k = tiny_keccak::Keccak::v256(); k.update(d); let mut o = [0; 32]; k.finalize(&mut o); o }
pub fn xxh64(d: &[u8], seed: u64) -> u64 {
	const P1: u64 = 0x9E3779B185EBCA87; const P2: u64 = 0xC2B2AE3D27D4EB4F; const P3: u64 = 0x165667B19E3779F9; const P4: u64 = 0x85EBCA77C2B2AE63; const P5: u64 = 0x27D4EB2F165667C5;
	let round = |a: u64, x: u64| a.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
	let r8 = |p: &[u8]| u64::from_le_bytes(p[..8].try_into().unwrap());
	let (mut p, mut h) = (d, seed.wrapping_add(P5));
	if d.len() >= 32 {
		let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
		while p.len() >= 32 { for i in 0..4 { v[i] = round(v[i], r8(&p[i * 8..])); } p = &p[32..]; }
		h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
		for x in v { h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4); }
	}
	h = h.wrapping_add(d.len() as u64);
	while p.len() >= 8 { h = (h ^ round(0, r8(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4); p = &p[8..]; }
	if p.len() >= 4 { h = (h ^ (u32::from_le_bytes(p[..4].try_into().unwrap()) as u64).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3); p = &p[4..]; }
	for b in p { h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1); }
	h = (h ^ (h >> 33)).wrapping_mul(P2); h = (h ^ (h >> 29)).wrapping_mul(P3); h ^ (h >> 32)
}
pub fn twox_64(d: &[u8]) -> [u8; 8] { xxh64(d, 0).to_le_bytes() }
pub fn twox_128(d: &[u8]) -> [u8; 16] { let mut o = [0; 16]; for i in 0..2 { o[i * 8..i * 8 + 8].copy_from_slice(&xxh64(d, i as u64).to_le_bytes()); } o }
pub fn twox_256(d: &[u8]) -> [u8; 32] { let mut o = [0; 32]; for i in 0..4 { o[i * 8..i * 8 + 8].copy_from_slice(&xxh64(d, i as u64).to_le_bytes()); } o }
#[cfg(test)]
mod tests {
	#[test] fn known() {
		assert_eq!(hex::encode(super::twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(hex::encode(super::twox_128(b"Account")), "b99d880ec681799c0cf30e8886371da9");
		assert_eq!(hex::encode(super::blake2_256(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
		assert_eq!(hex::encode(super::keccak_256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
		assert_eq!(hex::encode(super::blake2_128(&[7u8; 300])).len(), 32);
	}
}

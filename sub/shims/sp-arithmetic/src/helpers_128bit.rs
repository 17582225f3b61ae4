use crate::{biguint, Rounding};
use primitive_types::U256;

pub fn to_big_uint(x: u128) -> biguint::BigUint { x.into() }

pub const fn gcd(mut a: u128, mut b: u128) -> u128 {
	while b != 0 { let t = a % b; a = b; b = t; }
	a
}

/// `floor/ceil/nearest(a * b / c)`; `None` when `c == 0` or the result does not fit.
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 { return None; }
	let (q, rem) = match a.checked_mul(b) {
		Some(p) => (p / c, p % c),
		None => {
			let p = U256::from(a) * U256::from(b);
			let (q, rem) = p.div_mod(U256::from(c));
			if q > U256::from(u128::MAX) { return None; }
			(q.low_u128(), rem.low_u128())
		}
	};
	let up = match r {
		Rounding::Up => rem > 0,
		Rounding::NearestPrefUp => rem >= c / 2 + c % 2,
		Rounding::NearestPrefDown => rem > c / 2,
		Rounding::Down => false,
	};
	if up { q.checked_add(1) } else { Some(q) }
}

/// const variant of the above (long division), used by the `const` constructors of fixed point numbers.
pub const fn const_multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 { return None; }
	// 128x128 -> 256
	let (a1, a0) = (a >> 64, a & u64::MAX as u128);
	let (b1, b0) = (b >> 64, b & u64::MAX as u128);
	let ll = a0 * b0;
	let lh = a0 * b1;
	let hl = a1 * b0;
	let hh = a1 * b1;
	let (m, c1) = lh.overflowing_add(hl);
	let (lo, c2) = ll.overflowing_add(m << 64);
	let hi = hh + (m >> 64) + ((c1 as u128) << 64) + c2 as u128;
	if hi >= c { return None; }
	let mut rem = hi;
	let mut q: u128 = 0;
	let mut i = 128;
	while i > 0 {
		i -= 1;
		let carry = rem >> 127;
		rem = (rem << 1) | ((lo >> i) & 1);
		q <<= 1;
		if carry == 1 || rem >= c { rem = rem.wrapping_sub(c); q |= 1; }
	}
	let up = match r {
		Rounding::Up => rem > 0,
		Rounding::NearestPrefUp => rem >= c / 2 + c % 2,
		Rounding::NearestPrefDown => rem > c / 2,
		Rounding::Down => false,
	};
	if up { q.checked_add(1) } else { Some(q) }
}

pub const fn sqrt(mut n: u128) -> u128 {
	if n == 0 { return 0; }
	let mut op = 1u128 << ((127 - n.leading_zeros()) & !1);
	let mut res = 0u128;
	while op != 0 {
		if n >= res + op { n -= res + op; res = (res >> 1) + op; } else { res >>= 1; }
		op >>= 2;
	}
	res
}

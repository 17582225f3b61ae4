//! Fractions, ratios, rational rounding, transcendental functions and wide integers against exact references.
use crate::*;
use hydra_dx_math::support::traits::*;
use primitive_types::U256;
use hydra_dx_math::fraction;
use hydra_dx_math::ratio::Ratio;
use hydra_dx_math::support::rational::{round_to_rational, round_u512_to_rational, Rounding};
use hydra_dx_math::types::Fraction;
use primitive_types::{U256 as PU256, U512 as PU512};

const DIV: u128 = 1 << 127;
fn weight(r: &mut Rng) -> u128 { match r.idx(8) { 0 => 0, 1 => DIV, 2 => 1, 3 => DIV - 1, 4 | 5 => { let p = r.log(1, 1_000_000); fraction::frac(2, p + 1).to_bits() } _ => r.log(0, DIV) } }
fn bal(r: &mut Rng) -> u128 { match r.idx(10) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } }
fn price(r: &mut Rng) -> Ratio { match r.idx(10) { 0 => Ratio::zero(), 1 => Ratio::new(u128::MAX, 1), 2 => Ratio::new(1, u128::MAX), 3 => Ratio::new(u128::MAX - r.below(3), u128::MAX - r.below(3)), _ => Ratio::new(r.log(1, u128::MAX), r.log(1, u128::MAX)) } }

fn wide(r: &mut Rng) -> U256 { match r.idx(6) { 0 => U256::MAX - U256::from(r.below(3)), 1 => U256::zero(), _ => { let (a, b) = (r.log(0, u128::MAX), r.log(0, u128::MAX)); if r.chance(1, 2) { U256::from(a) } else { U256::from(a) * U256::from(b) } } } }
fn up(x: U256) -> U512 { let mut b = [0u8; 32]; x.to_little_endian(&mut b); U512::from_little_endian(&b) }
fn word(r: &mut Rng) -> u128 { match r.idx(6) { 0 => u128::MAX - r.below(3), 1 => 0, _ => r.log(0, u128::MAX) } }

pub fn words(m: &mut Monitor) {
	m.workload("wide-integers", 100_000, 4_000_000, |c| {
		let (a, b, x) = (word(&mut c.rng), word(&mut c.rng), wide(&mut c.rng));
		c.event("op"); c.nontrivial((a, b));
		let fit = |e: U512| if e.bits() <= 256 { Some(e) } else { None };
		c.check("add-exact", a.checked_add_into(&b).map(up) == Some(w(a) + w(b)), || format!("{a} + {b}"));
		c.check("mul-exact", a.checked_mul_into(&b).map(up) == Some(w(a) * w(b)), || format!("{a} * {b}"));
		c.check("wide-mul-exact-or-none", x.checked_mul_inner(&b).map(up) == fit(up(x) * w(b)), || format!("{x} * {b} = {:?}", x.checked_mul_inner(&b)));
		c.check("wide-div-exact-or-none", x.checked_div_inner(&b).map(up) == (if b == 0 { None } else { Some(up(x) / w(b)) }), || format!("{x} / {b} = {:?}", x.checked_div_inner(&b)));
	});
	m.expect("wide-integers/op", 100_000);
}

pub fn numbers(m: &mut Monitor) {
	m.workload("ratio-order", 300_000, 10_000_000, |c| {
		let (a, mut b) = (price(&mut c.rng), price(&mut c.rng));
		match c.rng.idx(4) { 0 => b = a, 1 if a.n < 1 << 60 && a.d < 1 << 60 => { let k = c.rng.range(1, 1 << 60); b = Ratio::new(a.n * k, a.d * k); } 2 => b = Ratio::new(a.n.saturating_add(c.rng.below(2)), a.d), _ => {} }
		let e = (w(a.n) * w(b.d)).cmp(&(w(b.n) * w(a.d)));
		c.log(|| format!("{}/{} vs {}/{}", a.n, a.d, b.n, b.d));
		c.event("compare"); c.nontrivial((a.n, a.d, b.n, b.d));
		c.check("ratio-order-exact", a.cmp(&b) == e && a.partial_cmp(&b) == Some(e) && b.cmp(&a) == e.reverse(), || format!("{:?} exact {e:?}", a.cmp(&b)));
		// without a denominator a ratio is above all others, whichever side it stands on
		if c.rng.chance(1, 8) { let z = Ratio::new_unchecked(c.rng.log(0, u128::MAX), 0); c.check("no-denominator-is-above-all", a.cmp(&z) == core::cmp::Ordering::Less && z.cmp(&a) == core::cmp::Ordering::Greater && z.cmp(&z) == core::cmp::Ordering::Equal && !z.is_one(), || format!("{a:?} {z:?}")); }
		let i = a.inverted();
		c.check("inverse", if a.n == 0 { i == a } else { i.n == a.d && i.d == a.n }, || format!("{i:?}"));
		c.check("is-one-is-zero", a.is_zero() == (a.n == 0) && a.is_one() == (a.n == a.d), || "".into());
		c.check("denominator-never-zero", Ratio::new(a.n, 0).d > 0 && Ratio::from((a.n, 0)).d > 0 && Ratio::from(a.n) == Ratio::new(a.n, 1), || "".into());
		let z = Ratio::new(a.n, 0); let (one, zero) = (Ratio::one(), Ratio::zero());
		c.check("one-zero-and-whole-numbers", one.n == one.d && one.n > 0 && one.is_one() && !one.is_zero() && zero.n == 0 && zero.d > 0 && zero.is_zero() && !zero.is_one() && (z.n, z.d) == (a.n, 1) && !Ratio::new_unchecked(0, 0).is_one() && <(u128, u128)>::from(a) == (a.n, a.d), || format!("{one:?} {zero:?} {z:?}"));
	});
	m.workload("fraction", 300_000, 10_000_000, |c| {
		let d = c.rng.log(1, u128::MAX); let n = match c.rng.idx(4) { 0 => d, 1 => 0, _ => c.rng.log(0, d) };
		let near = |n: U512, d: U512| -> U512 { let (q, r) = (n / d, n % d); if r * w(2) > d { q + w(1) } else { q } };
		let f = fraction::frac(n, d);
		c.log(|| format!("{n}/{d}"));
		c.event("fraction"); c.nontrivial((n, d));
		c.check("fraction-nearest", w(f.to_bits()) == near(w(n) * w(DIV), w(d)), || format!("{f}"));
		let b = bal(&mut c.rng);
		let p = fraction::multiply_by_balance(f, b);
		c.check("fraction-of-balance", w(p) == near(w(b) * w(f.to_bits()), w(DIV)) && p <= b, || format!("{p} of {b}"));
		let x = FixedU128::from_inner(b);
		c.check("fraction-of-fixed", fraction::multiply_by_fixed(f, x).into_inner() == p, || format!("{x:?}"));
		let q = fraction::to_rational(f);
		c.check("fraction-to-rational-exact", !q.d().eq(&0) && w(q.n()) * w(DIV) == w(q.d()) * w(f.to_bits()), || format!("{f} as {q:?}"));
		c.check("fraction-to-fixed", w(fraction::to_fixed(f).into_inner()) == near(w(E18) * w(f.to_bits()), w(DIV)), || format!("{f}"));
		let y = FixedU128::from_inner(c.rng.range(0, E18));
		c.check("fraction-from-fixed", w(fraction::from_fixed(y).to_bits()) == near(w(y.into_inner()) * w(DIV), w(E18)) && fraction::to_fixed(fraction::from_fixed(y)) == y, || format!("{y:?}"));
	});
	m.workload("rational-rounding", 200_000, 6_000_000, |c| {
		let wide = |r: &mut Rng| -> U512 { let b = 1 + r.idx(256); let mut v = w(0); for _ in 0..2 { v = (v << 128) + w(r.u128()); } v >> (256 - b) };
		let (n, d) = (wide(&mut c.rng), { let d = wide(&mut c.rng); if d.is_zero() { w(1) } else { d } });
		let b256 = |x: U512| { let mut a = [0u8; 64]; x.to_little_endian(&mut a); PU256::from_little_endian(&a[..32]) };
		c.log(|| format!("{n}/{d}"));
		let big = n.bits().max(d.bits()) > 128;
		for (rd, name) in [(Rounding::Nearest, "nearest"), (Rounding::Down, "down"), (Rounding::Up, "up")] {
			let (x, y) = round_to_rational((b256(n), b256(d)), rd);
			let q = round_u512_to_rational((PU512::from(b256(n)), PU512::from(b256(d))), rd);
			c.event(name); c.nontrivial((n.low_u128(), d.low_u128(), name));
			c.check("both-widths-agree", (x, y) == q, || format!("{x}/{y} vs {q:?}"));
			c.check("denominator-stays-positive", y >= 1 && (x >= 1 || n.is_zero() || !big && n.is_zero()), || format!("{x}/{y}"));
			if !big { c.check("small-values-exact", w(x) == n && w(y) == d, || format!("{x}/{y}")); continue; }
			let e = |v: U512| { let mut a = [0u8; 64]; v.to_little_endian(&mut a); U1024::from_little_endian(&a) };
			let (gl, el) = (ww(x) * e(d), e(n) * ww(y));
			// the components never collapse to zero, so the direction is only judged where both survive the shift
			let shift = n.bits().max(d.bits()) - 128;
			let survives = n >> shift >= w(2) && d >> shift >= w(2) && x < u128::MAX && y < u128::MAX;
			if survives { match rd { Rounding::Up => { c.check("rounds-up", gl >= el, || format!("{x}/{y}")); } Rounding::Down => { c.check("rounds-down", gl <= el, || format!("{x}/{y}")); } Rounding::Nearest => {} } }
			let prec = (128 - x.min(y).leading_zeros()) as usize;
			if prec > 4 { let diff = if gl > el { gl - el } else { el - gl }; c.check("rounding-precise", diff <= (gl.max(el) >> (prec - 3)), || format!("{rd:?} {x}/{y}")); }
		}
	});
	m.workload("transcendental", 40_000, 1_500_000, |c| {
		use fixed::types::U32F96;
		use hydra_dx_math::transcendental as t;
		let bits = c.rng.log(1 << 66, u128::MAX >> 1);
		let x = U32F96::from_bits(bits);
		let one = 1u128 << 96;
		c.log(|| format!("x = {x}"));
		let (n, d, neg) = if bits >= one { (w(bits), w(one), false) } else { (w(one), w(bits), true) };
		let l = hp::ln(n, d);
		match t::ln::<U32F96, U32F96>(x) {
			Ok((v, g)) => { c.event("ln"); c.nontrivial(bits); let e = (l >> (hp::FB - 96)).low_u128(); c.check("ln-accurate", (g == neg || e == 0) && v.to_bits().abs_diff(e) <= 1 << 26, || format!("{v} exact {e}/2^96")); }
			Err(_) => { c.check("ln-available", false, || "refused".into()); }
		}
		// e^y and e^-y
		let y = U32F96::from_bits(match c.rng.idx(20) { 0 => one, 1 => 0, 2 => one * c.rng.range(1, 20), _ => c.rng.log(1, 20 << 96) });
		let ye = w(y.to_bits()) << (hp::FB - 96);
		if let Ok(v) = t::exp::<U32F96, U32F96>(y, true) { c.event("exp-neg"); let e = (hp::exp_neg(ye) >> (hp::FB - 96)).low_u128(); c.check("exp-neg-accurate", v.to_bits().abs_diff(e) <= 1 << 16, || format!("e^-{y} = {v}, exact {e}/2^96")); } else { c.violate("exp-available", format!("e^-{y}")); }
		if let Ok(v) = t::exp::<U32F96, U32F96>(y, false) { c.event("exp"); if let Some(e) = hp::exp_pos(ye) { let e = e >> (hp::FB - 96); let g = w(v.to_bits()); let diff = if g > e { g - e } else { e - g }; c.check("exp-accurate", diff <= (e >> 84) + w(1 << 12), || format!("e^{y} = {v}, exact {e}/2^96")); } } else { c.violate("exp-available", format!("e^{y}")); }
		// real powers
		let (pb, pe) = (U32F96::from_bits(match c.rng.idx(12) { 0 => one, 1 => 0, _ => c.rng.log(one >> 20, one << 6) }), U32F96::from_bits(match c.rng.idx(12) { 0 => 0, 1 => one, 2 => one * c.rng.range(1, 4), _ => c.rng.log(1, one * 4) }));
		let pr = t::pow::<U32F96, U32F96>(pb, pe); let pl = if pb.to_bits() == 0 { None } else { let b = pb.to_bits(); Some(hp::ln(w(b.max(one)), w(b.min(one))) * w(pe.to_bits()) >> 96) };
		match pr {
			Ok(v) => { c.event("pow"); let want = match pl { None => w(0), Some(l) if pb.to_bits() < one => hp::exp_neg(l), Some(l) => hp::exp_pos(l).unwrap_or(U512::MAX) } >> (hp::FB - 96); let g = w(v.to_bits()); let diff = if g > want { g - want } else { want - g };
				c.maximum("pow-error-bits", (w(1) << 0).max(diff).bits() as u128); c.check("pow-accurate", diff <= (want >> 66) + w(1 << 28), || format!("{pb}^{pe} = {v}, exact {want}/2^96"));
				if pe.to_bits() == one && pb.to_bits() > 0 { c.check("first-power-is-itself", v == pb, || format!("{pb}^1 = {v}")); } if pe.to_bits() == 0 && pb.to_bits() > 0 { c.check("zeroth-power-is-one", v.to_bits() == one, || format!("{pb}^0 = {v}")); } }
			Err(_) => { c.event("pow-refused"); c.check("pow-available", pl.map_or(false, |l| l > hp::one() * w(20)), || format!("{pb}^{pe} refused")); }
		}
		// high-precision integer powers of fractions, including the ones close to one that the smoothing uses
		{
			type F = hydra_dx_math::types::Fraction;
			let k = match c.rng.idx(5) { 0 => c.rng.range(0, 6), 1 => c.rng.range(1, 64), _ => c.rng.log(1, u32::MAX as u128) } as u32;
			let fb = match c.rng.idx(8) { 0 => DIV, 1 => DIV - 1, 2 => 0, 3 => 1, 4 | 5 => { let gap = DIV / (k.max(1) as u128); DIV - c.rng.log(1, gap.min(DIV)) } 6 => DIV - DIV / (c.rng.log(2, 1 << 33)), _ => c.rng.log(1, DIV) };
			let v: F = t::saturating_powi_high_precision::<F, F>(F::from_bits(fb), k);
			let base = w(fb) << (hp::FB - 127); let (mut e, mut p, mut n) = (hp::one(), base, k);
			while n > 0 { if n & 1 == 1 { e = hp::mul(e, p); } p = hp::mul(p, p); n >>= 1; }
			let e = (e >> (hp::FB - 127)).low_u128(); let diff = v.to_bits().abs_diff(e);
			c.event("fraction-power"); if fb > DIV - DIV / 10 / (k.max(1) as u128) { c.event("fraction-power-near-one"); }
			c.maximum("fraction-power-error-bits", 128 - diff.leading_zeros() as u128);
			// close to one the error does not grow with the exponent
			if k > 0 && w(DIV - fb) * w(11) * w(k as u128) < w(DIV) { c.event("precise-power"); c.maximum("precise-power-error", diff); c.check("power-near-one-precise", diff <= 100, || format!("({fb}/2^127)^{k} = {v}, exact {e}/2^127")); }
			c.check("fraction-power-accurate", (fb == 0 && v.to_bits() == 0) || (fb > 0 && diff <= 64 + 4 * k as u128), || format!("({fb}/2^127)^{k} = {v}, exact {e}/2^127"));
			if fb > 0 && k == 0 { c.check("fraction-zeroth-power-is-one", v.to_bits() == DIV, || format!("{v}")); } if k == 1 { c.check("fraction-first-power-is-itself", v.to_bits() == fb, || format!("{v}")); }
		}
		// integer powers
		let k = c.rng.range(0, 40) as u32;
		if c.rng.chance(1, 50) { c.check("powers-of-zero-and-zeroth-powers", t::powi::<U32F96, U32F96>(U32F96::from_bits(0), k) == Ok(U32F96::from_bits(0)) && t::powi::<U32F96, U32F96>(x, 0) == Ok(U32F96::from_bits(one)) && t::powi::<U32F96, U32F96>(x, 1) == Ok(x), || format!("{x}, {k}")); }
		let b = U32F96::from_bits(c.rng.log(1, one * 2));
		if let Ok(v) = t::powi::<U32F96, U32F96>(b, k) { c.event("powi"); let mut e = hp::one(); let bb = w(b.to_bits()) << (hp::FB - 96); for _ in 0..k { e = hp::mul(e, bb); } let e = e >> (hp::FB - 96); let g = w(v.to_bits()); c.check("powi-accurate", g <= e + w(1) && g + w(1) + ((e * w(k as u128 + 1)) >> 90) + w(k as u128 * 2) >= e, || format!("{b}^{k} = {v}, exact {e}/2^96")); }
	});
	m.expect("ratio-order/compare", 200_000); m.expect("fraction/fraction", 200_000); m.expect("transcendental/ln", 30_000); m.expect("transcendental/fraction-power-near-one", 3_000);
}

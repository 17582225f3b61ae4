//! EMA oracle arithmetic, fractions, ratios and rational rounding against exact rationals.
use crate::*;
use hydra_dx_math::ema::*;
use hydra_dx_math::fraction;
use hydra_dx_math::ratio::Ratio;
use hydra_dx_math::support::rational::{round_to_rational, round_u512_to_rational, Rounding};
use hydra_dx_math::types::Fraction;
use primitive_types::{U256 as PU256, U512 as PU512};

const DIV: u128 = 1 << 127;
fn weight(r: &mut Rng) -> u128 { match r.idx(8) { 0 => 0, 1 => DIV, 2 => 1, 3 => DIV - 1, 4 | 5 => { let p = r.log(1, 1_000_000); fraction::frac(2, p + 1).to_bits() } _ => r.log(0, DIV) } }
fn bal(r: &mut Rng) -> u128 { match r.idx(10) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } }
fn price(r: &mut Rng) -> Ratio { match r.idx(10) { 0 => Ratio::zero(), 1 => Ratio::new(u128::MAX, 1), 2 => Ratio::new(1, u128::MAX), 3 => Ratio::new(u128::MAX - r.below(3), u128::MAX - r.below(3)), _ => Ratio::new(r.log(1, u128::MAX), r.log(1, u128::MAX)) } }

/// prev + weight*(incoming-prev), nearest rounding preferring down of the moved part
fn avg(prev: u128, inc: u128, wt: u128) -> u128 {
	let diff = prev.abs_diff(inc);
	let n = w(diff) * w(wt);
	let (q, rem) = (n / w(DIV), n % w(DIV));
	let moved = (q + if rem > w(DIV / 2) { w(1) } else { w(0) }).low_u128();
	if inc >= prev { prev + moved } else { prev - moved }
}
/// |a - b| <= max(|a|,|b|) * 2^-bits, as exact rationals in U2048-free form (cross products)
fn rel_close(a: (U1024, U1024), b: (U1024, U1024), bits: usize) -> bool {
	let (x, y) = (a.0 * b.1, b.0 * a.1);
	let d = if x > y { x - y } else { y - x };
	d <= (x.max(y) >> bits) + ww(0)
}
fn rr(r: Ratio) -> (U1024, U1024) { (ww(r.n), ww(r.d)) }

pub fn ema(m: &mut Monitor) {
	m.workload("ema-balance", 300_000, 10_000_000, |c| {
		let (p, i, wt) = (bal(&mut c.rng), bal(&mut c.rng), weight(&mut c.rng));
		let f = Fraction::from_bits(wt);
		c.log(|| format!("prev {p} incoming {i} weight {wt}/2^127"));
		let v = balance_weighted_average(p, i, f);
		c.event("average"); if p != i && wt > 0 { c.nontrivial((p, i, wt)); }
		c.check("average-between-inputs", v >= p.min(i) && v <= p.max(i), || format!("{v}"));
		c.check("average-exact", v == avg(p, i, wt), || format!("{v}, exact {}", avg(p, i, wt)));
		let (vp, vi) = ((bal(&mut c.rng), p, bal(&mut c.rng), bal(&mut c.rng)), (i, bal(&mut c.rng), bal(&mut c.rng), bal(&mut c.rng)));
		let vv = volume_weighted_average(vp, vi, f);
		c.check("volume-component-wise", vv == (avg(vp.0, vi.0, wt), avg(vp.1, vi.1, wt), avg(vp.2, vi.2, wt), avg(vp.3, vi.3, wt)), || format!("{vp:?} {vi:?} -> {vv:?}"));
		let lv = liquidity_weighted_average((vp.0, p), (vi.0, i), f);
		c.check("liquidity-component-wise", lv == (avg(vp.0, vi.0, wt), v), || format!("{lv:?}"));
	});
	m.workload("ema-price", 150_000, 5_000_000, |c| {
		let (p, i, wt) = (price(&mut c.rng), price(&mut c.rng), weight(&mut c.rng));
		let (p, i) = if c.rng.chance(1, 3) && p.n > 1000 { let k = c.rng.range(p.n - p.n / 1000, p.n.saturating_add(p.n / 1000)); (p, Ratio::new(k, p.d)) } else { (p, i) };
		c.log(|| format!("prev {}/{} incoming {}/{} weight {wt}/2^127", p.n, p.d, i.n, i.d));
		let v = price_weighted_average(p, i, Fraction::from_bits(wt));
		c.event("average"); if wt > 0 && p != i { c.nontrivial((p.n, p.d, i.n, i.d, wt)); }
		// exact: (p.n*i.d*(DIV-wt) + i.n*p.d*wt) / (p.d*i.d*DIV)
		let e = (ww(p.n) * ww(i.d) * ww(DIV - wt) + ww(i.n) * ww(p.d) * ww(wt), ww(p.d) * ww(i.d) * ww(DIV));
		c.check("price-denominator-positive", v.d > 0, || format!("{}/{}", v.n, v.d));
		// the result is a 128-bit rational; it is as precise as its smaller component allows
		let small = v.n.min(v.d);
		let precise = 128 - small.leading_zeros() as usize;
		c.distinct("precision", precise);
		if precise >= 12 {
			c.check("price-average-exact", rel_close(rr(v), e, precise.min(122) - 3), || format!("got {}/{}, weighted average is {:?}", v.n, v.d, e));
			let (lo, hi) = if p < i { (p, i) } else { (i, p) };
			let inside = |x: &Ratio| (*x >= lo || rel_close(rr(*x), rr(lo), precise.min(122) - 3)) && (*x <= hi || rel_close(rr(*x), rr(hi), precise.min(122) - 3));
			c.check("price-average-between-inputs", inside(&v), || format!("got {}/{}", v.n, v.d));
		}
		// rounding favours the previous price: a rise is never overstated, a fall neither
		if precise >= 12 && p.n > 0 && i.n > 0 && wt > 0 && v.n < u128::MAX && v.d < u128::MAX { let (x, y) = (ww(v.n) * e.1, e.0 * ww(v.d)); c.check("price-rounding-favours-previous", if i >= p { x <= y } else { x >= y }, || format!("got {}/{}", v.n, v.d)); }
		if wt == 0 { c.check("zero-weight-keeps-previous", p.n == 0 && v.n == 0 || rel_close(rr(v), rr(p), 120) , || format!("{}/{}", v.n, v.d)); }
		if p == i { c.check("equal-inputs-are-fixed", v == p, || format!("{}/{}", v.n, v.d)); }
	});
	m.workload("ema-smoothing", 150_000, 5_000_000, |c| {
		let period = if c.rng.chance(1, 50) { u64::MAX - c.rng.idx(3) as u64 } else { c.rng.log(0, u64::MAX as u128) as u64 };
		let sm = smoothing_from_period(period);
		let p1 = ww(period.max(1) as u128) + ww(1); let e = (ww(2) * ww(DIV) + (p1 - ww(1)) / ww(2)) / p1;
		c.check("smoothing-from-period", ww(sm.to_bits()) == e, || format!("period {period}: {sm}"));
		let wt = match c.rng.idx(3) { 0 => sm.to_bits(), _ => weight(&mut c.rng) };
		let it = c.rng.log(0, u32::MAX as u128) as u32;
		c.log(|| format!("weight {wt}/2^127, {it} iterations"));
		let s = exp_smoothing(Fraction::from_bits(wt), it).to_bits();
		c.event("smoothing"); c.nontrivial((wt, it));
		c.check("smoothing-at-most-one", s <= DIV, || format!("{s}"));
		if it == 0 && wt < DIV { c.check("no-iterations-no-weight", s == 0, || format!("{s}")); }
		if it == 1 { c.check("one-iteration-is-the-factor", s == wt, || format!("{s}")); }
		// exact complement: (1-w)^it by high-precision exponential
		if it > 1 && wt > 0 && wt < DIV {
			let e = (hp::exp_neg(hp::ln(w(DIV), w(DIV - wt)) * w(it as u128)) >> (hp::FB - 127)).low_u128();
			let got = DIV - s;
			let err = got.abs_diff(e);
			let tol = if wt < DIV / 10 / it as u128 { 24 } else { (it as u128) * 4 + 64 };
			c.maximum(if wt < DIV / 10 / it as u128 { "complement-error-near-one" } else { "complement-error" }, err);
			c.check("smoothing-is-the-power", err <= tol, || format!("complement {got}, exact {e} of 2^127, off by {err}, allowed {tol}"));
		}
		// more iterations weigh the new value at least as much (up to rounding)
		let s2 = exp_smoothing(Fraction::from_bits(wt), it.saturating_add(1 + c.rng.idx(1000) as u32)).to_bits();
		c.check("smoothing-monotone", s2 + (it as u128 + 1000) * 8 >= s, || format!("{s} then {s2}"));
	});
	m.workload("ema-update", 60_000, 2_000_000, |c| {
		// integrating values: components are exactly the three averages, and being n blocks late equals the n-fold power
		let r = &mut c.rng;
		let prev = (price(r), (bal(r), bal(r), bal(r), bal(r)), (bal(r), bal(r)));
		let inc = (price(r), (bal(r), bal(r), bal(r), bal(r)), (bal(r), bal(r)));
		let sm = Fraction::from_bits(weight(r));
		let it = r.log(1, u32::MAX as u128) as u32;
		c.log(|| format!("{prev:?} {inc:?} {sm} {it}"));
		let n = calculate_new_by_integrating_incoming(prev, inc, sm);
		let wt = sm.to_bits();
		let vol = |p: EmaVolume, i: EmaVolume, wt: u128| (avg(p.0, i.0, wt), avg(p.1, i.1, wt), avg(p.2, i.2, wt), avg(p.3, i.3, wt));
		c.event("integrate"); c.nontrivial((wt, it, prev.1 .0));
		c.check("integrate-volume", n.1 == vol(prev.1, inc.1, wt), || format!("{n:?}"));
		c.check("integrate-liquidity", n.2 == (avg(prev.2 .0, inc.2 .0, wt), avg(prev.2 .1, inc.2 .1, wt)), || format!("{n:?}"));
		c.check("integrate-price", n.0 == price_weighted_average(prev.0, inc.0, sm), || format!("{n:?}"));
		let u = update_outdated_to_current(it, prev, (inc.0, inc.2), sm);
		let s = exp_smoothing(sm, it).to_bits();
		c.check("late-update-volume", u.1 == vol(prev.1, (0, 0, 0, 0), s), || format!("{u:?}"));
		c.check("late-update-liquidity", u.2 == (avg(prev.2 .0, inc.2 .0, s), avg(prev.2 .1, inc.2 .1, s)), || format!("{u:?}"));
		c.check("late-update-price", u.0 == iterated_price_ema(it, prev.0, inc.0, sm), || format!("{u:?}"));
		c.check("iterated-forms-agree", iterated_volume_ema(it, prev.1, sm) == u.1 && iterated_liquidity_ema(it, prev.2, inc.2, sm) == u.2 && iterated_balance_ema(it, prev.2 .0, inc.2 .0, sm) == u.2 .0, || format!("{u:?}"));
	});
	m.workload("ema-skip-equals-step", 4_000, 100_000, |c| {
		// n single updates with the same incoming value land where one n-block update lands
		let (p, i) = (c.rng.log(0, 10u128.pow(30)), c.rng.log(0, 10u128.pow(30)));
		let sm = smoothing_from_period(c.rng.log(1, 100_000) as u64);
		let it = c.rng.range(1, 200) as u32;
		c.log(|| format!("{p} -> {i}, {sm}, {it} steps"));
		let mut x = p;
		for _ in 0..it { x = balance_weighted_average(x, i, sm); }
		let y = iterated_balance_ema(it, p, i, sm);
		c.event("compare"); c.nontrivial((p, i, it));
		// each step rounds by at most half a unit, towards or away
		c.check("skip-equals-step", x.abs_diff(y) <= it as u128 / 2 + 2, || format!("stepwise {x}, at once {y}"));
	});
	m.expect("ema-balance/average", 200_000); m.expect("ema-price/average", 100_000); m.expect("ema-smoothing/smoothing", 100_000);
}


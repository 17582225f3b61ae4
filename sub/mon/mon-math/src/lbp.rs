//! LBP arithmetic against a high-precision weighted product.
use crate::*;
use hydra_dx_math::lbp;

fn reserve(r: &mut Rng) -> u128 { match r.idx(12) { 0 => r.range(1, 5), 1 => u128::MAX - r.below(10), _ => r.log(1, u128::MAX) } }

/// base^(we/wd) for base = n/d <= 1, in hp fixed point
fn pow_below(n: u128, d: u128, we: u32, wd: u32) -> U512 { hp::exp_neg(hp::ln(w(d), w(n)) * w(we as u128) / w(wd as u128)) }

pub fn lbp_trade(m: &mut Monitor) {
	let weight = |r: &mut Rng| -> u32 { match r.idx(4) { 0 => 50_000_000, 1 => *r.pick(&[1_000_000u32, 99_000_000, 10_000_000, 90_000_000]), _ => r.range(1_000_000, 99_000_000) as u32 } };
	m.workload("lbp-sell", 60_000, 2_000_000, |c| {
		let (ri, ro) = (c.rng.log(1_000_000, 10u128.pow(28)), c.rng.log(1_000_000, 10u128.pow(28)));
		let wi = weight(&mut c.rng); let wo = if c.rng.chance(1, 4) { weight(&mut c.rng) } else { 100_000_000 - wi };
		let a = match c.rng.idx(5) { 4 => c.rng.log(1, ri.saturating_mul(1000)), 0 => ri / 3, 1 => c.rng.range(1, 1000), _ => c.rng.log(1, ri / 3) };
		c.log(|| format!("sell {a} into {ri}/{ro} weights {wi}/{wo}"));
		let Ok(out) = lbp::calculate_out_given_in(ri, ro, wi, wo, a) else { c.event("refused"); c.check("sell-available", pow_below(ri, ri + a, wi, wo) < hp::one() >> 29, || "a sell within a third of the reserve was refused".into()); return };
		c.event("sell"); if out > 0 { c.nontrivial((ri, ro, wi, wo, a)); } c.distinct("weights", (wi / 5_000_000, wo / 5_000_000));
		let keep = (w(ro) * pow_below(ri, ri + a, wi, wo)) >> hp::FB;
		let exact = w(ro) - keep; // ceil-ish of the real output
		let prec = 0;
		let over = if w(out) > exact { (w(out) - exact).low_u128() } else { 0 };
		c.maximum("sell-over-exact-units", over);
		if ro < 10u128.pow(18) && wi / wo < 4 { c.check("sell-exact-to-two-units", w(out) + w(2) >= exact, || format!("out {out}, exact {exact}")); }
		c.maximum("sell-below-exact-small-reserve-units", if ro < 10u128.pow(18) && wi / wo < 4 { exact.low_u128().saturating_sub(out) } else { 0 });
		c.check("sell-never-above-exact", over <= prec, || format!("out {out}, exact {exact}"));
		let slack = (w(ro) * w(wi as u128) * w(2)/ w(wo as u128) >> 76).low_u128() + ro / (1u128 << 70) + 2;
		c.check("sell-output-exact", w(out) + w(slack) >= exact, || format!("out {out}, exact {exact} slack {slack}"));
	});
	m.workload("lbp-buy", 60_000, 2_000_000, |c| {
		let (ri, ro) = (c.rng.log(1_000_000, 10u128.pow(28)), c.rng.log(1_000_000, 10u128.pow(28)));
		let wi = weight(&mut c.rng); let wo = if c.rng.chance(1, 4) { weight(&mut c.rng) } else { 100_000_000 - wi };
		let a = match c.rng.idx(5) { 4 => ro - c.rng.log(1, ro - 1), 0 => ro / 3, 1 => c.rng.range(1, 1000), _ => c.rng.log(1, ro / 3) };
		c.log(|| format!("buy {a} from {ri}/{ro} weights {wi}/{wo}"));
		// price impact (ro/(ro-a))^(wo/wi) - 1
		let Some(f) = hp::exp_pos(hp::ln(w(ro), w(ro - a)) * w(wo as u128) / w(wi as u128)) else { c.event("too-steep"); return };
		let e = (w(ri) * (f - hp::one())) >> hp::FB;
		let r = lbp::calculate_in_given_out(ri, ro, wi, wo, a);
		let Ok(inn) = r else { c.event("refused"); c.check("buy-available", f > hp::one() << 29 || ro / (ro - a) >= 1 << 29 || e > w(u128::MAX >> 2), || format!("a buy costing {e} was refused")); return };
		c.event("buy"); c.nontrivial((ri, ro, wi, wo, a));
		let scale = w(ri) * f * w((wo / wi).max(1) as u128);
		let slack = (scale >> (hp::FB + 76)) + w(3);
		let under = if w(inn) < e { e - w(inn) } else { w(0) };
		c.maximum("buy-under-exact-units", under.low_u128());
		let small = scale >> hp::FB < w(10u128.pow(20));
		c.maximum("buy-under-exact-small-units", if small { under.low_u128() } else { 0 });
		if small { c.check("buy-exact-to-units", under.is_zero() && w(inn) <= e + w(4), || format!("in {inn}, exact {e}")); }
		c.maximum("buy-over-exact-small-reserve-units", if scale >> hp::FB < w(10u128.pow(18)) && w(inn) > e { (w(inn) - e).low_u128() } else { 0 });
		c.maximum("buy-slack-used-permille", if w(inn) > e && slack > w(3) { ((w(inn) - e) * w(1000) / slack).low_u128() } else { 0 });
		c.check("buy-never-below-exact", under <= (scale >> (hp::FB + 80)) + w(2), || format!("in {inn}, exact {e}"));
		c.check("buy-price-exact", w(inn) <= e + slack, || format!("in {inn}, exact {e} slack {slack}"));
	});
	m.workload("lbp-price", 100_000, 3_000_000, |c| {
		let (ri, mut ro, a) = (reserve(&mut c.rng), reserve(&mut c.rng), c.rng.log(0, 10u128.pow(30))); if c.rng.chance(1, 40) { ro = 0; }
		let (wi, wo) = (c.rng.log(1, u32::MAX as u128) as u32, c.rng.log(1, u32::MAX as u128) as u32);
		c.log(|| format!("price of {a}: {ri}/{ro} weights {wi}/{wo}"));
		let big = ww(a) * ww(ro) * ww(wi as u128);
		let e = big / (ww(ri) * ww(wo as u128));
		match lbp::calculate_spot_price(ri, ro, wi, wo, a) {
			Ok(p) => { c.event("price"); c.nontrivial((ri, ro, a)); c.check("spot-price-exact", ww(p) == e, || format!("{p} exact {e}")); }
			Err(_) => { c.event("price-refused"); c.check("spot-price-available", e > ww(u128::MAX) || big >> 256 > ww(0), || "refused".into()); }
		}
		let fee = if c.rng.chance(1, 3) { None } else { Some((c.rng.range(0, 1000) as u32, 1000u32)) };
		let fee_on_out = c.rng.chance(1, 2);
		let out_asset = if fee_on_out { 7 } else { 8 };
		let p = lbp::calculate_spot_price_with_fee(ri, ro, wi, wo, 7, out_asset, fee);
		if p.is_err() { let (n, d) = (w(ro) * w(wi as u128), w(ri) * w(wo as u128)); c.check("spot-price-with-fee-available", n > w(u128::MAX) || d > w(u128::MAX) || n * w(E18) / d >= w(u128::MAX), || format!("refused: {p:?}")); }
		if let Ok(p) = p {
			c.event("price-with-fee");
			let (fn_, fd) = match fee { Some((n, d)) if fee_on_out => (n as u128, d as u128), _ => (0, 1) };
			let e = w(ro) * w(wi as u128) * w(E18) * w(fd - fn_) / (w(ri) * w(wo as u128) * w(fd));
			c.check("spot-price-with-fee", w(p.into_inner()) <= e && w(p.into_inner()) + w(2) >= e, || format!("{p:?} exact {e}"));
		}
	});
	m.workload("lbp-weights", 200_000, 6_000_000, |c| {
		let s = c.rng.log(0, u32::MAX as u128) as u32; let e = c.rng.range(s as u128, u32::MAX as u128) as u32;
		let at = match c.rng.idx(5) { 0 => s, 1 => e, 2 => c.rng.log(0, u32::MAX as u128) as u32, _ => c.rng.range(s as u128, e as u128) as u32 };
		let (y0, y1) = (c.rng.log(0, u32::MAX as u128) as u32, c.rng.log(0, u32::MAX as u128) as u32);
		c.log(|| format!("weight at {at} between {s}:{y0} and {e}:{y1}"));
		match lbp::calculate_linear_weights(s, e, y0, y1, at) {
			Ok(v) => {
				c.event("weight"); c.nontrivial((s, e, y0, y1, at));
				c.check("weight-defined-only-inside", s <= at && at <= e && s < e, || format!("{v}"));
				if s < e && s <= at && at <= e {
					let x = (w(y0 as u128) * w((e - at) as u128) + w(y1 as u128) * w((at - s) as u128)) / w((e - s) as u128);
					c.check("weight-exact", w(v as u128) == x, || format!("{v}, exact {x}"));
					c.check("weight-between-ends", v >= y0.min(y1) && v <= y0.max(y1), || format!("{v}"));
				}
			}
			Err(_) => { c.check("weight-available", !(s <= at && at <= e && s < e), || "refused".into()); }
		}
	});
	m.expect("lbp-sell/sell", 50_000); m.expect("lbp-buy/buy", 20_000); m.expect("lbp-weights/weight", 80_000);
}

pub fn total(m: &mut Monitor) {
	m.workload("lbp-any-input", 300_000, 10_000_000, |c| {
		let mut v = || { let r = &mut c.rng; match r.idx(7) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } };
		let (a, b, d, e) = (v(), v(), v(), v());
		let mut u = || { let r = &mut c.rng; match r.idx(5) { 0 => 0, 1 => u32::MAX, _ => r.log(0, u32::MAX as u128) as u32 } };
		let (x, y, s, t, z) = (u(), u(), u(), u(), u());
		c.log(|| format!("{a} {b} {d} {e} {x} {y} {s} {t} {z}"));
		let mut n = 0u32;
		n += lbp::calculate_spot_price(a, b, x, y, d).is_ok() as u32;
		n += lbp::calculate_spot_price_with_fee(a, b, x, y, s, t, Some((z, y))).is_ok() as u32;
		n += lbp::calculate_linear_weights(x, y, s, t, z).is_ok() as u32;
		n += lbp::calculate_out_given_in(a, b, x, y, d).is_ok() as u32;
		n += lbp::calculate_in_given_out(a, b, x, y, d).is_ok() as u32;
		c.event("case"); c.distinct("answered", n); c.nontrivial((a, b, d, x, y));
	});
}

pub fn pool_fee(m: &mut Monitor) {
	m.workload("pool-fee", 100_000, 3_000_000, |c| {
		let a = reserve(&mut c.rng);
		let (n, d) = match c.rng.idx(6) { 0 => (0, c.rng.log(0, 10_000) as u32), 1 => { let d = c.rng.log(1, 10_000) as u32; (d, d) } 2 => (c.rng.log(0, 1000) as u32, 0), 3 => (c.rng.log(0, u32::MAX as u128) as u32, c.rng.log(0, u32::MAX as u128) as u32), _ => { let d = *c.rng.pick(&[10u32, 100, 1000, 10_000, 333]); (c.rng.range(0, d as u128) as u32, d) } };
		c.log(|| format!("fee {n}/{d} of {a}"));
		let e = if d == 0 { w(0) } else { w(a) * w(n as u128) / w(d as u128) };
		match hydra_dx_math::fee::calculate_pool_trade_fee(a, (n, d)) {
			Some(f) => {
				c.event("fee"); c.nontrivial((a, n, d));
				// truncation happens before the multiplication, so up to one numerator of units may be missing; never more is charged
				c.check("fee-never-above-rate", w(f) <= e, || format!("{f}, exact {e}"));
				c.check("fee-at-rate", w(f) + w(n as u128) >= e && (n != d || f == if d == 0 { 0 } else { a }), || format!("{f}, exact {e}"));
			}
			None => { c.check("fee-available", e + w(n as u128) > w(u128::MAX), || "refused".into()); }
		}
	});
	m.expect("pool-fee/fee", 90_000);
}

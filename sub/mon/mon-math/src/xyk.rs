//! XYK arithmetic against the exact constant product.
use crate::*;
use hydra_dx_math::xyk;

fn reserve(r: &mut Rng) -> u128 { match r.idx(12) { 0 => r.range(1, 5), 1 => u128::MAX - r.below(10), _ => r.log(1, u128::MAX) } }

pub fn xyk_trade(m: &mut Monitor) {
	m.workload("xyk-trade", 400_000, 12_000_000, |c| {
		let (ri, ro) = (reserve(&mut c.rng), reserve(&mut c.rng));
		let a = match c.rng.idx(6) { 0 => ro, 1 => ro - 1, 2 => c.rng.log(1, ro), 3 => ri, _ => c.rng.log(0, ri) };
		c.log(|| format!("reserves {ri}/{ro} amount {a}"));
		match xyk::calculate_out_given_in(ri, ro, a) {
			Ok(out) => {
				c.event("sell"); if out > 0 { c.nontrivial((ri, ro, a)); }
				c.check("sell-exact", w(out) == w(ro) * w(a) / (w(ri) + w(a)), || format!("out {out}"));
				c.check("product-never-falls", out <= ro && (w(ri) + w(a)) * (w(ro) - w(out)) >= w(ri) * w(ro), || format!("out {out}"));
			}
			Err(_) => { c.event("sell-refused"); c.check("sell-available", false, || "a sell was refused".into()); }
		}
		match xyk::calculate_in_given_out(ro, ri, a) {
			Ok(inn) => {
				c.event("buy"); if a > 0 { c.nontrivial((ri, ro, a, 1)); }
				if a > 0 {
					c.check("buy-exact", a < ro && w(inn) == w(ri) * w(a) / w(ro - a) + w(1), || format!("in {inn}"));
					c.check("buy-product-never-falls", (w(ri) + w(inn)) * w(ro - a) > w(ri) * w(ro) , || format!("in {inn}"));
				} else { c.check("buy-zero", inn == 0, || format!("{inn}")); }
			}
			Err(_) => { c.event("buy-refused"); c.check("buy-available", a >= ro || w(ri) * w(a) / w(ro - a) >= w(u128::MAX), || "an affordable buy was refused".into()); }
		}
		// the price quoted for an amount, and with a fee
		match xyk::calculate_spot_price(ri, ro, a) { Ok(p) => { c.event("price"); c.check("spot-price-exact", w(p) == w(ro) * w(a) / w(ri), || format!("{p}")); } Err(_) => { c.check("spot-price-available", w(ro) * w(a) / w(ri) > w(u128::MAX), || "refused".into()); } }
		let fee = match c.rng.idx(3) { 0 => None, _ => Some((c.rng.range(0, 1000) as u32, 1000u32)) };
		let scaled = w(ro) * w(E18) / w(ri);
		match xyk::calculate_spot_price_with_fee(ri, ro, fee) {
			Ok(p) => {
				c.event("price-with-fee");
				let (n, d) = fee.unwrap_or((0, 1));
				let e = w(ro) * w(E18) * w((d - n) as u128) / (w(ri) * w(d as u128));
				c.check("spot-price-with-fee", w(p.into_inner()) <= e + w(1) && w(p.into_inner()) + w(2) + (w(1) ) >= e, || format!("{p:?} exact {e}/1e18"));
			}
			Err(_) => { c.event("price-with-fee-refused"); c.check("spot-price-with-fee-available", scaled + w(1) > w(u128::MAX), || format!("refused, exact {scaled}")); }
		}
	});
	m.expect("xyk-trade/sell", 300_000); m.expect("xyk-trade/buy", 50_000);
}

pub fn xyk_liquidity(m: &mut Monitor) {
	m.workload("xyk-liquidity", 200_000, 8_000_000, |c| {
		let (ra, rb) = (reserve(&mut c.rng), reserve(&mut c.rng));
		let total = match c.rng.idx(3) { 0 => ra, 1 => c.rng.log(1, ra), _ => c.rng.log(1, u128::MAX) };
		let a = match c.rng.idx(3) { 0 => c.rng.log(1, u128::MAX), _ => c.rng.log(1, ra) };
		c.log(|| format!("reserves {ra}/{rb} issuance {total} add {a}"));
		let need = xyk::calculate_liquidity_in(ra, rb, a);
		let sh = xyk::calculate_shares(ra, a, total);
		if let Ok(b) = need { c.event("add"); c.nontrivial((ra, rb, a)); c.check("other-side-exact-rounded-up", w(b) == w(a) * w(rb) / w(ra) + w(1), || format!("{b}")); }
		else { c.check("add-available", w(a) * w(rb) / w(ra) + w(1) > w(u128::MAX), || "refused".into()); }
		if let Some(s) = sh { c.event("shares"); c.check("shares-exact", w(s) == w(total) * w(a) / w(ra), || format!("{s}")); }
		else { c.check("shares-available", w(total) * w(a) / w(ra) > w(u128::MAX), || "refused".into()); }
		if let (Ok(b), Some(s)) = (need, sh) { if s > 0 {
			// reserve per share never falls, on either side
			c.check("share-value-never-falls", (w(ra) + w(a)) * w(total) >= w(ra) * (w(total) + w(s)) && (w(rb) + w(b)) * w(total) >= w(rb) * (w(total) + w(s)), || format!("shares {s}, other {b}"));
			if let (Some(na), Some(nb), Some(nt)) = (ra.checked_add(a), rb.checked_add(b), total.checked_add(s)) {
				let (xa, xb) = xyk::calculate_liquidity_out(na, nb, s, nt).unwrap_or((u128::MAX, u128::MAX));
				c.event("round-trip");
				c.check("round-trip-never-profits", xa <= a && xb <= b, || format!("added {a}/{b} took {xa}/{xb}"));
			}
		} }
		let burn = c.rng.log(1, total);
		match xyk::calculate_liquidity_out(ra, rb, burn, total) {
			Ok((xa, xb)) => { c.event("remove"); c.check("remove-exact", w(xa) == w(ra) * w(burn) / w(total) && w(xb) == w(rb) * w(burn) / w(total), || format!("{xa}/{xb}")); }
			Err(_) => { c.check("remove-available", false, || "removal refused".into()); }
		}
	});
	m.expect("xyk-liquidity/add", 60_000); m.expect("xyk-liquidity/remove", 100_000);
}

pub fn total(m: &mut Monitor) {
	m.workload("xyk-any-input", 300_000, 10_000_000, |c| {
		let mut v = || { let r = &mut c.rng; match r.idx(7) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } };
		let (a, b, d, e) = (v(), v(), v(), v());
		let mut u = || { let r = &mut c.rng; match r.idx(5) { 0 => 0, 1 => u32::MAX, _ => r.log(0, u32::MAX as u128) as u32 } };
		let (x, y, s, t, z) = (u(), u(), u(), u(), u());
		c.log(|| format!("{a} {b} {d} {e} {x} {y} {s} {t} {z}"));
		let mut n = 0u32;
		n += xyk::calculate_out_given_in(a, b, d).is_ok() as u32;
		n += xyk::calculate_in_given_out(a, b, d).is_ok() as u32;
		n += xyk::calculate_liquidity_in(a, b, d).is_ok() as u32;
		n += xyk::calculate_liquidity_out(a, b, d, e).is_ok() as u32;
		n += xyk::calculate_shares(a, b, d).is_some() as u32;
		n += xyk::calculate_spot_price(a, b, d).is_ok() as u32;
		n += xyk::calculate_spot_price_with_fee(a, b, Some((x, y))).is_ok() as u32;
		n += xyk::calculate_spot_price_with_fee(a, b, None).is_ok() as u32;
		if let Some(f) = hydra_dx_math::fee::calculate_pool_trade_fee(a, (x, y)) {
			if y != 0 && x <= y { n += 1; c.check("pool-fee-rate", w(f) <= w(a) * w(x as u128) / w(y as u128) && w(f) + w(x as u128) >= w(a) * w(x as u128) / w(y as u128), || format!("{f}")); }
		}
		c.event("case"); c.distinct("answered", n); c.nontrivial((a, b, d, x, y));
	});
}

pub fn pool_fee(m: &mut Monitor) {
	m.workload("pool-fee", 100_000, 3_000_000, |c| {
		let a = reserve(&mut c.rng);
		let (n, d) = match c.rng.idx(6) { 0 => (0, c.rng.log(0, 10_000) as u32), 1 => { let d = c.rng.log(1, 10_000) as u32; (d, d) } 2 => (c.rng.log(0, 1000) as u32, 0), 3 => (c.rng.log(0, u32::MAX as u128) as u32, c.rng.log(0, u32::MAX as u128) as u32), _ => { let d = *c.rng.pick(&[10u32, 100, 1000, 10_000, 333]); (c.rng.range(0, d as u128) as u32, d) } };
		c.log(|| format!("fee {n}/{d} of {a}"));
		let e = if d == 0 { w(0) } else { w(a) * w(n as u128) / w(d as u128) };
		match hydra_dx_math::fee::calculate_pool_trade_fee(a, (n, d)) {
			Some(f) => {
				c.event("fee"); c.nontrivial((a, n, d));
				// truncation happens before the multiplication, so up to one numerator of units may be missing; never more is charged
				c.check("fee-never-above-rate", w(f) <= e, || format!("{f}, exact {e}"));
				c.check("fee-at-rate", w(f) + w(n as u128) >= e && (n != d || f == if d == 0 { 0 } else { a }), || format!("{f}, exact {e}"));
			}
			None => { c.check("fee-available", e + w(n as u128) > w(u128::MAX), || "refused".into()); }
		}
	});
	m.expect("pool-fee/fee", 90_000);
}

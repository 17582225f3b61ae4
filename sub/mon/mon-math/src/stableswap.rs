//! Stableswap against an exact big-integer solver of the invariant
//! A n S + D = A n D + D^(n+1) / (n^n P).
use crate::*;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::stableswap::*;
use sp_arithmetic::Permill;

const D_IT: u8 = MAX_D_ITERATIONS;
const Y_IT: u8 = MAX_Y_ITERATIONS;
const M: u128 = 1_000_000;

pub struct Inv { n: usize, ann: U1024 }
impl Inv {
	pub fn new(n: usize, amp: u128) -> Self { Inv { n, ann: ww(amp) * ww(n as u128) } }
	fn nn(&self) -> U1024 { let mut r = ww(1); for _ in 0..self.n { r = r * ww(self.n as u128); } r }
	/// is the real D of `xp` at least `d`?
	pub fn d_at_least(&self, xp: &[u128], d: u128) -> bool {
		let mut k = self.nn();
		let mut s = ww(0);
		for x in xp { k = k * ww(*x); s = s + ww(*x); }
		let mut dp = ww(1);
		for _ in 0..=self.n { dp = dp * ww(d); }
		dp + (self.ann - ww(1)) * ww(d) * k <= self.ann * s * k
	}
	/// floor of the real D: a floating-point guess, exact Newton steps, and then the exact predicate decides.
	pub fn d_floor(&self, xp: &[u128]) -> u128 {
		let s: u128 = xp.iter().sum();
		if xp.iter().any(|x| *x == 0) { return 0; }
		let ann = self.ann.low_u128();
		let mut d = ww(s);
		let n = ww(self.n as u128);
		for _ in 0..255 {
			let mut dp = d;
			for x in xp { dp = dp * d / (ww(*x) * n); }
			let prev = d;
			d = (ww(ann) * ww(s) + dp * n) * d / ((ww(ann) - ww(1)) * d + (n + ww(1)) * dp);
			if (if d > prev { d - prev } else { prev - d }) <= ww(1) { break; }
		}
		self.bracket(d.low_u128(), s + 1, |m| self.d_at_least(xp, m))
	}
	/// the largest m in [0, hi) for which the monotone predicate holds, searched outwards from `guess`
	fn bracket(&self, guess: u128, hi: u128, ok: impl Fn(u128) -> bool) -> u128 {
		let (mut lo, mut hi, mut step) = (guess.min(hi - 1), hi, 1u128);
		if ok(lo) { loop { let m = lo.saturating_add(step).min(hi); if m == hi || !ok(m) { hi = m; break } lo = m; step *= 2; } }
		else { loop { hi = lo; lo = lo.saturating_sub(step); step *= 2; if lo == 0 || ok(lo) { break } } }
		while hi - lo > 1 { let m = lo + (hi - lo) / 2; if ok(m) { lo = m } else { hi = m } }
		lo
	}
	/// is `y` at least the real balance that gives invariant `d` together with `others`?
	pub fn y_enough(&self, others: &[u128], d: u128, y: u128) -> bool {
		let mut k = self.nn();
		let mut s = ww(y);
		for x in others { k = k * ww(*x); s = s + ww(*x); }
		let mut dp = ww(1);
		for _ in 0..=self.n { dp = dp * ww(d); }
		let l = self.ann * s + ww(d);
		let r = self.ann * ww(d);
		l > r && k * ww(y) * (l - r) >= dp
	}
	pub fn y_ceil(&self, others: &[u128], d: u128) -> Option<u128> {
		// f64 guess from the quadratic y^2 + (b - d) y = c, then the exact predicate decides
		let (df, ann, n) = (d as f64, self.ann.low_u128() as f64, self.n as f64);
		let mut cc = df / ann / n;
		let mut s = 0.0;
		for x in others { cc = cc * df / (*x as f64 * n); s += *x as f64; }
		cc *= df;
		let b = s + df / ann - df;
		let q = (b * b + 4.0 * cc).sqrt();
		let mut g = if b > 0.0 { 2.0 * cc / (b + q) } else { (q - b) / 2.0 };
		if !g.is_finite() || g > 1e36 { g = df; }
		let lo = self.bracket((g as u128).max(1), 1u128 << 126, |m| !self.y_enough(others, d, m));
		if lo + 1 >= 1u128 << 126 { None } else { Some(lo + 1) }
	}
}
pub fn norm(r: &[AssetReserve]) -> Vec<u128> { r.iter().map(|v| v.amount * 10u128.pow(18 - v.decimals as u32)).collect() }
fn scale(r: &AssetReserve) -> u128 { 10u128.pow(18 - r.decimals as u32) }

/// A pool of 2 to 5 assets with 6 to 18 decimals, from balanced to strongly imbalanced.
pub fn pool(r: &mut Rng) -> (Vec<AssetReserve>, u128) { pool_to(r, 27) }
pub fn pool_to(r: &mut Rng, top: u32) -> (Vec<AssetReserve>, u128) {
	let n = 2 + r.idx(4);
	let base = r.log(10u128.pow(18), 10u128.pow(top));
	let spread = *r.pick(&[1u128, 2, 10, 100, 1000]);
	let v = (0..n).map(|_| {
		let decimals = if r.chance(1, 24) { r.idx(6) as u8 } else { *r.pick(&[6u8, 8, 10, 12, 18, 18]) };
		let x = r.range(base / spread.max(1), base.saturating_mul(if spread == 1 { 1 } else { 2 }));
		AssetReserve::new((x / 10u128.pow(18 - decimals as u32)).max(10), decimals)
	}).collect();
	let amp = match r.idx(20) { 0 => 1, 1 => r.log(10_001, 10_000_000), 2..=5 => 2, 6..=10 => 10_000, 11..=15 => r.range(2, 100), _ => r.range(2, 10_000) };
	(v, amp)
}
fn others(xp: &[u128], skip: usize) -> Vec<u128> { xp.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, v)| *v).collect() }
fn fee(r: &mut Rng) -> Permill { Permill::from_parts(r.ppm(300_000)) }

pub fn trade(m: &mut Monitor) {
	m.workload("stableswap-invariant", 20_000, 600_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let xp = norm(&p);
		c.log(|| format!("D of {p:?} amp {amp}"));
		let Some(d) = calculate_d::<D_IT>(&p, amp) else { return c.violate("invariant-available", "no D".into()); };
		let iv = Inv::new(p.len(), amp);
		let e = iv.d_floor(&xp);
		c.event("d"); c.nontrivial((d, amp)); c.distinct("shape", (p.len(), amp.ilog10(), p.iter().map(|a| a.decimals).collect::<Vec<_>>()));
		c.maximum("d-over-exact", d.saturating_sub(e));
		c.check("invariant-exact", d >= e && d <= e + 4, || format!("D {d}, exact floor {e}"));
		// a pool that lacks some of its assets has no invariant, and trades in it are refused
		let mut q = p.clone(); let k = c.rng.idx(p.len()); q[k].amount = 0; let j = (k + 1 + c.rng.idx(p.len() - 1)) % p.len();
		c.check("no-invariant-for-a-part-of-a-pool", calculate_d::<D_IT>(&q, amp).is_none() && calculate_out_given_in::<D_IT, Y_IT>(&q, j, k, 1000, amp).is_none() && calculate_in_given_out::<D_IT, Y_IT>(&q, j, k, 1000, amp).is_none(), || format!("{q:?}"));
	});
	m.workload("stableswap-sell", 16_000, 600_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let n = p.len();
		let (i, o) = { let i = c.rng.idx(n); let mut o = c.rng.idx(n); if i == o { o = (o + 1) % n; } (i, o) };
		let a = match c.rng.idx(5) { 0 => c.rng.range(1, 1000), 1 => p[i].amount, _ => c.rng.log(1, p[i].amount) };
		let f = fee(&mut c.rng);
		c.log(|| format!("sell {a} of {i}->{o}, fee {f:?}, amp {amp}, {p:?}"));
		let Some(out) = calculate_out_given_in::<D_IT, Y_IT>(&p, i, o, a, amp) else {
			// refusal is right only when the output would not be positive at this precision
			c.event("refused");
			let (xp, iv) = (norm(&p), Inv::new(n, amp));
			let mut xi = xp.clone(); xi[i] += a * scale(&p[i]);
			let y = iv.y_ceil(&others(&xi, o), iv.d_floor(&xp) + 8);
			if y.map_or(false, |y| y + 10 < xp[o]) { c.violate("sell-is-available", "a sell with a positive output was refused".into()); }
			return;
		};
		c.event("sell"); if out > 0 { c.event("sell-nonzero"); c.nontrivial((a, out)); }
		let xp = norm(&p);
		let iv = Inv::new(n, amp);
		if !c.check("sell-within-reserves", out < p[o].amount, || format!("out {out}")) { return; }
		let mut q = p.clone(); q[i].amount += a; q[o].amount -= out;
		let xq = norm(&q);
		let d0 = iv.d_floor(&xp);
		c.check("invariant-never-falls", iv.d_at_least(&xq, d0), || format!("out {out}: D fell below {d0}"));
		// not stingy: the exact balance for an invariant a few units higher bounds the retained balance
		let mut xi = xp.clone(); xi[i] += a * scale(&p[i]);
		let y = iv.y_ceil(&others(&xi, o), d0 + 5).unwrap() + 6;
		let lo = xp[o].saturating_sub(y) / scale(&p[o]);
		c.check("sell-output-exact", out + 2 >= lo, || format!("out {out}, exact at least {lo}"));
		if let Some((of, ff)) = calculate_out_given_in_with_fee::<D_IT, Y_IT>(&p, i, o, a, amp, f) {
			c.event("sell-with-fee");
			c.check("fee-is-deducted", of + ff == out, || format!("{of} + {ff} != {out}"));
			near(c, "fee-exact", ff, w(out) * w(f.deconstruct() as u128), w(M), 0, 0);
		} else { c.violate("fee-available", "fee version refused".into()); }
		c.sample(|| json!({"pool": format!("{p:?}"), "amp": amp.to_string(), "in": a.to_string(), "out": out.to_string()}));
	});
	m.workload("stableswap-buy", 16_000, 600_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let n = p.len();
		let (i, o) = { let i = c.rng.idx(n); let mut o = c.rng.idx(n); if i == o { o = (o + 1) % n; } (i, o) };
		let a = match c.rng.idx(5) { 0 => c.rng.range(1, 1000).min(p[o].amount / 2), _ => c.rng.log(1, p[o].amount - p[o].amount / 10) };
		let f = fee(&mut c.rng);
		c.log(|| format!("buy {a} of {i}->{o}, fee {f:?}, amp {amp}, {p:?}"));
		let Some(inn) = calculate_in_given_out::<D_IT, Y_IT>(&p, i, o, a, amp) else {
			// the price may exceed what the arithmetic can represent
			c.event("refused");
			if a < p[o].amount / 2 && a * scale(&p[o]) > 10 { c.violate("buy-is-available", "a moderate buy was refused".into()); }
			return;
		};
		c.event("buy"); c.nontrivial((a, inn));
		let xp = norm(&p);
		let iv = Inv::new(n, amp);
		let d0 = iv.d_floor(&xp);
		c.check("buy-is-never-free", inn >= 1, || format!("{inn}"));
		let mut q = p.clone();
		q[o].amount -= a;
		let Some(ni) = q[i].amount.checked_add(inn).filter(|v| v.checked_mul(scale(&p[i])).is_some()) else { c.event("huge"); return };
		q[i].amount = ni;
		let xq = norm(&q);
		if xq.iter().any(|v| *v >= 1u128 << 122) { c.event("huge"); return; }
		c.check("invariant-never-falls", iv.d_at_least(&xq, d0), || format!("paid {inn}: D fell below {d0}"));
		let mut xo = xp.clone(); xo[o] -= a * scale(&p[o]);
		if let Some(y) = iv.y_ceil(&others(&xo, i), d0 + 5) {
			let hi = (y + 6).saturating_sub(xp[i]) / scale(&p[i]) + 3;
			c.check("buy-not-overcharged", inn <= hi, || format!("paid {inn}, exact at most {hi}"));
		}
		if let Some((inf, ff)) = calculate_in_given_out_with_fee::<D_IT, Y_IT>(&p, i, o, a, amp, f) {
			c.event("buy-with-fee");
			c.check("fee-is-added", inf == inn + ff, || format!("{inf} != {inn} + {ff}"));
			let e = (w(inn) * w(f.deconstruct() as u128) + w(M - 1)) / w(M);
			c.check("fee-exact", w(ff) == e, || format!("fee {ff} exact {e}"));
		} else { c.violate("fee-available", "fee version refused".into()); }
	});
	m.workload("stableswap-history", 2_500, 100_000, |c| {
		let (mut p, amp) = pool(&mut c.rng);
		let n = p.len();
		let f = fee(&mut c.rng);
		let iv = Inv::new(n, amp);
		for step in 0..8 {
			let (i, o) = { let i = c.rng.idx(n); let mut o = c.rng.idx(n); if i == o { o = (o + 1) % n; } (i, o) };
			let d0 = iv.d_floor(&norm(&p));
			let sell = c.rng.chance(1, 2);
			let (paid, got) = if sell {
				let a = c.rng.log(1, p[i].amount / 3 + 1);
				let Some((g, _)) = calculate_out_given_in_with_fee::<D_IT, Y_IT>(&p, i, o, a, amp, f) else { c.event("refused"); continue };
				(a, g)
			} else {
				let a = c.rng.log(1, p[o].amount / 3 + 1);
				let Some((g, _)) = calculate_in_given_out_with_fee::<D_IT, Y_IT>(&p, i, o, a, amp, f) else { c.event("refused"); continue };
				(g, a)
			};
			c.log(|| format!("{} {i}->{o} paid {paid} got {got}, pool {p:?} amp {amp} fee {f:?}", if sell { "sell" } else { "buy" }));
			p[i].amount += paid; p[o].amount -= got;
			if norm(&p).iter().any(|v| *v >= 1u128 << 110) { return; }
			c.event("trade"); c.distinct("step-shape", (step, n, sell, i, o));
			c.check("invariant-never-falls", iv.d_at_least(&norm(&p), d0), || format!("D fell below {d0}"));
			if got > 0 { if let Some((b, _)) = calculate_out_given_in_with_fee::<D_IT, Y_IT>(&p, o, i, got, amp, f) {
				c.event("round-trip"); c.nontrivial((paid, got, b));
				c.check("round-trip-never-profits", b <= paid, || format!("paid {paid}, got {got}, sold back for {b}"));
			} }
			if c.failed() { return; }
		}
	});
	m.workload("stableswap-prices", 20_000, 500_000, |c| {
		let top = *c.rng.pick(&[27, 27, 27, 31]); let (p, amp) = pool_to(&mut c.rng, top);
		let n = p.len();
		let (i, o) = { let i = c.rng.idx(n); let mut o = c.rng.idx(n); if i == o { o = (o + 1) % n; } (i, o) };
		let f = if c.rng.chance(1, 2) { None } else { Some(fee(&mut c.rng)) };
		let Some(d) = calculate_d::<D_IT>(&p, amp) else { return };
		c.log(|| format!("spot {i}->{o} fee {f:?} amp {amp} {p:?}"));
		let xp = norm(&p);
		// c = D^(n+1) / (n^n P), exact as a rational cn/cd
		let (mut cn, mut cd) = (ww(d), ww(1));
		for x in &xp { cn = cn * ww(d); cd = cd * ww(*x) * ww(n as u128); }
		let ann = ww(amp) * ww(n as u128);
		if let Some(v) = calculate_spot_price_between_two_stable_assets(&p, amp, d, i, o, f) {
			let mut num = ww(xp[i]) * (ann * ww(xp[o]) * cd + cn);
			let mut den = ww(xp[o]) * (ann * ww(xp[i]) * cd + cn);
			if let Some(f) = f { num = num * ww(M); den = den * ww(M - f.deconstruct() as u128); }
			let e = (num * ww(E18) / den).low_u128();
			c.event("spot"); c.nontrivial((v.into_inner(), amp));
			let tol = e / 1_000_000_000 + 4;
			c.check("spot-price-exact", v.into_inner().abs_diff(e) <= tol, || format!("price {v:?}, exact {e}"));
		} else { c.violate("spot-available", "no spot price".into()); }
		let iss = c.rng.log(10u128.pow(18), 10u128.pow(top));
		let sp = calculate_share_price::<D_IT>(&p, amp, iss, o, None);
		c.check("share-price-available", sp.is_some(), || "no share price".into());
		c.check("share-price-with-known-invariant", calculate_share_price::<D_IT>(&p, amp, iss, o, Some(d)) == sp, || format!("{:?} with D given", calculate_share_price::<D_IT>(&p, amp, iss, o, Some(d))));
		let step = c.rng.idx(3);
		c.check("share-price-of-no-asset", calculate_share_price::<D_IT>(&p, amp, iss, n + step, None).is_none() && calculate_share_price::<D_IT>(&p[..1], amp, iss, 0, None).is_none(), || "priced an asset that is not there".into());
		if let Some(all) = calculate_share_prices::<D_IT>(&p, amp, iss) { c.check("all-share-prices", all.len() == n && Some(all[o]) == sp, || format!("{all:?}")); } else { c.violate("share-price-available", "no share prices".into()); }
		if let Some((sn, sd)) = sp {
			// dD/dx_o / issuance, in asset units per share
			let dd = ww(d);
			let xann = ann * ww(xp[o]);
			let c_ = cn / cd;
			let num = dd * xann + ww(xp[o]) * c_ * ww(n as u128 + 1) - ww(xp[o]) * dd;
			let den = ww(iss) * (xann + c_) * ww(scale(&p[o]));
			// cross-multiplied relative error below 1e-9
			let (a, b) = (num * ww(sd), den * ww(sn));
			let diff = if a > b { a - b } else { b - a };
			c.event("share-price");
			if sn > 10u128.pow(12) && sd > 10u128.pow(12) { c.check("share-price-exact", diff <= b / ww(1_000_000_000), || format!("share price {sn}/{sd}")); }
		}
	});
	m.workload("stableswap-amplification", 200_000, 1_000_000, |c| {
		let r = &mut c.rng;
		// products up to 2^127: beyond that the step saturates
		let (top, last) = match r.idx(4) { 0 => (u64::MAX as u128, 1u128 << 62), 1 => (1u128 << 90, u32::MAX as u128), _ => (10_000, u32::MAX as u128) };
		let (a0, a1) = (r.log(1, top), r.log(1, top));
		let b0 = r.log(0, last);
		let b1 = match r.idx(4) { 0 => r.log(0, last), _ => b0 + r.log(0, 1_000_000) };
		let at = match r.idx(4) { 0 => b0, 1 => b1, 2 => r.log(0, last), _ => r.range(b0.min(b1), b0.max(b1)) };
		c.log(|| format!("amplification {a0}->{a1} over {b0}..{b1} at {at}"));
		let v = calculate_amplification(a0, a1, b0, b1, at);
		c.event("case"); c.nontrivial((a0, a1, b0, b1, at));
		c.check("amplification-in-range", v >= a0.min(a1) && v <= a0.max(a1), || format!("{v}"));
		let e = if at < b0 || b1 <= b0 { a0 } else if at >= b1 { a1 } else { let s = a0.abs_diff(a1) * (at - b0) / (b1 - b0); if a1 > a0 { a0 + s } else { a0 - s } };
		c.check("amplification-linear", v == e, || format!("{v}, exact {e}"));
	});
	m.expect("stableswap-sell/sell-nonzero", 10_000);
	m.expect("stableswap-buy/buy", 10_000);
	m.expect("stableswap-history/round-trip", 3_000);
	m.expect("stableswap-prices/spot", 10_000);
	m.expect("stableswap-prices/share-price", 10_000);
}

/// D per share must not fall: D1/S1 >= D0/S0 with D known to `slack` units.
fn value_per_share(c: &Ctx, iv: &Inv, p0: &[AssetReserve], s0: u128, p1: &[AssetReserve], s1: u128, slack: u128) {
	let d0 = iv.d_floor(&norm(p0));
	let need = w(d0) * w(s1) / w(s0);
	if need > w(u128::MAX >> 6) { return; }
	c.check("share-value-never-falls", iv.d_at_least(&norm(p1), need.low_u128().saturating_sub(slack)), || format!("D per share fell: D0 {d0}, issuance {s0} -> {s1}, D1 {}", iv.d_floor(&norm(p1))));
}
fn imbalance_fee(f: Permill, n: usize) -> u128 { (w(f.deconstruct() as u128) * w(10u128.pow(12)) * w(n as u128) / w(4 * (n as u128 - 1))).low_u128() }

/// Reserves after a fee are rounded to a unit; in imbalanced pools a unit of the scarce asset is worth many of another.
fn tilted(p: &[AssetReserve]) -> bool { let x = norm(p); x.iter().max() > x.iter().min().map(|v| v.saturating_mul(4)).as_ref() }
fn wobble(x: u128, up: bool) -> u128 { if up { x.saturating_add(1) } else { x.saturating_sub(1).max(x.min(1)) } }

pub fn liquidity(m: &mut Monitor) {
	m.workload("stableswap-add", 12_000, 400_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let n = p.len();
		let iv = Inv::new(n, amp);
		let f = if c.rng.chance(1, 8) { Permill::from_parts(c.rng.ppm(1_000_000)) } else { fee(&mut c.rng) };
		let one = c.rng.idx(n);
		let d0 = iv.d_floor(&norm(&p));
		let s0 = match c.rng.idx(3) { 0 => d0, 1 => c.rng.range(d0 / 2 + 1, d0), _ => c.rng.log(10u128.pow(15), 10u128.pow(27)) };
		let kind = c.rng.idx(3);
		let mut q = p.clone();
		for k in 0..n {
			let add = match kind { 0 => if k == one { c.rng.log(1, p[k].amount) } else { 0 }, 1 => c.rng.log(0, p[k].amount), _ => p[k].amount / 7 };
			q[k].amount += add;
		}
		c.log(|| format!("add {p:?} -> {q:?} amp {amp} fee {f:?} issuance {s0}"));
		let sh = calculate_shares::<D_IT>(&p, &q, amp, s0, f);
		let d1 = iv.d_floor(&norm(&q));
		let Some(sh) = sh else {
			c.event("refused");
			// dust additions may round to nothing; a fee may eat a one-sided dust add
			if d1 > d0 + d0 / 1_000_000 && f.deconstruct() < 100_000 { c.violate("add-is-available", "a sizeable addition was refused".into()); }
			return;
		};
		c.event("add"); c.nontrivial((sh, s0)); c.distinct("shape", (n, kind, f.is_zero()));
		value_per_share(c, &iv, &p, s0, &q, s0 + sh, 0);
		// reference with the imbalance fee
		let ff = imbalance_fee(f, n);
		let reference = |d0: u128, d1: u128, up: bool| -> Option<U512> {
			let adj: Vec<AssetReserve> = (0..n).map(|k| { let ideal = (w(d1) * w(p[k].amount) / w(d0)).low_u128(); let diff = q[k].amount.abs_diff(ideal); let fa = (w(ff) * w(diff) / w(E18)).low_u128(); AssetReserve::new(wobble(q[k].amount.saturating_sub(fa), up), q[k].decimals) }).collect();
			if adj.iter().any(|a| a.amount == 0) { return None; }
			Some(w(iv.d_floor(&norm(&adj))))
		};
		if let (Some(a), Some(b), Some(e)) = (reference(d0, d1, false), reference(d0 + 4, d1.saturating_sub(2), true), if tilted(&p) { reference(d0, d1, true) } else { Some(U512::zero()) }) {
			let e = if tilted(&p) { e } else { a }; let (lo, hi) = (a.min(b).min(e), a.max(b).max(e));
			// fee rounding of one raw unit moves the normalised invariant by up to one unit scale per asset
			let unit: u128 = (0..n).map(|k| scale(&p[k])).max().unwrap() * 4 * n as u128;
			let hi_s = w(s0) * ((hi + w(unit)).saturating_sub(w(d0))) / w(d0) + w(2);
			let lo_s = w(s0) * (lo.saturating_sub(w(d0 + 8 + unit))) / w(d0 + 4);
			c.check("add-shares-exact", w(sh) <= hi_s && w(sh) + w(2) >= lo_s, || format!("shares {sh}, exact in [{lo_s}, {hi_s}]"));
		}
		if f > Permill::zero() { match calculate_shares::<D_IT>(&p, &q, amp, s0, Permill::zero()) { Some(nf) => { c.check("fee-costs-shares", sh <= nf, || format!("with fee {sh} > without {nf}")); } None => c.violate("add-is-available", "refused without a fee".into()) } }
		// and taking it straight back never profits
		if sh > 0 && sh <= s0 + sh { for k in 0..n { if kind == 0 && k == one {
			if let Some((back, _)) = calculate_withdraw_one_asset::<D_IT, Y_IT>(&q, sh, k, s0 + sh, amp, f) {
				c.event("add-withdraw");
				c.check("add-then-withdraw-never-profits", back <= q[k].amount - p[k].amount, || format!("added {}, got back {back}", q[k].amount - p[k].amount));
			}
		} } }
		c.sample(|| json!({"pool": format!("{p:?}"), "to": format!("{q:?}"), "shares": sh.to_string()}));
	});
	m.workload("stableswap-first-add", 6_000, 100_000, |c| {
		let (q, amp) = pool(&mut c.rng);
		let p: Vec<AssetReserve> = q.iter().map(|a| AssetReserve::new(0, a.decimals)).collect();
		let f = fee(&mut c.rng);
		c.log(|| format!("first add {q:?} amp {amp}"));
		let Some(sh) = calculate_shares::<D_IT>(&p, &q, amp, 0, f) else { return c.violate("add-is-available", "first addition refused".into()); };
		let d = Inv::new(q.len(), amp).d_floor(&norm(&q));
		c.event("first"); c.nontrivial(sh);
		c.check("first-shares-equal-invariant", sh <= d + 2 && sh + 4 >= d, || format!("shares {sh}, D {d}"));
	});
	m.workload("stableswap-withdraw-one", 8_000, 400_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let n = p.len();
		let iv = Inv::new(n, amp);
		let f = fee(&mut c.rng);
		let d0 = iv.d_floor(&norm(&p));
		let s0 = match c.rng.idx(3) { 0 => d0, 1 => c.rng.range(d0 / 2 + 1, d0), _ => c.rng.log(10u128.pow(15), 10u128.pow(27)) };
		let sh = c.rng.log(1, s0 / 2);
		let k = c.rng.idx(n);
		c.log(|| format!("withdraw {sh} of {s0} shares in asset {k}: {p:?} amp {amp} fee {f:?}"));
		let more = s0 + c.rng.range(1, 3); c.check("no-more-than-all-shares", calculate_withdraw_one_asset::<D_IT, Y_IT>(&p, more, k, s0, amp, f).is_none() && calculate_withdraw_one_asset::<D_IT, Y_IT>(&p, s0.saturating_mul(2), k, s0, amp, f).is_none(), || format!("of {s0} shares"));
		let Some((out, fe)) = calculate_withdraw_one_asset::<D_IT, Y_IT>(&p, sh, k, s0, amp, f) else {
			c.event("refused");
			if sh > s0 / 100_000 && f.deconstruct() < 100_000 { c.violate("withdraw-is-available", "a sizeable withdrawal was refused".into()); }
			return;
		};
		c.event("withdraw"); c.nontrivial((sh, out, fe)); c.distinct("shape", (n, k, f.is_zero()));
		if !c.check("withdraw-within-reserves", out < p[k].amount, || format!("{out}")) { return; }
		let mut q = p.clone(); q[k].amount -= out;
		value_per_share(c, &iv, &p, s0, &q, s0 - sh, 0);
		// without fee the payout is the exact one-sided withdrawal
		if let Some((nf, nff)) = calculate_withdraw_one_asset::<D_IT, Y_IT>(&p, sh, k, s0, amp, Permill::zero()) {
			c.check("no-fee-when-zero", nff <= 1, || format!("fee {nff} at fee rate 0"));
			c.check("fee-costs-payout", out <= nf && out + fe <= nf + 2 && out + fe + 2 >= nf, || format!("out {out} fee {fe}, without fee {nf}"));
			let d1 = (w(d0) - w(d0) * w(sh) / w(s0)).low_u128() + 8;
			if let Some(y) = iv.y_ceil(&others(&norm(&p), k), d1) {
				let lo = norm(&p)[k].saturating_sub(y + 8) / scale(&p[k]);
				c.check("withdraw-not-stingy", nf + 2 >= lo, || format!("out {nf}, exact at least {lo}"));
			}
		} else { c.violate("withdraw-is-available", "refused without a fee".into()); }
		// reference with fee
		let ff = imbalance_fee(f, n);
		let xp = norm(&p);
		let reference = |d0: u128, up: bool| -> Option<u128> {
			let d1 = (w(d0) - w(sh) * w(d0) / w(s0)).low_u128();
			let y = iv.y_ceil(&others(&xp, k), d1)?;
			let red: Vec<u128> = (0..n).map(|j| {
				let part = (w(xp[j]) * w(d1) / w(d0)).low_u128();
				let e = if j == k { part.checked_sub(y) } else { xp[j].checked_sub(part) };
				e.map(|e| { let x = xp[j] - (w(ff) * w(e) / w(E18)).low_u128(); if j == k { x } else { wobble(x, up) } })
			}).collect::<Option<Vec<_>>>()?;
			let y1 = iv.y_ceil(&others(&red, k), d1)?;
			red[k].checked_sub(y1)
		};
		if let (Some(a), Some(b), Some(e)) = (reference(d0, false), reference(d0 + 5, true), if tilted(&p) { reference(d0, true) } else { Some(0) }) {
			let e = if tilted(&p) { e } else { a }; let (lo, hi) = (a.min(b).min(e), a.max(b).max(e));
			let slack = 24 + (hi - lo);
			let (lo, hi) = (lo.saturating_sub(slack) / scale(&p[k]), (hi + slack) / scale(&p[k]));
			c.check("withdraw-exact", out <= hi + 1 && out + 2 >= lo, || format!("out {out}, exact in [{lo}, {hi}]"));
		}
	});
	m.workload("stableswap-withdraw-amount", 10_000, 300_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let n = p.len();
		let iv = Inv::new(n, amp);
		let f = fee(&mut c.rng);
		let d0 = iv.d_floor(&norm(&p));
		let s0 = match c.rng.idx(3) { 0 => d0, 1 => c.rng.range(d0 / 2 + 1, d0), _ => c.rng.log(10u128.pow(15), 10u128.pow(27)) };
		let k = c.rng.idx(n);
		let a = c.rng.log(1, p[k].amount / 2);
		c.log(|| format!("withdraw exactly {a} of asset {k}: issuance {s0} {p:?} amp {amp} fee {f:?}"));
		let Some(sh) = calculate_shares_for_amount::<D_IT>(&p, k, a, amp, s0, f) else {
			c.event("refused");
			if a > p[k].amount / 100_000 && f.deconstruct() < 100_000 { c.violate("withdraw-is-available", "a sizeable withdrawal was refused".into()); }
			return;
		};
		c.event("withdraw"); c.nontrivial((sh, a));
		c.check("withdraw-is-never-free", sh >= 1, || "0 shares".into());
		if sh < s0 {
			let mut q = p.clone(); q[k].amount -= a;
			value_per_share(c, &iv, &p, s0, &q, s0 - sh, 8);
		}
		let mut q = p.clone(); q[k].amount -= a;
		let ff = imbalance_fee(f, n);
		let reference = |d0: u128, d1: u128, up: bool| -> u128 {
			let adj: Vec<AssetReserve> = (0..n).map(|j| { let ideal = (w(d1) * w(p[j].amount) / w(d0)).low_u128(); let diff = q[j].amount.abs_diff(ideal); let fa = (w(ff) * w(diff) / w(E18)).low_u128(); AssetReserve::new(wobble(q[j].amount.saturating_sub(fa), up), q[j].decimals) }).collect();
			iv.d_floor(&norm(&adj))
		};
		let d1 = iv.d_floor(&norm(&q));
		let mut all = vec![reference(d0, d1 + 4, false), reference(d0 + 4, d1, true)]; if tilted(&p) { all.push(reference(d0, d1 + 4, true)); all.push(reference(d0 + 4, d1, false)); } let (x, y) = (*all.iter().min().unwrap(), *all.iter().max().unwrap());
		let unit: u128 = (0..n).map(|k| scale(&p[k])).max().unwrap() * 4 * n as u128;
		let hi = w(s0) * w((d0 + 8 + unit).saturating_sub(x.min(y))) / w(d0) + w(2);
		let lo = w(s0) * w(d0.saturating_sub(x.max(y) + 8 + unit)) / w(d0 + 4);
		c.check("withdraw-shares-exact", w(sh) <= hi && w(sh) >= lo, || format!("burned {sh}, exact in [{lo}, {hi}]"));
	});
	m.workload("stableswap-add-for-shares", 7_000, 300_000, |c| {
		let (p, amp) = pool(&mut c.rng);
		let n = p.len();
		let iv = Inv::new(n, amp);
		let f = fee(&mut c.rng);
		let d0 = iv.d_floor(&norm(&p));
		let s0 = match c.rng.idx(3) { 0 => d0, 1 => c.rng.range(d0 / 2 + 1, d0), _ => c.rng.log(10u128.pow(15), 10u128.pow(27)) };
		let sh = c.rng.log(1, s0 / 4);
		let k = c.rng.idx(n);
		c.log(|| format!("pay in asset {k} for {sh} shares: issuance {s0} {p:?} amp {amp} fee {f:?}"));
		let Some((a, fe)) = calculate_add_one_asset::<D_IT, Y_IT>(&p, sh, k, s0, amp, f) else {
			c.event("refused");
			// the fee is taken off the reserve of the asset paid in, and has to fit in there
			let fits = calculate_add_one_asset::<D_IT, Y_IT>(&p, sh, k, s0, amp, Permill::zero()).map_or(true, |x| w(imbalance_fee(f, n)) * w(x.0) / w(E18) < w(p[k].amount / 2));
			if fits && sh > s0 / 100_000 && f.deconstruct() < 100_000 { c.violate("add-is-available", "paying for sizeable shares was refused".into()); }
			return;
		};
		c.event("add"); c.nontrivial((sh, a));
		let more = s0 + c.rng.range(1, 3); c.check("no-more-than-double", calculate_add_one_asset::<D_IT, Y_IT>(&p, more, k, s0, amp, f).is_none(), || format!("{more} of {s0} shares"));
		if f.is_zero() { c.check("no-fee-when-zero", fe <= 1, || format!("fee {fe} at fee rate 0")); }
		else if let Some((nf, _)) = calculate_add_one_asset::<D_IT, Y_IT>(&p, sh, k, s0, amp, Permill::zero()) { c.check("fee-costs-payment", a >= nf && fe <= a - nf + 2, || format!("pay {a} with fee {fe}, without fee {nf}")); } else { c.violate("add-is-available", "refused without a fee".into()); }
		// reference with fee: what the invariant asks after every reserve is charged its imbalance
		let (ff, xp) = (imbalance_fee(f, n), norm(&p));
		let reference = |d0: u128, up: bool| -> Option<(u128, u128)> {
			let d1 = (w(d0) + w(sh) * w(d0) / w(s0)).low_u128();
			let y = iv.y_ceil(&others(&xp, k), d1)?;
			let red: Vec<u128> = (0..n).map(|j| {
				let part = (w(xp[j]) * w(d1) / w(d0)).low_u128();
				let e = if j == k { y.checked_sub(part) } else { part.checked_sub(xp[j]) };
				e.and_then(|e| xp[j].checked_sub((w(ff) * w(e) / w(E18)).low_u128())).map(|x| if j == k { x } else { wobble(x, up) })
			}).collect::<Option<Vec<_>>>()?;
			let y1 = iv.y_ceil(&others(&red, k), d1)?;
			Some((y1.checked_sub(red[k])?, y1.saturating_sub(y)))
		};
		if let (Some((a1, f1)), Some((a2, f2)), Some((a3, f3))) = (reference(d0, false), reference(d0 + 5, true), if tilted(&p) { reference(d0, true) } else { Some((0, 0)) }) {
			let (a3, f3) = if tilted(&p) { (a3, f3) } else { (a1, f1) };
			c.event("referenced");
			let (lo, hi, u) = (a1.min(a2).min(a3), a1.max(a2).max(a3), scale(&p[k]));
			let slack = 24 + (hi - lo);
			c.check("add-payment-exact", a <= (hi + slack) / u + 2 && a + 1 >= lo.saturating_sub(slack) / u, || format!("pays {a}, exact in [{lo}, {hi}] / {u}"));
			let (fl, fh) = (f1.min(f2).min(f3), f1.max(f2).max(f3)); let slack = 24 + (hi - lo) + (fh - fl);
			c.check("add-fee-exact", fe <= (fh + slack) / u + 1 && fe + 1 >= fl.saturating_sub(slack) / u, || format!("fee {fe}, exact in [{fl}, {fh}] / {u}"));
		}
		c.check("add-is-never-free", a >= 1 || p[k].decimals == 18 && sh <= 4, || format!("{a}"));
		let mut q = p.clone(); q[k].amount += a;
		if norm(&q).iter().any(|v| *v >= 1u128 << 110) { return; }
		value_per_share(c, &iv, &p, s0, &q, s0 + sh, 0);
		let d1 = (w(d0) + w(d0) * w(sh) / w(s0)).low_u128() + 8;
		if f.is_zero() { if let Some(y) = iv.y_ceil(&others(&norm(&p), k), d1) {
			let hi = (y + 10).saturating_sub(norm(&p)[k]) / scale(&p[k]) + 2;
			c.check("add-not-overcharged", a <= hi, || format!("paid {a}, exact at most {hi}"));
		} }
	});
	m.expect("stableswap-add/add", 6_000);
	m.expect("stableswap-add/add-withdraw", 800);
	m.expect("stableswap-withdraw-one/withdraw", 6_000);
	m.expect("stableswap-withdraw-amount/withdraw", 5_000);
	m.expect("stableswap-add-for-shares/add", 5_000);
	m.expect("stableswap-add-for-shares/referenced", 4_000);
}

fn hostile(r: &mut Rng) -> u128 { match r.idx(6) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } }
pub fn total(m: &mut Monitor) {
	m.workload("stableswap-any-input", 20_000, 1_000_000, |c| {
		let r = &mut c.rng;
		let n = r.idx(6);
		let p: Vec<AssetReserve> = (0..n).map(|_| AssetReserve::new(hostile(r), *r.pick(&[0u8, 6, 12, 18, 19, 24, 38, 60, 255]))).collect();
		let q: Vec<AssetReserve> = (0..(if r.chance(1, 8) { r.idx(6) } else { n })).map(|_| AssetReserve::new(hostile(r), *r.pick(&[0u8, 6, 12, 18, 24, 255]))).collect();
		let (amp, a, s) = (hostile(r), hostile(r), hostile(r));
		let (i, o) = (r.idx(7), r.idx(7));
		let f = Permill::from_parts(r.ppm(1_000_000));
		let (sa, sb, hb, hc) = (*r.pick(&[0u32, 1, 99]), *r.pick(&[0u32, 1, 99]), hostile(r), hostile(r));
		c.log(|| format!("p={p:?} q={q:?} amp={amp} a={a} s={s} i={i} o={o} f={f:?}"));
		let mut some = 0u32;
		some += calculate_out_given_in_with_fee::<D_IT, Y_IT>(&p, i, o, a, amp, f).is_some() as u32;
		some += calculate_in_given_out_with_fee::<D_IT, Y_IT>(&p, i, o, a, amp, f).is_some() as u32;
		some += calculate_shares::<D_IT>(&p, &q, amp, s, f).is_some() as u32;
		some += calculate_shares_for_amount::<D_IT>(&p, i, a, amp, s, f).is_some() as u32;
		some += calculate_withdraw_one_asset::<D_IT, Y_IT>(&p, a, i, s, amp, f).is_some() as u32;
		some += calculate_add_one_asset::<D_IT, Y_IT>(&p, a, i, s, amp, f).is_some() as u32;
		some += calculate_d::<D_IT>(&p, amp).is_some() as u32;
		some += calculate_share_prices::<D_IT>(&p, amp, s).is_some() as u32;
		some += calculate_spot_price_between_two_stable_assets(&p, amp, a, i, o, Some(f)).is_some() as u32;
		let ids: Vec<(u32, AssetReserve)> = p.iter().enumerate().map(|(k, v)| (k as u32, *v)).collect();
		some += calculate_spot_price(99, ids, amp, sa, sb, s, a, Some(f)).is_some() as u32;
		let _ = calculate_amplification(amp, a, s, hb, hc);
		c.event("case"); c.distinct("answered", some); c.nontrivial((a, s, amp));
	});
}

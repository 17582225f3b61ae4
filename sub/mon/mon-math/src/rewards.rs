//! Liquidity mining, staking, dynamic fee, rate limiter and subpool arithmetic.
use crate::*;
use hydra_dx_math::dynamic_fees::types::{FeeParams, OracleEntry};
use hydra_dx_math::{dynamic_fees, liquidity_mining as lm, rate_limiter as rl, staking as st};
use sp_arithmetic::{Perbill, Permill};

fn fx(v: u128) -> FixedU128 { FixedU128::from_inner(v) }
fn bal(r: &mut Rng) -> u128 { match r.idx(12) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } }
/// floor(a*b/E18)
fn mulf(a: u128, b: u128) -> Option<u128> { fit(w(a) * w(b) / w(E18)) }

pub fn mining(m: &mut Monitor) {
	m.workload("lm-loyalty", 200_000, 8_000_000, |c| {
		let t = c.rng.log(0, u32::MAX as u128) as u32; let sc = match c.rng.idx(5) { 0 => 0, 1 => u32::MAX, _ => c.rng.log(0, u32::MAX as u128) as u32 };
		let b = match c.rng.idx(5) { 0 => 0, 1 => E18, _ => c.rng.range(0, E18) };
		c.log(|| format!("periods {t}, scale {sc}, initial {b}/1e18"));
		match lm::calculate_loyalty_multiplier(t, fx(b), sc) {
			Ok(v) => {
				let v = v.into_inner(); c.event("multiplier"); c.nontrivial((t, sc, b));
				let (bs, ts, ss) = (w(b) * w(sc as u128), w(t as u128) * w(E18), w(sc as u128) * w(E18));
				let e = ((bs + ts) * w(E18) / (ts + ss)).low_u128();
				c.check("loyalty-exact", v <= e + 1 && v + 1 >= e, || format!("{v}, exact {e}"));
				c.check("loyalty-bounded", v <= E18 && v + 1 >= b.min(E18), || format!("{v}"));
				if t < u32::MAX { let n = lm::calculate_loyalty_multiplier(t + 1, fx(b), sc).map(|x| x.into_inner()).unwrap_or(0); c.check("loyalty-monotone", n >= v, || format!("{v} then {n}")); }
			}
			Err(_) => { c.check("loyalty-available", t == 0 && sc == 0, || "refused".into()); }
		}
	});
	m.workload("lm-rewards", 200_000, 8_000_000, |c| {
		let r = &mut c.rng;
		let shares = r.log(1, 10u128.pow(30));
		let start = r.log(0, 10u128.pow(26)); let now = start + r.log(0, 10u128.pow(26));
		let lf = match r.idx(5) { 0 => 0, 1 => E18, _ => r.range(0, E18) };
		let maxr = mulf(now - start, shares);
		let claimed = match (r.idx(3), maxr) { (0, Some(v)) => r.range(0, (w(v) * w(lf) / w(E18)).low_u128()), (1, _) => 0, _ => r.log(0, 10u128.pow(30)) };
		c.log(|| format!("shares {shares} rps {start}->{now} loyalty {lf} claimed {claimed}"));
		let rw = lm::calculate_reward(fx(start), fx(now), shares);
		c.check("reward-exact", rw.as_ref().ok().copied() == maxr, || format!("{rw:?} exact {maxr:?}"));
		c.check("reward-never-negative", lm::calculate_reward(fx(now + 1), fx(now), shares).is_err(), || "a falling index paid".into());
		match lm::calculate_user_reward(fx(start), shares, claimed, fx(now), fx(lf)) {
			Ok((user, un)) => {
				c.event("user-reward"); c.nontrivial((shares, start, now, lf, claimed));
				let mx = maxr.unwrap();
				if mx > 0 {
					let claimable = mulf(mx, lf).unwrap();
					c.check("claim-split-exact", user + claimed == claimable && un == mx - claimable, || format!("user {user} unclaimable {un} of {mx}"));
				} else { c.check("nothing-earned-nothing-paid", user == 0 && un == 0, || format!("{user} {un}")); }
			}
			Err(_) => { c.event("user-refused"); c.check("user-reward-available", maxr.map_or(true, |mx| (w(mx) * w(lf) / w(E18)) < w(claimed)), || "refused".into()); }
		}
		// index growth: the pot's reward spread over the shares never pays out more than was put in
		let (rwd, tot, acc) = { let r = &mut c.rng; (r.log(0, 10u128.pow(30)), r.log(0, 10u128.pow(30)), r.log(0, 10u128.pow(36))) };
		match lm::calculate_accumulated_rps(fx(acc), tot, rwd) {
			Ok(v) => { c.event("rps"); let d = v.into_inner().wrapping_sub(acc); c.check("rps-exact", tot > 0 && w(d) == w(rwd) * w(E18) / w(tot.max(1)), || format!("{v:?}")); c.check("rps-solvent", w(d) * w(tot) <= w(rwd) * w(E18), || format!("{d}")); }
			Err(_) => { c.check("rps-available", tot == 0 || w(rwd) * w(E18) / w(tot) + w(acc) > w(u128::MAX), || "refused".into()); }
		}
		let mult = c.rng.log(0, 1000 * E18);
		let vs = lm::calculate_valued_shares(shares, claimed);
		c.check("valued-shares-exact", vs.ok() == shares.checked_mul(claimed), || "".into());
		c.check("global-shares-exact", lm::calculate_global_farm_shares(rwd, fx(mult)).ok() == mulf(rwd, mult), || "".into());
		// yield farm share of the global farm
		let (yz, vsh) = (c.rng.log(0, 10u128.pow(24)), c.rng.log(1, 10u128.pow(24))); let gz = yz + c.rng.log(0, 10u128.pow(22));
		let yr = lm::calculate_yield_farm_rewards(fx(yz), fx(gz), fx(mult), vsh);
		if let Some(y) = mulf(vsh, mult).and_then(|st| mulf(gz - yz, st)) { c.check("yield-rewards-available", yr.is_ok() || w(y) * w(E18) / w(vsh) > w(u128::MAX), || "refused".into()); }
		if gz > yz { c.check("rewards-never-run-backwards", lm::calculate_yield_farm_rewards(fx(gz), fx(yz), fx(mult), vsh).is_err(), || format!("from {gz} to {yz}")); }
		if let Ok((d, y)) = yr {
			c.event("yield-rewards");
			let stake = mulf(vsh, mult).unwrap();
			c.check("yield-rewards-exact", Some(y) == mulf(gz - yz, stake) && w(d.into_inner()) == w(y) * w(E18) / w(vsh), || format!("{d:?} {y}"));
		}
		let (tz, pa, yp, cap) = { let r = &mut c.rng; (r.log(0, 10u128.pow(30)), r.log(0, 100 * E18), r.log(0, E18), r.log(0, 10u128.pow(30))) };
		let per = c.rng.log(0, 10_000_000) as u32;
		match lm::calculate_global_farm_rewards(tz, fx(pa), fx(yp), cap, per) {
			Ok(g) => {
				c.event("global-rewards");
				let adj = mulf(tz, pa).unwrap();
				let e = (w(adj) * w(yp) * w(per as u128) / w(E18)).min(w(cap) * w(per as u128));
				c.check("global-rewards-exact", w(g) == e, || format!("{g}, exact {e}"));
			}
			Err(_) => { c.check("global-rewards-available", w(cap) * w(per as u128) > w(u128::MAX) || w(tz) * w(pa) / w(E18) * w(yp) / w(E18) * w(per as u128) >= w(u128::MAX >> 1), || "refused".into()); }
		}
	});
	m.expect("lm-loyalty/multiplier", 150_000); m.expect("lm-rewards/user-reward", 60_000); m.expect("lm-rewards/global-rewards", 100_000);
}

pub fn staking(m: &mut Monitor) {
	m.workload("staking-math", 200_000, 8_000_000, |c| {
		let r = &mut c.rng;
		let (acc, pend, tot) = (r.log(0, 10u128.pow(36)), r.log(0, 10u128.pow(30)), r.log(0, 10u128.pow(30)));
		let (pts, cur, inc, sw, mins) = (r.log(0, 10u128.pow(12)), r.log(0, 10u128.pow(25)), r.log(0, 10u128.pow(25)), r.range(0, 255) as u8, r.log(0, 1000));
		c.log(|| format!("rps {acc} pending {pend} stake {tot}; points {pts} stake {cur} + {inc} weight {sw} min {mins}"));
		let v = st::calculate_accumulated_rps(fx(acc), pend, tot).map(|x| x.into_inner());
		let e = if tot == 0 { None } else { fit(w(acc) + w(pend) * w(E18) / w(tot)) };
		c.event("rps"); c.nontrivial((acc, pend, tot)); c.check("rps-exact", v == e, || format!("{v:?}, exact {e:?}"));
		let s = st::calculate_slashed_points(pts, cur, inc, sw, mins);
		let e = if cur == 0 || sw == 0 || w(inc) * w(pts) > w(u128::MAX) || w(cur) * w(sw as u128) > w(u128::MAX) { None } else { Some((inc * pts / (cur * sw as u128)).max(mins).min(pts)) };
		c.check("slash-exact", s == e, || format!("{s:?}, exact {e:?}"));
		if let Some(s) = s { c.event("slash"); c.check("slash-never-exceeds-points", s <= pts && (s >= mins || s == pts), || format!("{s}")); }
		let r = &mut c.rng;
		let (at, now, tp, tw, ap, aw, sl) = (r.log(0, 1_000_000), r.log(0, 1_000_000), r.range(0, 255) as u8, r.ppm(1_000_000), r.log(0, 10u128.pow(12)), r.range(0, 1_000_000_000) as u32, r.log(0, 10u128.pow(9)));
		let p = st::calculate_points(at, now, tp, Permill::from_parts(tw), ap, Perbill::from_parts(aw), sl);
		let e = now.checked_sub(at).map(|d| d * tp as u128 * tw as u128 / 1_000_000 + (w(ap) * w(aw as u128) / w(1_000_000_000)).low_u128()).and_then(|x| x.checked_sub(sl));
		c.check("points-exact", p == e, || format!("{p:?}, exact {e:?}"));
		if p.is_some() { c.event("points"); }
		let (block, len) = (c.rng.log(0, 10u128.pow(12)), c.rng.log(1, 10u128.pow(6)));
		c.check("period-number", st::calculate_period_number(std::num::NonZeroU128::new(len).unwrap(), block) == block / len, || "".into());
		// sigmoid: S(x) = (ax)^4 / ((ax)^4 + b), in [0, 1], never decreasing
		let (x, a, b) = { let r = &mut c.rng; (r.log(0, 10u128.pow(7)), r.log(1, E18), r.log(1, u32::MAX as u128) as u32) };
		let f = |x: u128| st::sigmoid(x, fx(a), b).map(|v| v.into_inner());
		if a * x < 100_000 * E18 { c.check("sigmoid-available", f(x).is_some(), || format!("S({x}) refused")); }
		if let Some(v) = f(x) {
			c.event("sigmoid"); c.nontrivial((x, a, b));
			let ax = w(a) * w(x);
			let ax4 = ww_of(ax); let ax4 = ax4 * ax4 * ax4 * ax4; // scaled by 1e72
			let e18 = ww(E18);
			let e = ax4 * e18 / (ax4 + ww(b as u128) * e18 * e18 * e18 * e18);
			c.check("sigmoid-below-one", v <= E18, || format!("{v}"));
			// (ax)^4 is computed with 18 decimals
			let tol = 4u128;
			let d = if ww(v) > e { ww(v) - e } else { e - ww(v) };
			c.maximum("sigmoid-error", d.low_u128());
			c.check("sigmoid-exact", d <= ww(tol), || format!("S({x}) = {v}, exact {e}"));
			if let Some(n) = f(x + 1 + c.rng.log(1, 1000)) { c.check("sigmoid-monotone", n + 2 >= v, || format!("{v} then {n}")); }
		}
		let (hi, lo, stake) = { let r = &mut c.rng; let lo = r.log(0, 10u128.pow(24)); (lo + r.log(0, 10u128.pow(22)), lo, r.log(0, 10u128.pow(30))) };
		c.check("rewards-exact", st::calculate_rewards(fx(hi), fx(lo), stake) == mulf(hi - lo, stake) && (hi == lo || st::calculate_rewards(fx(lo), fx(hi), stake).is_none()), || "".into());
		let (am, pc) = (bal(&mut c.rng), c.rng.range(0, E18));
		let q = st::calculate_percentage_amount(am, fx(pc));
		c.check("percentage-exact", w(q) == w(am) * w(pc) / w(E18) && q <= am, || format!("{q}"));
		let (x, y, z) = (bal(&mut c.rng), bal(&mut c.rng), bal(&mut c.rng));
		c.check("total-rewards-exact", st::calculate_total_rewards(x, y, z) == sat(w(x) + w(y) + w(z)), || "".into());
	});
	m.expect("staking-math/slash", 60_000); m.expect("staking-math/points", 40_000); m.expect("staking-math/sigmoid", 100_000);
}
fn ww_of(x: U512) -> U1024 { let mut a = [0u8; 64]; x.to_little_endian(&mut a); U1024::from_little_endian(&a) }

pub fn fees(m: &mut Monitor) {
	m.workload("dynamic-fee", 300_000, 10_000_000, |c| {
		let r = &mut c.rng;
		let lo = r.ppm(300_000); let hi = r.range(lo as u128, 1_000_000) as u32;
		let p0 = r.range(lo as u128, hi as u128) as u32;
		let prev = if r.chance(1, 6) { r.ppm(1_000_000) } else { p0 };
		let (vi, vo, l) = match r.idx(6) { 0 => (bal(r), bal(r), bal(r)), _ => { let l = r.log(1, 10u128.pow(30)); (r.log(0, l), r.log(0, l), l) } };
		let decay = match r.idx(4) { 0 => 0, 1 => r.log(0, 10 * E18), _ => r.log(0, E18 / 1000) };
		let amp = match r.idx(4) { 0 => 0, 1 => r.log(0, u128::MAX), _ => r.range(0, 20 * E18) };
		let diff = match r.idx(4) { 0 => 1, 1 => 0, 2 => u128::MAX, _ => r.log(1, 1_000_000) };
		c.log(|| format!("in {vi} out {vo} liq {l} prev {prev}ppm blocks {diff} fee [{lo},{hi}]ppm decay {decay} amp {amp}"));
		let prm = || FeeParams { min_fee: Permill::from_parts(lo), max_fee: Permill::from_parts(hi), decay: fx(decay), amplification: fx(amp) };
		let e = || OracleEntry { amount_in: vi, amount_out: vo, liquidity: l };
		let pv = Permill::from_parts(prev);
		let a = dynamic_fees::recalculate_asset_fee(e(), pv, diff, prm()).deconstruct();
		let p = dynamic_fees::recalculate_protocol_fee(e(), pv, diff, prm()).deconstruct();
		c.event("fee"); c.nontrivial((vi, vo, l, prev, decay, amp)); c.distinct("clamp", (a == lo, a == hi, p == lo, p == hi, vi > vo));
		c.check("fee-within-bounds", (lo..=hi).contains(&a) && (lo..=hi).contains(&p), || format!("asset {a} protocol {p}"));
		// exact reference in 1e-18 with signed arithmetic
		let reference = |neg: bool| -> (u32, u32) {
			let base = if diff > 1 { let d = w(decay) * w(diff - 1); let f = w(prev as u128) * w(10u128.pow(12)); (if f > d { f - d } else { w(0) }).max(w(lo as u128) * w(10u128.pow(12))) } else { w(prev as u128) * w(10u128.pow(12)) };
			let cap = w(1) << 300;
			let x = if l == 0 { w(0) } else { (w(vi.abs_diff(vo)) * w(E18) / w(l)) };
			let ax = (x * w(amp) / w(E18)).min(cap);
			let up = |slack: U512| -> U512 { // larger estimate
				let ax = ax + slack; if neg { let d = ax + w(decay); if base > d { base - d } else { w(0) } } else if ax >= w(decay) { base + ax - w(decay) } else { let d = w(decay) - ax; if base > d { base - d } else { w(0) } } };
			let tol = w(amp) / w(E18) + w(2);
			let (q, s) = (up(w(0)), up(tol));
			let (x, y) = if q < s { (q, s) } else { (s, q) };
			let ppm = |v: U512, up: bool| { let d = w(10u128.pow(12)); let t = if up { (v + d - w(1)) / d } else { v / d }; t.min(w(1_000_000)).low_u32().clamp(lo, hi) };
			(ppm(x, false), ppm(y, true))
		};
		let (al, ah) = reference(vo < vi); let (pl, ph) = reference(vo > vi);
		c.check("asset-fee-exact", (al..=ah).contains(&a), || format!("asset fee {a}, expected [{al},{ah}]"));
		c.check("protocol-fee-exact", (pl..=ph).contains(&p), || format!("protocol fee {p}, expected [{pl},{ph}]"));
		// selling pressure never lowers the asset fee more than buying pressure
		if vo > vi && diff <= 1 { let o = dynamic_fees::recalculate_asset_fee(OracleEntry { amount_in: vo, amount_out: vi, liquidity: l }, pv, diff, prm()).deconstruct(); c.check("fee-direction", a >= o, || format!("{a} vs mirrored {o}")); }
	});
	m.expect("dynamic-fee/fee", 200_000);
}

pub fn rate(m: &mut Monitor) {
	m.workload("rate-limiter-math", 300_000, 10_000_000, |c| {
		let r = &mut c.rng;
		let dur = match r.idx(5) { 0 => 0, 1 => u32::MAX, _ => r.log(1, u32::MAX as u128) as u32 };
		let lim = bal(r); let acc = match r.idx(3) { 0 => lim, _ => bal(r) }; let inc = bal(r);
		let blocks = r.log(0, u32::MAX as u128) as u32;
		c.log(|| format!("duration {dur} limit {lim} accumulated {acc} incoming {inc} blocks {blocks}"));
		let d = dur.max(1) as u128;
		let ov = acc.saturating_sub(lim);
		let e = (w(d) * w(ov)).min(w(u128::MAX)) / w(lim.max(1));
		let e = if e > w(u32::MAX as u128) { u32::MAX } else { e.low_u32() };
		let v = rl::calculate_deferred_duration(dur, lim, acc);
		c.event("duration"); c.nontrivial((dur, lim, acc)); c.distinct("deferred", (v == 0, v == u32::MAX));
		c.check("deferral-exact", v == e, || format!("{v}, exact {e}"));
		if acc <= lim { c.check("within-limit-not-deferred", v == 0, || format!("{v}")); }
		let q = rl::decay_accumulated_amount(dur, lim, acc, blocks);
		let dec = ((w(lim) * w(blocks as u128)).min(w(u128::MAX)) / w(d)).low_u128();
		c.check("decay-exact", q == acc.saturating_sub(dec), || format!("{q}"));
		c.check("decay-never-grows", q <= acc, || format!("{q}"));
		let n = rl::calculate_new_accumulated_amount(dur, lim, inc, acc, blocks);
		c.check("accumulation-exact", n == inc.saturating_add(acc.saturating_sub(dec)), || format!("{n}"));
	});
	m.expect("rate-limiter-math/duration", 200_000);
}

pub fn total(m: &mut Monitor) {
	m.workload("rewards-any-input", 300_000, 10_000_000, |c| {
		let v: Vec<u128> = (0..6).map(|_| bal(&mut c.rng)).collect();
		let u: Vec<u32> = (0..4).map(|_| { let r = &mut c.rng; match r.idx(4) { 0 => 0, 1 => u32::MAX, _ => r.log(0, u32::MAX as u128) as u32 } }).collect();
		c.log(|| format!("{v:?} {u:?}"));
		let pm = Permill::from_parts(u[0] % 1_000_001);
		let mut n = 0;
		n += lm::calculate_loyalty_multiplier(u[0], fx(v[0]), u[1]).is_ok() as u32;
		n += lm::calculate_accumulated_rps(fx(v[0]), v[1], v[2]).is_ok() as u32;
		n += lm::calculate_user_reward(fx(v[0]), v[1], v[2], fx(v[3]), fx(v[4])).is_ok() as u32;
		n += lm::calculate_valued_shares(v[0], v[1]).is_ok() as u32;
		n += lm::calculate_global_farm_shares(v[0], fx(v[1])).is_ok() as u32;
		n += lm::calculate_yield_farm_rewards(fx(v[0]), fx(v[1]), fx(v[2]), v[3]).is_ok() as u32;
		n += lm::calculate_global_farm_rewards(v[0], fx(v[1]), fx(v[2]), v[3], u[0]).is_ok() as u32;
		n += st::calculate_accumulated_rps(fx(v[0]), v[1], v[2]).is_some() as u32;
		n += st::calculate_slashed_points(v[0], v[1], v[2], u[0] as u8, v[3]).is_some() as u32;
		n += st::calculate_points(v[0], v[1], u[0] as u8, pm, v[2], Perbill::from_parts(u[1] % 1_000_000_001), v[3]).is_some() as u32;
		n += st::sigmoid(v[0], fx(v[1]), u[0]).is_some() as u32;
		n += st::calculate_rewards(fx(v[0]), fx(v[1]), v[2]).is_some() as u32;
		let _ = st::calculate_percentage_amount(v[0], fx(v[1]));
		let _ = st::calculate_total_rewards(v[0], v[1], v[2]);
		let _ = rl::calculate_deferred_duration(u[0], v[0], v[1]);
		let _ = rl::calculate_new_accumulated_amount(u[0], v[0], v[1], v[2], u[1]);
		let p = || FeeParams { min_fee: Permill::from_parts((u[0] % 1_000_001).min(u[1] % 1_000_001)), max_fee: Permill::from_parts((u[0] % 1_000_001).max(u[1] % 1_000_001)), decay: fx(v[3]), amplification: fx(v[4]) };
		let e = || OracleEntry { amount_in: v[0], amount_out: v[1], liquidity: v[2] };
		let f = dynamic_fees::recalculate_asset_fee(e(), pm, v[5], p()); let g = dynamic_fees::recalculate_protocol_fee(e(), pm, v[5], p());
		c.event("case"); c.distinct("answered", n); c.nontrivial((v[0], v[1], f.deconstruct(), g.deconstruct()));
	});
}

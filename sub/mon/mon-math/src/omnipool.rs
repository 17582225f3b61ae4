//! Omnipool pricing and liquidity calculations against exact integer arithmetic.
use crate::*;
use hydra_dx_math::omnipool::types::{AssetReserveState, BalanceUpdate, I129, Position};
use hydra_dx_math::omnipool::*;
use sp_arithmetic::Permill;
use BalanceUpdate::{Decrease, Increase};

type S = AssetReserveState<u128>;

/// A pool asset as the chain could hold it: 6 to 18 decimals, prices over many orders of magnitude.
pub fn state(r: &mut Rng) -> S {
	let reserve = r.log(1_000_000, 10u128.pow(27));
	let hub_reserve = r.log(1_000_000, 10u128.pow(22));
	let shares = match r.idx(4) { 0 => reserve, 1 => r.log(1_000_000, 10u128.pow(27)), _ => mul_div(reserve, r.range(50, 150), 100).unwrap().max(1) };
	let protocol_shares = r.range(0, shares / 2);
	S { reserve, hub_reserve, shares, protocol_shares }
}
fn hostile(r: &mut Rng) -> u128 { match r.idx(6) { 0 => 0, 1 => 1, 2 => u128::MAX - r.below(3), _ => r.log(0, u128::MAX) } }
fn hostile_state(r: &mut Rng) -> S { S { reserve: hostile(r), hub_reserve: hostile(r), shares: hostile(r), protocol_shares: hostile(r) } }
fn fee(r: &mut Rng, max: u32) -> Permill { let max = if r.chance(1, 8) { 999_999 } else { max }; Permill::from_parts(r.ppm(max)) }

fn zero_shares(c: &Ctx, tag: &str, ch: &hydra_dx_math::omnipool::types::AssetStateChange<u128>) {
	c.check("trade-keeps-shares", *ch.delta_shares == 0 && *ch.delta_protocol_shares == 0, || format!("{tag}: a trade changed shares: {ch:?}"));
}
fn inv(c: &Ctx, name: &str, r0: u128, q0: u128, r1: u128, q1: u128) {
	c.check("pool-product-never-falls", w(r1) * w(q1) >= w(r0) * w(q0), || format!("{name}: reserve*hub fell: ({r0},{q0}) -> ({r1},{q1})"));
}
const M: u128 = 1_000_000;

pub fn trade(m: &mut Monitor) {
	m.workload("omnipool-sell", 120_000, 6_000_000, |c| {
		let (i, o) = (state(&mut c.rng), state(&mut c.rng));
		let a = if c.rng.chance(1, 6) { c.rng.range(1, 1000) } else { c.rng.log(1, i.reserve.saturating_mul(3)) };
		let (fa, fp) = (fee(&mut c.rng, 999_999), fee(&mut c.rng, 500_000));
		let imb = if c.rng.chance(1, 2) { 0 } else { c.rng.log(0, 10u128.pow(20)) };
		c.log(|| format!("sell in={i:?} out={o:?} amount={a} asset_fee={fa:?} protocol_fee={fp:?} imbalance={imb}"));
		let Some(ch) = calculate_sell_state_changes(&i, &o, a, fa, fp, imb) else {
			c.violate("sell-is-available", "a sell over realistic reserves was refused".into());
			return;
		};
		let (Increase(dr), Decrease(dqi)) = (ch.asset_in.delta_reserve, ch.asset_in.delta_hub_reserve) else { return c.violate("trade-direction", format!("{ch:?}")); };
		let (Decrease(out), Increase(dqo)) = (ch.asset_out.delta_reserve, ch.asset_out.delta_hub_reserve) else { return c.violate("trade-direction", format!("{ch:?}")); };
		c.event("sell"); if out > 0 { c.nontrivial((a, out, dqi)); c.event("sell-nonzero"); }
		c.distinct("magnitude", (i.reserve.ilog10(), o.reserve.ilog10(), a.ilog10(), fa.is_zero(), fp.is_zero(), imb == 0));
		c.check("sell-takes-exactly-the-amount", dr == a, || format!("pool in grew by {dr}, not {a}"));
		zero_shares(c, "in", &ch.asset_in); zero_shares(c, "out", &ch.asset_out);
		c.check("sell-within-reserves", dqi <= i.hub_reserve && out <= o.reserve, || format!("{ch:?}"));
		if c.failed() { return; }
		inv(c, "in", i.reserve, i.hub_reserve, i.reserve + dr, i.hub_reserve - dqi);
		inv(c, "out", o.reserve, o.hub_reserve, o.reserve - out, o.hub_reserve + dqo);
		let pf = ch.fee.protocol_fee;
		c.check("hub-asset-conserved", dqo + pf == dqi, || format!("hub taken {dqi} != hub given {dqo} + protocol fee {pf}"));
		near(c, "protocol-fee-exact", pf, w(dqi) * w(fp.deconstruct() as u128), w(M), 1, 1);
		let Increase(di) = ch.delta_imbalance else { return c.violate("trade-direction", format!("{ch:?}")); };
		c.check("protocol-fee-split", di + ch.hdx_hub_amount == pf && di == pf.min(imb), || format!("fee {pf} split into imbalance {di} and hdx {}, imbalance {imb}", ch.hdx_hub_amount));
		// the exact price, fee taken from the output
		floor_like(c, "sell-hub-leg-exact", dqi, w(i.hub_reserve) * w(a), w(i.reserve) + w(a), 1);
		floor_like(c, "sell-output-exact", out, w(o.reserve) * w(dqo) * w(M - fa.deconstruct() as u128), (w(o.hub_reserve) + w(dqo)) * w(M), 2);
		let gross = (w(o.reserve) * w(dqo) / (w(o.hub_reserve) + w(dqo))).low_u128();
		c.check("asset-fee-accounted", ch.fee.asset_fee + out <= gross && ch.fee.asset_fee + out + 1 >= gross, || format!("gross {gross} != out {out} + fee {}", ch.fee.asset_fee));
		c.sample(|| json!({"in": format!("{i:?}"), "out": format!("{o:?}"), "amount": a.to_string(), "received": out.to_string()}));
	});
	m.workload("omnipool-buy", 120_000, 6_000_000, |c| {
		let (i, o) = (state(&mut c.rng), state(&mut c.rng));
		let (fa, fp) = (fee(&mut c.rng, 500_000), fee(&mut c.rng, 500_000));
		let a = if c.rng.chance(1, 6) { c.rng.range(1, 1000) } else { c.rng.log(1, o.reserve) };
		let imb = if c.rng.chance(1, 2) { 0 } else { c.rng.log(0, 10u128.pow(20)) };
		c.log(|| format!("buy in={i:?} out={o:?} amount={a} asset_fee={fa:?} protocol_fee={fp:?} imbalance={imb}"));
		let keep = M - fa.deconstruct() as u128;
		let Some(ch) = calculate_buy_state_changes(&i, &o, a, fa, fp, imb) else {
			c.event("buy-refused");
			// refusing is right only when the pool cannot deliver: exact hub needed, generously rounded, against the in-side hub reserve
			let avail = w(o.reserve) * w(keep) / w(M);
			if avail > w(a) + w(1) {
				let dqo = w(o.hub_reserve) * w(a) / (avail - w(a)) + w(2);
				let dqi = dqo * w(M) / w(M - fp.deconstruct() as u128) + w(2);
				if dqi * w(2) < w(i.hub_reserve) && dqi < w(10u128.pow(30)) { c.violate("buy-is-available", format!("a buy the pool can serve was refused: needs hub {dqi}")); }
			}
			return;
		};
		let (Increase(dr), Decrease(dqi)) = (ch.asset_in.delta_reserve, ch.asset_in.delta_hub_reserve) else { return c.violate("trade-direction", format!("{ch:?}")); };
		let (Decrease(out), Increase(dqo)) = (ch.asset_out.delta_reserve, ch.asset_out.delta_hub_reserve) else { return c.violate("trade-direction", format!("{ch:?}")); };
		c.event("buy"); c.nontrivial((a, dr, dqi));
		c.distinct("magnitude", (i.reserve.ilog10(), o.reserve.ilog10(), a.ilog10(), fa.is_zero(), fp.is_zero(), imb == 0));
		c.check("buy-delivers-exactly-the-amount", out == a, || format!("pool out fell by {out}, not {a}"));
		zero_shares(c, "in", &ch.asset_in); zero_shares(c, "out", &ch.asset_out);
		c.check("buy-within-reserves", dqi < i.hub_reserve && out <= o.reserve, || format!("{ch:?}"));
		c.check("buy-is-never-free", dr >= 1 && dqi >= 1, || format!("{ch:?}"));
		if c.failed() { return; }
		inv(c, "in", i.reserve, i.hub_reserve, i.reserve + dr, i.hub_reserve - dqi);
		inv(c, "out", o.reserve, o.hub_reserve, o.reserve - out, o.hub_reserve + dqo);
		let pf = ch.fee.protocol_fee;
		c.check("hub-asset-conserved", dqo + pf == dqi, || format!("hub taken {dqi} != hub given {dqo} + protocol fee {pf}"));
		near(c, "protocol-fee-exact", pf, w(dqi) * w(fp.deconstruct() as u128), w(M), 1, 1);
		let Increase(di) = ch.delta_imbalance else { return c.violate("trade-direction", format!("{ch:?}")); };
		c.check("protocol-fee-split", di + ch.hdx_hub_amount == pf && di == pf.min(imb), || format!("fee {pf} split into imbalance {di} and hdx {}, imbalance {imb}", ch.hdx_hub_amount));
		// price: the buyer pays at least the exact price including the asset fee, and at most a few units more
		let avail = w(o.reserve) * w(keep); // times M
		let short = w(a) * w(M);
		c.check("buy-pays-fee-on-output", (avail - short) * (w(o.hub_reserve) + w(dqo)) >= avail * w(o.hub_reserve), || format!("hub given {dqo} is below the exact price with fee"));
		let avail_lo = avail / w(M);
		if avail_lo > w(a) { let hi = w(o.hub_reserve) * w(a) / (avail_lo - w(a)) + w(2); c.check("buy-not-overcharged-hub", w(dqo) <= hi, || format!("hub given {dqo}, exact at most {hi}")); }
		let hi = w(i.reserve) * w(dqi) / w(i.hub_reserve - dqi) + w(2);
		c.check("buy-not-overcharged", w(dr) <= hi, || format!("paid {dr}, exact at most {hi}"));
		let exact_fee = mul_div(a, fa.deconstruct() as u128, keep);
		if let (Some(f), false) = (exact_fee, fa.is_zero()) { if a < 10u128.pow(31) { c.check("asset-fee-accounted", w(ch.fee.asset_fee) * w(keep) >= w(a) * w(M - keep) && ch.fee.asset_fee <= f + 2, || format!("fee {} exact {f}", ch.fee.asset_fee)); } }
		if fa.is_zero() { c.check("asset-fee-accounted", ch.fee.asset_fee == 0, || format!("fee {} without fee", ch.fee.asset_fee)); }
	});
	m.workload("omnipool-hub-sell", 80_000, 4_000_000, |c| {
		let o = state(&mut c.rng);
		let fa = fee(&mut c.rng, 999_999);
		let total = o.hub_reserve.saturating_mul(c.rng.range(1, 50));
		let l = if c.rng.chance(1, 3) { 0 } else { c.rng.range(0, total) };
		let a = c.rng.log(1, o.hub_reserve.saturating_mul(2));
		c.log(|| format!("sell-hub out={o:?} amount={a} fee={fa:?} total_hub={total} imbalance=-{l}"));
		let im = I129 { value: l, negative: true };
		let Some(ch) = calculate_sell_hub_state_changes(&o, a, fa, im, total) else { return c.violate("sell-is-available", "a hub sell over realistic reserves was refused".into()); };
		let (Decrease(out), Increase(dq), Decrease(di)) = (ch.asset.delta_reserve, ch.asset.delta_hub_reserve, ch.delta_imbalance) else { return c.violate("trade-direction", format!("{ch:?}")); };
		c.event("hub-sell"); c.nontrivial((a, out, di));
		c.check("sell-takes-exactly-the-amount", dq == a, || format!("hub grew by {dq}, not {a}"));
		zero_shares(c, "out", &ch.asset);
		if !c.check("sell-within-reserves", out <= o.reserve, || format!("{ch:?}")) { return; }
		inv(c, "out", o.reserve, o.hub_reserve, o.reserve - out, o.hub_reserve + dq);
		floor_like(c, "sell-output-exact", out, w(o.reserve) * w(a) * w(M - fa.deconstruct() as u128), (w(o.hub_reserve) + w(a)) * w(M), 2);
		let gross = (w(o.reserve) * w(a) / (w(o.hub_reserve) + w(a))).low_u128();
		c.check("asset-fee-accounted", ch.fee.asset_fee + out <= gross && ch.fee.asset_fee + out + 1 >= gross && ch.fee.protocol_fee == 0, || format!("gross {gross} out {out} fee {:?}", ch.fee));
		imbalance_in_hub_swap(c, a, total, l, di);
	});
	m.workload("omnipool-hub-buy", 80_000, 4_000_000, |c| {
		let o = state(&mut c.rng);
		let fa = fee(&mut c.rng, 500_000);
		let total = o.hub_reserve.saturating_mul(c.rng.range(1, 50));
		let l = if c.rng.chance(1, 3) { 0 } else { c.rng.range(0, total) };
		let a = c.rng.log(1, o.reserve);
		c.log(|| format!("buy-with-hub out={o:?} amount={a} fee={fa:?} total_hub={total} imbalance=-{l}"));
		let keep = w(M - fa.deconstruct() as u128);
		let avail = w(o.reserve) * keep;
		let Some(ch) = calculate_buy_for_hub_asset_state_changes(&o, a, fa, I129 { value: l, negative: true }, total) else {
			c.event("refused");
			let lo = avail / w(M);
			if lo > w(a) && w(o.hub_reserve) * w(a) / (lo - w(a)) < w(10u128.pow(30)) { c.violate("buy-is-available", "a hub buy the pool can serve was refused".into()); }
			return;
		};
		let (Decrease(out), Increase(dq), Decrease(di)) = (ch.asset.delta_reserve, ch.asset.delta_hub_reserve, ch.delta_imbalance) else { return c.violate("trade-direction", format!("{ch:?}")); };
		c.event("hub-buy"); c.nontrivial((a, dq, di));
		c.check("buy-delivers-exactly-the-amount", out == a, || format!("{ch:?}"));
		zero_shares(c, "out", &ch.asset);
		if !c.check("buy-within-reserves", out <= o.reserve && dq >= 1, || format!("{ch:?}")) { return; }
		inv(c, "out", o.reserve, o.hub_reserve, o.reserve - out, o.hub_reserve + dq);
		let short = w(a) * w(M);
		c.check("buy-pays-fee-on-output", avail > short && (avail - short) * (w(o.hub_reserve) + w(dq)) >= avail * w(o.hub_reserve), || format!("hub paid {dq} is below the exact price with fee"));
		let lo = avail / w(M);
		if lo > w(a) { let hi = w(o.hub_reserve) * w(a) / (lo - w(a)) + w(2); c.check("buy-not-overcharged", w(dq) <= hi, || format!("paid {dq}, exact at most {hi}")); }
		if a < 10u128.pow(31) { c.check("asset-fee-accounted", ch.fee.protocol_fee == 0 && if fa.is_zero() { ch.fee.asset_fee == 0 } else { let f = w(fa.deconstruct() as u128); w(ch.fee.asset_fee) * keep >= w(a) * f && w(ch.fee.asset_fee) * keep <= w(a) * f + keep * w(2) }, || format!("{:?}", ch.fee)); }
		imbalance_in_hub_swap(c, dq, total, l, di);
	});
	// histories of trades over a small pool: every product non-decreasing, hub conserved, nobody gains by a round trip
	m.workload("omnipool-trade-history", 6_000, 300_000, |c| {
		let n = 2 + c.rng.idx(3);
		let mut pool: Vec<S> = (0..n).map(|_| state(&mut c.rng)).collect();
		let (fa, fp) = (fee(&mut c.rng, 100_000), fee(&mut c.rng, 50_000));
		let mut hub_fees = 0u128;
		let hub0: u128 = pool.iter().map(|s| s.hub_reserve).sum();
		for step in 0..12 {
			let i = c.rng.idx(n); let mut o = c.rng.idx(n); if i == o { o = (o + 1) % n; }
			let before = pool.clone();
			let sell = c.rng.chance(1, 2);
			let a = if sell { c.rng.log(1, pool[i].reserve) } else { c.rng.log(1, pool[o].reserve / 4 + 1) };
			let ch = if sell { calculate_sell_state_changes(&pool[i], &pool[o], a, fa, fp, 0) } else { calculate_buy_state_changes(&pool[i], &pool[o], a, fa, fp, 0) };
			let Some(ch) = ch else { c.event("refused"); continue };
			let (Some(ni), Some(no)) = (pool[i].clone().delta_update(&ch.asset_in), pool[o].clone().delta_update(&ch.asset_out)) else { c.violate("state-applies", format!("{ch:?}")); return };
			pool[i] = ni; pool[o] = no; hub_fees += ch.fee.protocol_fee;
			c.event("trade"); c.distinct("step-shape", (step, sell, i, o));
			c.log(|| format!("{} {a} of {i}->{o}: {ch:?}", if sell { "sell" } else { "buy" }));
			for k in 0..n { inv(c, "history", before[k].reserve, before[k].hub_reserve, pool[k].reserve, pool[k].hub_reserve); }
			let hub: u128 = pool.iter().map(|s| s.hub_reserve).sum();
			c.check("hub-asset-conserved", hub + hub_fees == hub0, || format!("hub {hub} + fees {hub_fees} != {hub0}"));
			// immediate reverse trade returns no more than was paid
			let (paid, got) = (*ch.asset_in.delta_reserve, *ch.asset_out.delta_reserve);
			if got > 0 { if let Some(back) = calculate_sell_state_changes(&pool[o], &pool[i], got, fa, fp, 0) {
				let b = *back.asset_out.delta_reserve;
				c.event("round-trip"); c.nontrivial((a, paid, got, b));
				c.check("round-trip-never-profits", b <= paid, || format!("paid {paid}, got {got}, sold back for {b}"));
			} }
			if c.failed() { return; }
		}
	});
	m.workload("omnipool-spot-price", 80_000, 3_000_000, |c| {
		let (a, b) = (state(&mut c.rng), state(&mut c.rng));
		let f = if c.rng.chance(1, 2) { None } else { Some((fee(&mut c.rng, 500_000), fee(&mut c.rng, 500_000))) };
		c.log(|| format!("spot a={a:?} b={b:?} fee={f:?}"));
		let keep = |p: Permill| w(M - p.deconstruct() as u128);
		let price = calculate_spot_price(&a, &b, f);
		let (la, lb) = (w(a.hub_reserve) * w(E18) / w(a.reserve), w(b.reserve) * w(E18) / w(b.hub_reserve));
		let top = w(u128::MAX) / w(4);
		if la < top && lb < top && la * lb / w(E18) < top { c.check("spot-price-available", price.is_some(), || format!("no price for {a:?} {b:?}")); }
		if let Some(p) = price {
			let (mut num, mut den) = (w(a.hub_reserve) * w(b.reserve) * w(E18), w(a.reserve) * w(b.hub_reserve));
			if let Some((x, y)) = f { num = num * keep(x) * keep(y); den = den * w(M) * w(M); }
			let pa = w(a.hub_reserve) * w(E18) / w(a.reserve);
			let pb = w(b.reserve) * w(E18) / w(b.hub_reserve);
			c.event("spot");
			let exact = num / den;
			// each leg is truncated to 18 decimals
			let tol = if pa.is_zero() || pb.is_zero() { exact } else { exact / pa + exact / pb } + w(5);
			let v = w(p.into_inner());
			c.nontrivial(p.into_inner());
			c.check("spot-price-exact", v <= exact && v + tol >= exact, || format!("price {p:?} exact {exact} tolerance {tol}"));
		}
		let hub_price = calculate_lrna_spot_price(&a, f.map(|x| x.1));
		if w(a.reserve) * w(E18) / w(a.hub_reserve) < top { c.check("spot-price-available", hub_price.is_some(), || format!("no hub price for {a:?}")); }
		if let Some(p) = hub_price {
			let (mut num, mut den) = (w(a.reserve) * w(E18), w(a.hub_reserve));
			if let Some((_, y)) = f { num = num * keep(y); den = den * w(M); }
			let exact = num / den;
			let v = w(p.into_inner());
			c.event("lrna-spot");
			c.check("hub-spot-price-exact", v <= exact && v + w(2) >= exact, || format!("price {p:?} exact {exact}"));
		}
	});
	m.expect("omnipool-sell/sell-nonzero", 60_000);
	m.expect("omnipool-buy/buy", 30_000);
	m.expect("omnipool-hub-sell/hub-sell", 60_000);
	m.expect("omnipool-hub-buy/hub-buy", 30_000);
	m.expect("omnipool-trade-history/round-trip", 10_000);
	m.expect("omnipool-spot-price/spot", 20_000);
}

fn imbalance_in_hub_swap(c: &Ctx, dq: u128, total: u128, l: u128, got: u128) {
	// burn dq plus at least dq*(Q-L)/(Q+dq)
	let exact = w(dq) * w(total - l) / (w(total) + w(dq)) + w(dq);
	let v = w(got);
	c.check("hub-imbalance-exact", v >= exact && v <= exact + w(2), || format!("imbalance change {got}, exact {exact}"));
}

pub fn liquidity(m: &mut Monitor) {
	m.workload("omnipool-add-remove", 120_000, 6_000_000, |c| {
		let s = state(&mut c.rng);
		let total = s.hub_reserve.saturating_mul(c.rng.range(1, 50));
		let l = if c.rng.chance(1, 3) { 0 } else { c.rng.range(0, total) };
		let im = I129 { value: l, negative: true };
		let a = c.rng.log(1, s.reserve.saturating_mul(2));
		c.log(|| format!("add state={s:?} amount={a} imbalance=-{l} total_hub={total}"));
		let Some(ch) = calculate_add_liquidity_state_changes(&s, a, im, total) else {
			// the only refusal: the price is not representable
			c.event("add-refused");
			c.check("add-is-available", w(s.hub_reserve) * w(E18) / w(s.reserve) >= w(u128::MAX), || "adding liquidity to realistic reserves was refused".into());
			return;
		};
		let (Increase(dr), Increase(dq), Increase(ds), Decrease(di)) = (ch.asset.delta_reserve, ch.asset.delta_hub_reserve, ch.asset.delta_shares, ch.delta_imbalance) else { return c.violate("add-direction", format!("{:?}", ch.asset)); };
		c.event("add"); c.nontrivial((a, dq, ds));
		c.check("add-takes-exactly-the-amount", dr == a, || format!("{dr} != {a}"));
		c.check("add-leaves-protocol-shares", *ch.asset.delta_protocol_shares == 0 && ch.lp_hub_amount == 0, || format!("{:?}", ch.asset));
		let exact_q = w(s.hub_reserve) * w(a) / w(s.reserve);
		c.check("add-keeps-price", w(dq) <= exact_q && w(dq) + w(a) / w(E18) + w(2) >= exact_q, || format!("hub minted {dq}, exact {exact_q}"));
		floor_like(c, "add-shares-exact", ds, w(s.shares) * w(a), w(s.reserve), 1);
		c.check("share-value-never-falls-on-add", (w(s.reserve) + w(a)) * w(s.shares) >= w(s.reserve) * (w(s.shares) + w(ds)), || format!("shares {ds} for {a}"));
		if l == 0 { c.check("imbalance-scales", di == 0, || format!("{di}")); } else { floor_like(c, "imbalance-scales", di, w(dq) * w(l), w(total), 1); }
		let Some(s1) = s.clone().delta_update(&ch.asset) else { return c.violate("state-applies", format!("{:?}", ch.asset)); };
		if ds == 0 || c.failed() { return; }
		// immediate removal returns no more than was provided, and no hub
		let pos = Position { amount: a, shares: ds, price: (s.hub_reserve, s.reserve) };
		let total1 = total + dq;
		let back = calculate_remove_liquidity_state_changes(&s1, ds, &pos, I129 { value: l.saturating_sub(di), negative: true }, total1, FixedU128::zero());
		c.check("remove-is-available", back.is_some(), || format!("what was just added cannot be removed from {s1:?}"));
		if l > 0 {
			let up = I129 { value: l, negative: false };
			c.check("only-negative-imbalances", calculate_add_liquidity_state_changes(&s, a, up, total).is_none() && calculate_remove_liquidity_state_changes(&s1, ds, &pos, up, total1, FixedU128::zero()).is_none() && calculate_delta_imbalance(dq, up, total).is_none(), || format!("a positive imbalance of {l} was accepted"));
		}
		if let Some(x) = calculate_delta_imbalance(dq, im, total) { floor_like(c, "imbalance-scales", x, w(dq) * w(l), w(total), 1); } else { c.violate("imbalance-scales", format!("refused {dq} {l} {total}")); }
		if let Some(rm) = calculate_remove_liquidity_state_changes(&s1, ds, &pos, I129 { value: l.saturating_sub(di), negative: true }, total1, FixedU128::zero()) {
			c.event("add-remove");
			c.check("add-then-remove-never-profits", *rm.asset.delta_reserve <= a, || format!("added {a}, removed {:?}", rm.asset.delta_reserve));
			c.check("add-then-remove-never-profits-hub", w(*rm.asset.delta_hub_reserve) <= w(dq) + w(a) / w(E18) + w(s.hub_reserve) / w(s.reserve) + w(2), || format!("minted {dq}, burned {:?}", rm.asset.delta_hub_reserve));
			let hub_tol = s1.reserve / E18 + dq / E18 + 4;
			// price moved only by rounding, so any hub payout is rounding dust
			let tol = w(hub_tol) + w(s1.hub_reserve) * w(4) / w((w(s.hub_reserve) * w(E18) / w(s.reserve)).low_u128().max(1));
			c.check("add-then-remove-pays-no-hub", w(rm.lp_hub_amount) <= tol, || format!("paid hub {} (tolerance {tol})", rm.lp_hub_amount));
		}
	});
	m.workload("omnipool-remove", 150_000, 8_000_000, |c| {
		let s = state(&mut c.rng);
		let total = s.hub_reserve.saturating_mul(c.rng.range(1, 50));
		let l = if c.rng.chance(1, 3) { 0 } else { c.rng.range(0, total) };
		let own = c.rng.log(1, s.shares - s.protocol_shares);
		let rem = if c.rng.chance(1, 3) { own } else { c.rng.log(1, own) };
		// position price near, below or above the current one
		let (pn, pd) = match c.rng.idx(5) {
			0 => (s.hub_reserve, s.reserve),
			1 => (mul_div(s.hub_reserve, c.rng.range(1, 1000), 1000).unwrap().max(1), s.reserve),
			2 => (s.hub_reserve.saturating_mul(c.rng.range(1, 50)), s.reserve),
			3 => (s.hub_reserve + c.rng.range(0, 2), s.reserve + c.rng.range(0, 2)),
			_ => (mul_div(s.hub_reserve, c.rng.range(500, 2000), 1000).unwrap().max(1), s.reserve),
		};
		let pos = Position { amount: c.rng.log(1, s.reserve), shares: own, price: (pn, pd) };
		let wf = match c.rng.idx(4) { 0 => 0, 1 => E18, 2 => c.rng.range(0, E18 / 100), _ => c.rng.range(0, E18) };
		c.log(|| format!("remove state={s:?} shares={rem} position={pos:?} imbalance=-{l} total_hub={total} withdrawal_fee={wf}"));
		let Some(ch) = calculate_remove_liquidity_state_changes(&s, rem, &pos, I129 { value: l, negative: true }, total, FixedU128::from_inner(wf)) else {
			c.event("refused");
			let (pp, cp) = (w(pn) * w(E18) / w(pd), w(s.hub_reserve) * w(E18) / w(s.reserve));
			c.check("remove-is-available", pp > w(u128::MAX) || cp > w(u128::MAX) || pp * w(s.reserve) / w(E18) >= w(u128::MAX), || "a removal within the pool's shares was refused".into());
			return;
		};
		let (Decrease(dr), Decrease(dq), Decrease(ds), Increase(db)) = (ch.asset.delta_reserve, ch.asset.delta_hub_reserve, ch.asset.delta_shares, ch.asset.delta_protocol_shares) else { return c.violate("remove-direction", format!("{:?}", ch.asset)); };
		let (Decrease(da), Decrease(dps), Increase(di)) = (ch.delta_position_reserve, ch.delta_position_shares, ch.delta_imbalance) else { return c.violate("remove-direction", format!("{:?}", ch.asset)); };
		c.event("remove"); c.nontrivial((rem, dr, dq, db, ch.lp_hub_amount));
		c.check("remove-burns-exactly-the-shares", dps == rem && ds + db == rem, || format!("position -{dps}, pool shares -{ds}, protocol +{db}, asked {rem}"));
		c.check("remove-within-reserves", dr <= s.reserve && dq <= s.hub_reserve, || format!("{:?}", ch.asset));
		floor_like(c, "position-amount-proportional", da, w(rem) * w(pos.amount), w(own), 1);
		let keep = E18 - wf;
		// payout proportional to the burnt shares, less the fee, rounded for the pool
		let (nr, nq, dn) = (ww(s.reserve) * ww(ds) * ww(keep), ww(s.hub_reserve) * ww(ds) * ww(keep), ww(s.shares) * ww(E18));
		c.check("remove-payout-proportional", ww(dr) * dn <= nr && (ww(dr) + ww(2)) * dn >= nr, || format!("paid {dr} for {ds} of {} shares of {}", s.shares, s.reserve));
		let qtol = ww(2) + ww(s.hub_reserve) / ww(s.reserve) + ww(1);
		c.check("remove-hub-proportional", ww(dq) * dn <= nq && (ww(dq) + qtol) * dn >= nq, || format!("burned hub {dq} for {ds} of {} shares of {}", s.shares, s.hub_reserve));
		c.check("share-value-never-falls-on-remove", w(s.reserve - dr) * w(s.shares) >= w(s.reserve) * w(s.shares - ds), || format!("{:?}", ch.asset));
		if l == 0 { c.check("imbalance-scales", di == 0, || format!("{di}")); } else { floor_like(c, "imbalance-scales", di, w(dq) * w(l), w(total), 1); }
		// impermanent loss sharing, between the exact values at the two truncations of the entry price
		let pp = w(pn) * w(E18) / w(pd);
		let cp = w(s.hub_reserve) * w(E18) / w(s.reserve);
		let x_lo = pp * w(s.reserve) / w(E18);
		let x_hi = (pp + w(1)) * w(s.reserve) / w(E18) + w(2);
		let q = w(s.hub_reserve);
		let b_at = |x: U512| if x > q { (x - q) * w(rem) / (x + q) } else { w(0) };
		let h_at = |x: U512| if q > x { q * (q - x) / (q + x) * w(ds) / w(s.shares) * w(keep) / w(E18) } else { w(0) };
		if cp < pp {
			c.event("below-entry");
			c.check("loss-is-shared", w(db) + w(1) >= b_at(x_lo) && w(db) <= b_at(x_hi) + w(2), || format!("protocol shares {db}, exact in [{}, {}]", b_at(x_lo), b_at(x_hi)));
			c.check("loss-pays-no-hub", ch.lp_hub_amount == 0, || format!("paid hub {} below entry price", ch.lp_hub_amount));
		} else {
			c.check("gain-costs-no-shares", db == 0, || format!("protocol took {db} shares at or above entry price"));
			if cp > pp {
				c.event("above-entry");
				let (lo, hi) = (h_at(x_hi), h_at(x_lo));
				c.check("gain-paid-in-hub", w(ch.lp_hub_amount) <= hi && w(ch.lp_hub_amount) + w(3) >= lo, || format!("paid hub {}, exact in [{lo}, {hi}]", ch.lp_hub_amount));
			} else { c.event("at-entry"); c.check("even-pays-no-hub", ch.lp_hub_amount == 0, || format!("{}", ch.lp_hub_amount)); }
		}
		c.check("hub-payout-within-burn", w(ch.lp_hub_amount) <= w(dq) + qtol_u512(s.hub_reserve, s.reserve), || format!("LP hub {} > hub removed {dq}", ch.lp_hub_amount));
	});
	m.workload("omnipool-withdrawal-fee", 60_000, 2_000_000, |c| {
		let o = if c.rng.chance(1, 8) { hostile(&mut c.rng) } else { c.rng.log(1, 10u128.pow(27)) };
		let s = match c.rng.idx(4) { 0 => o, 1 => hostile(&mut c.rng), 2 => c.rng.log(1, 10u128.pow(27)), _ => mul_div(o, c.rng.range(900_000, 1_100_000), M).unwrap_or(o) };
		let minf = fee(&mut c.rng, 1_000_000);
		c.log(|| format!("withdrawal fee spot={s} oracle={o} min={minf:?}"));
		let f = calculate_withdrawal_fee(FixedU128::from_inner(s), FixedU128::from_inner(o), minf).into_inner();
		let lo = minf.deconstruct() as u128 * 10u128.pow(12);
		c.event("fee"); c.nontrivial((s, o));
		c.check("withdrawal-fee-bounds", f >= lo && f <= E18, || format!("fee {f} outside [{lo}, 1]"));
		if o == 0 { c.check("withdrawal-fee-exact", f == lo, || format!("{f}")); } else {
			let exact = sat(w(s.abs_diff(o)) * w(E18) / w(o)).clamp(lo, E18);
			c.check("withdrawal-fee-exact", f.abs_diff(exact) <= 1, || format!("fee {f} exact {exact}"));
		}
	});
	m.workload("omnipool-caps", 60_000, 2_000_000, |c| {
		let s = state(&mut c.rng);
		let total = s.hub_reserve.saturating_mul(c.rng.range(1, 50));
		let cap = match c.rng.idx(3) { 0 => E18, 1 => sat(w(s.hub_reserve) * w(E18) / w(total)), _ => c.rng.range(1, E18) };
		let hub = c.rng.log(0, total);
		c.log(|| format!("caps state={s:?} cap={cap} hub={hub} total={total}"));
		let Some(ok) = verify_asset_cap(&s, cap, hub, total) else { return c.violate("cap-available", "cap check refused realistic input".into()); };
		let (n, d) = ((w(s.hub_reserve) + w(hub)) * w(E18), w(total) + w(hub));
		c.event(if ok { "within" } else { "exceeded" }); c.nontrivial((cap, hub, total));
		c.check("weight-cap-exact", if ok { n < (w(cap) + w(1)) * d } else { n > w(cap) * d }, || format!("verdict {ok}"));
		let max_allowed = w(cap) * w(total) / w(E18);
		let room = calculate_cap_difference(&s, cap, total);
		if max_allowed > w(0) && w(s.hub_reserve) * w(E18) / max_allowed < w(u128::MAX) { c.check("cap-room-available", room.is_some(), || format!("no room computed, {max_allowed} allowed")); }
		if let Some(diff) = room {
			if max_allowed > w(0) {
				c.event("cap-room");
				let exact = if w(s.hub_reserve) > max_allowed { w(0) } else { (max_allowed - w(s.hub_reserve)) * w(s.reserve) / max_allowed };
				let tol = w(s.reserve) / w(E18) + w(2);
				c.check("cap-room-exact", w(diff) <= exact + tol && w(diff) + tol >= exact, || format!("room {diff} exact {exact}"));
			}
		}
		let st = state(&mut c.rng);
		// the cap as a free number, or close to the pool's value
		let tvl = match c.rng.idx(3) { 0 => sat(w(total) * w(st.reserve) / w(st.hub_reserve)).saturating_add(c.rng.range(0, 3)).saturating_sub(c.rng.range(0, 3)), 1 => sat(w(total) * w(st.reserve) / w(st.hub_reserve) * w(c.rng.range(1, 3000)) / w(1000)), _ => c.rng.log(1, 10u128.pow(30)) };
		let maxq = w(tvl) * w(st.hub_reserve) / w(st.reserve);
		let troom = calculate_tvl_cap_difference(&s, &st, tvl, total);
		let fits = maxq < w(total) || (maxq - w(total)) * w(s.reserve) / w(s.hub_reserve) <= w(u128::MAX);
		c.check("tvl-room-available", troom.is_some() == fits, || format!("room {troom:?} for tvl {tvl} of {total} hub, stable {st:?}"));
		if let Some(x) = troom {
			if maxq < w(total) { c.event("tvl-exceeded"); }
			let exact = if maxq < w(total) { w(0) } else { (maxq - w(total)) * w(s.reserve) / w(s.hub_reserve) };
			c.event("tvl-room");
			c.check("tvl-room-exact", w(x) <= exact && w(x) + w(2) >= exact, || format!("room {x} exact {exact} for tvl {tvl} stable {st:?}"));
		}
		let val = calculate_tvl(s.hub_reserve, (st.reserve, st.hub_reserve));
		c.check("tvl-available", val.is_some() == (w(s.hub_reserve) * w(st.reserve) / w(st.hub_reserve) <= w(u128::MAX)), || format!("{val:?}"));
		if let Some(x) = val { floor_like(c, "tvl-exact", x, w(s.hub_reserve) * w(st.reserve), w(st.hub_reserve), 1); }
	});
	// deltas are applied to the stored state with this arithmetic: it must be the signed sum, exact or refused
	m.workload("omnipool-deltas", 100_000, 3_000_000, |c| {
		use sp_arithmetic::traits::CheckedAdd;
		let r = &mut c.rng;
		let (a, b) = match r.idx(4) { 0 => { let x = hostile(r); (x, x) } 1 => { let x = hostile(r); (x, x.saturating_add(1)) } 2 => (hostile(r), hostile(r)), _ => (r.log(0, 10u128.pow(27)), r.log(0, 10u128.pow(27))) };
		let (x, y) = (if r.chance(1, 2) { Increase(a) } else { Decrease(a) }, if r.chance(1, 2) { Increase(b) } else { Decrease(b) });
		let sgn = |u: &BalanceUpdate<u128>| match u { Increase(v) => (*v, false), Decrease(v) => (*v, *v != 0) };
		let ((p, pn), (q, qn)) = (sgn(&x), sgn(&y));
		let exact = if pn == qn { p.checked_add(q).map(|v| (v, pn)) } else if p >= q { Some((p - q, pn && p != q)) } else { Some((q - p, qn)) };
		c.log(|| format!("deltas {x:?} {y:?}"));
		c.event(match (pn, qn, exact.is_some()) { (false, false, true) => "both up", (true, true, true) => "both down", (_, _, false) => "overflow", _ => "mixed" }); c.nontrivial((a, b));
		for (name, got) in [("merge", x.merge(y)), ("checked_add", x.checked_add(&y))] {
			c.check("delta-sum-exact", got.as_ref().map(sgn) == exact, || format!("{name} of {x:?} and {y:?} is {got:?}, exact {exact:?}"));
		}
		if exact.is_some() { let got = x + y; c.check("delta-sum-exact", Some(sgn(&got)) == exact, || format!("+ of {x:?} and {y:?} is {got:?}, exact {exact:?}")); }
		let applied = x + b;
		c.check("delta-applied-exact", applied == match x { Increase(v) => b.checked_add(v), Decrease(v) => b.checked_sub(v) }, || format!("{x:?} applied to {b} gives {applied:?}"));
		c.check("delta-amount", *x == a, || format!("{x:?} holds {}", *x));
		let st = S { reserve: hostile(&mut c.rng), hub_reserve: hostile(&mut c.rng), shares: hostile(&mut c.rng), protocol_shares: hostile(&mut c.rng) };
		let ch = hydra_dx_math::omnipool::types::AssetStateChange { delta_reserve: x.clone(), delta_hub_reserve: y.clone(), delta_shares: y.clone(), delta_protocol_shares: x.clone() };
		let ap = |u: &BalanceUpdate<u128>, v: u128| match u { Increase(d) => v.checked_add(*d), Decrease(d) => v.checked_sub(*d) };
		let want = ap(&x, st.reserve).zip(ap(&y, st.hub_reserve)).zip(ap(&y, st.shares).zip(ap(&x, st.protocol_shares)));
		let got = st.clone().delta_update(&ch).map(|n| ((n.reserve, n.hub_reserve), (n.shares, n.protocol_shares)));
		c.check("delta-applied-exact", got == want, || format!("state {st:?} changed by {ch:?} gives {got:?}, exact {want:?}"));
		let (n, d) = (c.rng.log(0, 10u128.pow(30)), c.rng.log(0, 10u128.pow(30)));
		let price = Position { amount: 1u128, shares: 1, price: (n, d) }.price().map(|v| v.into_inner());
		let wide = if d == 0 { None } else { Some(w(n) * w(E18) / w(d)).filter(|v| *v <= w(u128::MAX)) };
		match (price, wide) { (Some(g), Some(e)) => c.check("position-price-exact", w(g) <= e + w(1) && w(g) + w(1) >= e, || format!("price {n}/{d} is {g}, exact {e}")), (None, None) => true, (g, e) => c.check("position-price-exact", e.map_or(false, |e| e >= w(u128::MAX) - w(2)), || format!("price {n}/{d} is {g:?}, exact {e:?}")), };
	});
	m.expect("omnipool-deltas/mixed", 10_000);
	m.expect("omnipool-deltas/overflow", 500);
	m.expect("omnipool-add-remove/add-remove", 50_000);
	m.expect("omnipool-caps/tvl-exceeded", 5_000);
	m.expect("omnipool-caps/tvl-room", 20_000);
	m.expect("omnipool-caps/cap-room", 20_000);
	m.expect("omnipool-remove/below-entry", 20_000);
	m.expect("omnipool-remove/above-entry", 20_000);
}
fn qtol_u512(q: u128, r: u128) -> U512 { w(2) + w(q) / w(r) + w(1) }

/// Totality: any input, however absurd, is refused or answered, never a panic.
pub fn total(m: &mut Monitor) {
	m.workload("omnipool-any-input", 60_000, 3_000_000, |c| {
		let (a, b) = (hostile_state(&mut c.rng), hostile_state(&mut c.rng));
		let r = &mut c.rng;
		let (x, y, z, t) = (hostile(r), hostile(r), hostile(r), hostile(r));
		let (f, g) = (fee(r, 1_000_000), fee(r, 1_000_000));
		let im = I129 { value: y, negative: r.chance(3, 4) };
		let pos = Position { amount: hostile(r), shares: hostile(r), price: (hostile(r), hostile(r)) };
		let wf = FixedU128::from_inner(hostile(r));
		c.log(|| format!("a={a:?} b={b:?} x={x} y={y} z={z} t={t} f={f:?} g={g:?} im={im:?} pos={pos:?} wf={wf:?}"));
		let mut some = 0;
		// a full protocol fee divides by zero by design of the types: the runtime bounds protocol fees below 100%
		some += calculate_sell_state_changes(&a, &b, x, f, g, y).is_some() as u32;
		some += calculate_buy_state_changes(&a, &b, x, f, g, y).is_some() as u32;
		some += calculate_sell_hub_state_changes(&a, x, f, im, z).is_some() as u32;
		some += calculate_buy_for_hub_asset_state_changes(&a, x, f, im, z).is_some() as u32;
		some += calculate_add_liquidity_state_changes(&a, x, im, z).is_some() as u32;
		some += calculate_remove_liquidity_state_changes(&a, x, &pos, im, z, wf).is_some() as u32;
		some += calculate_delta_imbalance(x, im, z).is_some() as u32;
		some += calculate_tvl(x, (y, z)).is_some() as u32;
		some += calculate_spot_price(&a, &b, Some((f, g))).is_some() as u32;
		some += calculate_lrna_spot_price(&a, Some(f)).is_some() as u32;
		some += calculate_cap_difference(&a, x, z).is_some() as u32;
		some += calculate_tvl_cap_difference(&a, &b, x, z).is_some() as u32;
		some += verify_asset_cap(&a, x, y, z).is_some() as u32;
		let _ = calculate_withdrawal_fee(FixedU128::from_inner(x), FixedU128::from_inner(y), f);
		c.event("case"); c.distinct("answered", some); c.nontrivial((x, y, z, t));
	});
}

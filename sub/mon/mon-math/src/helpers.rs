//! Omnipool subpool conversions, against exact integers.
use crate::*;
use hydra_dx_math::omnipool::types::{AssetReserveState, BalanceUpdate, Position};
use hydra_dx_math::omnipool_subpools::{calculate_asset_migration_details, convert_position, create_subpool_initial_state, recalculate_protocol_shares};

pub fn subpools(m: &mut Monitor) {
	m.workload("subpool-conversion", 60_000, 2_000_000, |c| {
		let s = omnipool::state(&mut c.rng); let t = omnipool::state(&mut c.rng);
		let q = recalculate_protocol_shares(s.hub_reserve, s.shares, s.protocol_shares);
		let (qs, qt) = (w(s.hub_reserve) * w(s.protocol_shares) / w(s.shares), w(t.hub_reserve) * w(t.protocol_shares) / w(t.shares));
		c.check("protocol-shares-exact", q.map(w) == Some(qs), || format!("{s:?}: {q:?}"));
		if let Some(p) = create_subpool_initial_state(&s, &t) {
			c.event("create");
			let hub = s.hub_reserve + t.hub_reserve;
			c.check("subpool-state-exact", p.hub_reserve == hub && p.reserve == hub && p.shares == hub && w(p.protocol_shares) == qs + qt, || format!("{p:?}"));
		}
		let issuance = c.rng.log(1, 10u128.pow(27));
		let sub = if c.rng.chance(3, 4) { Some(&t) } else { None };
		let Some((d, ch)) = calculate_asset_migration_details(&s, sub, issuance) else { return };
		let dd = (d.price, d.shares, d.hub_reserve, d.share_tokens);
		c.event("migrate"); c.nontrivial((s.hub_reserve, issuance));
		c.check("migration-keeps-hub-and-shares", d.hub_reserve == s.hub_reserve && d.shares == s.shares, || format!("{dd:?}"));
		match (sub, ch) {
			(Some(p), Some(ch)) => {
				c.check("share-tokens-exact", w(d.share_tokens) == w(s.hub_reserve) * w(issuance) / w(p.hub_reserve), || format!("{dd:?} of {issuance} in {p:?}"));
				let ok = |u: BalanceUpdate<u128>, e: U512| matches!(u, BalanceUpdate::Increase(v) if w(v) == e);
				c.check("migration-deltas-exact", ok(ch.delta_reserve, w(d.share_tokens)) && ok(ch.delta_hub_reserve, w(s.hub_reserve)) && ok(ch.delta_shares, w(s.hub_reserve) * w(p.shares) / w(p.hub_reserve)) && ok(ch.delta_protocol_shares, w(p.shares) * w(s.hub_reserve) / w(p.hub_reserve) * w(s.protocol_shares) / w(s.shares)), || format!("{ch:?} for {s:?} into {p:?}"));
				// price = hub*issuance / (reserve*pool shares), to 127 bits or so
				let (n, e) = (w(s.hub_reserve) * w(issuance), w(s.reserve) * w(p.shares));
				ratio_close(c, "migration-price", d.price, n, e);
			}
			(None, None) => { c.check("first-migration", d.share_tokens == s.hub_reserve && d.price == (s.hub_reserve, s.reserve), || format!("{dd:?}")); }
			x => c.violate("migration-deltas-exact", format!("{x:?}")),
		}
		let pos = Position { amount: c.rng.log(1, s.reserve), shares: c.rng.log(1, s.shares), price: (c.rng.log(1, 10u128.pow(24)), c.rng.log(1, 10u128.pow(24))) };
		let Some(v) = convert_position(Position { amount: pos.amount, shares: pos.shares, price: pos.price }, hydra_dx_math::omnipool_subpools::types::MigrationDetails { price: d.price, shares: d.shares, hub_reserve: d.hub_reserve, share_tokens: d.share_tokens }) else { return };
		c.event("convert");
		c.check("converted-shares-exact", w(v.shares) == w(pos.shares) * w(d.hub_reserve) / w(d.shares), || format!("{v:?}"));
		c.check("converted-amount-exact", w(v.amount) == w(pos.amount) * w(d.share_tokens) / w(d.shares), || format!("{v:?}"));
		ratio_close(c, "converted-price", v.price, w(pos.price.0) * w(d.price.1), w(pos.price.1) * w(d.price.0));
	});
	m.expect("subpool-conversion/convert", 20_000); m.expect("subpool-conversion/create", 40_000);
}
/// (a, b) equals n/d as well as 128-bit terms can.
fn ratio_close(c: &Ctx, o: &str, (a, b): (u128, u128), n: U512, d: U512) {
	if n.is_zero() || d.is_zero() || a < 1 << 40 || b < 1 << 40 { return; }
	let (l, r) = (www(n) * wwwu(b), www(d) * wwwu(a));
	let diff = if l > r { l - r } else { r - l };
	c.check(o, diff >> 0 <= (if l > r { l } else { r }) >> 38, || format!("{a}/{b} for {n}/{d}"));
}
fn www(x: U512) -> mon_core::big::U2048 { let mut b = [0u8; 64]; x.to_little_endian(&mut b); mon_core::big::U2048::from_little_endian(&b) }
fn wwwu(x: u128) -> mon_core::big::U2048 { mon_core::big::U2048::from(x) }

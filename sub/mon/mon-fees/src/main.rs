//! The dynamic fees pallet over blocks of moving volumes: each asset's fee pair is computed once per block, from the last
//! stored pair, the blocks since then and the oracle's figures, and is what every later reader of that block sees.
use mon_core::big::{w, U512};
use mon_frame::*;
use pallet_dynamic_fees::{traits::{Volume, VolumeProvider}, types::{FeeEntry, FeeParams}, AssetFee, UpdateAndRetrieveFees};
use sp_runtime::{FixedU128, Permill};
use frame_support::traits::Hooks;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Fees: pallet_dynamic_fees });
base!(Rt, (), DustWhite);
#[derive(Clone, Copy, Debug, PartialEq, Default)] pub struct Vol { pub i: u128, pub o: u128 }
impl Volume<u128> for Vol { fn amount_in(&self) -> u128 { self.i } fn amount_out(&self) -> u128 { self.o } }
/// bounds in millionths, decay and amplification in 10^-18
#[derive(Clone, Copy, Debug)] pub struct P { lo: u32, hi: u32, decay: u128, amp: u128 }
impl P { fn params(&self) -> FeeParams<Permill> { FeeParams { min_fee: Permill::from_parts(self.lo), max_fee: Permill::from_parts(self.hi), decay: FixedU128::from_inner(self.decay), amplification: FixedU128::from_inner(self.amp) } } }
param! { Af: P = P { lo: 0, hi: 0, decay: 0, amp: 1 }; Pf: P = P { lo: 0, hi: 0, decay: 0, amp: 1 }; Vols: BTreeMap<u32, Vol> = Default::default(); Liqs: BTreeMap<u32, u128> = Default::default(); }
pub struct AssetParams; impl Get<FeeParams<Permill>> for AssetParams { fn get() -> FeeParams<Permill> { Af::get().params() } }
pub struct ProtocolParams; impl Get<FeeParams<Permill>> for ProtocolParams { fn get() -> FeeParams<Permill> { Pf::get().params() } }
pub struct Feed; impl VolumeProvider<u32, u128> for Feed { type Volume = Vol; fn asset_volume(a: u32) -> Option<Vol> { Vols::with(|v| v.get(&a).copied()) } fn asset_liquidity(a: u32) -> Option<u128> { Liqs::with(|v| v.get(&a).copied()) } }
impl pallet_dynamic_fees::Config for Rt { type RuntimeEvent = RuntimeEvent; type BlockNumberProvider = System; type Fee = Permill; type AssetId = u32; type Oracle = Feed; type AssetFeeParameters = AssetParams; type ProtocolFeeParameters = ProtocolParams; }

/// the interval the new fee lies in, from exact arithmetic; `up` says whether the flow raises it
fn expected(p: &P, prev: u32, gap: u128, diff: u128, up: bool, liq: u128) -> (u32, u32) {
	let e = |x: u32| w(x as u128) * w(10u128.pow(12)); let one = w(10u128.pow(18));
	let less = |a: U512, b: U512| if a > b { a - b } else { w(0) };
	let base = if gap > 1 { less(e(prev), w(p.decay) * w(gap - 1)).max(e(p.lo)) } else { e(prev) };
	let ax = if liq == 0 { w(0) } else { w(diff) * one / w(liq) * w(p.amp) / one };
	let at = |ax: U512| if !up { less(base, ax + w(p.decay)) } else { less(base + ax, w(p.decay)) };
	let tol = w(p.amp) / one + w(2);
	let (x, y) = (at(ax), at(ax + tol)); let (x, y) = (x.min(y), x.max(y));
	let ppm = |v: U512, ceil: bool| ((if ceil { v + w(10u128.pow(12) - 1) } else { v }) / w(10u128.pow(12))).min(w(1_000_000)).low_u32().clamp(p.lo, p.hi);
	(ppm(x, false), ppm(y, true))
}
fn params(r: &mut Rng) -> P {
	let lo = match r.idx(4) { 0 => 0, _ => r.ppm(200_000) };
	P { lo, hi: match r.idx(8) { 0 => lo, _ => r.range(lo as u128, 1_000_000) as u32 }, decay: match r.idx(5) { 0 => 0, 1 => r.log(1, 10u128.pow(18)), _ => r.log(10u128.pow(11), 10u128.pow(16)) }, amp: match r.idx(5) { 0 => r.log(1, 10u128.pow(24)), _ => r.log(10u128.pow(16), 20 * 10u128.pow(18)) } }
}
fn history(c: &mut Ctx) {
	fresh(|| {
		Vols::set(Default::default()); Liqs::set(Default::default());
		let (a, p) = (params(&mut c.rng), params(&mut c.rng)); Af::set(a); Pf::set(p);
		let mut now = c.rng.range(1, 1000) as u32; System::set_block_number(now);
		let mut model: BTreeMap<u32, (u32, u32, u32)> = Default::default();
		let n = 1 + c.rng.idx(4);
		for _ in 0..40 {
			// the oracle moves between blocks only
			let gap = match c.rng.idx(6) { 0 => c.rng.log(2, 100_000) as u32, 1 => 2, _ => 1 }; now += gap; System::set_block_number(now);
			for k in 0..n as u32 {
				let r = &mut c.rng; let l = r.log(1, 10u128.pow(27));
				match r.idx(10) { 0 => Vols::with(|v| { v.remove(&k); }), 1 => Vols::with(|v| { v.insert(k, Vol { i: u128::MAX - r.below(3), o: r.log(0, u128::MAX) }); }), 2 => Vols::with(|v| { let x = r.log(0, l); v.insert(k, Vol { i: x, o: x }); }), _ => Vols::with(|v| { let z = l / *r.pick(&[1u128, 10, 100, 1000]); v.insert(k, Vol { i: r.range(0, z), o: r.range(0, z) }); }) }
				match r.idx(10) { 0 => Liqs::with(|v| { v.remove(&k); }), 1 => Liqs::with(|v| { v.insert(k, 0); }), _ => Liqs::with(|v| { v.insert(k, l); }) }
			}
			for _ in 0..1 + c.rng.idx(5) {
				let k = c.rng.idx(n) as u32;
				let (v, l) = (Feed::asset_volume(k), Feed::asset_liquidity(k));
				let before: BTreeMap<u32, FeeEntry<Permill, u32>> = AssetFee::<Rt>::iter().collect();
				let got = UpdateAndRetrieveFees::<Rt>::get(&k); let got = (got.0.deconstruct(), got.1.deconstruct());
				let after: BTreeMap<u32, FeeEntry<Permill, u32>> = AssetFee::<Rt>::iter().collect();
				let old = model.get(&k).copied().unwrap_or((a.lo, p.lo, 0));
				c.log(|| format!("block {now} asset {k}: {v:?} liquidity {l:?} stored {:?} -> {got:?}", model.get(&k)));
				let mut rest = after.clone(); rest.remove(&k); let mut rest0 = before.clone(); rest0.remove(&k);
				c.check("one-asset-at-a-time", rest == rest0, || format!("{before:?} -> {after:?}"));
				c.check("fees-in-their-ranges", (a.lo..=a.hi).contains(&got.0) && (p.lo..=p.hi).contains(&got.1), || format!("{got:?}, {a:?} {p:?}"));
				if old.2 == now { c.event("again in the block"); c.check("one-fee-per-block", got == (old.0, old.1) && after == before, || format!("{old:?} then {got:?}")); }
				else if let (Some(v), Some(l)) = (v, l) {
					let gap = (now - old.2) as u128; let d = v.i.abs_diff(v.o);
					let (ea, ep) = (expected(&a, old.0, gap, d, v.o > v.i, l), expected(&p, old.1, gap, d, v.i > v.o, l));
					c.event("updated"); c.nontrivial((v.i, v.o, l, gap)); c.distinct("direction and bounds", (v.o > v.i, v.o == v.i, got.0 == a.lo, got.0 == a.hi, got.1 == p.lo, got.1 == p.hi, gap.min(3)));
					c.check("asset-fee-follows-the-flow", (ea.0..=ea.1).contains(&got.0), || format!("asset fee {} from {} over {gap} blocks of {v:?}/{l}, expected {ea:?}, {a:?}", got.0, old.0));
					c.check("protocol-fee-follows-the-flow", (ep.0..=ep.1).contains(&got.1), || format!("protocol fee {} from {} over {gap} blocks of {v:?}/{l}, expected {ep:?}, {p:?}", got.1, old.1));
					c.check("fee-of-the-block-is-stored", after.get(&k) == Some(&FeeEntry { asset_fee: Permill::from_parts(got.0), protocol_fee: Permill::from_parts(got.1), timestamp: now }), || format!("{:?}", after.get(&k)));
					model.insert(k, (got.0, got.1, now));
				} else { c.event("no figures"); c.check("no-figures-no-change", got == (old.0, old.1) && after == before, || format!("{old:?} then {got:?}")); }
				if c.index < 3 { c.sample(|| serde_json::json!({ "block": now, "asset": k, "stored": old, "fees": got, "liquidity": l.map(|l| l.to_string()) })); }
				if c.failed() { return; }
			}
		}
	})
}
/// the runtime refuses to start with parameters that make no sense
fn parameters(c: &mut Ctx) {
	let r = &mut c.rng; let mut one = |r: &mut Rng| P { lo: r.ppm(1_000_000), hi: r.ppm(1_000_000), decay: 0, amp: if r.chance(1, 6) { 0 } else { r.log(1, 10u128.pow(20)) } };
	let (mut a, mut p) = (one(r), one(r)); if r.chance(1, 2) { a.hi = a.hi.max(a.lo); } if r.chance(1, 2) { p.hi = p.hi.max(p.lo); } if r.chance(1, 8) { a.hi = a.lo; }
	Af::set(a); Pf::set(p);
	let ok = a.lo <= a.hi && p.lo <= p.hi && a.amp > 0 && p.amp > 0;
	let ran = std::panic::catch_unwind(|| <pallet_dynamic_fees::Pallet<Rt> as Hooks<u32>>::integrity_test()).is_ok();
	c.event(if ok { "sensible" } else { "refused" }); c.nontrivial((a.lo, a.hi, p.lo, p.hi));
	c.check("nonsense-parameters-are-refused", ran == ok, || format!("{a:?} {p:?}: accepted {ran}"));
}
fn main() {
	mon_core::run!(1.0, "one case is a history of 40 blocks with up to five fee look-ups each, or one parameter set; non-trivial cases are distinct by volume, liquidity and gap",
		["volumes and liquidity come from a recording oracle that moves between blocks"];
		"C11" => |m: &mut mon_core::Monitor| {
			m.workload("fee-history", 4_000, 200_000, history);
			m.workload("fee-parameters", 3_000, 30_000, parameters);
			m.expect("fee-history/updated", 50_000); m.expect("fee-history/again in the block", 20_000); m.expect("fee-history/no figures", 5_000);
		});
}

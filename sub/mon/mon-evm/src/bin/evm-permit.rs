//! C15: a call permit runs exactly the call its signer signed, at most once, before its deadline.
use mon_core::Ctx;
use mon_evm::{abi::{self, T, V}, handle::{Handle, SubCall}, keccak, rt::{self, Runtime, CHAIN}, selector};
use fp_evm::*;
use pallet_evm_precompile_call_permit::{CallPermitPrecompile, NoncesStorage};
use sp_core::{H160, H256, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
type Pre = CallPermitPrecompile<Runtime>;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Permit { from: H160, to: H160, value: U256, data: Vec<u8>, gas: u64, nonce: U256, deadline: U256, chain: u64, verifier: H160 }
fn a(h: H160) -> V { V::Word(U256::from_big_endian(h.as_bytes())) }
fn digest(p: &Permit) -> [u8; 32] {
	let b32 = |k: [u8; 32]| V::Word(U256::from_big_endian(&k));
	let w = |ts: Vec<T>, vs: Vec<V>| keccak(&abi::enc(&T::Tuple(ts), &V::List(vs)));
	let dom = domain(p.chain, p.verifier);
	let th = keccak(b"CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)");
	let body = w(vec![T::Bytes32, T::Address, T::Address, T::Uint(256), T::Bytes32, T::Uint(64), T::Uint(256), T::Uint(256)], vec![b32(th), a(p.from), a(p.to), V::Word(p.value), b32(keccak(&p.data)), V::Word(p.gas.into()), V::Word(p.nonce), V::Word(p.deadline)]);
	keccak(&[&[0x19, 0x01][..], &dom, &body].concat())
}
fn domain(chain: u64, verifier: H160) -> [u8; 32] {
	let b32 = |k: [u8; 32]| V::Word(U256::from_big_endian(&k));
	keccak(&abi::enc(&T::Tuple(vec![T::Bytes32, T::Bytes32, T::Bytes32, T::Uint(256), T::Address]), &V::List(vec![b32(keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)")), b32(keccak(b"Call Permit Precompile")), b32(keccak(b"1")), V::Word(chain.into()), a(verifier)])))
}
struct Key { sk: U256, addr: H160 }
fn keys() -> &'static Vec<Key> { static K: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new(); K.get_or_init(|| (1..6u64).map(|i| { let sk = U256::from_big_endian(&keccak(&i.to_le_bytes())) >> 1; Key { sk, addr: H160::from_slice(&keccak(&sp_core::secp256k1::public(sk))[12..]) } }).collect()) }
#[derive(Clone)]
struct Sub { p: Permit, sig: [u8; 65], input: Vec<u8> }
fn call(p: &Permit, sig: &[u8; 65]) -> Vec<u8> {
	let mut i = selector("dispatch(address,address,uint256,bytes,uint64,uint256,uint8,bytes32,bytes32)").to_be_bytes().to_vec();
	i.extend(abi::enc_args(&T::Tuple(vec![T::Address, T::Address, T::Uint(256), T::Bytes(1 << 16), T::Uint(64), T::Uint(256), T::Uint(8), T::Bytes32, T::Bytes32]), &V::List(vec![a(p.from), a(p.to), V::Word(p.value), V::Bytes(p.data.clone()), V::Word(p.gas.into()), V::Word(p.deadline), V::Word(sig[64].into()), V::Word(U256::from_big_endian(&sig[..32])), V::Word(U256::from_big_endian(&sig[32..64]))])));
	i
}
fn history(c: &mut Ctx) {
	rt::ext(|| {
		let me = H160::from_low_u64_be(9);
		let mut chain = c.rng.range(1, 3) as u64; CHAIN.with(|x| x.set(chain));
		let ks = keys();
		let mut now: u64 = c.rng.range(0, 2_000_000_000_000) as u64;
		let model: RefCell<BTreeMap<H160, U256>> = RefCell::default();
		let done: RefCell<BTreeSet<Permit>> = RefCell::default();
		let mut sent: Vec<Sub> = vec![];
		for k in ks { if c.rng.chance(1, 4) { let n = if c.rng.chance(1, 2) { c.rng.range(1, 5).into() } else { U256::one() << 200 }; NoncesStorage::insert(k.addr, n); model.borrow_mut().insert(k.addr, n); } }
		for _ in 0..10 {
			rt::Timestamp::set_timestamp(now);
			let inner: RefCell<Vec<(bool, usize)>> = RefCell::default();
			let secs = now / 1000;
			let mut tampered = false;
			let sub = if !sent.is_empty() && c.rng.chance(1, 4) { c.event("replayed"); c.rng.pick(&sent).clone() } else {
				let k = c.rng.pick(ks);
				let n = model.borrow().get(&k.addr).copied().unwrap_or_default();
				let dl = c.rng.idx(400);
				let mut p = Permit { from: k.addr, to: H160::from_low_u64_be(c.rng.range(0, 40) as u64), value: match c.rng.idx(3) { 0 => 0.into(), 1 => c.rng.u64().into(), _ => U256::from(c.rng.u128()) << 100 }, data: (0..dl).map(|_| c.rng.u64() as u8).collect(), gas: match c.rng.idx(6) { 0 => 0, 1 => u64::MAX, 2 => u64::MAX - 36_600 + c.rng.range(0, 3) as u64, _ => c.rng.range(0, 30_000_000) as u64 },
					nonce: match c.rng.idx(8) { 0 => n + 1, 1 => n.saturating_sub(1.into()), _ => n }, deadline: match c.rng.idx(8) { 0 => secs.saturating_sub(1).into(), 1 => secs.into(), 2 => (secs + 1).into(), 3 => now.into(), 4 => U256::MAX, 5 => U256::one() << 64, _ => (secs + c.rng.range(0, 100_000) as u64).into() }, chain, verifier: me };
				if c.rng.chance(1, 12) { p.chain ^= 1; } if c.rng.chance(1, 12) { p.verifier = H160::from_low_u64_be(c.rng.range(0, 20) as u64); }
				let signer = if c.rng.chance(1, 10) { c.rng.pick(ks) } else { k };
				let Some(mut sig) = sp_core::secp256k1::sign(signer.sk, &digest(&p), U256::from(c.rng.u128()) + 1) else { continue };
				if c.rng.chance(1, 2) { sig[64] += 27; }
				let mut q = p.clone();
				if c.rng.chance(1, 4) { tampered = true; match c.rng.idx(8) { 0 => q.from = c.rng.pick(ks).addr, 1 => q.to.0[c.rng.idx(20)] ^= 1 << c.rng.idx(8), 2 => q.value ^= U256::one() << c.rng.idx(256), 3 if !q.data.is_empty() => { let i = c.rng.idx(q.data.len()); q.data[i] ^= 1 << c.rng.idx(8); } 3 | 4 => q.data.push(0), 5 => q.gas ^= 1 << c.rng.idx(20), 6 => q.deadline ^= U256::one() << c.rng.idx(256), _ => { let i = c.rng.idx(65); sig[i] ^= 1 << c.rng.idx(8); } } }
				if c.rng.chance(1, 16) { q.from = H160::zero(); }
				Sub { input: call(&q, &sig), p: q, sig }
			};
			let mut h = Handle::new(me, H160::from_low_u64_be(c.rng.u64()), sub.input.clone());
			h.gas = match c.rng.idx(6) { 0 => c.rng.range(0, 60_000) as u64, 1 => u64::MAX, 2 => sub.p.gas.saturating_add(c.rng.range(0, 50_000) as u64), 3 => sub.p.gas.saturating_add(3_033 + 2_600 + if sub.p.value.is_zero() { 0 } else { 34_000 }).saturating_add(c.rng.range(0, 2) as u64).saturating_sub(1), _ => 1 << 40 };
			h.stat = c.rng.chance(1, 16); if c.rng.chance(1, 16) { h.ctx.apparent_value = 1.into(); } if c.rng.chance(1, 12) { h.ctx.address = H160::from_low_u64_be(c.rng.range(5, 12) as u64); }
			let (gas, stat, value, address) = (h.gas, h.stat, h.ctx.apparent_value, h.ctx.address);
			// who signed exactly this, with the nonce as it stands?
			let judge = |s: &Sub, address: H160| -> (bool, Permit) {
				let p = Permit { nonce: model.borrow().get(&s.p.from).copied().unwrap_or_default(), chain, verifier: address, ..s.p.clone() };
				let signer = sp_core::secp256k1::recover(&s.sig, &digest(&p)).map(|k| H160::from_slice(&keccak(&k)[12..]));
				(signer == Some(p.from) && p.from != H160::zero() && p.deadline >= secs.into(), p)
			};
			let (signed, p) = judge(&sub, address);
			// two reads of 7, a write of 19
			let cost = 3_033u64; let call_cost = 2_600 + if sub.p.value.is_zero() { 0 } else { 9_000 + 25_000 };
			let afford = gas >= cost && sub.p.gas.checked_add(call_cost).map(|t| t <= gas - cost).unwrap_or(false);
			let want = signed && afford && !stat && value.is_zero();
			let answer = c.rng.idx(4); let reenter = c.rng.chance(1, 3);
			let out: Vec<u8> = (0..c.rng.idx(80)).map(|_| c.rng.u64() as u8).collect();
			let (out2, sub2, inner2, m2) = (out.clone(), sub.clone(), &inner, &model);
			let judge = &judge;
			let others: Vec<Sub> = sent.iter().take(2).cloned().collect();
			h.answer = Some(Box::new(move |s: &SubCall| {
				if reenter { *m2.borrow_mut().entry(sub2.p.from).or_default() += 1.into(); for r in std::iter::once(&sub2).chain(&others) { let (may, _) = judge(r, me); let mut k = Handle::new(me, s.to, r.input.clone()); k.gas = 1 << 40; sp_io::storage::start_transaction(); let _ = Pre::execute(&mut k); sp_io::storage::rollback_transaction(); inner2.borrow_mut().push((may && r.p.gas < 1 << 39, k.calls.len())); } *m2.borrow_mut().get_mut(&sub2.p.from).unwrap() -= 1.into(); }
				match answer { 0 => (ExitReason::Revert(ExitRevert::Reverted), out2.clone()), 1 => (ExitReason::Error(ExitError::OutOfFund), vec![]), _ => (ExitReason::Succeed(ExitSucceed::Returned), out2.clone()) }
			}));
			let before = sp_io::snapshot();
			sp_io::storage::start_transaction();
			let res = Pre::execute(&mut h);
			if res.is_ok() { sp_io::storage::commit_transaction() } else { sp_io::storage::rollback_transaction() }
			let calls = h.calls.clone(); let used = h.used; drop(h);
			c.log(|| format!("{:?} sig {:02x?} gas {gas} static {stat} value {value} at {address:?} now {now} answer {answer}: {res:?}, {} calls", sub.p, &sub.sig[..4], calls.len()));
			c.event(if want { "valid permit" } else { "invalid permit" }); if tampered { c.event("tampered"); }
			let ctx = || format!("permit {:?}, nonce {}, now {secs} s: signed {signed}, affordable {afford}, result {res:?}", sub.p, p.nonce);
			c.check("dispatched-exactly-if-signed-fresh-and-paid", calls.len() == want as usize, ctx);
			if let Some(s) = calls.first() {
				c.check("call-is-the-signed-one", *s == SubCall { to: p.to, transfer: if p.value.is_zero() { None } else { Some(Transfer { source: p.from, target: p.to, value: p.value }) }, input: p.data.clone(), gas: Some(p.gas), is_static: false, context: Context { address: p.to, caller: p.from, apparent_value: p.value } }, || format!("{s:?} for {p:?}"));
				let ok = match (&res, answer) { (Err(PrecompileFailure::Revert { output, .. }), 0) => *output == out, (Err(PrecompileFailure::Error { exit_status }), 1) => *exit_status == ExitError::OutOfFund, (Ok(o), 2 | 3) => o.output == abi::enc_args(&T::Tuple(vec![T::Bytes(1 << 20)]), &V::List(vec![V::Bytes(out.clone())])), _ => false };
				c.check("outcome-is-passed-on", ok, ctx);
				c.check("work-is-charged", used >= 3_000, || format!("{used}"));
				for (i, (may, n)) in inner.borrow().iter().enumerate() { c.event("re-entered"); c.check("running-permit-cannot-run-again", if i == 0 { *n == 0 } else { *n == *may as usize }, || format!("re-entrant call {i} dispatched {n}; {}", ctx())); }
				if res.is_ok() { c.event("executed"); c.check("each-permit-runs-once", done.borrow_mut().insert(p.clone()), ctx); *model.borrow_mut().entry(p.from).or_default() += 1.into(); c.nontrivial(&p); if tampered { c.event("tampered but equivalent"); } }
			} else if !want { c.check("refused-permit-fails", res.is_err(), ctx); }
			let after = sp_io::snapshot();
			let changed: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0.clone()).chain(before.keys().filter(|k| !after.contains_key(*k)).cloned()).collect();
			c.check("only-the-signers-nonce-changes", changed.len() == (want && res.is_ok()) as usize, || format!("{changed:02x?} {}", ctx()));
			for k in ks { let m = model.borrow().get(&k.addr).copied().unwrap_or_default(); c.check("nonce-counts-executions", NoncesStorage::get(k.addr) == m, || format!("{:?}: {} expected {m}; {}", k.addr, NoncesStorage::get(k.addr), ctx())); }
			// views
			let k = c.rng.pick(ks); let m = model.borrow().get(&k.addr).copied().unwrap_or_default();
			let mut i = selector("nonces(address)").to_be_bytes().to_vec(); i.extend(abi::enc(&T::Address, &a(k.addr)));
			let mut h = Handle::new(me, k.addr, i); h.stat = true;
			c.check("nonces-view", matches!(Pre::execute(&mut h), Ok(o) if o.output == abi::word(m)), || format!("{:?}", k.addr));
			let mut h = Handle::new(me, k.addr, selector("DOMAIN_SEPARATOR()").to_be_bytes().to_vec()); h.ctx.address = address; h.stat = true;
			c.check("domain-separator-view", matches!(Pre::execute(&mut h), Ok(o) if o.output == domain(chain, address)), || format!("chain {chain} {address:?}"));
			let g = Pre::generate_permit(address, p.from, p.to, p.value, p.data.clone(), p.gas, p.nonce, p.deadline);
			c.check("digest-follows-eip712", g == digest(&p), || format!("{p:?}"));
			sent.push(sub);
			if c.rng.chance(1, 2) { now += c.rng.log(1, 200_000_000) as u64; }
			if c.rng.chance(1, 12) { chain = 3 - chain.min(2); if chain == 0 { chain = 1; } CHAIN.with(|x| x.set(chain)); }
			if c.failed() { return; }
		}
	});
	let _ = H256::zero();
}
fn main() {
	mon_core::run!(1.0, "one case is a history of ten permit submissions (fresh, tampered, replayed, re-entrant, across time and chain id); non-trivial cases are distinct histories of executed permits",
		["signature recovery is the stand-in's own secp256k1 (checked against a known key), used by both the code under test and the signer", "a failing precompile call is rolled back by the EVM, as its interpreter does"];
		"C15" => |m: &mut mon_core::Monitor| {
			m.workload("permits", 2_500, 100_000, history);
			m.expect("permits/executed", 800); m.expect("permits/invalid permit", 2_000); m.expect("permits/replayed", 1_000); m.expect("permits/re-entered", 400); m.expect("permits/tampered", 500);
		});
}

//! C14: the EVM boundary: selectors and hashes, ABI coding, dispatch, and who may call a precompile.
use mon_core::{Ctx, Rng};
use mon_evm::{abi::{self, T, V}, handle::{Handle, SubCall}, keccak, rt::{self, Runtime, TRACE}, selector};
use fp_evm::*;
use precompile_utils::{prelude::*, solidity::codec::{Codec, BoundedBytes, BoundedString, BoundedVec, Convert, UnboundedBytes, UnboundedString, Address, Reader, Writer}};
use frame_support::traits::{ConstU32, Get};
use sp_core::{H160, H256, U256};
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

// ---- compile-time and run-time hashes
fn hashes(c: &mut Ctx) {
	if c.index == 0 {
		for (l, a, b) in LITS {
			let k = keccak(l.as_bytes());
			c.check("compile-time-hash-is-keccak", *a == k && **b == k, || format!("{l:?}: {a:02x?} {b:02x?} expected {k:02x?}"));
			c.event("literal"); c.nontrivial(l);
		}
		for (l, s) in SEL { c.check("generated-selector-is-hash-prefix", *s == selector(l), || format!("{l:?}: {s:#x} expected {:#x}", selector(l))); c.event("selector"); c.distinct("selectors", s); }
		names(c);
	}
	let n = c.rng.idx(300); let s: String = (0..n).map(|_| char::from_u32(c.rng.range(1, 0x2ff) as u32).unwrap_or('a')).collect();
	let k = keccak(s.as_bytes());
	c.check("runtime-hash-is-keccak", module_evm_utility::sha3_256(&s) == k, || s.clone());
	c.check("runtime-selector-is-hash-prefix", module_evm_utility::get_function_selector(&s) == selector(&s), || s.clone());
	c.nontrivial(&s); c.event("string");
}
mod named {
	use super::*; use precompile_utils::precompile_set::*;
	pub struct ECRecover; pub struct Sha256; pub struct Erc20<R>(std::marker::PhantomData<R>); pub struct Far; pub struct CollectivePrecompile<R, I>(std::marker::PhantomData<(R, I)>); pub struct Council; pub struct Technical;
	#[precompile_utils::precompile_name_from_address]
	pub type Set = (PrecompileAt<AddressU64<1>, ECRecover, AcceptDelegateCall>, PrecompileAt<AddressU64<2>, Sha256>, RemovedPrecompileAt<AddressU64<3>>, PrecompileAt<AddressU64<1026>, Erc20<u8>, (CallableByContract, CallableByPrecompile)>, PrecompileAt<AddressU64<0xffff_ffff_0000_0001>, Far>, PrecompileAt<AddressU64<2064>, CollectivePrecompile<u8, Council>>, PrecompileAt<AddressU64<2065>, CollectivePrecompile<u8, Technical>>);
}
fn names(c: &mut Ctx) {
	let table = [(1u64, "ECRecover"), (2, "Sha256"), (1026, "Erc20"), (0xffff_ffff_0000_0001, "Far"), (2064, "Council"), (2065, "Technical")];
	let mut r = Rng::new(7);
	for i in 0..4000u32 {
		let mut a = match i % 4 { 0 => table[r.idx(6)].0, 1 => r.range(0, 3000) as u64, 2 => table[r.idx(6)].0 ^ (1 << r.idx(64)), _ => r.u64() };
		if i < 3000 { a = i as u64; }
		let mut h = H160::from_low_u64_be(a);
		let high = r.chance(1, 4); if high { h.0[r.idx(12)] ^= 1 << r.idx(8); }
		let want = if high { None } else { table.iter().find(|t| t.0 == a).map(|t| t.1.to_string()) };
		let got = named::PrecompileName::from_address(h).map(|x| format!("{x:?}"));
		c.check("name-of-address", got == want, || format!("{h:?}: {got:?} expected {want:?}"));
		c.event("name");
	}
}

// ---- ABI coding
trait Gen: Codec { fn ty() -> T; fn make(v: &V) -> Self; fn val(&self) -> V; }
macro_rules! uint { ($($t:ty, $n:literal);*) => { $(impl Gen for $t { fn ty() -> T { T::Uint($n) } fn make(v: &V) -> Self { match v { V::Word(w) => (*w).try_into().unwrap(), _ => unreachable!() } } fn val(&self) -> V { V::Word((*self).into()) } })* } }
uint!(u8, 8; u16, 16; u32, 32; u64, 64; u128, 128);
impl Gen for U256 { fn ty() -> T { T::Uint(256) } fn make(v: &V) -> Self { match v { V::Word(w) => *w, _ => unreachable!() } } fn val(&self) -> V { V::Word(*self) } }
impl Gen for bool { fn ty() -> T { T::Bool } fn make(v: &V) -> Self { match v { V::Word(w) => !w.is_zero(), _ => unreachable!() } } fn val(&self) -> V { V::Word((*self as u8).into()) } }
impl Gen for Address { fn ty() -> T { T::Address } fn make(v: &V) -> Self { match v { V::Word(w) => Address(H160::from_slice(&abi::word(*w)[12..])), _ => unreachable!() } } fn val(&self) -> V { V::Word(U256::from_big_endian(self.0.as_bytes())) } }
impl Gen for H256 { fn ty() -> T { T::Bytes32 } fn make(v: &V) -> Self { match v { V::Word(w) => H256(abi::word(*w)), _ => unreachable!() } } fn val(&self) -> V { V::Word(U256::from_big_endian(self.as_bytes())) } }
macro_rules! bytes { ($($t:ident, $k:ident);*) => { $(impl<S: Get<u32>> Gen for $t<S> { fn ty() -> T { T::$k(S::get() as u64) } fn make(v: &V) -> Self { match v { V::Bytes(b) => b.clone().into(), _ => unreachable!() } } fn val(&self) -> V { V::Bytes(self.as_bytes().to_vec()) } })* } }
bytes!(BoundedBytes, Bytes; BoundedString, Str);
impl<X: Gen> Gen for Vec<X> { fn ty() -> T { T::Array(Box::new(X::ty()), u32::MAX as u64) } fn make(v: &V) -> Self { match v { V::List(x) => x.iter().map(X::make).collect(), _ => unreachable!() } } fn val(&self) -> V { V::List(self.iter().map(|x| x.val()).collect()) } }
#[allow(clippy::type_complexity)]
impl<X: Gen + Clone, S: Get<u32>> Gen for BoundedVec<X, S> where BoundedVec<X, S>: Clone { fn ty() -> T { T::Array(Box::new(X::ty()), S::get() as u64) } fn make(v: &V) -> Self { match v { V::List(x) => x.iter().map(X::make).collect::<Vec<_>>().into(), _ => unreachable!() } } fn val(&self) -> V { V::List(Vec::<X>::from(self.clone()).iter().map(|x| x.val()).collect()) } }
macro_rules! tup { ($($n:ident $i:tt),+) => { impl<$($n: Gen),+> Gen for ($($n,)+) { fn ty() -> T { T::Tuple(vec![$($n::ty()),+]) } fn make(v: &V) -> Self { match v { V::List(x) => ($($n::make(&x[$i]),)+), _ => unreachable!() } } fn val(&self) -> V { V::List(vec![$(self.$i.val()),+]) } } } }
tup!(A 0); tup!(A 0, B 1); tup!(A 0, B 1, C 2); tup!(A 0, B 1, C 2, D 3); tup!(A 0, B 1, C 2, D 3, E 4);
macro_rules! rec { ($($name:ident { $($f:ident: $t:ty),+ })*) => { $(#[derive(Codec, Clone)] struct $name { $($f: $t),+ } impl Gen for $name { fn ty() -> T { T::Tuple(vec![$(<$t>::ty()),+]) } #[allow(unused_assignments)] fn make(v: &V) -> Self { match v { V::List(x) => { let mut i = 0; $(let $f = <$t>::make(&x[i]); i += 1;)+ $name { $($f),+ } } _ => unreachable!() } } fn val(&self) -> V { V::List(vec![$(self.$f.val()),+]) } })* } }
type B = UnboundedBytes; type S = UnboundedString; type B40 = BoundedBytes<ConstU32<40>>; type S5 = BoundedString<ConstU32<5>>; type V3<X> = BoundedVec<X, ConstU32<3>>;
rec! { One { only: u32 } Static { a: Address, b: u128, c: bool } Dyn { id: u8, data: B, when: U256 } Deep { list: Vec<Dyn>, s: Static, names: V3<S> } Wide { a: u8, b: u16, c: u32, d: u64, e: u128, f: U256, g: bool, h: Address, i: H256, j: B, k: S, l: Vec<u8> } }
trait Probe { fn run(&self, c: &mut Ctx); }
struct P<X>(std::marker::PhantomData<X>);
fn gen(r: &mut Rng, t: &T, depth: u32) -> V {
	match t {
		T::Uint(n) => { let m = if *n == 256 { U256::MAX } else { (U256::one() << *n) - 1 }; V::Word(match r.idx(6) { 0 => 0.into(), 1 => m, 2 => 1.into(), _ => { let w = U256::from_big_endian(&[abi::word(r.u128().into()), abi::word(r.u128().into())].concat()[16..48]); (w >> r.idx(256)) & m } }) }
		T::Bool => V::Word((r.chance(1, 2) as u8).into()),
		T::Address => V::Word((U256::from(r.u128()) << 32) | (r.u64() as u32).into()),
		T::Bytes32 => V::Word((U256::from(r.u128()) << 128) | r.u128().into()),
		T::Bytes(m) | T::Str(m) => { let m = (*m).min(200); let n = match r.idx(6) { 0 => 0, 1 => m, 2 => 32.min(m), 3 => 31.min(m), 4 => 33.min(m), _ => r.range(0, m as u128) as u64 }; V::Bytes((0..n).map(|_| if r.chance(1, 6) { 0 } else { r.u64() as u8 }).collect()) }
		T::Array(t, m) => { let n = r.range(0, (*m).min(if depth > 1 { 3 } else { 6 }) as u128); V::List((0..n).map(|_| gen(r, t, depth + 1)).collect()) }
		T::Tuple(ts) => V::List(ts.iter().map(|t| gen(r, t, depth + 1)).collect()),
	}
}
impl<X: Gen> Probe for P<X> {
	fn run(&self, c: &mut Ctx) {
		use precompile_utils::solidity::{encode_arguments, encode_with_selector, decode_arguments, codec};
		let t = X::ty(); let v = gen(&mut c.rng, &t, 0); let sig = t.signature();
		c.check("signature", X::signature() == sig, || format!("{} expected {sig}", X::signature()));
		c.check("static-size", X::has_static_size() == !t.dynamic(), || sig.clone());
		// a derived struct is one argument; an explicit tuple is the whole argument list
		let listed = X::is_explicit_tuple();
		let model = |v: &V| if listed { abi::enc_args(&t, v) } else { abi::enc_args(&T::Tuple(vec![t.clone()]), &V::List(vec![v.clone()])) };
		let want = model(&v);
		let got = encode_arguments(X::make(&v));
		if !c.check("encoding-follows-the-specification", got == want, || format!("{sig} {v:?}\n got {}\nwant {}", hex(&got), hex(&want))) { return; }
		let sel = c.rng.u64() as u32;
		let ws = encode_with_selector(sel, X::make(&v));
		c.check("selector-then-arguments", ws[..4] == sel.to_be_bytes() && ws[4..] == want[..] && codec::selector(&ws) == Some(sel), || sig.clone());
		c.check("writer-with-selector", Writer::new_with_selector(sel).write(X::make(&v)).build()[..4] == sel.to_be_bytes(), || sig.clone());
		match decode_arguments::<X>(&want) { Ok(x) => { c.check("round-trip", x.val() == v, || format!("{sig} {v:?} came back {:?}", x.val())); } Err(_) => { c.check("round-trip", false, || format!("{sig} {v:?} refused")); } }
		if let Ok(mut r) = Reader::new_skip_selector(&ws) { if !listed || !t.dynamic() { let ok = r.read::<X>().map(|x| x.val() == v).unwrap_or(false); c.check("reader-after-selector", ok, || sig.clone()); } }
		c.event("encoded"); c.distinct("types", &sig); c.nontrivial((&sig, &want)); c.maximum("encoded bytes", want.len() as u128);
		// hostile inputs
		for _ in 0..6 {
			let mut bad = want.clone(); let words = bad.len() / 32;
			for _ in 0..1 + c.rng.idx(3) { match c.rng.idx(7) {
				0 => { let n = c.rng.idx(bad.len() + 1); bad.truncate(n); }
				1 if words > 0 => { let i = c.rng.idx(words) * 32; if i + 32 <= bad.len() { let w = match c.rng.idx(7) { 0 => U256::MAX, 1 => U256::from(u64::MAX), 2 => U256::one() << c.rng.idx(256), 3 => U256::from(c.rng.range(0, 300)), 4 => U256::from(bad.len()) , 5 => U256::from(32 * c.rng.idx(words + 2)), _ => U256::zero() }; bad[i..i + 32].copy_from_slice(&abi::word(w)); } }
				2 if !bad.is_empty() => { let i = c.rng.idx(bad.len()); bad[i] ^= 1 << c.rng.idx(8); }
				3 => { let n = c.rng.idx(70); for _ in 0..n { let b = c.rng.u64() as u8; bad.push(b); } }
				4 if words > 1 => { let (i, j) = (c.rng.idx(words) * 32, c.rng.idx(words) * 32); if i + 32 <= bad.len() && j + 32 <= bad.len() { let w: Vec<u8> = bad[i..i + 32].to_vec(); bad[j..j + 32].copy_from_slice(&w); } }
				5 => { let n = c.rng.idx(200); bad = (0..n).map(|_| c.rng.u64() as u8).collect(); }
				_ => {}
			} }
			let want = match if listed { abi::dec_args(&t, &bad) } else { abi::dec_args(&T::Tuple(vec![t.clone()]), &bad).map(|o| o.map(|v| match v { V::List(mut x) => x.remove(0), v => v })) } { Ok(w) => w, Err(()) => continue };
			let got = decode_arguments::<X>(&bad).ok().map(|x| x.val());
			c.event(if got.is_some() { "hostile input accepted" } else { "hostile input refused" });
			if !c.check("decoder-accepts-exactly-what-fits", got == want, || format!("{sig} input {}\n got {got:?}\nwant {want:?}", hex(&bad))) { return; }
		}
	}
}
fn hex(b: &[u8]) -> String { b.chunks(32).map(|w| w.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(" ") }
macro_rules! probes { ($($t:ty),+ $(,)?) => { vec![$(Box::new(P::<$t>(std::marker::PhantomData)) as Box<dyn Probe>),+] } }
fn coding(c: &mut Ctx) {
	let all: Vec<Box<dyn Probe>> = probes![U256, u8, u16, u32, u64, u128, bool, Address, H256, B, S, B40, S5, Vec<u8>, Vec<U256>, Vec<B>, V3<u16>, V3<S5>, Vec<Vec<u64>>, Vec<Vec<B>>, V3<V3<Address>>, Vec<(u8, bool)>, Vec<(u8, B)>, Vec<Dyn>, Vec<Static>, (u8,), (B,), (Address, U256), (Address, Address, U256), (u128, B, bool), (B, B), (Vec<Address>, Vec<U256>, Vec<B>, Vec<u64>), ((u8, u16), u32), ((u8, B), u32), (u32, (B, (S, u8)), bool), (B40, V3<u8>, S5), (Vec<(u8, Vec<B>)>, H256), One, Static, Dyn, Deep, Wide, (Deep, u8), (Static, Static), (One, Dyn, Vec<Deep>), (H256, H256, H256, U256, Address)];
	let k = c.index as usize % all.len(); all[k].run(c);
	// Convert reads the wide type and refuses what the narrow one cannot hold
	let w = { let s = c.rng.idx(256); (U256::from(c.rng.u128()) << 128 | c.rng.u128().into()) >> s };
	let a = precompile_utils::solidity::decode_arguments::<Convert<U256, u128>>(&abi::word(w)).ok().map(|x| x.converted());
	c.check("convert-narrow", a == u128::try_from(w).ok(), || format!("{w} {a:?}"));
	let b = precompile_utils::solidity::decode_arguments::<Convert<u64, u8>>(&abi::word(w)).ok().map(|x| x.converted());
	c.check("convert-narrow", b == u8::try_from(w).ok(), || format!("{w} {b:?}"));
	let k = c.rng.u64() as u8; c.check("convert-writes-wide", precompile_utils::solidity::encode_arguments(Convert::<U256, u8>::from(k)) == abi::word(k.into()).to_vec() && Convert::<U256, u8>::signature() == "uint256", || k.to_string());
	let ad = H160::from_slice(&abi::word(w)[12..]);
	c.check("address-as-u64", Address(ad).as_u64() == if U256::from_big_endian(ad.as_bytes()) <= u64::MAX.into() { Some(U256::from_big_endian(ad.as_bytes()).as_u64()) } else { None }, || format!("{ad:?}"));
	// a revert carries Error(string)
	let m: String = (0..c.rng.idx(80)).map(|_| (b' ' + c.rng.idx(94) as u8) as char).collect();
	let mut e = 0x08c379a0u32.to_be_bytes().to_vec(); e.extend(abi::enc_args(&T::Tuple(vec![T::Str(9999)]), &V::List(vec![V::Bytes(m.clone().into_bytes())])));
	c.check("revert-is-error-string", precompile_utils::solidity::revert::revert_as_bytes(m.clone()) == e, || m.clone());
	let (tn, dl) = (c.rng.idx(5), c.rng.idx(5000)); c.check("log-cost", precompile_utils::evm::costs::log_costs(tn, dl).ok() == Some(375 + 375 * tn as u64 + 8 * dl as u64), || format!("{tn} {dl}"));
}

// ---- refusals say what and where
fn refusals(c: &mut Ctx) {
	use precompile_utils::solidity::{decode_arguments, revert::{BacktraceExt, InjectBacktrace, MayRevert, Revert, RevertExt, RevertReason, revert_as_bytes}};
	#[derive(Clone)] enum At { Field(String), Tuple(usize), Array(usize) }
	let word = |r: &mut Rng| -> String { let n = r.idx(9); (0..n).map(|_| (b'a' + r.idx(26) as u8) as char).collect() };
	let (mut what, kind) = (word(&mut c.rng), c.rng.idx(7));
	let n = c.rng.idx(40);
	let make = |kind: usize, what: &str| match kind { 0 => RevertReason::custom(what), 1 => RevertReason::read_out_of_bounds(what), 2 => RevertReason::value_is_too_large(what), 3 => RevertReason::UnknownSelector, 4 => RevertReason::PointerToOutofBound, 5 => RevertReason::CursorOverflow, _ => RevertReason::ExpectedAtLeastNArguments(n) };
	let mut kind = kind; let mut path: Vec<At> = vec![];
	let mut got: MayRevert<u8> = match c.rng.idx(4) { 0 => { path.push(At::Tuple(3)); Err(make(kind, &what).in_tuple(3)) } 1 => { path.push(At::Field("f".into())); Err(make(kind, &what).in_field("f")) } 2 => { path.push(At::Array(4)); Err(make(kind, &what).in_array(4)) } _ => Err(Revert::new(make(kind, &what))) };
	for _ in 0..c.rng.idx(7) { got = match c.rng.idx(6) {
		0 => { let f = word(&mut c.rng); path.push(At::Field(f.clone())); got.in_field(f) }
		1 => { let i = c.rng.idx(20); path.push(At::Tuple(i)); got.in_tuple(i) }
		2 => { let i = c.rng.idx(20); path.push(At::Array(i)); got.in_array(i) }
		3 => { let names: &[&'static str] = *c.rng.pick(&[&["a", "b"][..], &["x", "y", "z", "w", "v", "u", "t", "s", "r", "q", "p"][..], &[][..]]); if let Some(At::Tuple(i)) = path.last().cloned() { if i < names.len() { *path.last_mut().unwrap() = At::Field(names[i].into()); } } got.map_in_tuple_to_field(names) }
		4 => { let w = word(&mut c.rng); if kind == 1 || kind == 2 { what = w.clone(); } got.map_err(|e| e.change_what(w)) }
		_ => { kind = c.rng.idx(7); what = word(&mut c.rng); let (k, w) = (kind, what.clone()); got.map_reason(|_| make(k, &w)) }
	}; }
	let mut text = String::new();
	for (i, p) in path.iter().rev().enumerate() { match p { At::Field(f) if i == 0 => text += f, At::Field(f) => text += &format!(".{f}"), At::Tuple(k) => text += &format!(".{k}"), At::Array(k) => text += &format!("[{k}]") } }
	if !path.is_empty() { text += ": "; }
	text += &match kind { 0 => what.clone(), 1 => format!("Tried to read {what} out of bounds"), 2 => format!("Value is too large for {what}"), 3 => "Unknown selector".into(), 4 => "Pointer points to out of bound".into(), 5 => "Reading cursor overflowed".into(), _ => format!("Expected at least {n} arguments") };
	let e = got.err().unwrap();
	c.check("refusal-names-its-place", e.to_string() == text, || format!("got {e:?} expected {text:?}"));
	let failure: PrecompileFailure = e.into();
	c.check("refusal-is-an-error-string", matches!(&failure, PrecompileFailure::Revert { output, exit_status: ExitRevert::Reverted } if *output == revert_as_bytes(text.clone()) && *output == [&selector("Error(string)").to_be_bytes()[..], &abi::enc_args(&T::Tuple(vec![T::Str(u32::MAX as u64)]), &V::List(vec![V::Bytes(text.clone().into_bytes())]))].concat()), || format!("{failure:?}"));
	c.nontrivial(&text); c.event("refusal");
	// a decoded argument that does not fit is named by its position
	fn place<X: Codec>(b: &[u8]) -> Option<String> { decode_arguments::<X>(b).err().map(|e| { let s = e.to_string(); s.split(": ").next().unwrap_or("").to_string() }) }
	let k = c.rng.idx(5); let big = abi::word(U256::one() << 128 | c.rng.u128().into()); let mut b = abi::word(1.into()).repeat(5); 
	if c.rng.chance(1, 2) { b[32 * k..32 * k + 32].copy_from_slice(&big); } else { b.truncate(32 * k + c.rng.idx(32)); }
	c.check("argument-position-is-named", place::<(u8, u16, u32, u64, u128)>(&b) == Some(format!(".{k}")), || format!("element {k}: {:?}", place::<(u8, u16, u32, u64, u128)>(&b)));
	let mut b = [abi::word(32.into()), abi::word(5.into())].concat(); for i in 0..5 { b.extend(if i == k { big } else { abi::word(i.into()) }); }
	c.check("argument-position-is-named", place::<Vec<u16>>(&b) == Some(format!("[{k}]")), || format!("item {k}: {:?}", place::<Vec<u16>>(&b)));
	c.check("argument-position-is-named", place::<(Vec<u16>,)>(&b) == Some(format!(".0[{k}]")), || format!("item {k} in a tuple"));
	let fields = ["a", "b", "c", "d", "e"]; let mut w = vec![abi::word(1.into()); 9]; w.extend([abi::word(320.into()); 3]); w[k] = big; w[9] = abi::word(384.into()); w[10] = abi::word(384.into()); w[11] = abi::word(384.into()); w.push(abi::word(0.into()));
	let all = [abi::word(32.into()).to_vec(), w.concat()].concat();
	c.check("argument-position-is-named", place::<Wide>(&all) == Some(fields[k].to_string()), || format!("field {}: {:?}", fields[k], place::<Wide>(&all)));
	// raw reading stays inside the input
	let data: Vec<u8> = (0..c.rng.idx(140)).map(|_| c.rng.u64() as u8).collect(); let skip = c.rng.chance(1, 3);
	let start = if skip { 4 } else { 0 };
	let rd = if skip { Reader::new_skip_selector(&data) } else { Ok(Reader::new(&data)) };
	c.check("selector-needs-four-bytes", rd.is_ok() == (!skip || data.len() >= 4), || format!("{} bytes", data.len()));
	if let Ok(mut rd) = rd {
		let rest = &data[start..]; let mut at = 0usize;
		for _ in 0..6 { let ok = match c.rng.idx(5) {
			0 => { let n = match c.rng.idx(5) { 0 => usize::MAX, 1 => rest.len().saturating_sub(at), _ => c.rng.idx(60) }; let want = at.checked_add(n).and_then(|e| rest.get(at..e)); let ok = rd.read_raw_bytes(n).ok() == want; if let Some(e) = at.checked_add(n) { at = e; } ok }
			1 => { let n = c.rng.idx(6); rd.expect_arguments(n).is_ok() == (rest.len() >= at + 32 * n) }
			2 if at <= rest.len() => { let ok = rd.read_till_end().ok() == Some(&rest[at..]); at = rest.len(); ok }
			3 => { let want = rest.get(at..at + 32).map(U256::from_big_endian); let ok = rd.read::<U256>().ok() == want; at += 32; ok }
			_ => rest.get(at..).is_none() || rd.clone().read_raw_bytes(rest.len() - at).is_ok(),
		}; if at > rest.len() + 1000 { break; } if !c.check("raw-reads-stay-inside", ok, || format!("at {at} of {}", rest.len())) { return; } }
	}
}

// ---- dispatch
thread_local! { static CALLED: std::cell::RefCell<Vec<String>> = Default::default(); }
fn note(s: String) { CALLED.with(|c| c.borrow_mut().push(s)); }
#[derive(Codec, Clone, Debug)]
pub struct Item { pub kind: u8, pub data: UnboundedBytes }
pub struct Calc;
#[precompile_utils::precompile]
impl Calc {
	#[precompile::pre_check]
	fn guard(h: &mut impl PrecompileHandle) -> EvmResult { if h.context().caller == H160::repeat_byte(0xee) { Err(revert("no")) } else { Ok(()) } }
	#[precompile::public("add(uint128,uint64)")]
	fn add(_h: &mut impl PrecompileHandle, a: u128, b: u64) -> EvmResult<U256> { note(format!("add {a} {b}")); Ok(U256::from(a) + U256::from(b)) }
	#[precompile::public("look(address,uint8)")] #[precompile::view]
	fn look(_h: &mut impl PrecompileHandle, who: Address, k: u8) -> EvmResult<(Address, u8)> { note(format!("look {:?} {k}", who.0)); Ok((who, k)) }
	#[precompile::public("pay(bytes)")] #[precompile::payable]
	fn pay(_h: &mut impl PrecompileHandle, d: BoundedBytes<ConstU32<64>>) -> EvmResult<UnboundedBytes> { note(format!("pay {:?}", d.as_bytes())); Ok(d.as_bytes().into()) }
	#[precompile::public("mix((uint8,bytes)[],uint256[])")] #[precompile::public("mixOld((uint8,bytes)[],uint256[])")]
	fn mix(_h: &mut impl PrecompileHandle, items: Vec<Item>, amounts: Vec<U256>) -> EvmResult<(UnboundedBytes, u32)> { note(format!("mix {:?} {amounts:?}", items.iter().map(|i| (i.kind, i.data.as_bytes().to_vec())).collect::<Vec<_>>())); Ok((items.first().map(|i| i.data.clone()).unwrap_or_default(), amounts.len() as u32)) }
	#[precompile::public("ping()")] #[precompile::view]
	fn ping(_h: &mut impl PrecompileHandle) -> EvmResult { note("ping".into()); Ok(()) }
	#[precompile::fallback] #[precompile::payable]
	fn other(_h: &mut impl PrecompileHandle) -> EvmResult { note("fallback".into()); Ok(()) }
}
pub struct Strict;
#[precompile_utils::precompile]
impl Strict {
	#[precompile::public("one(uint256)")]
	fn one(_h: &mut impl PrecompileHandle, a: U256) -> EvmResult<U256> { note(format!("one {a}")); Ok(a) }
	#[precompile::public("two(bool,string)")] #[precompile::view]
	fn two(_h: &mut impl PrecompileHandle, a: bool, b: UnboundedString) -> EvmResult<bool> { note(format!("two {a} {:?}", b.as_bytes())); Ok(!a) }
}
pub struct Assets;
#[precompile_utils::precompile]
#[precompile::precompile_set]
impl Assets {
	#[precompile::discriminant]
	fn discriminant(a: H160, gas: u64) -> DiscriminantResult<u32> { if gas < 10 { return DiscriminantResult::OutOfGas; } if a.0[..16] == [0; 16].map(|_: u8| 0xffu8) { DiscriminantResult::Some(u32::from_be_bytes([a.0[16], a.0[17], a.0[18], a.0[19]]), 3) } else { DiscriminantResult::None(3) } }
	#[precompile::public("transfer(address,uint256)")]
	fn transfer(id: u32, _h: &mut impl PrecompileHandle, to: Address, n: U256) -> EvmResult<bool> { note(format!("transfer {id} {:?} {n}", to.0)); Ok(true) }
	#[precompile::public("totalSupply()")] #[precompile::view]
	fn total_supply(id: u32, _h: &mut impl PrecompileHandle) -> EvmResult<U256> { note(format!("supply {id}")); Ok(id.into()) }
}
#[derive(Clone, Copy, PartialEq, Debug)] enum M { View, Plain, Pay }
fn dispatch(c: &mut Ctx) {
	let bytes = || T::Bytes(u32::MAX as u64);
	type Fun = (&'static [&'static str], T, M);
	let calc: Vec<Fun> = vec![(&["add(uint128,uint64)"], T::Tuple(vec![T::Uint(128), T::Uint(64)]), M::Plain), (&["look(address,uint8)"], T::Tuple(vec![T::Address, T::Uint(8)]), M::View), (&["pay(bytes)"], T::Tuple(vec![T::Bytes(64)]), M::Pay),
		(&["mix((uint8,bytes)[],uint256[])", "mixOld((uint8,bytes)[],uint256[])"], T::Tuple(vec![T::Array(Box::new(T::Tuple(vec![T::Uint(8), bytes()])), u32::MAX as u64), T::Array(Box::new(T::Uint(256)), u32::MAX as u64)]), M::Plain), (&["ping()"], T::Tuple(vec![]), M::View)];
	let strict: Vec<Fun> = vec![(&["one(uint256)"], T::Tuple(vec![T::Uint(256)]), M::Plain), (&["two(bool,string)"], T::Tuple(vec![T::Bool, T::Str(u32::MAX as u64)]), M::View)];
	let assets: Vec<Fun> = vec![(&["transfer(address,uint256)"], T::Tuple(vec![T::Address, T::Uint(256)]), M::Plain), (&["totalSupply()"], T::Tuple(vec![]), M::View)];
	if c.index == 0 {
		let all = |f: &[Fun]| { let mut x: Vec<u32> = f.iter().flat_map(|f| f.0.iter().map(|s| selector(s))).collect(); x.sort(); x };
		let sorted = |x: &[u32]| { let mut x = x.to_vec(); x.sort(); x };
		c.check("listed-selectors", sorted(CalcCall::selectors()) == all(&calc) && sorted(StrictCall::selectors()) == all(&strict) && sorted(AssetsCall::selectors()) == all(&assets), || "selectors()".into());
		c.check("function-selectors", sorted(CalcCall::mix_selectors()) == sorted(&[selector(calc[3].0[0]), selector(calc[3].0[1])]) && CalcCall::add_selectors() == &[selector(calc[0].0[0])], || "x_selectors()".into());
	}
	let which = c.rng.idx(3);
	let funs = match which { 0 => &calc, 1 => &strict, _ => &assets };
	let k = c.rng.idx(funs.len()); let (names, t, _) = &funs[k]; let name = *c.rng.pick(names);
	let mut v = gen(&mut c.rng, t, 0);
	if c.rng.chance(1, 2) && which == 0 && k == 2 { let n = c.rng.idx(120); v = V::List(vec![V::Bytes(vec![7; n])]); }
	let mut input = selector(name).to_be_bytes().to_vec(); input.extend(if matches!(t, T::Tuple(x) if x.is_empty()) { vec![] } else { abi::enc_args(t, &v) });
	match c.rng.idx(8) { 0 => { let n = c.rng.idx(input.len() + 1); input.truncate(n); } 1 => { let i = c.rng.idx(4.min(input.len())); input[i] ^= 1 << c.rng.idx(8); } 2 if input.len() > 4 => { let i = 4 + c.rng.idx(input.len() - 4); input[i] ^= 1 << c.rng.idx(8); } 3 => { let n = c.rng.idx(40); input.extend(vec![0xab; n]); } _ => {} }
	let id = c.rng.u64() as u32;
	let mut code = H160::from_low_u64_be(which as u64 + 1);
	if which == 2 { code = H160([0xff; 20]); code.0[16..].copy_from_slice(&id.to_be_bytes()); if c.rng.chance(1, 6) { code.0[c.rng.idx(16)] ^= 1 << c.rng.idx(8); } }
	let caller = if c.rng.chance(1, 8) { H160::repeat_byte(0xee) } else { H160::from_low_u64_be(c.rng.u64()) };
	let mut h = Handle::new(code, caller, input.clone());
	h.stat = c.rng.chance(1, 3); if c.rng.chance(1, 3) { h.ctx.apparent_value = if c.rng.chance(1, 2) { 1.into() } else { U256::one() << c.rng.idx(256) }; }
	CALLED.with(|c| c.borrow_mut().clear());
	let (stat, value) = (h.stat, h.ctx.apparent_value);
	let res = match which { 0 => Some(Calc::execute(&mut h)), 1 => Some(Strict::execute(&mut h)), _ => Assets.execute(&mut h) };
	let called = CALLED.with(|c| c.borrow().clone());
	// the model
	let allowed = |m: M| !(stat && m != M::View) && !(!value.is_zero() && m != M::Pay);
	let show = |name: &str, v: &V| -> String { let V::List(x) = v else { unreachable!() }; let w = |i: usize| match &x[i] { V::Word(w) => *w, _ => unreachable!() }; let ad = |i: usize| format!("{:?}", H160::from_slice(&abi::word(w(i))[12..]));
		match name.split('(').next().unwrap() { "add" => format!("add {} {}", w(0), w(1)), "look" => format!("look {} {}", ad(0), w(1)), "pay" => match &x[0] { V::Bytes(b) => format!("pay {b:?}"), _ => unreachable!() }, "mix" | "mixOld" => { let (V::List(a), V::List(b)) = (&x[0], &x[1]) else { unreachable!() }; format!("mix {:?} {:?}", a.iter().map(|i| { let V::List(i) = i else { unreachable!() }; let (V::Word(k), V::Bytes(d)) = (&i[0], &i[1]) else { unreachable!() }; (k.as_u32() as u8, d.clone()) }).collect::<Vec<_>>(), b.iter().map(|x| { let V::Word(w) = x else { unreachable!() }; *w }).collect::<Vec<U256>>()) }
			"ping" => "ping".into(), "one" => format!("one {}", w(0)), "two" => format!("two {} {:?}", !w(0).is_zero(), match &x[1] { V::Bytes(b) => b.clone(), _ => unreachable!() }), "transfer" => format!("transfer {id} {} {}", ad(0), w(1)), _ => format!("supply {id}") } };
	let out = |name: &str, v: &V| -> Vec<u8> { let V::List(x) = v else { unreachable!() }; let w = |i: usize| match &x[i] { V::Word(w) => *w, _ => unreachable!() };
		match name.split('(').next().unwrap() { "add" => abi::word(w(0) + w(1)).to_vec(), "look" => [abi::word(w(0)), abi::word(w(1))].concat(), "pay" => abi::enc_args(&T::Tuple(vec![bytes()]), v), "mix" | "mixOld" => { let (V::List(a), V::List(b)) = (&x[0], &x[1]) else { unreachable!() }; let d = a.first().map(|i| { let V::List(i) = i else { unreachable!() }; i[1].clone() }).unwrap_or(V::Bytes(vec![])); abi::enc_args(&T::Tuple(vec![bytes(), T::Uint(32)]), &V::List(vec![d, V::Word(b.len().into())])) }
			"ping" => vec![], "one" => abi::word(w(0)).to_vec(), "two" => abi::word((w(0).is_zero() as u8).into()).to_vec(), "transfer" => abi::word(1.into()).to_vec(), _ => abi::word(id.into()).to_vec() } };
	let sel = input.get(..4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]));
	let fun = funs.iter().flat_map(|f| f.0.iter().map(move |n| (*n, &f.1, f.2))).find(|f| Some(selector(f.0)) == sel);
	let supports = match which { 0 => sel.map(CalcCall::supports_selector), 1 => sel.map(StrictCall::supports_selector), _ => sel.map(AssetsCall::supports_selector) };
	c.check("supports-selector", supports == sel.map(|_| fun.is_some()), || format!("{sel:x?}"));
	enum W { Run(String, Vec<u8>), Refuse, NotMine }
	let want = if which == 2 && code.0[..16] != [0xff; 16] { W::NotMine } else if which == 0 && caller == H160::repeat_byte(0xee) { W::Refuse } else { match fun {
		Some((n, t, m)) => if !allowed(m) { W::Refuse } else { let args = if matches!(t, T::Tuple(x) if x.is_empty()) { Some(V::List(vec![])) } else { args_of(t, &input[4..]) }; match args { Some(v) => W::Run(show(n, &v), out(n, &v)), None => W::Refuse } },
		None if which == 0 => if allowed(M::Pay) { W::Run("fallback".into(), vec![]) } else { W::Refuse },
		None => W::Refuse,
	} };
	let ctx = || format!("{name} static {stat} value {value} caller {caller:?} code {code:?} input {}: called {called:?}, result {res:?}", hex(&input));
	match want {
		W::NotMine => { c.event("not in the set"); c.check("address-outside-the-set-is-not-handled", res.is_none() && called.is_empty(), ctx); }
		W::Refuse => { c.event("refused"); c.check("refused-before-anything-ran", called.is_empty() && matches!(res, Some(Err(PrecompileFailure::Revert { .. }))), ctx); }
		W::Run(s, o) => { c.event("ran"); c.check("ran-the-named-function-on-the-decoded-arguments", called == vec![s.clone()], || format!("expected {s}; {}", ctx())); c.check("returned-the-encoded-result", matches!(&res, Some(Ok(x)) if x.output == o), || format!("expected {}; {}", hex(&o), ctx())); }
	}
	c.nontrivial((which, &input, stat, value));
	if which == 2 { let gas = c.rng.range(0, 20) as u64; let ours = code.0[..16] == [0xff; 16]; let want = if gas < 10 { IsPrecompileResult::OutOfGas } else { IsPrecompileResult::Answer { is_precompile: ours, extra_cost: 3 } }; let got = PrecompileSet::is_precompile(&Assets, code, gas); c.check("membership", got == want, || format!("{code:?} gas {gas}: {got:?}")); }
}
/// function arguments are read one after the other from the start of the input, also when there is a single one
fn args_of(t: &T, d: &[u8]) -> Option<V> {
	let T::Tuple(ts) = t else { unreachable!() };
	if ts.iter().any(|t| t.dynamic()) && d.is_empty() { return None; }
	abi::dec_args(t, d).ok().flatten()
}

// ---- who may call
fn access(c: &mut Ctx) {
	rt::ext(|| {
		let set = rt::Precompiles::<Runtime>::new();
		let dummy = vec![0x60, 0x00, 0x60, 0x00, 0xfd];
		let (eoa, contract, shell, odd) = (H160::from_low_u64_be(70), H160::from_low_u64_be(71), H160::from_low_u64_be(72), H160::from_low_u64_be(73));
		let contract77 = H160::from_low_u64_be(77);
		pallet_evm::Pallet::<Runtime>::create_account(contract, vec![1; 1 + c.rng.idx(40) * 6]);
		pallet_evm::Pallet::<Runtime>::create_account(contract77, vec![9; 30]);
		pallet_evm::Pallet::<Runtime>::create_account(shell, dummy.clone());
		let mut oc = dummy.clone(); oc[c.rng.idx(5)] ^= 1 << c.rng.idx(8);
		pallet_evm::Pallet::<Runtime>::create_account(odd, oc);
		let mut prefixed = H160::repeat_byte(c.rng.u64() as u8); prefixed.0[..3].copy_from_slice(&[0xee, 0xdd, 0xcc]);
		let mut near = prefixed; near.0[c.rng.idx(3)] ^= 1 << c.rng.idx(8);
		for _ in 0..12 {
			let code = match c.rng.idx(14) { 0 => prefixed, 1 => near, 2 => H160::from_low_u64_be(c.rng.range(95, 205) as u64), 3 => H160::from_low_u64_be(201), 4 => H160::from_low_u64_be(20 + c.rng.idx(3) as u64), 5 => H160::from_low_u64_be(c.rng.pick(&[100, 200]).to_owned()), _ => H160::from_low_u64_be(10 + c.rng.idx(8) as u64) };
			let n = U256::from_big_endian(code.as_bytes());
			let low = if n < 1000.into() { n.as_u64() } else { 0 };
			let pre = code.0[..3] == [0xee, 0xdd, 0xcc];
			let member = |a: H160| { let n = U256::from_big_endian(a.as_bytes()); if a.0[..3] == [0xee, 0xdd, 0xcc] { a.0[19] < 128 } else { n < 1000.into() && matches!(n.as_u64(), 9..=17 | 20 | 21 | 100 | 200) } };
			let caller = match c.rng.idx(8) { 0 | 1 => eoa, 2 => contract, 3 => contract77, 4 => shell, 5 => odd, 6 => H160::from_low_u64_be(10 + c.rng.idx(2) as u64), _ => H160::from_low_u64_be(c.rng.u64()) };
			let is_contract = caller == contract || caller == contract77 || caller == odd;
			let is_pre = member(caller);
			let delegate = c.rng.chance(1, 4);
			let depth = c.rng.idx(7) as u8; let fail = c.rng.chance(1, 5);
			let input = vec![1, 2, 3, 4, depth, fail as u8];
			// the checks each address was configured with
			let (deleg, con, prec, nest, sub): (bool, bool, bool, u8, bool) = if pre { (false, true, true, 2, true) } else { match low { 10 => (false, false, false, 0, false), 11 => (true, false, false, 0, false), 12 => (false, true, false, 0, false), 13 => (false, false, true, 0, false), 14 => (false, true, true, 0, true), 15 => (false, false, true, 1, true), 16 => (true, true, true, 4, true), 17 => (false, caller == contract77, caller == H160::from_low_u64_be(10), 0, false), 100 | 200 => (false, true, true, 0, false), _ => (false, false, false, 0, false) } };
			let runs = if !member(code) { None } else if low == 20 || low == 21 { Some(Err(())) }
				else if (delegate && !deleg) || (is_contract && !con) || (is_pre && !prec) { Some(Err(())) }
				else if depth == 0 { Some(if fail { Err(()) } else { Ok(0) }) }
				else if !sub { Some(Err(())) }
				else if !prec { Some(Err(())) } // the nested caller is the precompile itself
				else if depth > nest { Some(Err(())) } else { Some(if fail { Err(()) } else { Ok(depth) }) };
			let entered = match runs { None => 0, Some(_) if low == 20 || low == 21 || (delegate && !deleg) || (is_contract && !con) || (is_pre && !prec) => 0, Some(_) if depth == 0 || !sub || !prec => 1, Some(_) => 1 + depth.min(nest) as usize };
			TRACE.with(|t| t.borrow_mut().clear());
			fn go<'a>(set: &'a rt::Precompiles<Runtime>, mut h: Handle<'a>) -> Option<PrecompileResult> {
				h.answer = Some(Box::new(move |s: &SubCall| { let mut k = Handle::new(s.to, s.context.caller, s.input.clone()); k.ctx = s.context.clone(); match go(set, k) { Some(Ok(o)) => (ExitReason::Succeed(ExitSucceed::Returned), o.output), Some(Err(PrecompileFailure::Revert { output, .. })) => (ExitReason::Revert(ExitRevert::Reverted), output), _ => (ExitReason::Error(ExitError::OutOfGas), vec![]) } }));
				set.execute(&mut h)
			}
			// looking at the caller's code is paid for before the precompile runs: one read, a second one when the code could be the dummy
			if depth == 0 && runs.is_some() && low != 20 && low != 21 {
				let look = if (delegate && !deleg) || con { 0 } else { 7 + 7 * (caller == shell || caller == odd || caller == contract && pallet_evm::AccountCodes::<Runtime>::get(contract).len() == 5) as u64 };
				let mut h = Handle::new(code, caller, input.clone()); if delegate { h.ctx.address = H160::repeat_byte(5); }
				h.gas = c.rng.range(0, 20) as u64; let gas = h.gas;
				let got = set.execute(&mut h); let ran = TRACE.with(|t| t.borrow().len()); TRACE.with(|t| t.borrow_mut().clear());
				if gas < look { c.event("too little gas to look"); c.check("looking-at-the-caller-is-paid", ran == 0 && matches!(got, Some(Err(PrecompileFailure::Error { exit_status: ExitError::OutOfGas }))), || format!("{code:?} by {caller:?}: {gas} of {look}: {got:?}, ran {ran}")); }
				else { c.check("looking-at-the-caller-is-paid", h.used == look && ran == entered, || format!("{code:?} by {caller:?}: used {} expected {look}, ran {ran}", h.used)); }
			}
			let mut h = Handle::new(code, caller, input); if delegate { h.ctx.address = H160::repeat_byte(5); }
			let got = go(&set, h);
			let seen = TRACE.with(|t| t.borrow().len());
			c.log(|| format!("call {code:?} by {caller:?} delegate {delegate} depth {depth} fail {fail}: {got:?}, entered {seen}"));
			let ok = match (&runs, &got) { (None, None) => true, (Some(Err(())), Some(Err(PrecompileFailure::Revert { .. }))) => true, (Some(Ok(d)), Some(Ok(o))) => o.output == vec![*d], _ => false };
			c.event(match &runs { None => "not a precompile", Some(Ok(_)) => "allowed", Some(Err(())) => "refused" });
			c.check("call-allowed-exactly-by-its-checks", ok, || format!("expected {runs:?}, got {got:?}"));
			c.check("refused-call-runs-nothing", seen == entered, || format!("entered {seen} times, expected {entered}"));
			let m = |r: IsPrecompileResult| matches!(r, IsPrecompileResult::Answer { is_precompile: true, .. });
			c.check("membership", m(set.is_precompile(code, 1000)) == member(code), || format!("{code:?}"));
			c.distinct("caller, callee, depth", (low, pre, is_contract, is_pre, delegate, depth)); c.nontrivial((code, caller, delegate, depth, fail));
			if c.failed() { return; }
		}
	})
}
// ---- costs, logs and calls into the runtime
fn costs(c: &mut Ctx) {
	use precompile_utils::evm::{costs::{call_cost, log_costs}, logs::*};
	let r = &mut c.rng;
	let addr = H160::from_low_u64_be(r.u64()); let t: Vec<H256> = (0..4).map(|_| H256::from_slice(&abi::word((U256::from(r.u128()) << 128) | r.u128().into()))).collect();
	let data: Vec<u8> = (0..r.idx(100)).map(|_| r.u64() as u8).collect(); let k = r.idx(5); let d = data.clone();
	let log = match k { 0 => log0(addr, d), 1 => log1(addr, t[0], d), 2 => log2(addr, t[0], t[1], d), 3 => log3(addr, t[0], t[1], t[2], d), _ => log4(addr, t[0], t[1], t[2], t[3], d) };
	c.check("log-carries-its-topics-and-data", log.address == addr && log.topics == t[..k] && log.data == data, || format!("{log:?}"));
	let cost = |topics: u128, len: u128| 375 + 375 * topics + 8 * len;
	c.check("log-cost", log.compute_cost().ok() == Some(cost(k as u128, data.len() as u128) as u64), || format!("{:?}", log.compute_cost()));
	let (topics, len) = (c.rng.log(0, u64::MAX as u128), c.rng.log(0, u64::MAX as u128)); let e = cost(topics, len);
	let got = log_costs(topics as usize, len as usize);
	c.check("log-cost", if e <= u64::MAX as u128 { got.as_ref().ok() == Some(&(e as u64)) } else { matches!(got, Err(PrecompileFailure::Error { exit_status: ExitError::OutOfGas })) }, || format!("{topics} topics of {len} bytes: {got:?}"));
	// charged before anything is logged, and only what there is gas for
	let mut h = Handle::new(addr, addr, vec![]); let gas = c.rng.range(0, 4000) as u64; h.gas = gas;
	let logs: Vec<Log> = (0..c.rng.idx(4)).map(|i| Log { address: addr, topics: t[..c.rng.idx(5)].to_vec(), data: vec![i as u8; c.rng.idx(40)] }).collect();
	let refs: Vec<&Log> = logs.iter().collect(); let total: u64 = logs.iter().map(|l| cost(l.topics.len() as u128, l.data.len() as u128) as u64).sum();
	let res = h.record_log_costs(&refs);
	c.check("logs-are-charged", res.is_ok() == (total <= gas) && (res.is_err() || h.used == total) && h.used <= gas, || format!("{total} of {gas}: {res:?}, used {}", h.used));
	let mut h = Handle::new(addr, addr, vec![]); h.gas = gas; let one = cost(k as u128, len.min(1 << 20)) as u64; let res = h.record_log_costs_manual(k, len.min(1 << 20) as usize);
	c.check("logs-are-charged", res.is_ok() == (one <= gas) && h.used == if one <= gas { one } else { 0 }, || format!("{one} of {gas}: {res:?}"));
	h.log_fails = c.rng.chance(1, 4); let fails = h.log_fails; let res = log.clone().record(&mut h);
	c.check("log-is-recorded", if fails { res.is_err() && h.logs.is_empty() } else { res.is_ok() && h.logs == vec![log.clone()] }, || format!("{:?}", h.logs));
	// subcalls
	let cfg = evm::Config { increase_state_access_gas: c.rng.chance(1, 2), gas_account_access_cold: c.rng.range(1, 10_000) as u64, gas_storage_read_warm: c.rng.range(1, 10_000) as u64, gas_call: c.rng.range(1, 10_000) as u64, empty_considered_exists: c.rng.chance(1, 2) };
	let value = match c.rng.idx(3) { 0 => U256::zero(), 1 => U256::one() << c.rng.idx(256), _ => U256::from(c.rng.u128()) };
	let e = (if cfg.increase_state_access_gas { cfg.gas_account_access_cold } else { cfg.gas_call }) + (if value.is_zero() { 0 } else { 9_000 }) + (if cfg.empty_considered_exists || !value.is_zero() { 25_000 } else { 0 });
	c.check("subcall-cost-is-the-worst-case", call_cost(value, &cfg) == e, || format!("{cfg:?} value {value}: {} expected {e}", call_cost(value, &cfg)));
	// input
	let input: Vec<u8> = (0..c.rng.idx(12)).map(|_| c.rng.u64() as u8).collect(); let mut h = Handle::new(addr, addr, input.clone()); h.stat = c.rng.chance(1, 2); if c.rng.chance(1, 2) { h.ctx.apparent_value = value; }
	let want = input.get(..4).map(|b| b.iter().fold(0u32, |a, b| a << 8 | *b as u32));
	c.check("selector-read", h.read_u32_selector().ok() == want, || format!("{input:?}"));
	c.check("arguments-follow-the-selector", match h.read_after_selector() { Ok(mut rd) => input.len() >= 4 && rd.read_till_end().ok().map(|x| x.to_vec()) == Some(input[4..].to_vec()), Err(_) => input.len() < 4 }, || format!("{input:?}"));
	use precompile_utils::solidity::modifier::FunctionModifier as F;
	let (stat, paid) = (h.stat, !h.ctx.apparent_value.is_zero());
	for (m, ok) in [(F::View, !paid), (F::NonPayable, !paid && !stat), (F::Payable, !stat)] { c.check("modifier", h.check_function_modifier(m).is_ok() == ok, || format!("static {stat} paid {paid}")); }
	c.event("costs"); c.distinct("log shape", (k, data.len())); c.nontrivial((k, &data, value));
}
fn calls(c: &mut Ctx) {
	use precompile_utils::substrate::{RuntimeHelper, TryDispatchError};
	use frame_support::dispatch::RawOrigin;
	rt::ext(|| {
		let me = H160::from_low_u64_be(9); let mut h = Handle::new(me, me, vec![]); h.gas = c.rng.range(0, 2_000) as u64; h.used = h.gas.min(c.rng.range(0, 300) as u64); h.ext_fails = c.rng.chance(1, 8);
		let (left, used0, ext_fails) = (h.gas - h.used, h.used, h.ext_fails);
		let time = match c.rng.idx(4) { 0 => left * 10 + c.rng.range(0, 20) as u64, _ => c.rng.range(0, 20_000) as u64 }; let proof = c.rng.log(0, 1 << 40) as u64;
		let actual = match c.rng.idx(4) { 0 => None, 1 => Some((c.rng.range(0, 30_000) as u64, c.rng.log(0, 1 << 41) as u64)), _ => Some((c.rng.range(0, time as u128) as u64, c.rng.range(0, proof as u128) as u64)) };
		let (fails, growth, signed) = (c.rng.chance(1, 5), c.rng.u64(), c.rng.chance(7, 8)); let who = c.rng.u64();
		let call = rt::pallet_work::Call::<Runtime>::work { time, proof, actual, fails };
		rt::pallet_work::RAN.with(|r| r.borrow_mut().clear());
		c.log(|| format!("call of {time}/{proof}, really {actual:?}, {left} gas left, fails {fails}, signed {signed}, external refused {ext_fails}"));
		let origin = if signed { RawOrigin::Signed(who) } else { RawOrigin::Root };
		let res = RuntimeHelper::<Runtime>::try_dispatch(&mut h, origin.into(), call, growth);
		let ran = rt::pallet_work::RAN.with(|r| r.borrow().clone());
		c.check("handle-is-only-seen-from-inside", precompile_utils::evm::handle::with_precompile_handle(|_| ()).is_none(), || "handle still there".into());
		if time / 10 > left { c.event("too little gas"); c.check("call-without-gas-does-not-run", matches!(res, Err(TryDispatchError::Evm(ExitError::OutOfGas))) && ran.is_empty() && h.ext.is_empty() && h.used == used0, || format!("{res:?}, ran {ran:?}")); return; }
		if ext_fails { c.event("external refused"); c.check("call-without-external-resources-does-not-run", matches!(res, Err(TryDispatchError::Evm(ExitError::MaxNonce))) && ran.is_empty(), || format!("{res:?}, ran {ran:?}")); return; }
		c.check("external-cost-recorded-first", h.ext == vec![(None, Some(proof), Some(growth))], || format!("{:?}", h.ext));
		c.check("call-runs-once-with-the-given-origin", ran == if signed { vec![(Some(who), Some(left))] } else { vec![] }, || format!("{ran:?}"));
		if fails || !signed {
			c.event("call failed"); c.check("failed-call-is-reported", matches!(&res, Err(TryDispatchError::Substrate(e)) if *e == if signed { sp_runtime::DispatchError::Other("no") } else { sp_runtime::DispatchError::BadOrigin }), || format!("{res:?}"));
			if let Err(e) = res { let f: PrecompileFailure = e.into(); c.check("failed-call-reverts", matches!(f, PrecompileFailure::Revert { .. }), || format!("{f:?}")); }
			return;
		}
		let (t, p) = actual.unwrap_or((time, proof)); c.event("call ran");
		c.check("unused-proof-size-is-refunded", h.refunds == actual.map(|_| vec![(None, Some(if t <= time && p <= proof { proof - p } else { 0 }))]).unwrap_or_default(), || format!("{:?}", h.refunds));
		if t / 10 > left { c.check("unpaid-work-fails", matches!(res, Err(TryDispatchError::Evm(ExitError::OutOfGas))), || format!("{res:?}")); if let Err(e) = res { let f: PrecompileFailure = e.into(); c.check("out-of-gas-is-an-error", matches!(f, PrecompileFailure::Error { exit_status: ExitError::OutOfGas }), || format!("{f:?}")); } }
		else { c.check("work-is-paid", res.is_ok() && h.used == used0 + t / 10, || format!("{res:?}, used {}", h.used - used0)); }
		c.check("database-costs", RuntimeHelper::<Runtime>::db_read_gas_cost() == 7 && RuntimeHelper::<Runtime>::db_write_gas_cost() == 19, || "costs of a read and a write".into());
		c.nontrivial((time, proof, actual, left)); c.distinct("outcome", (fails, signed, actual.is_some()));
	})
}
fn members(c: &mut Ctx) {
	use precompile_utils::precompile_set::{IsActivePrecompile, PrecompileKind, PrecompileSetBuilder, PrecompileSetFragment};
	rt::ext(|| {
		let set = PrecompileSetBuilder::<Runtime, rt::Active>::new();
		let mut a = H160::from_low_u64_be(match c.rng.idx(3) { 0 => *c.rng.pick(&[10, 21, 31, 33, 100, 150, 200, 201]), _ => c.rng.range(0, 210) as u64 });
		if c.rng.chance(1, 4) { a = H160::repeat_byte(c.rng.u64() as u8); a.0[..3].copy_from_slice(&[0xee, 0xdd, 0xcc]); a.0[19] = c.rng.u64() as u8; if c.rng.chance(1, 4) { let i = c.rng.idx(3); a.0[i] ^= 1 << c.rng.idx(8); } } else if c.rng.chance(1, 6) { a.0[c.rng.idx(18)] ^= 1 << c.rng.idx(8); }
		let n = U256::from_big_endian(a.as_bytes()); let low = if n < 1000.into() { n.as_u64() } else { 0 }; let pre = a.0[..3] == [0xee, 0xdd, 0xcc] && a.0[19] < 128;
		let (active, gone) = (pre || matches!(low, 10 | 100 | 200), matches!(low, 21 | 31 | 33 | 150));
		let yes = |r: IsPrecompileResult| matches!(r, IsPrecompileResult::Answer { is_precompile: true, .. });
		c.check("membership", yes(set.is_precompile(a, 1000)) == (active || gone), || format!("{a:?}"));
		c.check("removed-precompiles-are-not-active", yes(set.is_active_precompile(a, 1000)) == active, || format!("{a:?} active {}", yes(set.is_active_precompile(a, 1000))));
		TRACE.with(|t| t.borrow_mut().clear());
		let res = set.execute(&mut Handle::new(a, H160::from_low_u64_be(999), vec![1, 2, 3, 4, 0, 0]));
		// the prefixed set asks the runtime's own precompiles whether an address is one
		if !a.0.starts_with(&[0xee, 0xdd, 0xcc]) && !yes(<Runtime as pallet_evm::Config>::PrecompilesValue::get().is_precompile(a, 1000)) || active { c.check("only-active-precompiles-run", match &res { None => !active && !gone, Some(Ok(_)) => active, Some(Err(_)) => gone } && TRACE.with(|t| t.borrow().len()) == active as usize, || format!("{a:?}: {res:?}")); }
		if c.index == 0 {
			let used: Vec<u64> = PrecompileSetBuilder::<Runtime, rt::Active>::used_addresses().collect();
			c.check("used-addresses", used == [10, 21, 31, 150, 33, 100, 200, 201], || format!("{used:?}"));
			let sums = set.summarize_checks();
			let got: Vec<_> = sums.iter().map(|s| (match &s.precompile_kind { PrecompileKind::Single(a) => vec![a.to_low_u64_be()], PrecompileKind::Multiple(v) => v.iter().map(|a| a.to_low_u64_be()).collect(), PrecompileKind::Prefixed(p) => p.iter().map(|b| *b as u64).collect() }, s.recursion_limit, s.accept_delegate_call, s.callable_by_smart_contract == "Not callable", s.callable_by_precompile == "Not callable")).collect();
			let want = vec![(vec![10], Some(0), false, true, true), (vec![21], Some(0), true, false, false), (vec![31, 150, 33], Some(0), true, false, false), (vec![100], Some(0), true, false, false), (vec![200], Some(0), false, false, true), (vec![201], Some(0), false, false, false), (vec![0xee, 0xdd, 0xcc], Some(2), false, false, false)];
			c.check("summary-tells-the-checks", got == want, || format!("{got:?}"));
			let f = <rt::Active as PrecompileSetFragment>::new(); c.check("used-addresses", f.used_addresses().len() == 8, || "fragment".into());
		}
		c.event(if active { "active" } else if gone { "removed" } else { "other" }); c.nontrivial(a);
	})
}
fn main() {
	mon_core::run!(1.0, "one case is one hashed string, one coded value with six hostile variants, one dispatched call, or a history of twelve precompile calls; non-trivial cases are distinct by input",
		["EVM types (contexts, exits, handles) are stand-ins for the crates of the same names; the interpreter itself is out of reach"];
		"C14" => |m: &mut mon_core::Monitor| {
			m.workload("hashes", 20_000, 200_000, hashes);
			m.workload("coding", 460_000, 3_000_000, coding);
			m.workload("refusals", 100_000, 1_000_000, refusals);
			m.workload("dispatch", 300_000, 2_000_000, dispatch);
			m.workload("access", 60_000, 400_000, access);
			m.workload("costs", 60_000, 600_000, costs);
			m.workload("calls", 40_000, 400_000, calls);
			m.workload("members", 20_000, 200_000, members);
			m.expect("costs/costs", 50_000); m.expect("calls/call ran", 5_000); m.expect("calls/too little gas", 2_000); m.expect("members/active", 2_000); m.expect("members/removed", 1_000);
			m.expect("hashes/literal", 200); m.expect("coding/hostile input accepted", 5_000); m.expect("coding/hostile input refused", 5_000); m.expect("dispatch/ran", 5_000); m.expect("dispatch/refused", 5_000); m.expect("access/allowed", 5_000); m.expect("access/refused", 5_000);
		});
}

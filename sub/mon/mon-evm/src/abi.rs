//! The contract ABI written from its specification: types, values, encoder and a decoder that says what a reader may accept.
use primitive_types::U256;
#[derive(Clone, Debug, PartialEq)]
pub enum T { Uint(u32), Bool, Address, Bytes32, Bytes(u64), Str(u64), Array(Box<T>, u64), Tuple(Vec<T>) }
#[derive(Clone, Debug, PartialEq)]
pub enum V { Word(U256), Bytes(Vec<u8>), List(Vec<V>) }
impl T {
	pub fn dynamic(&self) -> bool { match self { T::Bytes(_) | T::Str(_) | T::Array(..) => true, T::Tuple(x) => x.iter().any(|t| t.dynamic()), _ => false } }
	pub fn signature(&self) -> String { match self { T::Uint(n) => format!("uint{n}"), T::Bool => "bool".into(), T::Address => "address".into(), T::Bytes32 => "bytes32".into(), T::Bytes(_) => "bytes".into(), T::Str(_) => "string".into(), T::Array(t, _) => format!("{}[]", t.signature()), T::Tuple(x) => format!("({})", x.iter().map(|t| t.signature()).collect::<Vec<_>>().join(",")) } }
}
pub fn word(v: U256) -> [u8; 32] { let mut b = [0u8; 32]; v.to_big_endian(&mut b); b }
fn seq(ts: &[&T], vs: &[V]) -> Vec<u8> {
	let heads: Vec<Option<Vec<u8>>> = ts.iter().zip(vs).map(|(t, v)| if t.dynamic() { None } else { Some(enc(t, v)) }).collect();
	let hl: usize = heads.iter().map(|h| h.as_ref().map(|x| x.len()).unwrap_or(32)).sum();
	let (mut head, mut tail) = (vec![], vec![]);
	for ((t, v), h) in ts.iter().zip(vs).zip(heads) { match h { Some(b) => head.extend(b), None => { head.extend(word((hl + tail.len()).into())); tail.extend(enc(t, v)); } } }
	head.extend(tail); head
}
/// enc(X) of the specification.
pub fn enc(t: &T, v: &V) -> Vec<u8> {
	match (t, v) {
		(T::Bytes(_) | T::Str(_), V::Bytes(b)) => { let mut o = word(b.len().into()).to_vec(); o.extend(b); while o.len() % 32 != 0 { o.push(0); } o }
		(T::Array(t, _), V::List(x)) => { let mut o = word(x.len().into()).to_vec(); o.extend(seq(&vec![&**t; x.len()], x)); o }
		(T::Tuple(ts), V::List(x)) => seq(&ts.iter().collect::<Vec<_>>(), x),
		(_, V::Word(w)) => word(*w).to_vec(),
		_ => unreachable!(),
	}
}
/// The arguments of a call: the tuple's parts without an outer offset.
pub fn enc_args(t: &T, v: &V) -> Vec<u8> { match t { T::Tuple(_) => enc(t, v), _ => seq(&[t], std::slice::from_ref(v)) } }
struct R<'a> { d: &'a [u8], at: usize }
impl<'a> R<'a> {
	fn word(&mut self) -> Option<U256> { let e = self.at.checked_add(32)?; let w = self.d.get(self.at..e)?; self.at = e; Some(U256::from_big_endian(w)) }
	fn ptr(&mut self) -> Option<R<'a>> { let o = self.word()?; if o >= U256::from(self.d.len()) { return None; } Some(R { d: &self.d[o.as_usize()..], at: 0 }) }
	fn len(&mut self, max: u64) -> Option<usize> { let n = self.word()?; if n > U256::from(max) { return None; } Some(n.as_usize()) }
	fn val(&mut self, t: &T, budget: &mut u64) -> Option<V> {
		*budget = budget.checked_sub(1)?;
		Some(match t {
			T::Uint(n) => { let w = self.word()?; if *n < 256 && w >= (U256::one() << *n) { return None; } V::Word(w) }
			T::Bool => V::Word(if self.word()?.is_zero() { U256::zero() } else { U256::one() }),
			T::Address => V::Word(self.word()? & ((U256::one() << 160) - 1)),
			T::Bytes32 => V::Word(self.word()?),
			T::Bytes(m) | T::Str(m) => { let mut r = self.ptr()?; let n = r.len(*m)?; V::Bytes(r.d.get(32..32usize.checked_add(n)?)?.to_vec()) }
			T::Array(t, m) => { let mut r = self.ptr()?; let n = r.len(*m)?; let mut i = R { d: r.d.get(32..)?, at: 0 }; let mut o = vec![]; for _ in 0..n { o.push(i.val(t, budget)?); } V::List(o) }
			T::Tuple(ts) => { let mut o = vec![]; if t.dynamic() { let mut r = self.ptr()?; for t in ts { o.push(r.val(t, budget)?); } } else { for t in ts { o.push(self.val(t, budget)?); } } V::List(o) }
		})
	}
}
/// What the arguments mean; `None` if they must be refused. `Err` when the input unfolds beyond the model's budget.
pub fn dec_args(t: &T, d: &[u8]) -> Result<Option<V>, ()> {
	let mut b = 200_000;
	let r = match t { T::Tuple(ts) => { let mut r = R { d, at: 0 }; let mut o = vec![]; let mut bad = t.dynamic() && d.is_empty(); for t in ts { if bad { break; } match r.val(t, &mut b) { Some(v) => o.push(v), None => bad = true } } if bad { None } else { Some(V::List(o)) } } _ => R { d, at: 0 }.val(t, &mut b) };
	if b == 0 { Err(()) } else { Ok(r) }
}

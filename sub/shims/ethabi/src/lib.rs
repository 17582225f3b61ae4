//! The encoding half of the Ethereum ABI, restated from the specification.
use sp_core::{H160, U256};
pub enum Token { Address(H160), FixedBytes(Vec<u8>), Bytes(Vec<u8>), Uint(U256), Bool(bool), Array(Vec<Token>), Tuple(Vec<Token>) }
impl Token { fn dynamic(&self) -> bool { match self { Token::Bytes(_) | Token::Array(_) => true, Token::Tuple(v) => v.iter().any(|t| t.dynamic()), _ => false } } }
fn word(n: U256) -> Vec<u8> { let mut b = [0u8; 32]; n.to_big_endian(&mut b); b.to_vec() }
fn pad(mut v: Vec<u8>) -> Vec<u8> { while v.len() % 32 != 0 { v.push(0); } v }
fn one(t: &Token) -> Vec<u8> {
	match t {
		Token::Address(a) => { let mut b = vec![0; 12]; b.extend_from_slice(&a.0); b }
		Token::FixedBytes(v) => pad(v.clone()),
		Token::Uint(n) => word(*n),
		Token::Bool(b) => word(U256::from(*b as u8)),
		Token::Bytes(v) => { let mut o = word(v.len().into()); o.extend(pad(v.clone())); o }
		Token::Array(v) => { let mut o = word(v.len().into()); o.extend(encode(v)); o }
		Token::Tuple(v) => encode(v),
	}
}
pub fn encode(v: &[Token]) -> Vec<u8> {
	let parts: Vec<(bool, Vec<u8>)> = v.iter().map(|t| (t.dynamic(), one(t))).collect();
	let head: usize = parts.iter().map(|(d, b)| if *d { 32 } else { b.len() }).sum();
	let (mut o, mut tail) = (vec![], vec![]);
	for (d, b) in parts { if d { o.extend(word((head + tail.len()).into())); tail.extend(b); } else { o.extend(b); } }
	o.extend(tail); o
}

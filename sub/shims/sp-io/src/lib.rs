//! Stand-in for `sp-io`: one thread-local key-value state with nested transactions.
use std::cell::RefCell;
use std::collections::BTreeMap;
pub use sp_core::hashing;
pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default, Clone, Debug)]
pub struct Ext { pub map: Map, pub journal: Vec<Vec<(Vec<u8>, Option<Vec<u8>>)>>, pub reads: u64, pub writes: u64, pub in_use: bool }
thread_local! { static CUR: RefCell<Ext> = RefCell::new(Ext::default()); }
pub fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R { CUR.with(|c| f(&mut c.borrow_mut())) }
impl Ext {
	fn put(&mut self, k: Vec<u8>, v: Option<Vec<u8>>) {
		self.writes += 1;
		let old = match v { Some(v) => self.map.insert(k.clone(), v), None => self.map.remove(&k) };
		if let Some(j) = self.journal.last_mut() { j.push((k, old)); }
	}
	fn rollback(&mut self) { if let Some(j) = self.journal.pop() { for (k, o) in j.into_iter().rev() { match o { Some(v) => { self.map.insert(k, v); } None => { self.map.remove(&k); } } } } }
	fn commit(&mut self) { if let Some(j) = self.journal.pop() { if let Some(p) = self.journal.last_mut() { p.extend(j); } } }
}
/// Runs `f` on another state and leaves what it wrote there.
pub fn execute_on_map<R>(m: &mut Map, f: impl FnOnce() -> R) -> R {
	struct Back<'a>(&'a mut Map, Option<Ext>);
	impl<'a> Drop for Back<'a> { fn drop(&mut self) { let mine = with(|c| std::mem::replace(c, self.1.take().unwrap())); *self.0 = mine.map; } }
	let old = with(|c| std::mem::replace(c, Ext { map: std::mem::take(m), in_use: true, ..Default::default() }));
	let _b = Back(m, Some(old));
	f()
}
pub fn snapshot() -> Map { with(|c| c.map.clone()) }
pub fn depth() -> usize { with(|c| c.journal.len()) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum KillStorageResult { AllRemoved(u32), SomeRemaining(u32) }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct MultiRemovalResults { pub maybe_cursor: Option<Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum StateVersion { V0, V1 }
pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> { with(|c| { c.reads += 1; c.map.get(k).cloned() }) }
	pub fn read(k: &[u8], out: &mut [u8], off: u32) -> Option<u32> { get(k).map(|v| { let d = &v[(off as usize).min(v.len())..]; let n = d.len().min(out.len()); out[..n].copy_from_slice(&d[..n]); d.len() as u32 }) }
	pub fn exists(k: &[u8]) -> bool { with(|c| c.map.contains_key(k)) }
	pub fn set(k: &[u8], v: &[u8]) { with(|c| c.put(k.to_vec(), Some(v.to_vec()))) }
	pub fn clear(k: &[u8]) { with(|c| if c.map.contains_key(k) { c.put(k.to_vec(), None) }) }
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> { with(|c| c.map.range::<[u8], _>((std::ops::Bound::Excluded(k), std::ops::Bound::Unbounded)).next().map(|x| x.0.clone())) }
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> MultiRemovalResults {
		let keys: Vec<Vec<u8>> = with(|c| c.map.range::<[u8], _>((std::ops::Bound::Included(p), std::ops::Bound::Unbounded)).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect());
		let n = limit.map(|l| l as usize).unwrap_or(usize::MAX).min(keys.len());
		for k in &keys[..n] { clear(k); }
		MultiRemovalResults { maybe_cursor: keys.get(n).cloned(), backend: n as u32, unique: n as u32, loops: n as u32 }
	}
	pub fn start_transaction() { with(|c| c.journal.push(vec![])) }
	pub fn commit_transaction() { with(|c| c.commit()) }
	pub fn rollback_transaction() { with(|c| c.rollback()) }
	pub fn root(_: StateVersion) -> Vec<u8> { use std::hash::{Hash, Hasher}; with(|c| { let mut o = vec![]; for s in 0u8..4 { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); c.map.hash(&mut h); o.extend(h.finish().to_le_bytes()); } o }) }
}
pub mod crypto {
	#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum EcdsaVerifyError { BadRS, BadV, BadSignature }
	pub fn secp256k1_ecdsa_recover(s: &[u8; 65], m: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> { sp_core::secp256k1::recover(s, m).ok_or(EcdsaVerifyError::BadSignature) }
}
pub mod offchain {
	use sp_core::offchain::{Duration, Timestamp, STATE};
	pub fn is_validator() -> bool { STATE.with(|s| s.borrow().validator) }
	pub fn timestamp() -> Timestamp { Timestamp::from_unix_millis(0) }
	pub fn sleep_until(_: Timestamp) {}
	pub fn submit_transaction(x: Vec<u8>) -> Result<(), ()> { STATE.with(|s| s.borrow().pool.write().transactions.push(x)); Ok(()) }
	pub fn local_get(k: &[u8]) -> Option<Vec<u8>> { STATE.with(|s| s.borrow().local.get(k).cloned()) }
	pub fn local_set(k: &[u8], v: &[u8]) { STATE.with(|s| s.borrow_mut().local.insert(k.to_vec(), v.to_vec())); }
	pub fn local_clear(k: &[u8]) { STATE.with(|s| s.borrow_mut().local.remove(k)); }
	pub fn deadline(_: Duration) -> Timestamp { timestamp() }
}
pub mod misc { pub fn print_utf8(_: &[u8]) {} pub fn print_num(_: u64) {} pub fn print_hex(_: &[u8]) {} }
pub mod logging { pub fn log(_: u8, _: &str, _: &[u8]) {} }
#[derive(Default, Clone, Debug)]
pub struct Storage { pub top: Map, pub children_default: BTreeMap<Vec<u8>, ()> }
pub fn execute_on_storage<R>(s: &mut Storage, f: impl FnOnce() -> R) -> R { execute_on_map(&mut s.top, f) }
#[derive(Default, Clone, Debug)]
pub struct TestExternalities { pub map: Map }
impl TestExternalities {
	pub fn new(s: Storage) -> Self { Self { map: s.top } }
	pub fn new_empty() -> Self { Self::default() }
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R { execute_on_map(&mut self.map, f) }
	pub fn register_extension<T>(&mut self, _: T) {}
	pub fn offchain_db(&self) {}
	pub fn persist_offchain_overlay(&mut self) {}
	pub fn commit_all(&mut self) -> Result<(), String> { Ok(()) }
}
impl From<Storage> for TestExternalities { fn from(s: Storage) -> Self { Self::new(s) } }

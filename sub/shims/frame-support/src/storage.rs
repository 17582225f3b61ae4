//! Typed access to the state.
use codec::{Decode, Encode, EncodeLike, FullCodec};
use sp_runtime::{DispatchError, TransactionOutcome as TO};
pub use sp_runtime::TransactionOutcome;
pub use transactional::{with_storage_layer, with_transaction, with_transaction_unchecked};
pub mod types;
pub mod bounded_vec { pub use sp_core::bounded::BoundedVec; }
pub mod bounded_btree_map { pub use sp_core::bounded::BoundedBTreeMap; }
pub mod child {}
pub mod transactional {
	use super::*;
	pub fn is_transactional() -> bool { sp_io::depth() > 0 }
	pub const TRANSACTIONAL_LIMIT: usize = 255;
	struct Guard(bool); impl Drop for Guard { fn drop(&mut self) { if self.0 { sp_io::storage::rollback_transaction() } } }
	fn run<R>(f: impl FnOnce() -> TO<R>) -> R {
		sp_io::storage::start_transaction();
		let mut g = Guard(true);
		let r = f();
		g.0 = false;
		match r { TO::Commit(r) => { sp_io::storage::commit_transaction(); r } TO::Rollback(r) => { sp_io::storage::rollback_transaction(); r } }
	}
	pub fn with_transaction<T, E: From<DispatchError>, F: FnOnce() -> TO<Result<T, E>>>(f: F) -> Result<T, E> {
		if sp_io::depth() >= TRANSACTIONAL_LIMIT { return Err(DispatchError::from(sp_runtime::TransactionalError::LimitReached).into()); }
		run(f)
	}
	pub fn with_transaction_unchecked<R, F: FnOnce() -> TO<R>>(f: F) -> R { run(f) }
	pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> { with_transaction(|| { let r = f(); if r.is_ok() { TO::Commit(r) } else { TO::Rollback(r) } }) }
	pub fn in_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> { if is_transactional() { f() } else { with_storage_layer(f) } }
}
pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> { sp_io::storage::get(k).and_then(|v| match T::decode(&mut &v[..]) { Ok(x) => Some(x), Err(_) => { crate::storage::note_corrupt(k); None } }) }
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T { get(k).unwrap_or_default() }
	pub fn get_or<T: Decode>(k: &[u8], d: T) -> T { get(k).unwrap_or(d) }
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) { v.using_encoded(|x| sp_io::storage::set(k, x)) }
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> { let v = get(k); if v.is_some() { sp_io::storage::clear(k) } v }
	pub fn exists(k: &[u8]) -> bool { sp_io::storage::exists(k) }
	pub fn kill(k: &[u8]) { sp_io::storage::clear(k) }
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> { sp_io::storage::get(k) }
	pub fn put_raw(k: &[u8], v: &[u8]) { sp_io::storage::set(k, v) }
	pub fn clear_prefix(p: &[u8], l: Option<u32>, _: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix(p, l) }
	pub fn contains_prefixed_key(p: &[u8]) -> bool { match sp_io::storage::next_key(p) { Some(k) => k.starts_with(p), None => false } }
}
thread_local! { static CORRUPT: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// A stored value that does not decode as its declared type is counted: it never is in a healthy state.
pub fn note_corrupt(_k: &[u8]) { CORRUPT.with(|c| c.set(c.get() + 1)) }
pub fn corrupt_reads() -> u64 { CORRUPT.with(|c| c.get()) }
pub fn storage_prefix(p: &[u8], s: &[u8]) -> [u8; 32] { let mut o = [0; 32]; o[..16].copy_from_slice(&sp_io::hashing::twox_128(p)); o[16..].copy_from_slice(&sp_io::hashing::twox_128(s)); o }
pub mod migration {
	use super::*;
	fn key(m: &[u8], i: &[u8], h: &[u8]) -> Vec<u8> { let mut k = storage_prefix(m, i).to_vec(); k.extend_from_slice(h); k }
	pub fn put_storage_value<T: Encode>(m: &[u8], i: &[u8], h: &[u8], v: T) { unhashed::put(&key(m, i, h), &v) }
	pub fn get_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::get(&key(m, i, h)) }
	pub fn take_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::take(&key(m, i, h)) }
	pub fn have_storage_value(m: &[u8], i: &[u8], h: &[u8]) -> bool { unhashed::exists(&key(m, i, h)) }
	pub fn move_prefix(f: &[u8], t: &[u8]) { if f == t { return; } let mut k = f.to_vec(); while let Some(n) = sp_io::storage::next_key(&k) { if !n.starts_with(f) { break; } let v = sp_io::storage::get(&n).unwrap(); let mut d = t.to_vec(); d.extend_from_slice(&n[f.len()..]); sp_io::storage::set(&d, &v); sp_io::storage::clear(&n); k = n; } }
}
/// importable names; the methods are inherent on the storage types
pub trait StorageValue<T: FullCodec> {}
pub trait StorageMap<K: FullCodec, V: FullCodec> {}
pub trait IterableStorageMap<K: FullCodec, V: FullCodec> {}
pub trait StorageDoubleMap<K1: FullEncode, K2: FullEncode, V: FullCodec> {}
pub trait IterableStorageDoubleMap<K1: FullCodec, K2: FullCodec, V: FullCodec> {}
pub trait StorageNMap<K, V: FullCodec> {}
pub trait FullEncode: Encode + EncodeLike {} impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait StoragePrefixedMap<V: FullCodec> { fn pallet_prefix() -> &'static [u8] { unimplemented!() } fn storage_prefix() -> &'static [u8] { unimplemented!() } fn final_prefix() -> [u8; 32]; fn iter_values() -> PrefixIterator<V> { let p = Self::final_prefix().to_vec(); PrefixIterator::new(p.clone(), p, |_, v| V::decode(&mut &v[..])) } }
pub trait StorageAppend<Item: Encode> {} impl<T: Encode> StorageAppend<T> for Vec<T> {}
pub trait TryAppendValue {}
pub struct PrefixIterator<T> { prefix: Vec<u8>, prev: Vec<u8>, drain: bool, f: fn(&[u8], &[u8]) -> Result<T, codec::Error> }
impl<T> PrefixIterator<T> {
	pub fn new(prefix: Vec<u8>, prev: Vec<u8>, f: fn(&[u8], &[u8]) -> Result<T, codec::Error>) -> Self { Self { prefix, prev, drain: false, f } }
	pub fn drain(mut self) -> Self { self.drain = true; self }
	pub fn last_raw_key(&self) -> &[u8] { &self.prev }
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let n = sp_io::storage::next_key(&self.prev)?;
			if !n.starts_with(&self.prefix) { return None; }
			self.prev = n;
			let Some(v) = sp_io::storage::get(&self.prev) else { continue };
			if self.drain { sp_io::storage::clear(&self.prev) }
			match (self.f)(&self.prev[self.prefix.len()..], &v) { Ok(x) => return Some(x), Err(_) => { note_corrupt(&self.prev); continue } }
		}
	}
}
pub struct KeyPrefixIterator<T> { prefix: Vec<u8>, prev: Vec<u8>, f: fn(&[u8]) -> Result<T, codec::Error> }
impl<T> KeyPrefixIterator<T> { pub fn new(prefix: Vec<u8>, prev: Vec<u8>, f: fn(&[u8]) -> Result<T, codec::Error>) -> Self { Self { prefix, prev, f } } pub fn last_raw_key(&self) -> &[u8] { &self.prev } }
impl<T> Iterator for KeyPrefixIterator<T> { type Item = T; fn next(&mut self) -> Option<T> { loop { let n = sp_io::storage::next_key(&self.prev)?; if !n.starts_with(&self.prefix) { return None; } self.prev = n; match (self.f)(&self.prev[self.prefix.len()..]) { Ok(x) => return Some(x), Err(_) => continue } } } }

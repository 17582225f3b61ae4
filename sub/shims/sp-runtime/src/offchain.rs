pub use sp_core::offchain::{Duration, Timestamp};
pub mod storage {
	pub struct StorageValueRef(Vec<u8>);
	#[derive(Debug)] pub enum StorageRetrievalError { Undecodable }
	#[derive(Debug)] pub enum MutateStorageError<T, E> { ConcurrentModification(T), ValueFunctionFailed(E) }
	impl StorageValueRef {
		pub fn persistent(k: &[u8]) -> Self { Self(k.to_vec()) } pub fn local(k: &[u8]) -> Self { Self(k.to_vec()) }
		pub fn set(&self, v: &impl codec::Encode) { sp_io::offchain::local_set(&self.0, &v.encode()) }
		pub fn clear(&mut self) { sp_io::offchain::local_clear(&self.0) }
		pub fn get<T: codec::Decode>(&self) -> Result<Option<T>, StorageRetrievalError> { match sp_io::offchain::local_get(&self.0) { None => Ok(None), Some(v) => T::decode(&mut &v[..]).map(Some).map_err(|_| StorageRetrievalError::Undecodable) } }
	}
}
pub mod storage_lock {
	use sp_core::offchain::{Duration, STATE};
	pub struct Time; pub struct BlockAndTime<T>(std::marker::PhantomData<T>);
	pub struct StorageLock<'a, L>(std::marker::PhantomData<&'a L>);
	pub struct StorageLockGuard;
	impl Drop for StorageLockGuard { fn drop(&mut self) { STATE.with(|s| s.borrow_mut().locked = false) } }
	impl StorageLockGuard { pub fn forget(self) {} }
	impl<'a, L> StorageLock<'a, L> {
		pub fn new(_: &'a [u8]) -> Self { Self(Default::default()) }
		pub fn with_deadline(_: &'a [u8], _: Duration) -> Self { Self(Default::default()) }
		pub fn try_lock(&mut self) -> Result<StorageLockGuard, ()> { STATE.with(|s| { let mut s = s.borrow_mut(); if s.locked { Err(()) } else { s.locked = true; Ok(StorageLockGuard) } }) }
		pub fn lock(&mut self) -> StorageLockGuard { self.try_lock().expect("lock is free") }
	}
}

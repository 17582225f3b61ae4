//! Off-chain externalities reduced to what the pallets use: a switch for "is validator", a local store and a transaction pool.
use std::cell::RefCell;
use std::collections::BTreeMap;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, codec::Encode, codec::Decode)]
pub struct Timestamp(u64);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, codec::Encode, codec::Decode)]
pub struct Duration(u64);
impl Duration { pub const fn from_millis(x: u64) -> Self { Duration(x) } pub fn millis(&self) -> u64 { self.0 } }
impl Timestamp { pub fn from_unix_millis(x: u64) -> Self { Timestamp(x) } pub fn unix_millis(&self) -> u64 { self.0 } pub fn add(&self, d: Duration) -> Self { Timestamp(self.0 + d.0) } }
#[derive(Default)] pub struct PoolState { pub transactions: Vec<Vec<u8>> }
#[derive(Default)] pub struct State { pub validator: bool, pub enabled: bool, pub local: BTreeMap<Vec<u8>, Vec<u8>>, pub pool: std::sync::Arc<parking_lot::RwLock<PoolState>>, pub locked: bool }
thread_local! { pub static STATE: RefCell<State> = RefCell::new(State { validator: true, ..Default::default() }); }
pub struct OffchainDbExt; pub struct OffchainWorkerExt; pub struct TransactionPoolExt;
impl OffchainDbExt { pub fn new<T>(_: T) -> Self { Self } } impl OffchainWorkerExt { pub fn new<T>(_: T) -> Self { Self } } impl TransactionPoolExt { pub fn new<T>(_: T) -> Self { Self } }
pub mod testing {
	use super::STATE;
	pub use super::PoolState;
	use std::sync::Arc;
	#[derive(Clone)] pub struct TestOffchainExt; #[derive(Clone)] pub struct TestTransactionPoolExt;
	#[derive(Clone)] pub struct OffchainState; impl TestOffchainExt { pub fn new() -> (Self, OffchainState) { (Self, OffchainState) } pub fn with_offchain_db<D>(_: D) -> (Self, OffchainState) { Self::new() } }
	impl TestTransactionPoolExt { pub fn new() -> (Self, Arc<parking_lot::RwLock<PoolState>>) { let p = Arc::new(parking_lot::RwLock::new(PoolState::default())); STATE.with(|s| s.borrow_mut().pool = p.clone()); (Self, p) } }
}

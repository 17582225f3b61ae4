//! What the pallet monitors share: a runtime skeleton, the ledger of all balances, dispatch and event access.
pub use {codec, frame_support, frame_system, hydra_dx_math, mon_core, orml_tokens, orml_traits, pallet_balances, pallet_timestamp, pallet_uniques, primitive_types, scale_info, serde_json, sp_core, sp_io, sp_runtime, sp_std};
pub use frame_support::traits::{Currency, Everything, Get, Hooks, Nothing, OnFinalize, OnIdle, OnInitialize, ReservableCurrency};
pub use frame_support::{construct_runtime, parameter_types, weights::Weight, PalletId};
pub use frame_system::{EnsureRoot, EnsureSigned};
pub use mon_core::{Ctx, Monitor, Rng};
pub use orml_traits::{GetByKey, MultiCurrency, MultiReservableCurrency, NamedMultiReservableCurrency};
pub use serde_json::json;
pub use sp_core::{crypto::AccountId32, H160, H256, U256};
pub use sp_runtime::traits::{AccountIdConversion, BlakeTwo256, Dispatchable, IdentityLookup};
pub use sp_runtime::{DispatchError, DispatchResult, FixedU128, Permill, Perbill};
pub use std::collections::{BTreeMap, BTreeSet};
pub type Acc = AccountId32;
pub type AssetId = u32;
pub type Balance = u128;
pub const ONE: u128 = 1_000_000_000_000;

/// Thread-local parameters: each is a type with `get()` / `set(v)` and the runtime's `Get`.
#[macro_export]
macro_rules! param {
	($($name:ident : $t:ty = $d:expr;)+) => { $(
		pub struct $name;
		const _: () = {
			std::thread_local! { static CELL: std::cell::RefCell<$t> = std::cell::RefCell::new($d); }
			impl $name { pub fn get() -> $t { CELL.with(|c| c.borrow().clone()) } #[allow(dead_code)] pub fn set(v: $t) { CELL.with(|c| *c.borrow_mut() = v) } #[allow(dead_code)] pub fn with<R>(f: impl FnOnce(&mut $t) -> R) -> R { CELL.with(|c| f(&mut c.borrow_mut())) } }
			impl<I: From<$t>> $crate::frame_support::traits::Get<I> for $name { fn get() -> I { I::from($name::get()) } }
		};
	)+ };
}
param! { Eds: BTreeMap<u32, u128> = Default::default(); }
/// Existential deposit of an asset (1 unless set).
pub fn ed(a: u32) -> u128 { Eds::with(|e| e.get(&a).copied().unwrap_or(1)) }
pub struct EdOf; impl GetByKey<u32, u128> for EdOf { fn get(k: &u32) -> u128 { ed(*k) } }
pub struct NativeEd; impl Get<u128> for NativeEd { fn get() -> u128 { ed(0) } }

/// System, native balances and tokens for a runtime built with `construct_runtime!`.
#[macro_export]
macro_rules! base {
	($rt:ident) => { $crate::base!($rt, (), $crate::Nothing); };
	($rt:ident, $hooks:ty, $dustwhite:ty) => { $crate::base!($rt, $hooks, $dustwhite, ()); };
	($rt:ident, $hooks:ty, $dustwhite:ty, $onkilled:ty) => {
		impl $crate::frame_system::Config for $rt {
			type BaseCallFilter = $crate::Everything; type BlockWeights = (); type BlockLength = (); type RuntimeOrigin = RuntimeOrigin; type RuntimeCall = RuntimeCall; type RuntimeTask = RuntimeTask;
			type Nonce = u64; type Block = $crate::frame_system::mocking::MockBlockU32<$rt>; type Hash = $crate::H256; type Hashing = $crate::BlakeTwo256; type AccountId = $crate::Acc; type Lookup = $crate::IdentityLookup<$crate::Acc>;
			type RuntimeEvent = RuntimeEvent; type BlockHashCount = $crate::frame_support::traits::ConstU32<250>; type DbWeight = (); type Version = (); type PalletInfo = PalletInfo; type AccountData = $crate::pallet_balances::AccountData<u128>;
			type OnNewAccount = (); type OnKilledAccount = $onkilled; type SystemWeightInfo = (); type SS58Prefix = (); type OnSetCode = (); type MaxConsumers = $crate::frame_support::traits::ConstU32<16>;
		}
		impl $crate::pallet_balances::Config for $rt {
			type Balance = u128; type DustRemoval = (); type RuntimeEvent = RuntimeEvent; type ExistentialDeposit = $crate::NativeEd; type AccountStore = System; type WeightInfo = (); type MaxLocks = $crate::frame_support::traits::ConstU32<50>;
			type MaxReserves = $crate::frame_support::traits::ConstU32<50>; type ReserveIdentifier = [u8; 8]; type FreezeIdentifier = (); type MaxFreezes = (); type RuntimeHoldReason = (); type RuntimeFreezeReason = ();
		}
		impl $crate::orml_tokens::Config for $rt {
			type RuntimeEvent = RuntimeEvent; type Balance = u128; type Amount = i128; type CurrencyId = u32; type WeightInfo = (); type ExistentialDeposits = $crate::EdOf; type MaxLocks = $crate::frame_support::traits::ConstU32<50>;
			type DustRemovalWhitelist = $dustwhite; type MaxReserves = $crate::frame_support::traits::ConstU32<200>; type ReserveIdentifier = [u8; 8]; type CurrencyHooks = $hooks;
		}
	};
}
/// `pallet-uniques` with no deposits.
#[macro_export]
macro_rules! base_uniques {
	($rt:ident) => {
		impl $crate::pallet_uniques::Config for $rt {
			type RuntimeEvent = RuntimeEvent; type CollectionId = u128; type ItemId = u128; type Currency = Balances; type ForceOrigin = $crate::EnsureRoot<$crate::Acc>;
			type CreateOrigin = $crate::frame_support::traits::AsEnsureOriginWithArg<$crate::frame_support::traits::NeverEnsureOrigin<$crate::Acc>>; type Locker = (); type CollectionDeposit = $crate::frame_support::traits::ConstU128<0>; type ItemDeposit = $crate::frame_support::traits::ConstU128<0>; type MetadataDepositBase = $crate::frame_support::traits::ConstU128<0>;
			type AttributeDepositBase = $crate::frame_support::traits::ConstU128<0>; type DepositPerByte = $crate::frame_support::traits::ConstU128<0>; type StringLimit = $crate::frame_support::traits::ConstU32<60>; type KeyLimit = $crate::frame_support::traits::ConstU32<32>; type ValueLimit = $crate::frame_support::traits::ConstU32<64>; type WeightInfo = ();
		}
	};
}

pub fn acc(n: u8) -> Acc { let mut b = [0xAA; 32]; b[0] = n; AccountId32::new(b) }
/// a short name for an account in logs
pub fn nm(a: &Acc) -> String { let b: &[u8; 32] = a.as_ref(); if b[1..].iter().all(|x| *x == 0xAA) { format!("#{}", b[0]) } else { String::from_utf8_lossy(&b[4..12]).chars().map(|c| if c.is_ascii_graphic() { c } else { '.' }).collect() } }

/// Every balance of every asset. `native` is the asset id under which the native balances are entered.
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Book { pub free: BTreeMap<(Acc, u32), u128>, pub reserved: BTreeMap<(Acc, u32), u128>, pub frozen: BTreeMap<(Acc, u32), u128>, pub issuance: BTreeMap<u32, u128> }
pub const NATIVE: u32 = 0;
impl Book {
	/// tokens only
	pub fn tokens<T: orml_tokens::Config<Balance = u128, CurrencyId = u32> + frame_system::Config<AccountId = Acc>>() -> Self {
		let mut b = Book::default();
		for (a, c, d) in orml_tokens::Accounts::<T>::iter() { b.put(a, c, d.free, d.reserved, d.frozen); }
		for (c, i) in orml_tokens::TotalIssuance::<T>::iter() { b.issuance.insert(c, i); }
		b
	}
	/// tokens, and the native currency as asset 0
	pub fn all<T: orml_tokens::Config<Balance = u128, CurrencyId = u32> + pallet_balances::Config<Balance = u128> + frame_system::Config<AccountId = Acc, AccountData = pallet_balances::AccountData<u128>>>() -> Self {
		let mut b = Self::tokens::<T>();
		for (a, d) in frame_system::Account::<T>::iter() { let d = d.data; b.put(a, NATIVE, d.free, d.reserved, d.frozen); }
		b.issuance.insert(NATIVE, pallet_balances::Pallet::<T>::total_issuance());
		b
	}
	fn put(&mut self, a: Acc, c: u32, f: u128, r: u128, z: u128) { if f > 0 { self.free.insert((a.clone(), c), f); } if r > 0 { self.reserved.insert((a.clone(), c), r); } if z > 0 { self.frozen.insert((a, c), z); } }
	pub fn free(&self, a: &Acc, c: u32) -> u128 { self.free.get(&(a.clone(), c)).copied().unwrap_or(0) }
	pub fn reserved(&self, a: &Acc, c: u32) -> u128 { self.reserved.get(&(a.clone(), c)).copied().unwrap_or(0) }
	pub fn total(&self, a: &Acc, c: u32) -> u128 { self.free(a, c) + self.reserved(a, c) }
	pub fn issuance(&self, c: u32) -> u128 { self.issuance.get(&c).copied().unwrap_or(0) }
	pub fn holders(&self, c: u32) -> impl Iterator<Item = (&Acc, u128)> { self.free.iter().filter(move |x| x.0 .1 == c).map(|x| (&x.0 .0, *x.1)) }
	/// change of free balances from `self` to `after`, zeros left out
	pub fn moved(&self, after: &Book) -> Moves { Moves(diff(&self.free, &after.free)) }
	pub fn moved_reserved(&self, after: &Book) -> Moves { Moves(diff(&self.reserved, &after.reserved)) }
	pub fn moved_total(&self, after: &Book) -> Moves { let mut m = diff(&self.free, &after.free); for (k, v) in diff(&self.reserved, &after.reserved) { *m.entry(k).or_default() += v; } m.retain(|_, v| *v != 0); Moves(m) }
	pub fn issued(&self, after: &Book, c: u32) -> i128 { after.issuance(c) as i128 - self.issuance(c) as i128 }
	/// recorded issuance = sum of all balances, for every asset
	pub fn balanced(&self) -> Result<(), String> {
		let mut s: BTreeMap<u32, u128> = BTreeMap::new();
		for ((_, c), v) in self.free.iter().chain(self.reserved.iter()) { *s.entry(*c).or_default() += v; }
		for c in s.keys().chain(self.issuance.keys()).collect::<BTreeSet<_>>() { let (a, b) = (s.get(c).copied().unwrap_or(0), self.issuance(*c)); if a != b { return Err(format!("asset {}: balances sum to {}, issuance is {}", c, a, b)); } }
		Ok(())
	}
}
fn diff(a: &BTreeMap<(Acc, u32), u128>, b: &BTreeMap<(Acc, u32), u128>) -> BTreeMap<(Acc, u32), i128> {
	let mut m = BTreeMap::new();
	for (k, v) in a { let w = b.get(k).copied().unwrap_or(0); if w != *v { m.insert(k.clone(), w as i128 - *v as i128); } }
	for (k, w) in b { if !a.contains_key(k) { m.insert(k.clone(), *w as i128); } }
	m
}
/// Signed balance changes by account and asset. Built up as an expectation, or observed from two books.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Moves(pub BTreeMap<(Acc, u32), i128>);
impl Moves {
	pub fn new() -> Self { Self::default() }
	pub fn add(mut self, a: &Acc, c: u32, v: u128) -> Self { self.bump(a, c, v as i128); self }
	pub fn sub(mut self, a: &Acc, c: u32, v: u128) -> Self { self.bump(a, c, -(v as i128)); self }
	pub fn mv(self, from: &Acc, to: &Acc, c: u32, v: u128) -> Self { self.sub(from, c, v).add(to, c, v) }
	pub fn bump(&mut self, a: &Acc, c: u32, v: i128) { let e = self.0.entry((a.clone(), c)).or_default(); *e += v; if *e == 0 { self.0.remove(&(a.clone(), c)); } }
	pub fn get(&self, a: &Acc, c: u32) -> i128 { self.0.get(&(a.clone(), c)).copied().unwrap_or(0) }
	pub fn plus(mut self, o: &Moves) -> Self { for ((a, c), v) in &o.0 { self.bump(a, *c, *v); } self }
	pub fn is_empty(&self) -> bool { self.0.is_empty() }
	pub fn assets(&self) -> BTreeSet<u32> { self.0.keys().map(|k| k.1).collect() }
	pub fn accounts(&self) -> BTreeSet<Acc> { self.0.keys().map(|k| k.0.clone()).collect() }
	/// sum over accounts of one asset
	pub fn net(&self, c: u32) -> i128 { self.0.iter().filter(|x| x.0 .1 == c).map(|x| *x.1).sum() }
	pub fn only(&self, f: impl Fn(&Acc, u32) -> bool) -> Moves { Moves(self.0.iter().filter(|x| f(&x.0 .0, x.0 .1)).map(|(k, v)| (k.clone(), *v)).collect()) }
}
impl std::fmt::Debug for Moves { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{{")?; for ((a, c), v) in &self.0 { write!(f, " {}/{}:{:+}", nm(a), c, v)?; } write!(f, " }}") } }

/// Runs a case on a fresh state.
pub fn fresh<R>(f: impl FnOnce() -> R) -> R { sp_io::TestExternalities::default().execute_with(f) }
/// Gives `who` an amount of a token.
pub fn give<T: orml_tokens::Config<Balance = u128, CurrencyId = u32> + frame_system::Config<AccountId = Acc>>(who: &Acc, c: u32, v: u128) { if v > 0 { <orml_tokens::Pallet<T> as MultiCurrency<Acc>>::deposit(c, who, v).expect("funding"); } }
pub fn give_native<T: pallet_balances::Config<Balance = u128> + frame_system::Config<AccountId = Acc>>(who: &Acc, v: u128) { let _ = <pallet_balances::Pallet<T> as Currency<Acc>>::deposit_creating(who, v); }
/// The events since the last call.
pub fn take_events<T: frame_system::Config>() -> Vec<<T as frame_system::Config>::RuntimeEvent> { let e = frame_system::Pallet::<T>::events().into_iter().map(|r| r.event).collect(); frame_system::Pallet::<T>::reset_events(); e }
/// Dispatches a call.
pub fn call<C: Dispatchable>(c: C, o: C::RuntimeOrigin) -> Result<(), DispatchError> where C::PostInfo: Eq + PartialEq + Clone + Copy + std::fmt::Debug + codec::Encode + codec::Decode { c.dispatch(o).map(|_| ()).map_err(|e| e.error) }
/// A short name of a dispatch error.
pub fn err(e: &DispatchError) -> String { match e { DispatchError::Module(m) => m.message.map(|s| s.to_string()).unwrap_or_else(|| format!("{:?}", m)), x => format!("{:?}", x) } }
/// `floor(a*b/c)`
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 { if c == 0 { return u128::MAX; } let r = primitive_types::U256::from(a) * primitive_types::U256::from(b) / primitive_types::U256::from(c); if r > primitive_types::U256::from(u128::MAX) { u128::MAX } else { r.low_u128() } }
/// `ceil(a*b/c)`
pub fn muldiv_up(a: u128, b: u128, c: u128) -> u128 { if c == 0 { return u128::MAX; } let p = primitive_types::U256::from(a) * primitive_types::U256::from(b); let c = primitive_types::U256::from(c); let r = p / c + if (p % c).is_zero() { primitive_types::U256::zero() } else { primitive_types::U256::one() }; if r > primitive_types::U256::from(u128::MAX) { u128::MAX } else { r.low_u128() } }
pub fn wide(a: u128) -> primitive_types::U512 { primitive_types::U512::from(a) }

pub use hydradx_traits;
/// The assets of a case: id -> decimals. `Reg` answers for them as the asset registry, with `Eds` as existential deposits.
param! { Assets: BTreeMap<u32, u8> = Default::default(); }
pub struct Reg;
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = u32; type Location = u8;
	fn is_sufficient(_: u32) -> bool { true }
	fn exists(a: u32) -> bool { Assets::with(|r| r.contains_key(&a)) }
	fn decimals(a: u32) -> Option<u8> { Assets::with(|r| r.get(&a).copied()) }
	fn asset_type(_: u32) -> Option<hydradx_traits::AssetKind> { Some(hydradx_traits::AssetKind::Token) }
	fn is_banned(_: u32) -> bool { false }
	fn asset_name(_: u32) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: u32) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: u32) -> Option<u128> { Some(ed(a)) }
}
/// Accounts of pools, from the ids of their assets.
pub fn pool_acc(tag: &[u8], a: u32, b: u32) -> Acc { let mut x = [0u8; 32]; x[..4].copy_from_slice(b"pool"); x[4..4 + tag.len().min(8)].copy_from_slice(&tag[..tag.len().min(8)]); x[16..20].copy_from_slice(&a.to_le_bytes()); x[20..24].copy_from_slice(&b.to_le_bytes()); AccountId32::new(x) }
/// A whitelist of accounts that are never dusted.
param! { NoDust: BTreeSet<Acc> = Default::default(); }
pub struct DustWhite;
impl frame_support::traits::Contains<Acc> for DustWhite { fn contains(a: &Acc) -> bool { NoDust::with(|d| d.contains(a)) } }
impl hydradx_traits::pools::DustRemovalAccountWhitelist<Acc> for DustWhite {
	type Error = DispatchError;
	fn add_account(a: &Acc) -> Result<(), DispatchError> { if NoDust::with(|d| d.insert(a.clone())) { Ok(()) } else { Err(DispatchError::Other("already whitelisted")) } }
	fn remove_account(a: &Acc) -> Result<(), DispatchError> { if NoDust::with(|d| d.remove(a)) { Ok(()) } else { Err(DispatchError::Other("not whitelisted")) } }
}

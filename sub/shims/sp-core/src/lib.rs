//! Stand-in for `sp-core`.
#[macro_use]
pub mod bounded;
pub mod crypto;
pub mod hashing;
pub mod offchain;
pub mod secp256k1;
pub use codec::{self, MaxEncodedLen};
pub use frame_support_procedural::RuntimeDebug;
pub use primitive_types::{H128, H160, H256, H512, U128, U256, U512};
pub use bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use hashing::{blake2_128, blake2_256, keccak_256, twox_128, twox_256, twox_64};
pub type Void = std::convert::Infallible;
pub const MAX_POSSIBLE_ALLOCATION: u32 = 33554432;

pub trait Get<T> { fn get() -> T; }
impl<T: Default> Get<T> for () { fn get() -> T { T::default() } }
pub trait TypedGet { type Type; fn get() -> Self::Type; }
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault { fn get() -> T { T::default() } }
macro_rules! consts { ($($n:ident $t:ty;)*) => {$(
	#[derive(Default, Clone, Copy, PartialEq, Eq)] pub struct $n<const T: $t>;
	impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
	impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
	impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
	impl<const T: $t> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", T) } }
)*} }
consts! { ConstBool bool; ConstU8 u8; ConstU16 u16; ConstU32 u32; ConstU64 u64; ConstU128 u128; ConstI8 i8; ConstI16 i16; ConstI32 i32; ConstI64 i64; ConstI128 i128; }

pub trait Hasher: Sync + Send { type Out: AsRef<[u8]> + AsMut<[u8]> + Default + PartialEq + Eq + Clone + Copy + Send + Sync; const LENGTH: usize; fn hash(x: &[u8]) -> Self::Out; }
#[derive(PartialEq, Eq, Clone, Debug, codec::Encode, codec::Decode)]
pub struct OpaqueMetadata(pub Vec<u8>);
#[derive(PartialEq, Eq, Clone, Debug, Default, codec::Encode, codec::Decode)]
pub struct Bytes(pub Vec<u8>);
pub trait DefaultFeature {}
#[macro_export]
macro_rules! impl_maybe_marker { ($($t:tt)*) => {}; }

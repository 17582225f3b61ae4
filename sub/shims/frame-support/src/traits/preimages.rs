use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::bounded::BoundedVec;
use sp_core::ConstU32;
use sp_runtime::traits::{ConstU32 as C, Hash};
use sp_runtime::DispatchError;
pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;
pub const MAX_LEGACY_LEN: u32 = 1_000_000;
#[derive(Encode, Decode, MaxEncodedLen, Clone, Eq, PartialEq, TypeInfo, Debug)]
#[codec(mel_bound())] #[codec(encode_bound())] #[codec(decode_bound())]
#[scale_info(skip_type_params(T, H))]
pub enum Bounded<T, H: Hash> { Legacy { hash: H::Output, #[codec(skip)] dummy: std::marker::PhantomData<T> }, Inline(BoundedInline), Lookup { hash: H::Output, len: u32 } }
impl<T, H: Hash> Bounded<T, H> {
	pub fn transmute<S: Encode>(self) -> Bounded<S, H> { match self { Self::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: Default::default() }, Self::Inline(x) => Bounded::Inline(x), Self::Lookup { hash, len } => Bounded::Lookup { hash, len } } }
	pub fn hash(&self) -> H::Output { match self { Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => *hash, Self::Inline(x) => <H as Hash>::hash(x.as_slice()) } }
	pub fn lookup_hash(&self) -> Option<H::Output> { match self { Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => Some(*hash), _ => None } }
	pub fn lookup_needed(&self) -> bool { !matches!(self, Self::Inline(_)) }
	pub fn lookup_len(&self) -> Option<u32> { match self { Self::Lookup { len, .. } => Some(*len), Self::Legacy { .. } => Some(MAX_LEGACY_LEN), _ => None } }
	pub fn len(&self) -> Option<u32> { match self { Self::Inline(x) => Some(x.len() as u32), Self::Lookup { len, .. } => Some(*len), _ => None } }
	pub fn unrequested(hash: H::Output, len: u32) -> Self { Self::Lookup { hash, len } }
	pub fn from_legacy_hash(hash: impl Into<H::Output>) -> Self { Self::Legacy { hash: hash.into(), dummy: Default::default() } }
}
pub type FetchResult = Result<std::borrow::Cow<'static, [u8]>, DispatchError>;
pub trait QueryPreimage { type H: Hash; fn len(h: &<Self::H as Hash>::Output) -> Option<u32>; fn fetch(h: &<Self::H as Hash>::Output, len: Option<u32>) -> FetchResult; fn is_requested(h: &<Self::H as Hash>::Output) -> bool; fn request(h: &<Self::H as Hash>::Output); fn unrequest(h: &<Self::H as Hash>::Output);
	fn hold<T>(b: &Bounded<T, Self::H>) { if let Some(h) = b.lookup_hash() { Self::request(&h) } } fn drop<T>(b: &Bounded<T, Self::H>) { if let Some(h) = b.lookup_hash() { Self::unrequest(&h) } }
	fn have<T>(b: &Bounded<T, Self::H>) -> bool { match b { Bounded::Lookup { hash, .. } | Bounded::Legacy { hash, .. } => Self::len(hash).is_some(), _ => true } }
	fn peek<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> { match b { Bounded::Inline(d) => Ok((T::decode(&mut &d[..]).map_err(|_| DispatchError::Corruption)?, None)), Bounded::Lookup { hash, .. } | Bounded::Legacy { hash, .. } => { let x = Self::fetch(hash, None)?; Ok((T::decode(&mut &x[..]).map_err(|_| DispatchError::Corruption)?, Some(x.len() as u32))) } } }
	fn realize<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> { let r = Self::peek(b)?; Self::drop(b); Ok(r) } }
pub trait StorePreimage: QueryPreimage { const MAX_LENGTH: usize; fn note(b: std::borrow::Cow<[u8]>) -> Result<<Self::H as Hash>::Output, DispatchError>; fn unnote(h: &<Self::H as Hash>::Output) { Self::unrequest(h) }
	fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> { let d = t.encode(); Ok(match BoundedInline::try_from(d) { Ok(b) => Bounded::Inline(b), Err(d) => Bounded::Lookup { len: d.len() as u32, hash: Self::note(d.into())? } }) } }
pub mod schedule {
	use super::*;
	pub type Period<B> = (B, u32); pub type Priority = u8; pub const HIGHEST_PRIORITY: u8 = 0; pub const HARD_DEADLINE: u8 = 63; pub const LOWEST_PRIORITY: u8 = 255;
	#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo)] pub enum DispatchTime<B> { At(B), After(B) }
	pub mod v3 {
		use super::*;
		pub type TaskName = [u8; 32];
		pub trait Anon<B, Call, O> {}
		pub trait Named<B, Call, O> { type Address; type Hasher: Hash;
			fn schedule_named(id: TaskName, w: DispatchTime<B>, p: Option<Period<B>>, pr: Priority, o: O, c: Bounded<Call, Self::Hasher>) -> Result<Self::Address, DispatchError>;
			fn cancel_named(id: TaskName) -> Result<(), DispatchError>; fn reschedule_named(id: TaskName, w: DispatchTime<B>) -> Result<Self::Address, DispatchError>; fn next_dispatch_time(id: TaskName) -> Result<B, DispatchError>; }
	}
}
#[doc(hidden)] pub type _C = C<0>;

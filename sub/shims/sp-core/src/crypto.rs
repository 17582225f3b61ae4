use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, MaxEncodedLen, TypeInfo, Hash, serde::Serialize, serde::Deserialize)]
pub struct AccountId32([u8; 32]);
impl AccountId32 { pub const fn new(x: [u8; 32]) -> Self { Self(x) } }
impl std::fmt::Debug for AccountId32 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", hex::encode(&self.0[..])) } }
impl std::fmt::Display for AccountId32 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", hex::encode(&self.0[..])) } }
impl AsRef<[u8]> for AccountId32 { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for AccountId32 { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl AsRef<[u8; 32]> for AccountId32 { fn as_ref(&self) -> &[u8; 32] { &self.0 } }
impl AsMut<[u8; 32]> for AccountId32 { fn as_mut(&mut self) -> &mut [u8; 32] { &mut self.0 } }
impl From<[u8; 32]> for AccountId32 { fn from(x: [u8; 32]) -> Self { Self(x) } }
impl From<AccountId32> for [u8; 32] { fn from(x: AccountId32) -> [u8; 32] { x.0 } }
impl<'a> TryFrom<&'a [u8]> for AccountId32 { type Error = (); fn try_from(x: &'a [u8]) -> Result<Self, ()> { x.try_into().map(Self).map_err(|_| ()) } }
impl ByteArray for AccountId32 { const LEN: usize = 32; }
impl From<sr25519::Public> for AccountId32 { fn from(k: sr25519::Public) -> Self { Self(k.0) } }
pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
	const LEN: usize;
	fn from_slice(d: &[u8]) -> Result<Self, ()> { Self::try_from(d) }
	fn to_raw_vec(&self) -> Vec<u8> { self.as_slice().to_vec() }
	fn as_slice(&self) -> &[u8] { self.as_ref() }
}
pub trait UncheckedFrom<T> { fn unchecked_from(t: T) -> Self; }
pub trait UncheckedInto<T> { fn unchecked_into(self) -> T; }
impl<S, T: UncheckedFrom<S>> UncheckedInto<T> for S { fn unchecked_into(self) -> T { T::unchecked_from(self) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)] pub struct KeyTypeId(pub [u8; 4]);
/// signature scheme types; nothing here signs or verifies
pub mod sr25519 {
	use super::*;
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, Hash)] pub struct Public(pub [u8; 32]);
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, Hash)] pub struct Signature(pub [u8; 64]);
}

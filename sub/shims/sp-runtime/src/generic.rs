use crate::traits::{self, Header as HeaderT};
use crate::Digest;
use codec::{Decode, Encode};
use scale_info::TypeInfo;
#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, TypeInfo)]
#[scale_info(skip_type_params(Hash))]
pub struct Header<Number: Copy + Into<primitive::U256> + TryFrom<primitive::U256>, Hash: traits::Hash> { pub parent_hash: Hash::Output, pub number: Number, pub state_root: Hash::Output, pub extrinsics_root: Hash::Output, pub digest: Digest }
pub mod primitive { pub use sp_core::U256; }
impl<Number, Hash> HeaderT for Header<Number, Hash> where Number: traits::HeaderNumber, Hash: traits::Hash { type Number = Number; type Hash = <Hash as traits::Hash>::Output; type Hashing = Hash;
	fn number(&self) -> &Number { &self.number } fn new(number: Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: Digest) -> Self { Header { parent_hash, number, state_root, extrinsics_root, digest } } }
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
pub struct Block<Header, Extrinsic> { pub header: Header, pub extrinsics: Vec<Extrinsic> }
impl<H: HeaderT, E> traits::HeaderProvider for Block<H, E> { type HeaderT = H; }
impl<H: HeaderT + 'static, E: Clone + Eq + std::fmt::Debug + 'static> traits::Block for Block<H, E> { type Extrinsic = E; type Header = H; type Hash = H::Hash; fn header(&self) -> &H { &self.header } fn extrinsics(&self) -> &[E] { &self.extrinsics } fn deconstruct(self) -> (H, Vec<E>) { (self.header, self.extrinsics) } }
#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(Address, Call, Signature, Extra))]
pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> { pub signature: Option<(Address, Signature, Extra)>, pub function: Call }
impl<A, C, S, E> std::fmt::Debug for UncheckedExtrinsic<A, C, S, E> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("UncheckedExtrinsic") } }
impl<A, C, S, E> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> { type Call = C; type SignaturePayload = (A, S, E); fn new(c: C, s: Option<(A, S, E)>) -> Option<Self> { Some(Self { signature: s, function: c }) } fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum DigestItem { None }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)] pub enum Era { Immortal, Mortal(u64, u64) }
#[derive(PartialEq, Eq, Clone, Debug)] pub struct CheckedExtrinsic<A, C, E> { pub signed: Option<(A, E)>, pub function: C }

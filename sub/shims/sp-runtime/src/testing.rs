use crate::traits;
use codec::{Decode, Encode};
use scale_info::TypeInfo;
pub type Header = crate::generic::Header<u64, traits::BlakeTwo256>;
pub use sp_core::H256;
#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo)]
pub struct TestXt<Call, Extra> { pub signature: Option<(u64, Extra)>, pub call: Call }
impl<C, E> TestXt<C, E> { pub fn new(call: C, signature: Option<(u64, E)>) -> Self { Self { call, signature } } }
impl<C, E> std::fmt::Debug for TestXt<C, E> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("TestXt") } }
impl<C, E> traits::Extrinsic for TestXt<C, E> { type Call = C; type SignaturePayload = (u64, E); fn new(c: C, s: Option<(u64, E)>) -> Option<Self> { Some(TestXt { signature: s, call: c }) } fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } }
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)] pub struct UintAuthorityId(pub u64);

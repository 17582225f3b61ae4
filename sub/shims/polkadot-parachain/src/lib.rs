pub mod primitives {
	pub type RelayChainBlockNumber = u32;
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)] pub struct Id(u32);
	impl From<u32> for Id { fn from(x: u32) -> Self { Id(x) } } impl From<Id> for u32 { fn from(x: Id) -> u32 { x.0 } }
	impl From<i32> for Id { fn from(x: i32) -> Self { Id(x as u32) } }
	#[derive(Clone, PartialEq, Eq, Debug, Default, codec::Encode, codec::Decode, scale_info::TypeInfo)] pub struct HeadData(pub Vec<u8>);
	impl HeadData { pub fn hash(&self) -> sp_core::H256 { <sp_runtime::traits::BlakeTwo256 as sp_runtime::traits::Hash>::hash(&self.0) } }
}

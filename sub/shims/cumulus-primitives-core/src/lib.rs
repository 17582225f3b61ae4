pub mod relay_chain { pub type Hash = sp_core::H256; pub type BlockNumber = u32; pub use polkadot_parachain::primitives::HeadData; }
#[derive(Clone, PartialEq, Eq, Debug, Default, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub struct PersistedValidationData { pub parent_head: relay_chain::HeadData, pub relay_parent_number: u32, pub relay_parent_storage_root: relay_chain::Hash, pub max_pov_size: u32 }
pub use polkadot_parachain::primitives::Id as ParaId;
pub use xcm::latest::prelude::*;

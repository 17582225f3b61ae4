use polkadot_parachain::primitives::{Id, RelayChainBlockNumber};
pub trait XcmDeferFilter<C> { fn deferred_by(para: Id, sent_at: RelayChainBlockNumber, xcm: &xcm::VersionedXcm<C>) -> (frame_support::weights::Weight, Option<RelayChainBlockNumber>); }
impl<C> XcmDeferFilter<C> for () { fn deferred_by(_: Id, _: RelayChainBlockNumber, _: &xcm::VersionedXcm<C>) -> (frame_support::weights::Weight, Option<RelayChainBlockNumber>) { (Default::default(), None) } }

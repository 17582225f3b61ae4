use crate::weights::Weight;
use codec::{Codec, Decode, Encode, EncodeLike};
use scale_info::TypeInfo;
use std::fmt;
pub use sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf};
pub use sp_runtime::{DispatchError, DispatchErrorWithPostInfo as SpDispatchErrorWithPostInfo, DispatchResult};
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait Callable<T> { type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq; }
pub use crate::traits::{CallMetadata, GetCallName, GetCallMetadata, UnfilteredDispatchable};
pub trait Parameter: Codec + EncodeLike + Clone + Eq + fmt::Debug + TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + fmt::Debug + TypeInfo> Parameter for T {}
#[derive(Eq, PartialEq, Clone, Encode, Decode, TypeInfo, Debug, codec::MaxEncodedLen)]
pub enum RawOrigin<AccountId> { Root, Signed(AccountId), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(s: Option<A>) -> Self { match s { Some(w) => RawOrigin::Signed(w), None => RawOrigin::None } } }
impl<A> RawOrigin<A> { pub fn as_signed(&self) -> Option<&A> { match self { Self::Signed(x) => Some(x), _ => None } } pub fn as_system_ref(&self) -> Option<&Self> { Some(self) } }
#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, TypeInfo, Debug, PartialOrd, Ord, Default)] pub enum Pays { #[default] Yes, No }
impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { Self { actual_weight: None, pays_fee: p } } }
#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, TypeInfo, Debug, PartialOrd, Ord, Default)] pub enum DispatchClass { #[default] Normal, Operational, Mandatory }
impl DispatchClass { pub fn all() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory] } }
#[derive(Clone, Copy, Eq, PartialEq, Default, Encode, Decode, TypeInfo, Debug)] pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
#[derive(Clone, Copy, Eq, PartialEq, Default, Encode, Decode, TypeInfo, Debug)] pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl PostDispatchInfo { pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight { i.weight - self.calc_actual_weight(i) } pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight { self.actual_weight.map(|a| a.min(i.weight)).unwrap_or(i.weight) } pub fn pays_fee(&self, i: &DispatchInfo) -> Pays { if i.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(w: Option<Weight>) -> Self { Self { actual_weight: w, pays_fee: Default::default() } } }
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from(w: (Option<Weight>, Pays)) -> Self { Self { actual_weight: w.0, pays_fee: w.1 } } }
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Self { actual_weight: None, pays_fee: Default::default() } } }
pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
impl GetDispatchInfo for () { fn get_dispatch_info(&self) -> DispatchInfo { Default::default() } }
pub trait CheckIfFeeless { type Origin; fn is_feeless(&self, o: &Self::Origin) -> bool; }
/// What a `#[pallet::weight]` expression may evaluate to.
pub trait IntoInfo { fn info(self) -> DispatchInfo; }
impl IntoInfo for Weight { fn info(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
impl IntoInfo for u64 { fn info(self) -> DispatchInfo { Weight::from_parts(self, 0).info() } }
impl IntoInfo for i32 { fn info(self) -> DispatchInfo { Weight::from_parts(self as u64, 0).info() } }
impl<W: IntoInfo> IntoInfo for (W, DispatchClass) { fn info(self) -> DispatchInfo { DispatchInfo { class: self.1, ..self.0.info() } } }
impl<W: IntoInfo> IntoInfo for (W, Pays) { fn info(self) -> DispatchInfo { DispatchInfo { pays_fee: self.1, ..self.0.info() } } }
impl<W: IntoInfo> IntoInfo for (W, DispatchClass, Pays) { fn info(self) -> DispatchInfo { DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.info() } } }
pub fn info_of(w: impl IntoInfo) -> DispatchInfo { w.info() }
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight { match r { Ok(p) => p, Err(e) => &e.post_info }.calc_actual_weight(i) }
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Pays { match r { Ok(p) => p, Err(e) => &e.post_info }.pays_fee(i) }
pub trait WithPostDispatchInfo { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo; }
impl<T: Into<DispatchError>> WithPostDispatchInfo for T { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo { DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() } } }
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)] pub struct PerDispatchClass<T> { normal: T, operational: T, mandatory: T }
impl<T> PerDispatchClass<T> { pub fn new(f: impl Fn(DispatchClass) -> T) -> Self { Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) } } pub fn get(&self, c: DispatchClass) -> &T { match c { DispatchClass::Normal => &self.normal, DispatchClass::Operational => &self.operational, _ => &self.mandatory } } pub fn get_mut(&mut self, c: DispatchClass) -> &mut T { match c { DispatchClass::Normal => &mut self.normal, DispatchClass::Operational => &mut self.operational, _ => &mut self.mandatory } } }

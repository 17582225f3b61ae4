use codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{BaseArithmetic, SaturatedConversion, Saturating, Unsigned, Zero};
use sp_runtime::Perbill;
use std::ops::*;
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Weight { #[codec(compact)] ref_time: u64, #[codec(compact)] proof_size: u64 }
impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Self { ref_time, proof_size } }
	pub const fn from_all(v: u64) -> Self { Self { ref_time: v, proof_size: v } }
	pub const fn zero() -> Self { Self { ref_time: 0, proof_size: 0 } }
	pub const fn ref_time(&self) -> u64 { self.ref_time } pub fn proof_size_mut(&mut self) -> &mut u64 { &mut self.proof_size } pub fn ref_time_mut(&mut self) -> &mut u64 { &mut self.ref_time } pub const fn proof_size(&self) -> u64 { self.proof_size }
	pub const fn set_ref_time(mut self, v: u64) -> Self { self.ref_time = v; self } pub const fn set_proof_size(mut self, v: u64) -> Self { self.proof_size = v; self }
	pub const fn saturating_add(self, o: Self) -> Self { Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) } }
	pub const fn saturating_sub(self, o: Self) -> Self { Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) } }
	pub const fn saturating_mul(self, s: u64) -> Self { Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) } }
	pub const fn saturating_div(self, s: u64) -> Self { self.div(s) }
	pub const fn mul(self, s: u64) -> Self { Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s } }
	pub const fn div(self, s: u64) -> Self { Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s } }
	pub const fn add_ref_time(self, s: u64) -> Self { Self { ref_time: self.ref_time.saturating_add(s), proof_size: self.proof_size } }
	pub fn saturating_accrue(&mut self, o: Self) { *self = self.saturating_add(o) }
	pub fn saturating_reduce(&mut self, o: Self) { *self = self.saturating_sub(o) }
	pub fn checked_add(&self, o: &Self) -> Option<Self> { Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? }) }
	pub fn checked_sub(&self, o: &Self) -> Option<Self> { Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? }) }
	pub fn checked_div_per_component(self, o: &Self) -> Option<u64> { match (self.ref_time.checked_div(o.ref_time), self.proof_size.checked_div(o.proof_size)) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) } }
	pub fn min(self, o: Self) -> Self { Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) } }
	pub fn max(self, o: Self) -> Self { Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) } }
	pub const fn any_gt(self, o: Self) -> bool { self.ref_time > o.ref_time || self.proof_size > o.proof_size }
	pub const fn all_gt(self, o: Self) -> bool { self.ref_time > o.ref_time && self.proof_size > o.proof_size }
	pub const fn any_lt(self, o: Self) -> bool { self.ref_time < o.ref_time || self.proof_size < o.proof_size }
	pub const fn all_lt(self, o: Self) -> bool { self.ref_time < o.ref_time && self.proof_size < o.proof_size }
	pub const fn all_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time && self.proof_size <= o.proof_size }
	pub const fn all_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time && self.proof_size >= o.proof_size }
}
impl From<u64> for Weight { fn from(v: u64) -> Self { Weight::from_parts(v, 0) } }
impl Zero for Weight { fn zero() -> Self { Weight::zero() } fn is_zero(&self) -> bool { *self == Self::zero() } }
impl Add for Weight { type Output = Self; fn add(self, o: Self) -> Self { Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size } } }
impl Sub for Weight { type Output = Self; fn sub(self, o: Self) -> Self { Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size } } }
impl Mul<u64> for Weight { type Output = Self; fn mul(self, s: u64) -> Self { Weight::mul(self, s) } }
impl Div<u64> for Weight { type Output = Self; fn div(self, s: u64) -> Self { Weight::div(self, s) } }
impl Mul<Weight> for u64 { type Output = Weight; fn mul(self, w: Weight) -> Weight { w * self } }
impl Mul<Weight> for Perbill { type Output = Weight; fn mul(self, w: Weight) -> Weight { Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size } } }
impl AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for Weight { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl std::fmt::Display for Weight { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl sp_std::iter::Sum for Weight { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Weight::zero(), |a, b| a + b) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, CompactAs)] pub struct OldWeight(pub u64);
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)] pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
impl RuntimeDbWeight { pub const fn reads(self, r: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r), 0) } pub const fn writes(self, w: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(w), 0) } pub const fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) } }
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000; pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000; pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000; pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1000; pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024; pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	crate::parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 25_000 * 1000, write: 100_000 * 1000 }; pub const ParityDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 8_000 * 1000, write: 50_000 * 1000 }; pub const ExtrinsicBaseWeight: Weight = Weight::from_parts(99_840 * 1000, 0); pub const BlockExecutionWeight: Weight = Weight::from_parts(390_000 * 1000, 0); }
}
pub trait WeightToFee { type Balance: BaseArithmetic + From<u32> + Copy + Unsigned; fn weight_to_fee(w: &Weight) -> Self::Balance; }
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()) } }
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: crate::traits::Get<T>> WeightToFee for ConstantMultiplier<T, M> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()).saturating_mul(M::get()) } }
#[derive(Clone, Debug)] pub struct WeightToFeeCoefficient<B> { pub coeff_integer: B, pub coeff_frac: Perbill, pub negative: bool, pub degree: u8 }
pub type WeightToFeeCoefficients<B> = SmallVecLike<WeightToFeeCoefficient<B>>;
pub type SmallVecLike<T> = Vec<T>;
#[macro_export] macro_rules! smallvec_like { ($($x:expr),* $(,)?) => { vec![$($x),*] }; }
pub trait WeightToFeePolynomial { type Balance: BaseArithmetic + From<u32> + Copy + Unsigned; fn polynomial() -> WeightToFeeCoefficients<Self::Balance>; }
impl<T: WeightToFeePolynomial> WeightToFee for T { type Balance = T::Balance; fn weight_to_fee(w: &Weight) -> T::Balance {
	let x = T::Balance::saturated_from(w.ref_time());
	T::polynomial().iter().fold(T::Balance::zero(), |acc, a| { let mut p = <T::Balance as sp_runtime::traits::One>::one(); for _ in 0..a.degree { p = Saturating::saturating_mul(p, x); } let i = Saturating::saturating_mul(a.coeff_integer, p); let fr = T::Balance::saturated_from(a.coeff_frac.mul_floor(SaturatedConversion::saturated_into::<u128>(p))); if a.negative { Saturating::saturating_sub(Saturating::saturating_sub(acc, i), fr) } else { Saturating::saturating_add(Saturating::saturating_add(acc, i), fr) } })
} }
#[derive(Debug, Clone)] pub struct WeightMeter { consumed: Weight, limit: Weight }
impl WeightMeter { pub fn with_limit(limit: Weight) -> Self { Self { consumed: Weight::zero(), limit } } pub fn new() -> Self { Self::with_limit(Weight::MAX) } pub fn consumed(&self) -> Weight { self.consumed } pub fn remaining(&self) -> Weight { self.limit.saturating_sub(self.consumed) } pub fn can_consume(&self, w: Weight) -> bool { self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit)) } pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> { if self.can_consume(w) { self.consumed = self.consumed + w; Ok(()) } else { Err(()) } } pub fn consume(&mut self, w: Weight) { self.consumed.saturating_accrue(w) } }

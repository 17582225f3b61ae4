//! Stand-in for `sp_arithmetic::per_things`.
use crate::traits::{BaseArithmetic, Bounded, CheckedAdd, CheckedMul, CheckedSub, One, SaturatedConversion, Saturating, UniqueSaturatedInto, Unsigned, Zero};
use codec::{CompactAs, Encode};
use std::fmt;
use std::ops::{Add, Mul, Rem, Sub, Div, AddAssign, SubAssign};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rounding { Up, Down, NearestPrefUp, NearestPrefDown }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum SignedRounding { High, Low, NearestPrefHigh, NearestPrefLow, Major, Minor, NearestPrefMajor, NearestPrefMinor }
impl Rounding {
	pub const fn from_signed(rounding: SignedRounding, negative: bool) -> Self {
		use Rounding::*;
		use SignedRounding::*;
		match (rounding, negative) {
			(Low, true) | (Major, _) | (High, false) => Up,
			(High, true) | (Minor, _) | (Low, false) => Down,
			(NearestPrefMajor, _) | (NearestPrefHigh, false) | (NearestPrefLow, true) => NearestPrefUp,
			(NearestPrefMinor, _) | (NearestPrefLow, false) | (NearestPrefHigh, true) => NearestPrefDown,
		}
	}
}

pub type InnerOf<P> = <P as PerThing>::Inner;
pub type UpperOf<P> = <P as PerThing>::Upper;

pub trait RationalArg: Clone + Ord + Div<Output = Self> + Rem<Output = Self> + Into<u128> + TryFrom<u128> + Unsigned + Zero + One + Bounded + Copy {}
impl<T: Clone + Ord + Div<Output = Self> + Rem<Output = Self> + Into<u128> + TryFrom<u128> + Unsigned + Zero + One + Bounded + Copy> RationalArg for T {}
/// Argument of the multiplication helpers: any unsigned integer up to 128 bits.
pub trait MultiplyArg: Clone + Unsigned + UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded {}
impl<T: Clone + Unsigned + UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded> MultiplyArg for T {}
pub trait ReciprocalArg: MultiplyArg {}
impl<T: MultiplyArg> ReciprocalArg for T {}

fn back<N: TryFrom<u128> + Bounded>(v: Option<u128>) -> N {
	v.and_then(|v| N::try_from(v).ok()).unwrap_or_else(N::max_value)
}

pub trait PerThing: Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + fmt::Debug + Mul<Self, Output = Self> + Zero + One {
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + fmt::Debug + crate::MultiplyRational + TryFrom<u128>;
	type Upper: BaseArithmetic + Copy + From<Self::Inner> + TryInto<Self::Inner> + UniqueSaturatedInto<Self::Inner> + Unsigned + fmt::Debug;
	const ACCURACY: Self::Inner;
	fn zero() -> Self { Self::from_parts(Self::Inner::zero()) }
	fn is_zero(&self) -> bool { self.deconstruct() == Self::Inner::zero() }
	fn one() -> Self { Self::from_parts(Self::ACCURACY) }
	fn is_one(&self) -> bool { self.deconstruct() == Self::ACCURACY }
	fn less_epsilon(self) -> Self { if PerThing::is_zero(&self) { return self; } Self::from_parts(self.deconstruct() - One::one()) }
	fn plus_epsilon(self) -> Self { if PerThing::is_one(&self) { return self; } Self::from_parts(self.deconstruct() + One::one()) }
	fn from_percent(x: Self::Inner) -> Self {
		let a: u128 = x.into();
		let a = a.min(100);
		Self::from_rational(a, 100u128)
	}
	fn square(self) -> Self {
		let p: u128 = self.deconstruct().into();
		let q: u128 = Self::ACCURACY.into();
		Self::from_rational(crate::helpers_128bit::multiply_by_rational_with_rounding(p, p, q, Rounding::Down).unwrap_or(q), q)
	}
	fn left_from_one(self) -> Self { <Self as PerThing>::one().saturating_sub(self) }
	fn mul_floor<N: MultiplyArg>(self, b: N) -> N { self.mul_rounded(b, Rounding::Down) }
	fn mul_ceil<N: MultiplyArg>(self, b: N) -> N { self.mul_rounded(b, Rounding::Up) }
	fn mul_rounded<N: MultiplyArg>(self, b: N, r: Rounding) -> N {
		back(crate::helpers_128bit::multiply_by_rational_with_rounding(b.unique_saturated_into(), self.deconstruct().into(), Self::ACCURACY.into(), r))
	}
	fn saturating_reciprocal_mul<N: ReciprocalArg>(self, b: N) -> N { self.recip_rounded(b, Rounding::NearestPrefUp) }
	fn saturating_reciprocal_mul_floor<N: ReciprocalArg>(self, b: N) -> N { self.recip_rounded(b, Rounding::Down) }
	fn saturating_reciprocal_mul_ceil<N: ReciprocalArg>(self, b: N) -> N { self.recip_rounded(b, Rounding::Up) }
	fn recip_rounded<N: ReciprocalArg>(self, b: N, r: Rounding) -> N {
		back(crate::helpers_128bit::multiply_by_rational_with_rounding(b.unique_saturated_into(), Self::ACCURACY.into(), self.deconstruct().into(), r))
	}
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn from_float(x: f64) -> Self;
	fn from_rational<N: RationalArg>(p: N, q: N) -> Self { Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| <Self as PerThing>::one()) }
	fn from_rational_approximation<N: RationalArg>(p: N, q: N) -> Self { Self::from_rational(p, q) }
	fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
		let (p, q): (u128, u128) = (p.into(), q.into());
		if q == 0 || p > q { return Err(()); }
		let acc: u128 = Self::ACCURACY.into();
		let v = crate::helpers_128bit::multiply_by_rational_with_rounding(p, acc, q, r).ok_or(())?;
		Ok(Self::from_parts(v.min(acc).saturated_into()))
	}
}

macro_rules! implement_per_thing {
	($name:ident, $max:tt, $type:ty, $upper:ty, $title:expr) => {
		#[derive(Encode, Copy, Clone, PartialEq, Eq, codec::MaxEncodedLen, PartialOrd, Ord, scale_info::TypeInfo, Hash, serde::Serialize, serde::Deserialize)]
		pub struct $name($type);
		impl codec::Decode for $name {
			fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> {
				let v = <$type>::decode(i)?;
				if v > $max { return Err("Value is greater than allowed maximum!".into()); }
				Ok(Self(v))
			}
		}
		impl CompactAs for $name {
			type As = $type;
			fn encode_as(&self) -> &Self::As { &self.0 }
			fn decode_from(x: Self::As) -> Result<Self, codec::Error> { if x > $max { Err("Value is greater than allowed maximum!".into()) } else { Ok(Self(x)) } }
		}
		impl From<codec::Compact<$name>> for $name { fn from(x: codec::Compact<$name>) -> $name { x.0 } }
		impl Default for $name { fn default() -> Self { Self(0) } }
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}({}/{})", stringify!($name), self.0, $max as u128) }
		}
		impl $name {
			pub const fn from_parts(parts: $type) -> Self { Self([parts, $max][(parts > $max) as usize]) }
			pub const fn from_percent(x: $type) -> Self { Self(([x, 100][(x > 100) as usize] as u128 * $max as u128 / 100) as $type) }
			pub const fn from_perthousand(x: $type) -> Self { Self(([x, 1000][(x > 1000) as usize] as u128 * $max as u128 / 1000) as $type) }
			pub const fn one() -> Self { Self($max) }
			pub const fn zero() -> Self { Self(0) }
			pub const fn is_zero(&self) -> bool { self.0 == 0 }
			pub const fn is_one(&self) -> bool { self.0 == $max }
			pub const fn deconstruct(self) -> $type { self.0 }
			pub fn from_float(x: f64) -> Self { Self((x.max(0.).min(1.) * $max as f64) as $type) }
			pub fn square(self) -> Self { PerThing::square(self) }
			pub const fn left_from_one(self) -> Self { Self($max - self.0) }
			pub fn from_rational<N: RationalArg>(p: N, q: N) -> Self { <Self as PerThing>::from_rational(p, q) }
			pub fn from_rational_approximation<N: RationalArg>(p: N, q: N) -> Self { <Self as PerThing>::from_rational(p, q) }
			pub fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> { <Self as PerThing>::from_rational_with_rounding(p, q, r) }
			pub fn mul_floor<N: MultiplyArg>(self, b: N) -> N { PerThing::mul_floor(self, b) }
			pub fn mul_ceil<N: MultiplyArg>(self, b: N) -> N { PerThing::mul_ceil(self, b) }
			pub fn saturating_reciprocal_mul<N: ReciprocalArg>(self, b: N) -> N { PerThing::saturating_reciprocal_mul(self, b) }
			pub fn saturating_reciprocal_mul_floor<N: ReciprocalArg>(self, b: N) -> N { PerThing::saturating_reciprocal_mul_floor(self, b) }
			pub fn saturating_reciprocal_mul_ceil<N: ReciprocalArg>(self, b: N) -> N { PerThing::saturating_reciprocal_mul_ceil(self, b) }
			pub fn int_div(self, d: Self) -> $type { if d.0 == 0 { 0 } else { self.0 / d.0 } }
			pub fn int_mul(self, b: $type) -> Self { Self(self.0.saturating_mul(b).min($max)) }
		}
		impl PerThing for $name {
			type Inner = $type;
			type Upper = $upper;
			const ACCURACY: $type = $max;
			fn deconstruct(self) -> $type { self.0 }
			fn from_parts(p: $type) -> Self { Self(p.min($max)) }
			fn from_float(x: f64) -> Self { Self((x.max(0.).min(1.) * $max as f64) as $type) }
		}
		impl Bounded for $name { fn min_value() -> Self { Self(0) } fn max_value() -> Self { Self($max) } }
		impl Zero for $name { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
		impl One for $name { fn one() -> Self { Self($max) } fn is_one(&self) -> bool { self.0 == $max } }
		impl Saturating for $name {
			fn saturating_add(self, rhs: Self) -> Self { Self(self.0.saturating_add(rhs.0).min($max)) }
			fn saturating_sub(self, rhs: Self) -> Self { Self(self.0.saturating_sub(rhs.0)) }
			fn saturating_mul(self, rhs: Self) -> Self { self * rhs }
			fn saturating_pow(self, exp: usize) -> Self {
				if self.is_zero() || self.is_one() { self } else {
					let p = <$name as PerThing>::one().deconstruct();
					let _ = p;
					let mut result = Self::one();
					let mut base = self;
					let mut e = exp;
					while e > 0 { if e & 1 == 1 { result = result * base; } e >>= 1; if e > 0 { base = base * base; } }
					result
				}
			}
		}
		impl Add for $name { type Output = Self; fn add(self, r: Self) -> Self { let v = self.0 + r.0; debug_assert!(v <= $max); Self::from_parts(v) } }
		impl AddAssign for $name { fn add_assign(&mut self, r: Self) { *self = *self + r } }
		impl CheckedAdd for $name { fn checked_add(&self, r: &Self) -> Option<Self> { self.0.checked_add(r.0).map(|v| if v > $max { None } else { Some(Self(v)) }).flatten() } }
		impl Sub for $name { type Output = Self; fn sub(self, r: Self) -> Self { Self(self.0 - r.0) } }
		impl SubAssign for $name { fn sub_assign(&mut self, r: Self) { *self = *self - r } }
		impl CheckedSub for $name { fn checked_sub(&self, r: &Self) -> Option<Self> { self.0.checked_sub(r.0).map(Self) } }
		impl CheckedMul for $name { fn checked_mul(&self, r: &Self) -> Option<Self> { Some(*self * *r) } }
		impl Mul for $name {
			type Output = Self;
			fn mul(self, rhs: Self) -> Self {
				// upstream: `saturating_mul` of inners in the upper type, rounded down
				Self(crate::helpers_128bit::multiply_by_rational_with_rounding(self.0 as u128, rhs.0 as u128, $max as u128, Rounding::Down).unwrap_or($max as u128) as $type)
			}
		}
		impl Div for $name {
			type Output = Self;
			fn div(self, rhs: Self) -> Self { <Self as PerThing>::from_rational(self.0 as u128, rhs.0 as u128) }
		}
		impl<N: MultiplyArg> Mul<N> for $name {
			type Output = N;
			/// overflow-safe, rounds to nearest with a preference for down
			fn mul(self, b: N) -> N { PerThing::mul_rounded(self, b, Rounding::NearestPrefDown) }
		}
		impl<N: MultiplyArg> Div<N> for $name where $type: TryFrom<N> {
			type Output = Self;
			fn div(self, b: N) -> Self { let d = <$type>::try_from(b).unwrap_or(<$type>::MAX); Self(self.0 / d) }
		}
	};
}

implement_per_thing!(Percent, 100u8, u8, u16, "Percent");
implement_per_thing!(PerU16, 65535u16, u16, u32, "Parts per 65535");
implement_per_thing!(Permill, 1_000_000u32, u32, u64, "Parts per Million");
implement_per_thing!(Perbill, 1_000_000_000u32, u32, u64, "Parts per Billion");
implement_per_thing!(Perquintill, 1_000_000_000_000_000_000u64, u64, u128, "Parts per Quintillion");

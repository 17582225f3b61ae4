//! Stand-in for `sp_arithmetic::fixed_point`.
use crate::helpers_128bit::{const_multiply_by_rational_with_rounding, multiply_by_rational_with_rounding};
use crate::traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedSub, One, SaturatedConversion, Saturating, UniqueSaturatedInto, Zero};
use crate::{PerThing, Perbill, Rounding, SignedRounding};
use codec::{CompactAs, Decode, Encode};
use std::fmt::Debug;
use std::ops::{self, Add, Div, Mul, Sub};

pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg {}
impl<T> FixedPointOperand for T where T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg {}

pub trait FixedPointNumber:
	Sized + Copy + Default + Debug + Saturating + Bounded + Eq + PartialEq + Ord + PartialOrd + CheckedSub + CheckedAdd + CheckedMul + CheckedDiv
	+ Add + Sub + Div + Mul + Zero + One
{
	type Inner: Debug + One + CheckedMul + CheckedDiv + FixedPointOperand;
	const DIV: Self::Inner;
	const SIGNED: bool;
	fn accuracy() -> Self::Inner { Self::DIV }
	fn from_inner(int: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
	fn checked_from_integer<N: Into<Self::Inner>>(int: N) -> Option<Self> { let int: Self::Inner = int.into(); int.checked_mul(&Self::DIV).map(Self::from_inner) }
	fn saturating_from_integer<N: FixedPointOperand + UniqueSaturatedInto<Self::Inner>>(int: N) -> Self {
		let mut n: I129 = int.into();
		n.value = n.value.saturating_mul(Self::DIV.saturated_into());
		Self::from_inner(from_i129(n).unwrap_or_else(|| to_bound(int, 0)))
	}
	fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
		if d == D::zero() { panic!("attempt to divide by zero") }
		Self::checked_from_rational(n, d).unwrap_or_else(|| to_bound(n, d))
	}
	fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> {
		if d == D::zero() { return None; }
		let n: I129 = n.into();
		let d: I129 = d.into();
		let negative = n.negative != d.negative;
		multiply_by_rational_with_rounding(n.value, Self::DIV.unique_saturated_into(), d.value, Rounding::from_signed(SignedRounding::Minor, negative))
			.and_then(|value| from_i129(I129 { value, negative }))
			.map(Self::from_inner)
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let rhs: I129 = n.into();
		let lhs: I129 = self.into_inner().into();
		let negative = lhs.negative != rhs.negative;
		multiply_by_rational_with_rounding(lhs.value, rhs.value, Self::DIV.unique_saturated_into(), Rounding::from_signed(SignedRounding::Minor, negative))
			.and_then(|value| from_i129(I129 { value, negative }))
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N { self.checked_mul_int(n).unwrap_or_else(|| to_bound(self.into_inner(), n)) }
	fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N> {
		let rhs: I129 = d.into();
		let lhs: I129 = self.into_inner().into();
		let negative = lhs.negative != rhs.negative;
		lhs.value.checked_div(rhs.value).and_then(|n| n.checked_div(Self::DIV.unique_saturated_into())).and_then(|value| from_i129(I129 { value, negative }))
	}
	fn saturating_div_int<N: FixedPointOperand>(self, d: N) -> N {
		if d == N::zero() { panic!("attempt to divide by zero") }
		self.checked_div_int(d).unwrap_or_else(|| to_bound(self.into_inner(), d))
	}
	fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N {
		if self.is_negative() && n > N::zero() { n.saturating_sub(Self::zero().saturating_sub(self).saturating_mul_int(n)) } else { self.saturating_mul_int(n).saturating_add(n) }
	}
	fn saturating_abs(self) -> Self {
		let inner = self.into_inner();
		if inner >= Self::Inner::zero() { self } else { Self::from_inner(inner.checked_neg().unwrap_or_else(Self::Inner::max_value)) }
	}
	fn reciprocal(self) -> Option<Self> { Self::one().checked_div(&self) }
	fn is_one(&self) -> bool { self.into_inner() == Self::Inner::one() }
	fn is_positive(self) -> bool { self.into_inner() > Self::Inner::zero() }
	fn is_negative(self) -> bool { self.into_inner() < Self::Inner::zero() }
	fn trunc(self) -> Self { self.into_inner().checked_div(&Self::DIV).expect("panics only if DIV is zero, DIV is not zero; qed").checked_mul(&Self::DIV).map(Self::from_inner).expect("can not overflow since fixed number is >= integer part") }
	fn frac(self) -> Self {
		let integer = self.trunc();
		let fractional = self.saturating_sub(integer);
		if integer == Self::zero() { fractional } else { fractional.saturating_abs() }
	}
	fn ceil(self) -> Self { if self.is_negative() { self.trunc() } else if self.frac() == Self::zero() { self } else { self.saturating_add(Self::one()).trunc() } }
	fn floor(self) -> Self { if self.is_negative() { self.saturating_sub(Self::one()).trunc() } else { self.trunc() } }
	fn round(self) -> Self {
		let n = self.frac();
		let half = Self::checked_from_rational(1u128, 2u128).expect("representable");
		if n < half { self.trunc() } else if self.is_positive() { self.saturating_add(Self::one()).trunc() } else { self.saturating_sub(Self::one()).trunc() }
	}
}

#[derive(Clone, Copy)]
struct I129 { value: u128, negative: bool }
impl<N: FixedPointOperand> From<N> for I129 {
	fn from(n: N) -> I129 {
		if n < N::zero() {
			let value: u128 = n.checked_neg().map(|n| n.unique_saturated_into()).unwrap_or_else(|| u128::from(N::max_value().unique_saturated_into()).saturating_add(1));
			I129 { value, negative: true }
		} else {
			I129 { value: n.unique_saturated_into(), negative: false }
		}
	}
}
fn from_i129<N: FixedPointOperand>(n: I129) -> Option<N> {
	let max_plus_one: u128 = N::max_value().unique_saturated_into();
	let max_plus_one = max_plus_one.saturating_add(1);
	if n.negative && N::min_value() < N::zero() && n.value == max_plus_one { Some(N::min_value()) }
	else {
		let unsigned_inner: N = n.value.try_into().ok()?;
		if n.negative { unsigned_inner.checked_neg() } else { Some(unsigned_inner) }
	}
}
fn to_bound<N: FixedPointOperand, D: FixedPointOperand2, R: Bounded>(n: N, m: D) -> R { if (n < N::zero()) != m.neg() { R::min_value() } else { R::max_value() } }
trait FixedPointOperand2 { fn neg(&self) -> bool; }
impl<T: PartialOrd + Zero> FixedPointOperand2 for T { fn neg(&self) -> bool { *self < T::zero() } }

macro_rules! implement_fixed {
	($name:ident, $inner_type:ty, $signed:tt, $div:tt) => {
		#[derive(Encode, Decode, CompactAs, Default, Copy, Clone, codec::MaxEncodedLen, PartialEq, Eq, PartialOrd, Ord, scale_info::TypeInfo, Hash)]
		pub struct $name($inner_type);
		impl From<$inner_type> for $name { fn from(int: $inner_type) -> Self { $name::saturating_from_integer(int) } }
		impl<N: FixedPointOperand, D: FixedPointOperand> From<(N, D)> for $name { fn from(r: (N, D)) -> Self { $name::saturating_from_rational(r.0, r.1) } }
		impl FixedPointNumber for $name {
			type Inner = $inner_type;
			const DIV: Self::Inner = $div;
			const SIGNED: bool = $signed;
			fn from_inner(inner: Self::Inner) -> Self { Self(inner) }
			fn into_inner(self) -> Self::Inner { self.0 }
		}
		impl $name {
			pub const fn from_inner(inner: $inner_type) -> Self { Self(inner) }
			pub const fn into_inner(self) -> $inner_type { self.0 }
			pub const DIV: $inner_type = $div;
			pub const fn accuracy() -> $inner_type { $div }
			pub const fn from_u32(n: u32) -> Self { Self((n as $inner_type) * $div) }
			pub const fn one() -> Self { Self($div) }
			pub const fn zero() -> Self { Self(0) }
			pub const fn from_perbill(n: Perbill) -> Self { Self::from_rational(n.deconstruct() as u128, 1_000_000_000) }
			pub const fn into_perbill(self) -> Perbill {
				if self.0 <= 0 { Perbill::zero() } else if self.0 >= $div { Perbill::one() } else {
					match const_multiply_by_rational_with_rounding(self.0 as u128, 1_000_000_000, $div as u128, Rounding::NearestPrefDown) {
						Some(v) => Perbill::from_parts(v as u32), None => Perbill::zero(),
					}
				}
			}
			pub const fn from_rational(a: u128, b: u128) -> Self { Self::from_rational_with_rounding(a, b, Rounding::NearestPrefDown) }
			pub const fn from_rational_with_rounding(a: u128, b: u128, rounding: Rounding) -> Self {
				if b == 0 { panic!("attempt to divide by zero in from_rational") }
				match const_multiply_by_rational_with_rounding($div as u128, a, b, rounding) {
					Some(v) if v <= <$inner_type>::MAX as u128 => Self(v as $inner_type),
					_ => panic!("overflow in from_rational"),
				}
			}
			pub fn from_float(x: f64) -> Self { Self((x * (<$name as FixedPointNumber>::DIV as f64)) as $inner_type) }
			pub fn to_float(self) -> f64 { self.0 as f64 / <$name as FixedPointNumber>::DIV as f64 }
			pub fn try_into_perthing<P: PerThing>(self) -> Result<P, P> {
				if self < Self::zero() { Err(<P as PerThing>::zero()) }
				else if self > Self::one() { Err(<P as PerThing>::one()) }
				else { Ok(P::from_rational(self.0 as u128, $div as u128)) }
			}
			pub fn into_clamped_perthing<P: PerThing>(self) -> P { match self.try_into_perthing() { Ok(p) => p, Err(p) => p } }
			pub fn add(self, o: Self) -> Self { Self(self.0 + o.0) }
			pub fn sub(self, o: Self) -> Self { Self(self.0 - o.0) }
			// As upstream: the inherent `mul` and `div` round to nearest, the operator traits round down.
			pub fn mul(self, o: Self) -> Self { self.const_checked_mul(o).unwrap_or_else(|| panic!("attempt to multiply with overflow")) }
			pub fn div(self, o: Self) -> Self {
				if o.0 == 0 { panic!("attempt to divide by zero") }
				self.const_checked_div(o).unwrap_or_else(|| panic!("attempt to divide with overflow"))
			}
			pub fn sqrt(self) -> Self { self.try_sqrt().expect("negative") }
			pub fn try_sqrt(self) -> Option<Self> {
				if self.0 == 0 { return Some(Self(0)); }
				if self.0 < 0 as $inner_type { return None; }
				let v = self.0 as u128;
				let p = primitive_types::U256::from(v) * primitive_types::U256::from($div as u128);
				Some(Self(p.integer_sqrt().low_u128() as $inner_type))
			}
			pub fn checked_rounding_div(self, o: Self, r: Rounding) -> Option<Self> { multiply_by_rational_with_rounding(self.0 as u128, $div as u128, o.0 as u128, r).and_then(|v| v.try_into().ok()).map(Self) }
			pub fn const_checked_mul(self, other: Self) -> Option<Self> { multiply_by_rational_with_rounding(self.0 as u128, other.0 as u128, $div as u128, Rounding::NearestPrefDown).and_then(|v| v.try_into().ok()).map(Self) }
			pub fn const_checked_div(self, other: Self) -> Option<Self> { self.checked_rounding_div(other, Rounding::NearestPrefDown) }
		}
		impl Saturating for $name {
			fn saturating_add(self, rhs: Self) -> Self { Self(self.0.saturating_add(rhs.0)) }
			fn saturating_sub(self, rhs: Self) -> Self { Self(self.0.saturating_sub(rhs.0)) }
			fn saturating_mul(self, rhs: Self) -> Self { self.checked_mul(&rhs).unwrap_or_else(|| to_bound(self.0, rhs.0)) }
			fn saturating_pow(self, exp: usize) -> Self {
				if exp == 0 { return Self::saturating_from_integer(1u32); }
				let exp = exp as u32;
				let msb_pos = 32 - exp.leading_zeros();
				let mut result = Self::saturating_from_integer(1u32);
				let mut pow_val = self;
				for i in 0..msb_pos {
					if ((1 << i) & exp) > 0 { result = result.saturating_mul(pow_val); }
					pow_val = pow_val.saturating_mul(pow_val);
				}
				result
			}
		}
		impl Add for $name { type Output = Self; fn add(self, rhs: Self) -> Self { Self(self.0 + rhs.0) } }
		impl Sub for $name { type Output = Self; fn sub(self, rhs: Self) -> Self { Self(self.0 - rhs.0) } }
		impl Mul for $name { type Output = Self; fn mul(self, rhs: Self) -> Self { self.checked_mul(&rhs).unwrap_or_else(|| panic!("attempt to multiply with overflow")) } }
		impl Div for $name {
			type Output = Self;
			fn div(self, rhs: Self) -> Self {
				if rhs.0 == 0 { panic!("attempt to divide by zero") }
				self.checked_div(&rhs).unwrap_or_else(|| panic!("attempt to divide with overflow"))
			}
		}
		impl ops::AddAssign for $name { fn add_assign(&mut self, o: Self) { *self = *self + o } }
		impl ops::SubAssign for $name { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
		impl CheckedSub for $name { fn checked_sub(&self, rhs: &Self) -> Option<Self> { self.0.checked_sub(rhs.0).map(Self) } }
		impl CheckedAdd for $name { fn checked_add(&self, rhs: &Self) -> Option<Self> { self.0.checked_add(rhs.0).map(Self) } }
		impl CheckedDiv for $name {
			fn checked_div(&self, other: &Self) -> Option<Self> {
				if other.0 == 0 { return None; }
				let lhs: I129 = self.0.into();
				let rhs: I129 = other.0.into();
				let negative = lhs.negative != rhs.negative;
				multiply_by_rational_with_rounding(lhs.value, $div as u128, rhs.value, Rounding::from_signed(SignedRounding::Minor, negative))
					.and_then(|value| from_i129(I129 { value, negative })).map(Self)
			}
		}
		impl CheckedMul for $name {
			fn checked_mul(&self, other: &Self) -> Option<Self> {
				let lhs: I129 = self.0.into();
				let rhs: I129 = other.0.into();
				let negative = lhs.negative != rhs.negative;
				multiply_by_rational_with_rounding(lhs.value, rhs.value, $div as u128, Rounding::from_signed(SignedRounding::Minor, negative))
					.and_then(|value| from_i129(I129 { value, negative })).map(Self)
			}
		}
		impl Bounded for $name { fn min_value() -> Self { Self(<$inner_type>::MIN) } fn max_value() -> Self { Self(<$inner_type>::MAX) } }
		impl Zero for $name { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
		impl One for $name { fn one() -> Self { Self($div) } }
		impl Debug for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				let (int, frac) = (self.0 / $div, self.0 % $div);
				write!(f, "{}({}.{:0>w$})", stringify!($name), int, frac, w = ($div as u128).ilog10() as usize)
			}
		}
		impl std::fmt::Display for $name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
		impl std::str::FromStr for $name {
			type Err = &'static str;
			fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse::<$inner_type>().map(Self).map_err(|_| "invalid string input for fixed point number") }
		}
		impl<P: PerThing> From<P> for $name where P::Inner: FixedPointOperand {
			fn from(p: P) -> Self { $name::saturating_from_rational(p.deconstruct(), P::ACCURACY) }
		}
		impl serde::Serialize for $name { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(&self.0) } }
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <std::string::String as serde::Deserialize>::deserialize(d)?; s.parse().map_err(serde::de::Error::custom) }
		}
	};
}
implement_fixed!(FixedU128, u128, false, 1_000_000_000_000_000_000);
implement_fixed!(FixedI128, i128, true, 1_000_000_000_000_000_000);
implement_fixed!(FixedU64, u64, false, 1_000_000_000);
implement_fixed!(FixedI64, i64, true, 1_000_000_000);

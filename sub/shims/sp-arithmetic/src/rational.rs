use crate::helpers_128bit::multiply_by_rational_with_rounding;
use crate::Rounding;
use num_traits::Zero;
use primitive_types::U512;
use std::cmp::Ordering;

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct RationalInfinite(pub u128, pub u128);
#[derive(Clone, Copy, Default, Eq, Debug)]
pub struct Rational128(u128, u128);
impl Rational128 {
	pub const fn zero() -> Self { Self(0, 1) }
	pub const fn one() -> Self { Self(1, 1) }
	pub const fn is_zero(&self) -> bool { self.0 == 0 }
	pub const fn from(n: u128, d: u128) -> Self { Self(n, if d > 1 { d } else { 1 }) }
	pub const fn from_unchecked(n: u128, d: u128) -> Self { Self(n, d) }
	pub const fn n(&self) -> u128 { self.0 }
	pub const fn d(&self) -> u128 { self.1 }
}
impl PartialOrd for Rational128 { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rational128 {
	fn cmp(&self, o: &Self) -> Ordering {
		if self.1 == o.1 { self.0.cmp(&o.0) }
		else if self.1.is_zero() { Ordering::Greater }
		else if o.1.is_zero() { Ordering::Less }
		else { (U512::from(self.0) * U512::from(o.1)).cmp(&(U512::from(o.0) * U512::from(self.1))) }
	}
}
impl PartialEq for Rational128 { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }

pub trait MultiplyRational: Sized {
	fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self>;
}
macro_rules! mr { ($($t:ty)*) => {$( impl MultiplyRational for $t {
	fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self> {
		multiply_by_rational_with_rounding(self as u128, n as u128, d as u128, r).and_then(|v| v.try_into().ok())
	}
} )*} }
mr!(u8 u16 u32 u64 u128);

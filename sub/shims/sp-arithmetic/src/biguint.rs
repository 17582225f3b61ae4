use primitive_types::U512;
/// Stand-in big unsigned integer; wide enough for products of a few u128.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct BigUint(pub U512);
impl From<u128> for BigUint { fn from(v: u128) -> Self { Self(U512::from(v)) } }
impl From<u64> for BigUint { fn from(v: u64) -> Self { Self(U512::from(v)) } }
impl From<u32> for BigUint { fn from(v: u32) -> Self { Self(U512::from(v)) } }
impl std::ops::Mul for BigUint { type Output = Self; fn mul(self, o: Self) -> Self { Self(self.0.checked_mul(o.0).expect("BigUint stand-in too narrow")) } }
impl std::ops::Add for BigUint { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0.checked_add(o.0).expect("BigUint stand-in too narrow")) } }
impl std::ops::Sub for BigUint { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0.checked_sub(o.0).expect("BigUint underflow")) } }

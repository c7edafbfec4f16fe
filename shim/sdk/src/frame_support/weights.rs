//! Weights.
use crate::arith::*;
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::traits::Get;
use crate::scale_info::TypeInfo;
use std::ops::{Add, AddAssign, Div, Mul, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
impl Weight {
	pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub fn ref_time_mut(&mut self) -> &mut u64 {
		&mut self.ref_time
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
	pub const fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn add_ref_time(self, s: u64) -> Self {
		Self { ref_time: self.ref_time + s, proof_size: self.proof_size }
	}
	pub const fn add_proof_size(self, s: u64) -> Self {
		Self { ref_time: self.ref_time, proof_size: self.proof_size + s }
	}
	pub const fn checked_add(&self, o: &Self) -> Option<Self> {
		match (self.ref_time.checked_add(o.ref_time), self.proof_size.checked_add(o.proof_size)) {
			(Some(r), Some(p)) => Some(Self { ref_time: r, proof_size: p }),
			_ => None,
		}
	}
	pub const fn checked_sub(&self, o: &Self) -> Option<Self> {
		match (self.ref_time.checked_sub(o.ref_time), self.proof_size.checked_sub(o.proof_size)) {
			(Some(r), Some(p)) => Some(Self { ref_time: r, proof_size: p }),
			_ => None,
		}
	}
	pub const fn checked_mul(self, s: u64) -> Option<Self> {
		match (self.ref_time.checked_mul(s), self.proof_size.checked_mul(s)) {
			(Some(ref_time), Some(proof_size)) => Some(Self { ref_time, proof_size }),
			_ => None,
		}
	}
	pub const fn checked_div(self, s: u64) -> Option<Self> {
		match (self.ref_time.checked_div(s), self.proof_size.checked_div(s)) {
			(Some(ref_time), Some(proof_size)) => Some(Self { ref_time, proof_size }),
			_ => None,
		}
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub const fn any_eq(self, o: Self) -> bool {
		self.ref_time == o.ref_time || self.proof_size == o.proof_size
	}
	pub const fn without_ref_time(&self) -> Self {
		Self { ref_time: 0, proof_size: self.proof_size }
	}
	pub const fn without_proof_size(&self) -> Self {
		Self { ref_time: self.ref_time, proof_size: 0 }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	pub fn min(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Self::zero()
	}
	fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o
	}
}
impl SubAssign for Weight {
	fn sub_assign(&mut self, o: Self) {
		*self = *self - o
	}
}
impl Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
}
impl Mul<Weight> for u64 {
	type Output = Weight;
	fn mul(self, w: Weight) -> Weight {
		w * self
	}
}
impl Div<u64> for Weight {
	type Output = Self;
	fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
}
macro_rules! permul { ($($t:ty),*) => {$(
	impl Mul<Weight> for $t { type Output = Weight; fn mul(self, w: Weight) -> Weight { Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size } } }
)*} }
permul!(Perbill, Percent, Permill);
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub const fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct RocksDbWeight;
	impl RocksDbWeight {
		pub const fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000 * WEIGHT_REF_TIME_PER_NANOS, write: 100_000 * WEIGHT_REF_TIME_PER_NANOS }
		}
	}
	impl<I: From<RuntimeDbWeight>> Get<I> for RocksDbWeight {
		fn get() -> I {
			I::from(RocksDbWeight::get())
		}
	}
	pub struct BlockExecutionWeight;
	impl BlockExecutionWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS * 453_383, 0)
		}
	}
	impl<I: From<Weight>> Get<I> for BlockExecutionWeight {
		fn get() -> I {
			I::from(BlockExecutionWeight::get())
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl ExtrinsicBaseWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS * 112_595, 0)
		}
	}
	impl<I: From<Weight>> Get<I> for ExtrinsicBaseWeight {
		fn get() -> I {
			I::from(ExtrinsicBaseWeight::get())
		}
	}
}
pub trait WeightToFee {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<T> = smallvec::SmallVec<[WeightToFeeCoefficient<T>; 4]>;
pub trait WeightToFeePolynomial {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = T::Balance;
	fn weight_to_fee(w: &Weight) -> T::Balance {
		let x = w.ref_time() as u128;
		let mut acc: u128 = 0;
		for a in T::polynomial() {
			let p = (0..a.degree).fold(1u128, |p, _| p.saturating_mul(x));
			let frac: u128 = a.coeff_frac * p;
			let int: u128 = UniqueSaturatedInto::<u128>::unique_saturated_into(a.coeff_integer).saturating_mul(p);
			if a.negative {
				acc = acc.saturating_sub(frac).saturating_sub(int)
			} else {
				acc = acc.saturating_add(frac).saturating_add(int)
			}
		}
		UniqueSaturatedFrom::unique_saturated_from(acc)
	}
}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::saturated_from(w.ref_time())
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::saturated_from(w.ref_time()).saturating_mul(M::get())
	}
}
impl crate::arith::Bounded for Weight {
	fn min_value() -> Self {
		Weight::zero()
	}
	fn max_value() -> Self {
		Weight::MAX
	}
}

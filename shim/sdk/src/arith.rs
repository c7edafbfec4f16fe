//! sp_arithmetic: number traits and per-things.
use crate::codec::{Compact, CompactAs, Decode, Encode, EncodeAsRef, Error as CodecError, HasCompact, Input, MaxEncodedLen, Output};
use std::ops::*;

pub trait Zero: Sized {
	fn zero() -> Self;
	fn is_zero(&self) -> bool;
	fn set_zero(&mut self) {
		*self = Self::zero()
	}
}
pub trait One: Sized {
	fn one() -> Self;
	fn is_one(&self) -> bool
	where
		Self: PartialEq,
	{
		*self == Self::one()
	}
}
pub trait Bounded {
	fn min_value() -> Self;
	fn max_value() -> Self;
}
pub use Bounded as LowerBounded;
pub trait CheckedAdd: Sized + Add<Self, Output = Self> {
	fn checked_add(&self, v: &Self) -> Option<Self>;
}
pub trait CheckedSub: Sized + Sub<Self, Output = Self> {
	fn checked_sub(&self, v: &Self) -> Option<Self>;
}
pub trait CheckedMul: Sized + Mul<Self, Output = Self> {
	fn checked_mul(&self, v: &Self) -> Option<Self>;
}
pub trait CheckedDiv: Sized + Div<Self, Output = Self> {
	fn checked_div(&self, v: &Self) -> Option<Self>;
}
pub trait CheckedRem: Sized + Rem<Self, Output = Self> {
	fn checked_rem(&self, v: &Self) -> Option<Self>;
}
pub trait CheckedNeg: Sized {
	fn checked_neg(&self) -> Option<Self>;
}
pub trait CheckedShl: Sized {
	fn checked_shl(&self, n: u32) -> Option<Self>;
}
pub trait CheckedShr: Sized {
	fn checked_shr(&self, n: u32) -> Option<Self>;
}
pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_sub(One::one())
	}
	fn saturating_plus_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_add(One::one())
	}
	fn saturating_inc(&mut self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(One::one());
	}
	fn saturating_dec(&mut self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(One::one());
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(amount);
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: One + Sized,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(amount);
	}
}
pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}
pub trait IntegerSquareRoot {}
pub trait BaseArithmetic:
	From<u8> + Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
impl<T> BaseArithmetic for T where
	T: From<u8> + Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait Unsigned {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}
pub trait SaturatingAddT {}
/// ensure_* family
macro_rules! ensure_ops {
	($($tr:ident $assign_tr:ident $f:ident $fa:ident $chk:ident $bound:ident $err:ident;)*) => {$(
		pub trait $tr: $bound + Sized + PartialOrd + Zero { fn $f(self, v: Self) -> Result<Self, ArithmeticError> { self.$chk(&v).ok_or(ArithmeticError::$err) } }
		impl<T: $bound + Sized + PartialOrd + Zero> $tr for T {}
		pub trait $assign_tr: $tr + Copy { fn $fa(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = (*self).$f(v)?; Ok(()) } }
		impl<T: $tr + Copy> $assign_tr for T {}
	)*}
}
ensure_ops! {
	EnsureAdd EnsureAddAssign ensure_add ensure_add_assign checked_add CheckedAdd Overflow;
	EnsureSub EnsureSubAssign ensure_sub ensure_sub_assign checked_sub CheckedSub Underflow;
	EnsureMul EnsureMulAssign ensure_mul ensure_mul_assign checked_mul CheckedMul Overflow;
	EnsureDiv EnsureDivAssign ensure_div ensure_div_assign checked_div CheckedDiv DivisionByZero;
}

macro_rules! num {
	($($t:ty),*) => {$(
		impl Zero for $t { fn zero() -> Self { 0 as $t } fn is_zero(&self) -> bool { *self == 0 as $t } }
		impl One for $t { fn one() -> Self { 1 as $t } }
		impl Bounded for $t { fn min_value() -> Self { <$t>::MIN } fn max_value() -> Self { <$t>::MAX } }
		impl CheckedAdd for $t { fn checked_add(&self, v: &Self) -> Option<Self> { <$t>::checked_add(*self, *v) } }
		impl CheckedSub for $t { fn checked_sub(&self, v: &Self) -> Option<Self> { <$t>::checked_sub(*self, *v) } }
		impl CheckedMul for $t { fn checked_mul(&self, v: &Self) -> Option<Self> { <$t>::checked_mul(*self, *v) } }
		impl CheckedDiv for $t { fn checked_div(&self, v: &Self) -> Option<Self> { <$t>::checked_div(*self, *v) } }
		impl CheckedRem for $t { fn checked_rem(&self, v: &Self) -> Option<Self> { <$t>::checked_rem(*self, *v) } }
		impl CheckedNeg for $t { fn checked_neg(&self) -> Option<Self> { <$t>::checked_neg(*self) } }
		impl CheckedShl for $t { fn checked_shl(&self, n: u32) -> Option<Self> { <$t>::checked_shl(*self, n) } }
		impl CheckedShr for $t { fn checked_shr(&self, n: u32) -> Option<Self> { <$t>::checked_shr(*self, n) } }
		impl Saturating for $t {
			fn saturating_add(self, r: Self) -> Self { <$t>::saturating_add(self, r) }
			fn saturating_sub(self, r: Self) -> Self { <$t>::saturating_sub(self, r) }
			fn saturating_mul(self, r: Self) -> Self { <$t>::saturating_mul(self, r) }
			fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) }
		}
	)*}
}
num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Unsigned for u8 {}
impl Unsigned for u16 {}
impl Unsigned for u32 {}
impl Unsigned for u64 {}
impl Unsigned for u128 {}
impl Unsigned for usize {}

#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, MaxEncodedLen, crate::scale_info::TypeInfo, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefDown,
	NearestPrefUp,
}

/// a * num / den in 256-bit arithmetic (saturating at u128::MAX), with rounding.
pub fn mul_div(a: u128, num: u128, den: u128, r: Rounding) -> u128 {
	assert!(den != 0);
	let (hi, lo) = wide_mul(a, num);
	let (q, rem) = wide_div(hi, lo, den);
	let Some(q) = q else { return u128::MAX };
	let up = match r {
		Rounding::Down => false,
		Rounding::Up => rem > 0,
		Rounding::NearestPrefDown => rem > den - rem && rem != 0 && rem > den / 2,
		Rounding::NearestPrefUp => rem != 0 && rem >= den - rem,
	};
	if up {
		q.saturating_add(1)
	} else {
		q
	}
}
fn wide_mul(a: u128, b: u128) -> (u128, u128) {
	let m = u64::MAX as u128;
	let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
	let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
	let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
	(p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64), (mid << 64) | (p00 & m))
}
fn wide_div(hi: u128, lo: u128, d: u128) -> (Option<u128>, u128) {
	if hi == 0 {
		return (Some(lo / d), lo % d)
	}
	if hi >= d {
		return (None, 0)
	}
	let (mut rem, mut q) = (hi, 0u128);
	for i in (0..128).rev() {
		let carry = rem >> 127;
		rem = (rem << 1) | ((lo >> i) & 1);
		q <<= 1;
		if carry == 1 || rem >= d {
			rem = rem.wrapping_sub(d);
			q |= 1;
		}
	}
	(Some(q), rem)
}

pub trait PerThing: Sized {
	type Inner;
	const ACCURACY: Self::Inner;
}
macro_rules! per_thing {
	($n:ident, $t:ty, $up:ty, $max:expr, $unit:expr) => {
		#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, crate::scale_info::TypeInfo, serde::Serialize, serde::Deserialize, Hash)]
		pub struct $n($t);
		impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, concat!(stringify!($n), "({}/{})"), self.0, $max) } }
		impl $n {
			pub const fn from_parts(p: $t) -> Self { Self(if p > $max { $max } else { p }) }
			pub const fn from_percent(x: $t) -> Self { Self((if x > 100 { 100 } else { x } as u128 * ($max as u128) / 100) as $t) }
			pub const fn deconstruct(self) -> $t { self.0 }
			pub const fn one() -> Self { Self($max) }
			pub const fn zero() -> Self { Self(0) }
			pub fn is_zero(&self) -> bool { self.0 == 0 }
			pub fn is_one(&self) -> bool { self.0 == $max }
			pub const fn accuracy() -> $t { $max }
			pub fn from_perthousand(x: $t) -> Self { Self::from_rational(x as u128, 1000u128) }
			pub fn from_float(x: f64) -> Self { Self((x.max(0.0).min(1.0) * ($max as f64)) as $t) }
			pub fn from_rational<N: UniqueSaturatedInto<u128>>(p: N, q: N) -> Self {
				let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
				let q = q.max(1); let p = p.min(q);
				Self(mul_div($max as u128, p, q, Rounding::Down) as $t)
			}
			pub fn from_rational_with_rounding<N: UniqueSaturatedInto<u128>>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
				let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
				if q == 0 || p > q { return Err(()) }
				Ok(Self(mul_div($max as u128, p, q, r) as $t))
			}
			fn mulr<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N, r: Rounding) -> N { N::unique_saturated_from(mul_div(b.unique_saturated_into(), self.0 as u128, $max as u128, r)) }
			pub fn mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N { self.mulr(b, Rounding::Down) }
			pub fn mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N { self.mulr(b, Rounding::Up) }
			pub fn saturating_reciprocal_mul<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N { if self.0 == 0 { return N::unique_saturated_from(u128::MAX) } N::unique_saturated_from(mul_div(b.unique_saturated_into(), $max as u128, self.0 as u128, Rounding::NearestPrefUp)) }
			pub fn saturating_reciprocal_mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N { if self.0 == 0 { return N::unique_saturated_from(u128::MAX) } N::unique_saturated_from(mul_div(b.unique_saturated_into(), $max as u128, self.0 as u128, Rounding::Down)) }
			pub fn saturating_reciprocal_mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N { if self.0 == 0 { return N::unique_saturated_from(u128::MAX) } N::unique_saturated_from(mul_div(b.unique_saturated_into(), $max as u128, self.0 as u128, Rounding::Up)) }
			pub fn square(self) -> Self { Self(mul_div(self.0 as u128, self.0 as u128, $max as u128, Rounding::Down) as $t) }
			pub fn left_from_one(self) -> Self { Self($max - self.0) }
			pub fn int_mul(self, b: $t) -> Self { Self::from_parts(self.0.saturating_mul(b)) }
			pub fn int_div(self, b: $t) -> $t { self.0 / b }
			pub fn saturating_add(self, o: Self) -> Self { Self::from_parts(self.0.saturating_add(o.0)) }
			pub fn saturating_sub(self, o: Self) -> Self { Self::from_parts(self.0.saturating_sub(o.0)) }
		}
		impl PerThing for $n { type Inner = $t; const ACCURACY: $t = $max; }
		impl<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> + Unsigned> Mul<N> for $n { type Output = N; fn mul(self, b: N) -> N { self.mulr(b, Rounding::NearestPrefDown) } }
		impl Add for $n { type Output = Self; fn add(self, o: Self) -> Self { Self::from_parts(self.0 + o.0) } }
		impl Sub for $n { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
		impl CompactAs for $n { type As = $t; fn encode_as(&self) -> &$t { &self.0 } fn decode_from(x: $t) -> Result<Self, CodecError> { Ok(Self::from_parts(x)) } }
		impl From<Compact<$n>> for $n { fn from(x: Compact<$n>) -> $n { x.0 } }
		impl crate::sp_core::TypedGetLike for $n {}
	};
}
/// Restricts `PerThing * N` to integers (and weights separately).
per_thing!(Percent, u8, u16, 100u8, "percent");
per_thing!(PerU16, u16, u32, 65535u16, "peru16");
per_thing!(Permill, u32, u64, 1_000_000u32, "permill");
per_thing!(Perbill, u32, u64, 1_000_000_000u32, "perbill");
per_thing!(Perquintill, u64, u128, 1_000_000_000_000_000_000u64, "perquintill");
pub type PerbillInner = u32;

// generic multiply for types that are not primitive ints is provided through this helper
pub struct FixedDisplay;
macro_rules! fixed {
	($n:ident, $t:ty, $div:expr, $signed:expr) => {
		#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, crate::scale_info::TypeInfo, Hash, serde::Serialize, serde::Deserialize)]
		pub struct $n($t);
		impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, concat!(stringify!($n), "({}/{})"), self.0, $div) } }
		impl $n {
			pub const DIV: $t = $div;
			pub const fn from_inner(x: $t) -> Self { Self(x) }
			pub const fn into_inner(self) -> $t { self.0 }
			pub fn from_u32(n: u32) -> Self { Self((n as $t).saturating_mul($div)) }
			pub fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self { let n: u128 = n.unique_saturated_into(); Self(<$t>::try_from(n).unwrap_or(<$t>::MAX).saturating_mul($div)) }
			pub fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self { let d: u128 = d.unique_saturated_into(); let v = mul_div(n.unique_saturated_into(), $div as u128, d, Rounding::NearestPrefDown); Self(<$t>::try_from(v).unwrap_or(<$t>::MAX)) }
			pub fn from_rational(a: u128, b: u128) -> Self { let v = mul_div(a, $div as u128, b, Rounding::NearestPrefDown); Self(<$t>::try_from(v).unwrap_or(<$t>::MAX)) }
			pub const fn one() -> Self { Self($div) }
			pub fn saturating_mul_int<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, n: N) -> N { N::unique_saturated_from(mul_div(n.unique_saturated_into(), self.0 as u128, $div as u128, Rounding::Down)) }
			pub fn checked_mul_int<N: UniqueSaturatedInto<u128> + TryFrom<u128>>(self, n: N) -> Option<N> { N::try_from(mul_div(n.unique_saturated_into(), self.0 as u128, $div as u128, Rounding::Down)).ok() }
			pub fn is_zero(&self) -> bool { self.0 == 0 }
		}
		impl One for $n { fn one() -> Self { Self($div) } }
		impl Zero for $n { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
		impl Bounded for $n { fn min_value() -> Self { Self(<$t>::MIN) } fn max_value() -> Self { Self(<$t>::MAX) } }
		impl Saturating for $n {
			fn saturating_add(self, r: Self) -> Self { Self(self.0.saturating_add(r.0)) }
			fn saturating_sub(self, r: Self) -> Self { Self(self.0.saturating_sub(r.0)) }
			fn saturating_mul(self, r: Self) -> Self { Self(<$t>::try_from(mul_div(self.0 as u128, r.0 as u128, $div as u128, Rounding::NearestPrefDown)).unwrap_or(<$t>::MAX)) }
			fn saturating_pow(self, e: usize) -> Self { let mut r = Self($div); for _ in 0..e { r = r.saturating_mul(self) } r }
		}
	};
}
fixed!(FixedU128, u128, 1_000_000_000_000_000_000u128, false);
fixed!(FixedU64, u64, 1_000_000_000u64, false);
fixed!(FixedI64, i64, 1_000_000_000i64, true);
pub trait FixedPointNumber: Saturating + Zero + One {
	fn saturating_from_rational_<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self;
}
impl FixedPointNumber for FixedU128 {
	fn saturating_from_rational_<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
		FixedU128::saturating_from_rational(n, d)
	}
}
/// CompactAs newtypes encode as their inner value.
macro_rules! compact_newtype {
	($($n:ty => $i:ty),*) => {$(
		impl Encode for Compact<$n> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { Compact(*self.0.encode_as()).encode_to(d) } }
		impl Decode for Compact<$n> { fn decode<I: Input>(i: &mut I) -> Result<Self, CodecError> { Ok(Compact(<$n>::decode_from(Compact::<$i>::decode(i)?.0)?)) } }
		impl<'a> EncodeAsRef<'a, $n> for Compact<$n> { type RefType = Compact<$n>; }
		impl<'a> From<&'a $n> for Compact<$n> { fn from(x: &'a $n) -> Self { Compact(*x) } }
		impl HasCompact for $n { type Type = Compact<$n>; }
	)*}
}
compact_newtype!(Perbill => u32, Permill => u32, Percent => u8);

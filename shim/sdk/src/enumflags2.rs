//! enumflags2
pub use sdk_macros::bitflags;
use std::ops::*;
pub trait RawFlag: Copy + Clone + 'static + PartialEq {
	type Numeric: Copy + PartialEq + Eq + BitOr<Output = Self::Numeric> + BitAnd<Output = Self::Numeric> + BitXor<Output = Self::Numeric> + Not<Output = Self::Numeric> + Default + std::fmt::Debug + Ord + std::hash::Hash + std::fmt::Binary;
	const EMPTY_BITS: Self::Numeric;
	const ALL_BITS: Self::Numeric;
	const FLAG_LIST: &'static [Self];
	fn bits(self) -> Self::Numeric;
}
pub trait BitFlag: RawFlag {
	fn empty() -> BitFlags<Self> {
		BitFlags::empty()
	}
	fn all() -> BitFlags<Self> {
		BitFlags::all()
	}
	fn from_bits(b: Self::Numeric) -> Result<BitFlags<Self>, FromBitsError> {
		BitFlags::from_bits(b)
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FromBitsError;
impl std::fmt::Display for FromBitsError {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("Invalid bits")
	}
}
pub struct BitFlags<T: RawFlag>(T::Numeric);
impl<T: RawFlag> Clone for BitFlags<T> {
	fn clone(&self) -> Self {
		*self
	}
}
impl<T: RawFlag> Copy for BitFlags<T> {}
impl<T: RawFlag> PartialEq for BitFlags<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: RawFlag> Eq for BitFlags<T> {}
impl<T: RawFlag> Default for BitFlags<T> {
	fn default() -> Self {
		Self::empty()
	}
}
impl<T: RawFlag + std::fmt::Debug> std::fmt::Debug for BitFlags<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "BitFlags({:?})", self.iter().collect::<Vec<_>>())
	}
}
impl<T: RawFlag> BitFlags<T> {
	pub const EMPTY: Self = BitFlags(T::EMPTY_BITS);
	pub const ALL: Self = BitFlags(T::ALL_BITS);
	pub fn empty() -> Self {
		BitFlags(Default::default())
	}
	pub fn all() -> Self {
		BitFlags(T::ALL_BITS)
	}
	pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError> {
		if b & !T::ALL_BITS == T::Numeric::default() {
			Ok(BitFlags(b))
		} else {
			Err(FromBitsError)
		}
	}
	pub fn from_bits_truncate(b: T::Numeric) -> Self {
		BitFlags(b & T::ALL_BITS)
	}
	pub fn bits(self) -> T::Numeric {
		self.0
	}
	pub fn is_empty(self) -> bool {
		self == Self::empty()
	}
	pub fn is_all(self) -> bool {
		self == Self::all()
	}
	pub fn contains<B: Into<BitFlags<T>>>(self, o: B) -> bool {
		let o = o.into();
		self.0 & o.0 == o.0
	}
	pub fn intersects<B: Into<BitFlags<T>>>(self, o: B) -> bool {
		self.0 & o.into().0 != T::Numeric::default()
	}
	pub fn insert<B: Into<BitFlags<T>>>(&mut self, o: B) {
		self.0 = self.0 | o.into().0
	}
	pub fn remove<B: Into<BitFlags<T>>>(&mut self, o: B) {
		self.0 = self.0 & !o.into().0
	}
	pub fn set<B: Into<BitFlags<T>>>(&mut self, o: B, c: bool) {
		if c {
			self.insert(o)
		} else {
			self.remove(o)
		}
	}
	pub fn toggle<B: Into<BitFlags<T>>>(&mut self, o: B) {
		self.0 = self.0 ^ o.into().0
	}
	pub fn iter(self) -> impl Iterator<Item = T> + Clone {
		T::FLAG_LIST.iter().cloned().filter(move |f| self.0 & f.bits() != T::Numeric::default())
	}
	pub fn len(self) -> usize {
		self.iter().count()
	}
}
impl<T: RawFlag> From<T> for BitFlags<T> {
	fn from(t: T) -> Self {
		BitFlags(t.bits())
	}
}
impl<T: RawFlag, B: Into<BitFlags<T>>> BitOr<B> for BitFlags<T> {
	type Output = Self;
	fn bitor(self, o: B) -> Self {
		BitFlags(self.0 | o.into().0)
	}
}
impl<T: RawFlag, B: Into<BitFlags<T>>> BitAnd<B> for BitFlags<T> {
	type Output = Self;
	fn bitand(self, o: B) -> Self {
		BitFlags(self.0 & o.into().0)
	}
}
impl<T: RawFlag, B: Into<BitFlags<T>>> BitOrAssign<B> for BitFlags<T> {
	fn bitor_assign(&mut self, o: B) {
		self.insert(o)
	}
}
impl<T: RawFlag> Not for BitFlags<T> {
	type Output = Self;
	fn not(self) -> Self {
		BitFlags(T::ALL_BITS & !self.0)
	}
}
impl<T: RawFlag> FromIterator<T> for BitFlags<T> {
	fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
		let mut r = Self::empty();
		for x in i {
			r.insert(x)
		}
		r
	}
}
impl<T: RawFlag> Extend<T> for BitFlags<T> {
	fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
		for x in i {
			self.insert(x)
		}
	}
}

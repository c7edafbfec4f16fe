//! SCALE codec (the part of parity-scale-codec the pallets use), byte-for-byte the documented encoding.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt;
use std::marker::PhantomData;
pub use sdk_macros::{CompactAs, Decode, Encode, MaxEncodedLen};
pub mod alloc {
	pub use std::*;
}

#[derive(Clone, PartialEq, Eq)]
pub struct Error {
	desc: std::borrow::Cow<'static, str>,
}
impl Error {
	pub fn chain(self, desc: impl Into<std::borrow::Cow<'static, str>>) -> Self {
		Error { desc: format!("{}: {}", desc.into(), self.desc).into() }
	}
}
impl fmt::Debug for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "Error({})", self.desc)
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str(&self.desc)
	}
}
impl std::error::Error for Error {}
impl From<&'static str> for Error {
	fn from(s: &'static str) -> Self {
		Error { desc: s.into() }
	}
}

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into())
		}
		let len = into.len();
		into.copy_from_slice(&self[..len]);
		*self = &self[len..];
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| "io error".into())
	}
}
pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, b: u8) {
		self.write(&[b])
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, bytes: &[u8]) {
		self.extend_from_slice(bytes)
	}
}

pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.using_encoded(|b| dest.write(b))
	}
	fn encode(&self) -> Vec<u8> {
		let mut v = Vec::new();
		self.encode_to(&mut v);
		v
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
	fn encoded_fixed_size() -> Option<usize> {
		None
	}
}
pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeLimit: Sized {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_all_with_depth_limit(_l: u32, input: &mut &[u8]) -> Result<Self, Error> {
		<T as DecodeAll>::decode_all(input)
	}
	fn decode_with_depth_limit<I: Input>(_l: u32, input: &mut I) -> Result<Self, Error> {
		T::decode(input)
	}
}
pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
pub trait EncodeAppend {
	type Item: Encode;
	fn append_or_new<EncodeLikeItem, I>(self_encoded: Vec<u8>, iter: I) -> Result<Vec<u8>, Error>
	where
		I: IntoIterator<Item = EncodeLikeItem>,
		EncodeLikeItem: EncodeLike<Self::Item>,
		I::IntoIter: ExactSizeIterator;
}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait Codec: Decode + Encode {}
impl<T: Decode + Encode> Codec for T {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait WrapperTypeEncode: std::ops::Deref {}
pub trait WrapperTypeDecode: Sized {
	type Wrapped: Into<Self>;
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8>;
}
impl<T: Encode> KeyedVec for T {
	fn to_keyed_vec(&self, p: &[u8]) -> Vec<u8> {
		let mut r = p.to_vec();
		self.encode_to(&mut r);
		r
	}
}
pub trait Joiner {
	fn and<V: Encode + Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Encode + Sized>(mut self, value: &V) -> Self {
		value.encode_to(&mut self);
		self
	}
}

pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
pub trait ConstEncodedLen: MaxEncodedLen {}
pub trait EncodeAsRef<'a, T: 'a> {
	type RefType: Encode + From<&'a T>;
}
pub trait HasCompact: Sized {
	type Type: for<'a> EncodeAsRef<'a, Self> + Decode + From<Self> + Into<Self>;
}

// ---- integers
macro_rules! ints {
	($($t:ty),*) => {$(
		impl Encode for $t {
			fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
			fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { dest.write(&self.to_le_bytes()) }
		}
		impl Decode for $t {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				let mut b = [0u8; std::mem::size_of::<$t>()];
				input.read(&mut b)?;
				Ok(<$t>::from_le_bytes(b))
			}
			fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
		}
		impl EncodeLike for $t {}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
	)*}
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl Encode for bool {
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		dest.push_byte(*self as u8)
	}
}
impl Decode for bool {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
	fn encoded_fixed_size() -> Option<usize> {
		Some(1)
	}
}
impl EncodeLike for bool {}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}
macro_rules! nonzero {
	($($t:ty => $p:ty),*) => {$(
		impl Encode for $t { fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { self.get().encode_to(dest) } }
		impl Decode for $t { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { <$t>::new(<$p>::decode(input)?).ok_or_else(|| Error::from("cannot create non-zero number from 0")) } }
		impl EncodeLike for $t {}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
	)*}
}
nonzero!(std::num::NonZeroU8 => u8, std::num::NonZeroU16 => u16, std::num::NonZeroU32 => u32, std::num::NonZeroU64 => u64, std::num::NonZeroU128 => u128);

impl Encode for () {
	fn encode_to<T: Output + ?Sized>(&self, _: &mut T) {}
}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<(), Error> {
		Ok(())
	}
	fn encoded_fixed_size() -> Option<usize> {
		Some(0)
	}
}
impl EncodeLike for () {}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<T> Encode for PhantomData<T> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
// ---- references and boxes
impl<'a, T: Encode + ?Sized> Encode for &'a T {
	fn size_hint(&self) -> usize {
		(**self).size_hint()
	}
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		(**self).encode_to(d)
	}
	fn encode(&self) -> Vec<u8> {
		(**self).encode()
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		(**self).using_encoded(f)
	}
}
impl<'a, T: Encode + ?Sized> Encode for &'a mut T {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		(**self).encode_to(d)
	}
}
impl<T: Encode + ?Sized> Encode for Box<T> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		(**self).encode_to(d)
	}
}
impl<T: Decode> Decode for Box<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Box::new(T::decode(i)?))
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}
impl<T: Encode + ?Sized> Encode for std::sync::Arc<T> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		(**self).encode_to(d)
	}
}
impl<T: Decode> Decode for std::sync::Arc<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(std::sync::Arc::new(T::decode(i)?))
	}
}
impl<'a, T: ToOwned + Encode + ?Sized> Encode for std::borrow::Cow<'a, T> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		(**self).encode_to(d)
	}
}
impl<'a, T: ToOwned + ?Sized> Decode for std::borrow::Cow<'a, T>
where
	T::Owned: Decode,
{
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(std::borrow::Cow::Owned(T::Owned::decode(i)?))
	}
}
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<U> for &'a T {}
impl<'a, T: Encode> EncodeLike<T> for &'a mut T {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode> EncodeLike for Box<T> {}
// ---- compact
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
	fn from(x: T) -> Self {
		Compact(x)
	}
}
impl<T: fmt::Debug> fmt::Debug for Compact<T> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}
pub struct CompactRef<'a, T>(pub &'a T);
impl<'a, T> From<&'a T> for CompactRef<'a, T> {
	fn from(x: &'a T) -> Self {
		CompactRef(x)
	}
}
pub trait CompactAs: From<Compact<Self>> {
	type As;
	fn encode_as(&self) -> &Self::As;
	fn decode_from(_: Self::As) -> Result<Self, Error>;
}
fn compact_encode<W: Output + ?Sized>(v: u128, dest: &mut W) {
	if v < 1 << 6 {
		dest.push_byte((v as u8) << 2)
	} else if v < 1 << 14 {
		dest.write(&(((v as u16) << 2) | 1).to_le_bytes())
	} else if v < 1 << 30 {
		dest.write(&(((v as u32) << 2) | 2).to_le_bytes())
	} else {
		let bytes = v.to_le_bytes();
		let n = 16 - (v.leading_zeros() / 8) as usize;
		let n = n.max(4);
		dest.push_byte(3 + (((n - 4) as u8) << 2));
		dest.write(&bytes[..n]);
	}
}
fn compact_decode<I: Input>(input: &mut I, max_bytes: usize) -> Result<u128, Error> {
	let oor = || Error::from("out of range");
	let p = input.read_byte()?;
	let v = match p & 3 {
		0 => (p >> 2) as u128,
		1 => {
			let v = u16::from_le_bytes([p, input.read_byte()?]) >> 2;
			if v <= 0x3f {
				return Err(oor())
			}
			v as u128
		},
		2 => {
			let v = u32::from_le_bytes([p, input.read_byte()?, input.read_byte()?, input.read_byte()?]) >> 2;
			if v <= 0x3fff {
				return Err(oor())
			}
			v as u128
		},
		_ => {
			let n = (p >> 2) as usize + 4;
			if n > max_bytes.max(4) || n > 16 {
				return Err(oor())
			}
			let mut b = [0u8; 16];
			input.read(&mut b[..n])?;
			let v = u128::from_le_bytes(b);
			let min = if n == 4 { 1u128 << 30 } else { 1u128 << ((n - 1) * 8) };
			if v < min {
				return Err(oor())
			}
			v
		},
	};
	if max_bytes < 16 && v >> (max_bytes * 8) != 0 {
		return Err(oor())
	}
	Ok(v)
}
macro_rules! compact_ints {
	($($t:ty),*) => {$(
		impl Encode for Compact<$t> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { compact_encode(self.0 as u128, d) } }
		impl<'a> Encode for CompactRef<'a, $t> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { compact_encode(*self.0 as u128, d) } }
		impl Decode for Compact<$t> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Compact(compact_decode(i, std::mem::size_of::<$t>())? as $t)) } }
		impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
		impl<'a> EncodeAsRef<'a, $t> for Compact<$t> { type RefType = CompactRef<'a, $t>; }
		impl HasCompact for $t { type Type = Compact<$t>; }
		impl EncodeLike for Compact<$t> {}
		impl MaxEncodedLen for Compact<$t> { fn max_encoded_len() -> usize { match std::mem::size_of::<$t>() { 1 => 2, 2 => 4, n => n + 1 } } }
	)*}
}
compact_ints!(u8, u16, u32, u64, u128);
impl Encode for Compact<()> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl Decode for Compact<()> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(Compact(()))
	}
}

// ---- sequences
fn encode_len<W: Output + ?Sized>(n: usize, d: &mut W) {
	compact_encode(n as u128, d)
}
fn decode_len<I: Input>(i: &mut I) -> Result<usize, Error> {
	Ok(compact_decode(i, 4)? as usize)
}
impl<T: Encode> Encode for [T] {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		encode_len(self.len(), d);
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.as_slice().encode_to(d)
	}
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = decode_len(i)?;
		let mut v = Vec::new();
		for _ in 0..n {
			v.push(T::decode(i)?)
		}
		Ok(v)
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &'a [T] {}
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<&'a [U]> for Vec<T> {}
impl<T> DecodeLength for Vec<T> {
	fn len(mut b: &[u8]) -> Result<usize, Error> {
		decode_len(&mut b)
	}
}
impl<T: Encode> EncodeAppend for Vec<T> {
	type Item = T;
	fn append_or_new<E, I>(b: Vec<u8>, iter: I) -> Result<Vec<u8>, Error>
	where
		I: IntoIterator<Item = E>,
		E: EncodeLike<T>,
		I::IntoIter: ExactSizeIterator,
	{
		let it = iter.into_iter();
		let mut rest: &[u8] = &b;
		let n = if b.is_empty() { 0 } else { decode_len(&mut rest)? };
		let mut out = Vec::new();
		encode_len(n + it.len(), &mut out);
		out.extend_from_slice(rest);
		for x in it {
			x.encode_to(&mut out)
		}
		Ok(out)
	}
}
impl<T: Encode> Encode for VecDeque<T> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		encode_len(self.len(), d);
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Decode> Decode for VecDeque<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Vec::<T>::decode(i)?.into())
	}
}
impl<T: Encode> EncodeLike for VecDeque<T> {}
impl Encode for str {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.as_bytes().encode_to(d)
	}
}
impl Encode for String {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.as_bytes().encode_to(d)
	}
}
impl Decode for String {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(i)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl EncodeLike for String {}
impl<'a> EncodeLike<String> for &'a str {}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(i)?)
		}
		v.try_into().map_err(|_| "array".into())
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		N * T::max_encoded_len()
	}
}
impl<T: Encode> Encode for Option<T> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		match self {
			None => d.push_byte(0),
			Some(x) => {
				d.push_byte(1);
				x.encode_to(d)
			},
		}
	}
}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(i)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		1 + T::max_encoded_len()
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		match self {
			Ok(x) => {
				d.push_byte(0);
				x.encode_to(d)
			},
			Err(x) => {
				d.push_byte(1);
				x.encode_to(d)
			},
		}
	}
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(Ok(T::decode(i)?)),
			1 => Ok(Err(E::decode(i)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> {
	fn max_encoded_len() -> usize {
		1 + T::max_encoded_len().max(E::max_encoded_len())
	}
}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		encode_len(self.len(), d);
		for (k, v) in self {
			k.encode_to(d);
			v.encode_to(d)
		}
	}
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Vec::<(K, V)>::decode(i)?.into_iter().collect())
	}
}
impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Encode> Encode for BTreeSet<K> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		encode_len(self.len(), d);
		for k in self {
			k.encode_to(d);
		}
	}
}
impl<K: Decode + Ord> Decode for BTreeSet<K> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Vec::<K>::decode(i)?.into_iter().collect())
	}
}
impl<K: Encode> EncodeLike for BTreeSet<K> {}

macro_rules! tuples {
	($(($($n:ident : $u:ident),+))*) => {$(
		impl<$($n: Encode),+> Encode for ($($n,)+) {
			#[allow(non_snake_case)]
			fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { let ($($n,)+) = self; $($n.encode_to(d);)+ }
		}
		impl<$($n: Decode),+> Decode for ($($n,)+) {
			fn decode<I_: Input>(i: &mut I_) -> Result<Self, Error> { Ok(($($n::decode(i)?,)+)) }
		}
		impl<$($n: EncodeLike<$u>, $u: Encode),+> EncodeLike<($($u,)+)> for ($($n,)+) {}
		impl<$($n: MaxEncodedLen),+> MaxEncodedLen for ($($n,)+) { fn max_encoded_len() -> usize { 0 $(+ $n::max_encoded_len())+ } }
	)*}
}
tuples! { (A:A1) (A:A1,B:B1) (A:A1,B:B1,C:C1) (A:A1,B:B1,C:C1,D:D1) (A:A1,B:B1,C:C1,D:D1,E:E1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1,G:G1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1,G:G1,H:H1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1,G:G1,H:H1,I:I1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1,G:G1,H:H1,I:I1,J:J1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1,G:G1,H:H1,I:I1,J:J1,K:K1) (A:A1,B:B1,C:C1,D:D1,E:E1,F:F1,G:G1,H:H1,I:I1,J:J1,K:K1,L:L1) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct OptionBool(pub Option<bool>);

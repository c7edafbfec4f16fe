//! Primitive types. Signatures are a toy scheme: a public key is a hash of the seed, a signature is a hash of public key,
//! message and salt, followed by the salt. It is deterministic to verify, and distinct salts give distinct valid signatures.
pub use crate::codec::{self, Decode, Encode, MaxEncodedLen};
use crate::codec::{EncodeLike, Error, Input, Output};
pub use crate::frame_support::traits::{ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};
pub use crate::frame_support::{parameter_types, BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
pub use crate::hashing;
pub use crate::hashing::{blake2_128, blake2_256, keccak_256, twox_128, twox_256, twox_64};
pub use crate::scale_info;
pub use sdk_macros::RuntimeDebug;
pub use serde;
pub use std::vec::Vec as StdVec;
pub trait TypedGetLike {}
pub mod bounded {
	pub use crate::frame_support::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
	pub mod alloc {
		pub use std::*;
	}
}
pub mod storage {
	use std::collections::BTreeMap;
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct StorageChild {
		pub data: BTreeMap<Vec<u8>, Vec<u8>>,
	}
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct Storage {
		pub top: BTreeMap<Vec<u8>, Vec<u8>>,
		pub children_default: BTreeMap<Vec<u8>, StorageChild>,
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct ChildInfo(pub Vec<u8>);
	impl ChildInfo {
		pub fn new_default(k: &[u8]) -> Self {
			ChildInfo(k.to_vec())
		}
		pub fn new_default_from_vec(k: Vec<u8>) -> Self {
			ChildInfo(k)
		}
		pub fn storage_key(&self) -> &[u8] {
			&self.0
		}
		pub fn into_prefixed_storage_key(self) -> Vec<u8> {
			[b":child_storage:default:", &self.0[..]].concat()
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct StorageKey(pub Vec<u8>);
}
pub mod hexdisplay {
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from(x: &'a (impl AsBytesRef + ?Sized)) -> Self {
			HexDisplay(x.as_bytes_ref())
		}
	}
	pub trait AsBytesRef {
		fn as_bytes_ref(&self) -> &[u8];
	}
	impl AsBytesRef for [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for Vec<u8> {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<'a> AsBytesRef for &'a [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<const N: usize> AsBytesRef for [u8; N] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for str {
		fn as_bytes_ref(&self) -> &[u8] {
			self.as_bytes()
		}
	}
	impl<'a> std::fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			for b in self.0 {
				write!(f, "{b:02x}")?
			}
			Ok(())
		}
	}
	impl<'a> std::fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{self}")
		}
	}
}
macro_rules! bytes_type {
	($n:ident, $len:expr) => {
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
		pub struct $n(pub [u8; $len]);
		impl Default for $n {
			fn default() -> Self {
				$n([0; $len])
			}
		}
		impl Encode for $n {
			fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
				d.write(&self.0)
			}
		}
		impl Decode for $n {
			fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
				Ok($n(<[u8; $len]>::decode(i)?))
			}
		}
		impl EncodeLike for $n {}
		impl MaxEncodedLen for $n {
			fn max_encoded_len() -> usize {
				$len
			}
		}
		impl crate::scale_info::TypeInfo for $n {
			type Identity = Self;
			fn type_info() -> crate::scale_info::Type {
				crate::scale_info::Type::named(stringify!($n))
			}
		}
		impl AsRef<[u8]> for $n {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $n {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl std::fmt::Debug for $n {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				write!(f, "0x{}", hexdisplay::HexDisplay::from(&self.0))
			}
		}
		impl From<[u8; $len]> for $n {
			fn from(x: [u8; $len]) -> Self {
				$n(x)
			}
		}
		impl From<$n> for [u8; $len] {
			fn from(x: $n) -> Self {
				x.0
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $n {
			type Error = ();
			fn try_from(x: &'a [u8]) -> Result<Self, ()> {
				Ok($n(x.try_into().map_err(|_| ())?))
			}
		}
		impl TryFrom<Vec<u8>> for $n {
			type Error = Vec<u8>;
			fn try_from(x: Vec<u8>) -> Result<Self, Vec<u8>> {
				Ok($n(<[u8; $len]>::try_from(x)?))
			}
		}
		impl serde::Serialize for $n {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&format!("{self:?}"))
			}
		}
		impl<'de> serde::Deserialize<'de> for $n {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = <String as serde::Deserialize>::deserialize(d)?;
				let v = crate::misc::hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
				Ok($n(v.try_into().map_err(|_| serde::de::Error::custom("length"))?))
			}
		}
		impl std::str::FromStr for $n {
			type Err = &'static str;
			fn from_str(s: &str) -> Result<Self, Self::Err> {
				let v = crate::misc::hex::decode(s.trim_start_matches("0x")).map_err(|_| "hex")?;
				Ok($n(v.try_into().map_err(|_| "length")?))
			}
		}
		impl crypto::ByteArray for $n {
			const LEN: usize = $len;
		}
	};
}
pub(crate) use bytes_type;
bytes_type!(H256, 32);
bytes_type!(H160, 20);
bytes_type!(H512, 64);
macro_rules! h_impl {
	($n:ident, $l:expr) => {
		impl $n {
			pub const fn zero() -> Self {
				$n([0; $l])
			}
			pub fn random() -> Self {
				use std::sync::atomic::*;
				static C: AtomicU64 = AtomicU64::new(1);
				let h = crate::hashing::blake2b($l.min(64), &C.fetch_add(1, Ordering::Relaxed).to_le_bytes());
				$n(h.try_into().unwrap())
			}
			pub fn repeat_byte(b: u8) -> Self {
				$n([b; $l])
			}
			pub fn from_slice(s: &[u8]) -> Self {
				$n(s.try_into().unwrap())
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_fixed_bytes(&self) -> &[u8; $l] {
				&self.0
			}
			pub fn is_zero(&self) -> bool {
				self.0 == [0; $l]
			}
			pub fn from_low_u64_be(v: u64) -> Self {
				let mut x = [0; $l];
				x[$l - 8..].copy_from_slice(&v.to_be_bytes());
				$n(x)
			}
		}
		impl std::fmt::Display for $n {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				write!(f, "0x{}…", hexdisplay::HexDisplay::from(&self.0[..2]))
			}
		}
	};
}
h_impl!(H256, 32);
h_impl!(H160, 20);
h_impl!(H512, 64);

pub use crypto::{ByteArray, Pair};
pub mod crypto {
	use super::*;
	pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
		const LEN: usize;
		fn from_slice(d: &[u8]) -> Result<Self, ()> {
			Self::try_from(d)
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_slice().to_vec()
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
	}
	bytes_type!(AccountId32, 32);
	impl AccountId32 {
		pub const fn new(x: [u8; 32]) -> Self {
			AccountId32(x)
		}
	}
	impl std::fmt::Display for AccountId32 {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "0x{}", hexdisplay::HexDisplay::from(&self.0))
		}
	}
	impl AsRef<[u8; 32]> for AccountId32 {
		fn as_ref(&self) -> &[u8; 32] {
			&self.0
		}
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub enum SecretStringError {
		Invalid,
	}
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	pub trait UncheckedInto<T> {
		fn unchecked_into(self) -> T;
	}
	impl<S, T: UncheckedFrom<S>> UncheckedInto<T> for S {
		fn unchecked_into(self) -> T {
			T::unchecked_from(self)
		}
	}
	impl UncheckedFrom<H256> for AccountId32 {
		fn unchecked_from(h: H256) -> Self {
			AccountId32(h.0)
		}
	}
	pub trait Pair: Sized + Clone + 'static {
		type Public: AsRef<[u8]> + Clone;
		type Seed;
		type Signature: AsRef<[u8]>;
		fn from_seed_bytes(s: [u8; 32]) -> Self;
		fn public(&self) -> Self::Public;
		fn sign(&self, m: &[u8]) -> Self::Signature;
		fn verify<M: AsRef<[u8]>>(s: &Self::Signature, m: M, p: &Self::Public) -> bool;
		fn generate() -> (Self, [u8; 32]) {
			use std::sync::atomic::*;
			static C: AtomicU64 = AtomicU64::new(1);
			let mut s = [0u8; 32];
			s[..8].copy_from_slice(&C.fetch_add(1, Ordering::Relaxed).to_le_bytes());
			s[31] = 0xa5;
			(Self::from_seed_bytes(s), s)
		}
		fn from_seed(s: &[u8; 32]) -> Self {
			Self::from_seed_bytes(*s)
		}
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> {
			Ok(Self::from_seed_bytes(s.try_into().map_err(|_| SecretStringError::Invalid)?))
		}
		fn from_string(s: &str, _pw: Option<&str>) -> Result<Self, SecretStringError> {
			Ok(Self::from_seed_bytes(crate::hashing::blake2_256(s.as_bytes())))
		}
		fn to_raw_vec(&self) -> Vec<u8>;
	}
	#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, Default)]
	pub struct KeyTypeId(pub [u8; 4]);
	pub mod key_types {
		pub const DUMMY: super::KeyTypeId = super::KeyTypeId(*b"dumy");
	}
	pub trait Wraps {}
}
fn toy_hash(kind: u8, public: &[u8], msg: &[u8], salt: &[u8; 32]) -> [u8; 32] {
	let mut b = Vec::with_capacity(msg.len() + 80);
	b.push(kind);
	b.extend_from_slice(public);
	b.extend_from_slice(salt);
	b.extend_from_slice(msg);
	crate::hashing::blake2_256(&b)
}
macro_rules! scheme {
	($m:ident, $kind:expr, $publen:expr, $siglen:expr) => {
		pub mod $m {
			use super::*;
			bytes_type!(Public, $publen);
			bytes_type!(Signature, $siglen);
			#[derive(Clone, Debug, PartialEq, Eq)]
			pub struct Pair {
				pub seed: [u8; 32],
				public: Public,
			}
			impl Public {
				pub const fn from_raw(x: [u8; $publen]) -> Self {
					Public(x)
				}
				pub fn to_raw_vec(&self) -> Vec<u8> {
					self.0.to_vec()
				}
			}
			impl Signature {
				pub const fn from_raw(x: [u8; $siglen]) -> Self {
					Signature(x)
				}
			}
			impl std::fmt::Display for Public {
				fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
					write!(f, "{self:?}")
				}
			}
			pub type Seed = [u8; 32];
			impl Pair {
				/// A valid signature with a chosen salt.
				pub fn sign_salted(&self, m: &[u8], salt: u64) -> Signature {
					let mut s = [0u8; 32];
					s[..8].copy_from_slice(&salt.to_le_bytes());
					let mut o = [0u8; $siglen];
					o[..32].copy_from_slice(&toy_hash($kind, &self.public.0, m, &s));
					o[32..64].copy_from_slice(&s);
					Signature(o)
				}
			}
			impl crypto::Pair for Pair {
				type Public = Public;
				type Seed = [u8; 32];
				type Signature = Signature;
				fn from_seed_bytes(seed: [u8; 32]) -> Self {
					let h = crate::hashing::blake2_256(&[&[$kind][..], b"toy key", &seed].concat());
					let mut p = [0u8; $publen];
					p[$publen - 32..].copy_from_slice(&h);
					if $publen > 32 {
						p[0] = 2
					}
					Pair { seed, public: Public(p) }
				}
				fn public(&self) -> Public {
					self.public
				}
				fn sign(&self, m: &[u8]) -> Signature {
					use std::sync::atomic::*;
					static C: AtomicU64 = AtomicU64::new(1 << 32);
					self.sign_salted(m, C.fetch_add(1, Ordering::Relaxed))
				}
				fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool {
					let salt: [u8; 32] = s.0[32..64].try_into().unwrap();
					s.0[..32] == toy_hash($kind, &p.0, m.as_ref(), &salt)
				}
				fn to_raw_vec(&self) -> Vec<u8> {
					self.seed.to_vec()
				}
			}
			pub type AppPublic = Public;
		}
	};
}
scheme!(ed25519, 1u8, 32, 64);
scheme!(sr25519, 2u8, 32, 64);
scheme!(ecdsa, 3u8, 33, 65);
pub mod offchain {
	pub use crate::offchain::testing;
	pub use crate::offchain::{Duration, OffchainDbExt, OffchainStorage, OffchainWorkerExt, Timestamp};
	pub use crate::offchain::STORAGE_PREFIX;
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default, Encode, Decode)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes {
	fn from(v: Vec<u8>) -> Self {
		Bytes(v)
	}
}
impl std::ops::Deref for Bytes {
	type Target = [u8];
	fn deref(&self) -> &[u8] {
		&self.0
	}
}
impl serde::Serialize for Bytes {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		crate::misc::impl_serde::serialize::serialize(&self.0, s)
	}
}
impl<'de> serde::Deserialize<'de> for Bytes {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		crate::misc::impl_serde::serialize::deserialize(d).map(Bytes)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum Void {}
pub struct OpaqueMetadata(pub Vec<u8>);

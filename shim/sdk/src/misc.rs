//! Everything else: small crates, each a module of the crate's name.
pub use crate::io as sp_io;
pub use crate::frame_support::weights as sp_weights_inner;
pub mod sp_std {
	pub use std::{alloc, any, borrow, boxed, cell, clone, cmp, collections, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, str, string, sync, time, vec};
	pub mod prelude {
		pub use std::borrow::ToOwned;
		pub use std::boxed::Box;
		pub use std::clone::Clone;
		pub use std::cmp::{Eq, PartialEq, Reverse};
		pub use std::iter::IntoIterator;
		pub use std::vec;
		pub use std::vec::Vec;
	}
	pub struct Writer(Vec<u8>);
}
pub mod sp_weights {
	pub use crate::frame_support::weights::*;
}
pub mod hex {
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct FromHexError;
	impl std::fmt::Display for FromHexError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			f.write_str("bad hex")
		}
	}
	impl std::error::Error for FromHexError {}
	pub fn encode<T: AsRef<[u8]>>(t: T) -> String {
		t.as_ref().iter().map(|b| format!("{b:02x}")).collect()
	}
	pub fn decode<T: AsRef<[u8]>>(t: T) -> Result<Vec<u8>, FromHexError> {
		let b = t.as_ref();
		if b.len() % 2 != 0 {
			return Err(FromHexError)
		}
		let n = |c: u8| (c as char).to_digit(16).map(|d| d as u8).ok_or(FromHexError);
		b.chunks(2).map(|c| Ok(n(c[0])? << 4 | n(c[1])?)).collect()
	}
}
pub mod hex_literal {
	pub const fn nib(c: u8) -> u8 {
		match c {
			b'0'..=b'9' => c - b'0',
			b'a'..=b'f' => c - b'a' + 10,
			b'A'..=b'F' => c - b'A' + 10,
			_ => panic!("hex"),
		}
	}
	pub const fn to_bytes<const N: usize>(s: &str) -> [u8; N] {
		let b = s.as_bytes();
		let mut o = [0u8; N];
		let mut i = 0;
		while i < N {
			o[i] = nib(b[2 * i]) << 4 | nib(b[2 * i + 1]);
			i += 1;
		}
		o
	}
	pub use crate::hex_lit as hex;
}
#[macro_export]
macro_rules! hex_lit {
	($s:literal) => {
		$crate::misc::hex_literal::to_bytes::<{ $s.len() / 2 }>($s)
	};
}
pub mod numtoa {
	pub trait NumToA<T> {
		fn numtoa(self, base: T, buf: &mut [u8]) -> &[u8];
		fn numtoa_str(self, base: T, buf: &mut [u8]) -> &str;
	}
	macro_rules! n { ($($t:ty),*) => {$(
		impl NumToA<$t> for $t {
			fn numtoa(self, base: $t, buf: &mut [u8]) -> &[u8] {
				let mut i = buf.len();
				let mut n = self;
				loop {
					i -= 1;
					buf[i] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(n % base) as usize];
					n /= base;
					if n == 0 { break }
				}
				&buf[i..]
			}
			fn numtoa_str(self, base: $t, buf: &mut [u8]) -> &str { std::str::from_utf8(self.numtoa(base, buf)).unwrap() }
		}
	)*} }
	n!(u8, u16, u32, u64, usize, u128);
}
pub mod impl_serde {
	pub mod serialize {
		use serde::de::Error as _;
		#[derive(Debug, PartialEq, Eq)]
		pub enum FromHexError {
			MissingPrefix,
			InvalidHex { character: char, index: usize },
		}
		impl std::fmt::Display for FromHexError {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				match self {
					Self::MissingPrefix => write!(f, "0x prefix is missing"),
					Self::InvalidHex { character, index } => write!(f, "invalid hex character: {}, at {}", character, index),
				}
			}
		}
		impl std::error::Error for FromHexError {}
		pub fn to_hex(b: &[u8], _skip: bool) -> String {
			format!("0x{}", super::super::hex::encode(b))
		}
		pub fn from_hex(v: &str) -> Result<Vec<u8>, FromHexError> {
			let (v, off) = match v.strip_prefix("0x") {
				Some(v) => (v, 2),
				None => (v, 0),
			};
			let mut n = vec![];
			for (i, c) in v.char_indices() {
				n.push(c.to_digit(16).ok_or(FromHexError::InvalidHex { character: c, index: i + off })? as u8);
			}
			if n.len() % 2 == 1 {
				n.insert(0, 0)
			}
			Ok(n.chunks(2).map(|c| c[0] << 4 | c[1]).collect())
		}
		pub fn from_hex_strict(v: &str) -> Result<Vec<u8>, FromHexError> {
			if !v.starts_with("0x") {
				return Err(FromHexError::MissingPrefix)
			}
			from_hex(v)
		}
		pub fn serialize<S: serde::Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
			s.serialize_str(&to_hex(b, false))
		}
		pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
			let s = <String as serde::Deserialize>::deserialize(d)?;
			from_hex_strict(&s).map_err(D::Error::custom)
		}
	}
}
pub mod multibase {
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Base {
		Base16Lower,
		Base16Upper,
		Base32Lower,
		Base32Upper,
		Base36Lower,
		Base58Btc,
		Base64,
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum Error {
		UnknownBase(char),
		InvalidBaseString,
	}
	pub type Result<T> = std::result::Result<T, Error>;
	const B32: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
	const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	const B36: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyz";
	const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	fn bits_enc(b: &[u8], alpha: &[u8], k: u32) -> String {
		let (mut acc, mut n, mut o) = (0u32, 0, String::new());
		for x in b {
			acc = (acc << 8 | *x as u32) & 0xffff;
			n += 8;
			while n >= k {
				n -= k;
				o.push(alpha[(acc >> n & ((1 << k) - 1)) as usize] as char);
			}
		}
		if n > 0 {
			o.push(alpha[(acc << (k - n) & ((1 << k) - 1)) as usize] as char);
		}
		o
	}
	fn bits_dec(s: &str, alpha: &[u8], k: u32, lower: bool) -> Result<Vec<u8>> {
		let (mut acc, mut n, mut o) = (0u32, 0, vec![]);
		for c in s.bytes() {
			let c = if lower { c.to_ascii_lowercase() } else { c };
			let v = alpha.iter().position(|a| *a == c).ok_or(Error::InvalidBaseString)? as u32;
			acc = (acc << k | v) & 0xffff;
			n += k;
			if n >= 8 {
				n -= 8;
				o.push((acc >> n) as u8);
			}
		}
		// data-encoding refuses trailing characters that carry nothing, and non-zero trailing bits
		if n >= k || acc & ((1 << n) - 1) != 0 {
			return Err(Error::InvalidBaseString)
		}
		Ok(o)
	}
	fn big_dec(s: &str, alpha: &[u8]) -> Result<Vec<u8>> {
		let mut o: Vec<u8> = vec![];
		for c in s.bytes() {
			let mut carry = alpha.iter().position(|a| *a == c).ok_or(Error::InvalidBaseString)? as u32;
			for x in o.iter_mut() {
				carry += *x as u32 * alpha.len() as u32;
				*x = carry as u8;
				carry >>= 8;
			}
			while carry > 0 {
				o.push(carry as u8);
				carry >>= 8;
			}
		}
		for _ in s.bytes().take_while(|c| *c == alpha[0]) {
			o.push(0)
		}
		o.reverse();
		Ok(o)
	}
	fn big_enc(b: &[u8], alpha: &[u8]) -> String {
		let mut d: Vec<u8> = vec![];
		for x in b {
			let mut carry = *x as u32;
			for y in d.iter_mut() {
				carry += (*y as u32) << 8;
				*y = (carry % alpha.len() as u32) as u8;
				carry /= alpha.len() as u32;
			}
			while carry > 0 {
				d.push((carry % alpha.len() as u32) as u8);
				carry /= alpha.len() as u32;
			}
		}
		let z = b.iter().take_while(|x| **x == 0).count();
		std::iter::repeat(alpha[0]).take(z).chain(d.iter().rev().map(|x| alpha[*x as usize])).map(|c| c as char).collect()
	}
	pub fn encode<T: AsRef<[u8]>>(base: Base, t: T) -> String {
		let b = t.as_ref();
		match base {
			Base::Base16Lower => format!("f{}", super::hex::encode(b)),
			Base::Base16Upper => format!("F{}", super::hex::encode(b).to_uppercase()),
			Base::Base32Lower => format!("b{}", bits_enc(b, B32, 5)),
			Base::Base32Upper => format!("B{}", bits_enc(b, B32, 5).to_uppercase()),
			Base::Base36Lower => format!("k{}", big_enc(b, B36)),
			Base::Base58Btc => format!("z{}", big_enc(b, B58)),
			Base::Base64 => format!("m{}", bits_enc(b, B64, 6)),
		}
	}
	pub fn decode<T: AsRef<str>>(t: T) -> Result<(Base, Vec<u8>)> {
		let s = t.as_ref();
		let c = s.chars().next().ok_or(Error::InvalidBaseString)?;
		let r = &s[c.len_utf8()..];
		Ok(match c {
			'f' | 'F' => (Base::Base16Lower, super::hex::decode(r).map_err(|_| Error::InvalidBaseString)?),
			'b' => (Base::Base32Lower, bits_dec(r, B32, 5, true)?),
			'B' => (Base::Base32Upper, bits_dec(r, B32, 5, true)?),
			'k' => (Base::Base36Lower, big_dec(r, B36)?),
			'z' => (Base::Base58Btc, big_dec(r, B58)?),
			'm' => (Base::Base64, bits_dec(r, B64, 6, false)?),
			c => return Err(Error::UnknownBase(c)),
		})
	}
}
pub mod cid {
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum Error {
		InvalidCidVersion,
		ParsingError,
		VarIntDecodeError,
		InvalidExplicitCidV0,
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct Cid {
		version: Version,
		codec: u64,
		hash: Vec<u8>,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
	pub enum Version {
		V0 = 0,
		V1 = 1,
	}
	fn take<R: std::io::Read>(r: &mut R, n: usize, e: Error) -> Result<Vec<u8>, Error> {
		let mut b = vec![0; n];
		r.read_exact(&mut b).map_err(|_| e)?;
		Ok(b)
	}
	fn varint<R: std::io::Read>(r: &mut R) -> Result<u64, Error> {
		let mut v = 0u64;
		for i in 0..9 {
			let b = take(r, 1, Error::VarIntDecodeError)?[0];
			v |= ((b & 0x7f) as u64) << (7 * i);
			if b & 0x80 == 0 {
				if b == 0 && i > 0 {
					return Err(Error::VarIntDecodeError)
				}
				return Ok(v)
			}
		}
		Err(Error::VarIntDecodeError)
	}
	impl Cid {
		pub fn version(&self) -> Version {
			self.version
		}
		pub fn codec(&self) -> u64 {
			self.codec
		}
		/// Reads a CID from the front of `r`, like `cid::CidGeneric::<64>::read_bytes`.
		pub fn read_bytes<R: std::io::Read>(mut r: R) -> Result<Self, Error> {
			let r = &mut r;
			let version = varint(r)?;
			let codec = varint(r)?;
			if [version, codec] == [0x12, 0x20] {
				return Ok(Cid { version: Version::V0, codec: 0x70, hash: take(r, 32, Error::ParsingError)? })
			}
			match version {
				0 => Err(Error::InvalidExplicitCidV0),
				1 => {
					let _code = varint(r)?;
					let len = varint(r)?;
					if len > 64 {
						return Err(Error::ParsingError)
					}
					Ok(Cid { version: Version::V1, codec, hash: take(r, len as usize, Error::ParsingError)? })
				},
				_ => Err(Error::InvalidCidVersion),
			}
		}
	}
}
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(d: &'a [u8]) -> Self {
		Self(d)
	}
	pub fn zeroes() -> Self {
		Self(&[])
	}
}
impl<'a> crate::codec::Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, crate::codec::Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), crate::codec::Error> {
		let n = into.len().min(self.0.len());
		into[..n].copy_from_slice(&self.0[..n]);
		for b in &mut into[n..] {
			*b = 0
		}
		self.0 = &self.0[n..];
		Ok(())
	}
}
pub mod sp_keystore {
	pub trait Keystore {}
	pub type KeystorePtr = std::sync::Arc<dyn Keystore>;
	pub struct KeystoreExt(pub KeystorePtr);
	impl KeystoreExt {
		pub fn new<T: Keystore + 'static>(k: T) -> Self {
			KeystoreExt(std::sync::Arc::new(k))
		}
	}
	pub mod testing {
		#[derive(Default)]
		pub struct MemoryKeystore;
		impl MemoryKeystore {
			pub fn new() -> Self {
				Self
			}
		}
		impl super::Keystore for MemoryKeystore {}
	}
}
pub mod sp_keyring {
	pub mod sr25519 {
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum Keyring {
			Alice,
			Bob,
			Charlie,
			Dave,
			Eve,
		}
		impl Keyring {
			pub fn pair(self) -> crate::sp_core::sr25519::Pair {
				<crate::sp_core::sr25519::Pair as crate::sp_core::Pair>::from_string(&format!("//{self:?}"), None).unwrap()
			}
			pub fn public(self) -> crate::sp_core::sr25519::Public {
				crate::sp_core::Pair::public(&self.pair())
			}
			pub fn to_account_id(self) -> crate::sp_runtime::AccountId32 {
				self.public().into()
			}
			pub fn sign(self, m: &[u8]) -> crate::sp_core::sr25519::Signature {
				crate::sp_core::Pair::sign(&self.pair(), m)
			}
		}
	}
	pub use sr25519::Keyring as AccountKeyring;
	pub use sr25519::Keyring as Sr25519Keyring;
}
pub mod sp_blockchain {
	use crate::sp_runtime::traits::{Block, NumberFor};
	#[derive(Debug, Clone, PartialEq)]
	pub enum Error {
		Backend(String),
		UnknownBlock(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	pub type Result<T> = std::result::Result<T, Error>;
	#[derive(Debug, Clone, PartialEq)]
	pub enum BlockStatus {
		InChain,
		Unknown,
	}
	#[derive(Debug, Clone)]
	pub struct Info<B: Block> {
		pub best_hash: B::Hash,
		pub best_number: NumberFor<B>,
		pub genesis_hash: B::Hash,
		pub finalized_hash: B::Hash,
		pub finalized_number: NumberFor<B>,
		pub finalized_state: Option<(B::Hash, NumberFor<B>)>,
		pub number_leaves: usize,
		pub block_gap: Option<(NumberFor<B>, NumberFor<B>)>,
	}
	pub trait HeaderBackend<B: Block>: Send + Sync {
		fn header(&self, h: B::Hash) -> Result<Option<B::Header>>;
		fn info(&self) -> Info<B>;
		fn status(&self, h: B::Hash) -> Result<BlockStatus>;
		fn number(&self, h: B::Hash) -> Result<Option<NumberFor<B>>>;
		fn hash(&self, n: NumberFor<B>) -> Result<Option<B::Hash>>;
	}
}
pub mod sc_client_api {
	pub mod blockchain {
		pub use crate::misc::sp_blockchain::{BlockStatus, HeaderBackend, Info};
	}
	pub use crate::misc::sp_blockchain::HeaderBackend;
}
pub mod sp_rpc {
	pub mod number {
		#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		#[serde(untagged)]
		pub enum NumberOrHex {
			Number(u64),
			Hex(u128),
		}
		impl Default for NumberOrHex {
			fn default() -> Self {
				NumberOrHex::Number(0)
			}
		}
		impl From<u128> for NumberOrHex {
			fn from(n: u128) -> Self {
				NumberOrHex::Hex(n)
			}
		}
		impl From<u64> for NumberOrHex {
			fn from(n: u64) -> Self {
				NumberOrHex::Number(n)
			}
		}
	}
}
pub mod sp_offchain {
	pub const STORAGE_PREFIX: &[u8] = b"storage";
}
pub mod sp_version {
	pub use sdk_macros::passthrough as runtime_version;
	pub type ApisVec = ();
	pub struct NativeVersion;
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct RuntimeVersion {
		pub apis: ApisVec,
		pub spec_name: &'static str,
		pub impl_name: &'static str,
		pub authoring_version: u32,
		pub spec_version: u32,
		pub impl_version: u32,
		pub transaction_version: u32,
		pub state_version: u8,
	}
}
pub mod sp_session {}
pub mod sp_inherents {}
pub mod serial_test {
	pub use sdk_macros::serial;
}
pub mod env_logger {
	pub fn init() {}
}
pub mod pretty_assertions {
	pub use std::{assert_eq, assert_eq as assert_str_eq, assert_ne};
}
pub mod rayon {
	pub mod prelude {
		pub trait IntoParallelIterator: Sized {
			type It;
			fn into_par_iter(self) -> Self::It;
		}
		impl<T: IntoIterator> IntoParallelIterator for T {
			type It = T::IntoIter;
			fn into_par_iter(self) -> Self::It {
				self.into_iter()
			}
		}
		pub trait IntoParallelRefIterator<'a> {
			type It;
			fn par_iter(&'a self) -> Self::It;
		}
		impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> {
			type It = std::slice::Iter<'a, T>;
			fn par_iter(&'a self) -> Self::It {
				self.iter()
			}
		}
	}
}
pub mod tokio {
	pub use sdk_macros::tokio_test as test;
	pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
		use std::task::{Context, Poll, Wake, Waker};
		struct W;
		impl Wake for W {
			fn wake(self: std::sync::Arc<Self>) {}
		}
		let w = Waker::from(std::sync::Arc::new(W));
		let mut c = Context::from_waker(&w);
		let mut f = Box::pin(f);
		loop {
			if let Poll::Ready(r) = f.as_mut().poll(&mut c) {
				return r
			}
		}
	}
}
pub mod sc_transaction_pool_api {
	use std::sync::Arc;
	pub trait InPoolTransaction {
		fn provides(&self) -> &[Vec<u8>];
		fn requires(&self) -> &[Vec<u8>] {
			&[]
		}
	}
	pub trait ReadyTransactions: Iterator {}
	impl<T> ReadyTransactions for std::vec::IntoIter<T> {}
	#[derive(Debug, Clone, Default, PartialEq, Eq)]
	pub struct PoolStatus {
		pub ready: usize,
		pub future: usize,
	}
	pub trait TransactionPool: Send + Sync {
		type Block: crate::sp_runtime::traits::Block;
		type InPoolTransaction: InPoolTransaction;
		fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Self::InPoolTransaction>> + Send>;
		fn futures(&self) -> Vec<Self::InPoolTransaction>;
		fn status(&self) -> PoolStatus {
			PoolStatus { ready: self.ready().count(), future: self.futures().len() }
		}
	}
}
pub mod substrate_frame_rpc_system {
	use crate::sp_runtime::traits::Block as BlockT;
	pub trait AccountNonceApi<Block: BlockT, AccountId, Nonce> {
		fn account_nonce(&self, at: Block::Hash, account: AccountId) -> Result<Nonce, crate::sp_api::ApiError>;
	}
}
pub mod jsonrpsee {
	//! The types of jsonrpsee that handlers use.
	pub mod core {
		pub use super::types::error::CallError;
		pub use sdk_macros::passthrough as async_trait;
		#[derive(Debug)]
		pub enum Error {
			Call(CallError),
			Custom(String),
		}
		impl std::fmt::Display for Error {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				match self {
					Error::Call(c) => write!(f, "{}", c),
					Error::Custom(c) => write!(f, "Custom error: {}", c),
				}
			}
		}
		impl std::error::Error for Error {}
		impl From<CallError> for Error {
			fn from(c: CallError) -> Self {
				Error::Call(c)
			}
		}
		pub type RpcResult<T> = Result<T, Error>;
	}
	pub mod proc_macros {
		pub use sdk_macros::rpc;
	}
	pub mod tracing {
		pub use log::{debug, error, info, trace, warn};
	}
	pub mod types {
		pub use error::ErrorObject;
		pub type ErrorObjectOwned = ErrorObject<'static>;
		pub mod error {
			#[derive(Debug, Clone, PartialEq, Eq)]
			pub struct ErrorObject<'a> {
				code: i32,
				message: String,
				data: Option<String>,
				lifetime: std::marker::PhantomData<&'a ()>,
			}
			impl<'a> ErrorObject<'a> {
				pub fn owned<S: serde::Serialize>(code: i32, message: impl Into<String>, data: Option<S>) -> ErrorObject<'static> {
					let data = data.and_then(|d| serde_json::to_string(&d).ok());
					ErrorObject { code, message: message.into(), data, lifetime: Default::default() }
				}
				pub fn code(&self) -> i32 {
					self.code
				}
				pub fn message(&self) -> &str {
					&self.message
				}
				pub fn data(&self) -> Option<&str> {
					self.data.as_deref()
				}
			}
			#[derive(Debug)]
			pub enum CallError {
				InvalidParams(Box<dyn std::error::Error + Send + Sync>),
				Failed(Box<dyn std::error::Error + Send + Sync>),
				Custom(ErrorObject<'static>),
			}
			impl std::fmt::Display for CallError {
				fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
					write!(f, "{:?}", self)
				}
			}
			#[derive(Debug, Clone, Copy, PartialEq, Eq)]
			pub enum ErrorCode {
				ParseError,
				OversizedRequest,
				InvalidRequest,
				MethodNotFound,
				ServerIsBusy,
				InvalidParams,
				InternalError,
				ServerError(i32),
			}
			impl ErrorCode {
				pub const fn code(&self) -> i32 {
					match *self {
						ErrorCode::ParseError => -32700,
						ErrorCode::OversizedRequest => -32007,
						ErrorCode::InvalidRequest => -32600,
						ErrorCode::MethodNotFound => -32601,
						ErrorCode::ServerIsBusy => -32009,
						ErrorCode::InvalidParams => -32602,
						ErrorCode::InternalError => -32603,
						ErrorCode::ServerError(c) => c,
					}
				}
			}
		}
	}
}
pub mod p256 {}
pub mod chrono {
	//! Only what the time-release tests use: UTC dates.
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
	pub struct Utc;
	pub trait TimeZone: Sized + Copy {
		fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32) -> LocalResult<DateTime<Self>>;
	}
	pub struct LocalResult<T>(T);
	impl<T> LocalResult<T> {
		pub fn unwrap(self) -> T {
			self.0
		}
		pub fn single(self) -> Option<T> {
			Some(self.0)
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
	pub struct DateTime<Tz = Utc>(i64, Tz);
	impl<Tz> DateTime<Tz> {
		pub fn timestamp(&self) -> i64 {
			self.0
		}
		pub fn signed_duration_since(self, o: DateTime<Tz>) -> Duration {
			Duration(self.0 - o.0)
		}
	}
	#[derive(Clone, Copy)]
	pub struct Days(u64);
	impl Days {
		pub fn new(n: u64) -> Self {
			Days(n)
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
	pub struct Duration(i64);
	impl Duration {
		pub fn days(n: i64) -> Self {
			Duration(n * 86400)
		}
		pub fn hours(n: i64) -> Self {
			Duration(n * 3600)
		}
		pub fn minutes(n: i64) -> Self {
			Duration(n * 60)
		}
		pub fn seconds(n: i64) -> Self {
			Duration(n)
		}
		pub fn num_seconds(&self) -> i64 {
			self.0
		}
		pub fn num_minutes(&self) -> i64 {
			self.0 / 60
		}
		pub fn num_hours(&self) -> i64 {
			self.0 / 3600
		}
		pub fn num_days(&self) -> i64 {
			self.0 / 86400
		}
	}
	impl TimeZone for Utc {
		fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32) -> LocalResult<DateTime<Self>> {
			let (yy, mm) = if m <= 2 { (y as i64 - 1, m as i64 + 9) } else { (y as i64, m as i64 - 3) };
			let days = 365 * yy + yy / 4 - yy / 100 + yy / 400 + (153 * mm + 2) / 5 + d as i64 - 1 - 719468;
			LocalResult(DateTime(days * 86400 + (h * 3600 + mi * 60 + s) as i64, Utc))
		}
	}
	impl<Tz> std::ops::Sub<DateTime<Tz>> for DateTime<Tz> {
		type Output = Duration;
		fn sub(self, o: Self) -> Duration {
			Duration(self.0 - o.0)
		}
	}
	macro_rules! ops {
		($t:ty, $x:ident => $e:expr) => {
			impl<Tz> std::ops::Add<$t> for DateTime<Tz> {
				type Output = Self;
				fn add(self, $x: $t) -> Self {
					DateTime(self.0 + $e, self.1)
				}
			}
			impl<Tz> std::ops::Sub<$t> for DateTime<Tz> {
				type Output = Self;
				fn sub(self, $x: $t) -> Self {
					DateTime(self.0 - $e, self.1)
				}
			}
		};
	}
	ops!(Days, d => d.0 as i64 * 86400);
	ops!(Duration, d => d.0);
}
pub mod cumulus_primitives_core {
	pub mod relay_chain {
		pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
	}
}
pub mod polkadot_runtime_common {
	crate::frame_support::parameter_types! { pub const BlockHashCount: u32 = 4096; }
	/// The fee multiplier stays as it is.
	pub struct SlowAdjustingFeeUpdate<T>(std::marker::PhantomData<T>);
}
pub mod sp_consensus_aura {
	pub mod sr25519 {
		pub type AuthorityId = crate::sp_core::sr25519::Public;
	}
}
pub mod cumulus_pallet_session_benchmarking {}
/// frame_system_rpc_runtime_api
pub mod nonce_api {
	crate::sp_api::decl_runtime_apis! {
		pub trait AccountNonceApi<AccountId, Nonce> where AccountId: crate::codec::Codec, Nonce: crate::codec::Codec {
			fn account_nonce(account: AccountId) -> Nonce;
		}
	}
}

//! sp_runtime
pub use crate::arith::*;
use crate::codec::{Codec, Compact, Decode, Encode, EncodeLike, Error, HasCompact, Input, MaxEncodedLen, Output};
pub use crate::frame_support::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
use crate::scale_info::{StaticTypeInfo, TypeInfo};
pub use crate::sp_core::crypto::AccountId32;
pub use crate::sp_core::storage::{Storage, StorageChild};
use crate::sp_core::{self, H160, H256};
pub use sdk_macros::RuntimeDebug;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
pub use crate::codec as codec_;
pub use traits::Saturating;
pub mod testing;
pub type TryRuntimeError = DispatchError;
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type RuntimeString = std::borrow::Cow<'static, str>;
pub type Justifications = ();
pub type ExtrinsicInclusionMode = ();
pub type ConsensusEngineId = [u8; 4];
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> + TryFrom<u128> + TryInto<u128> {}
impl<T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> + TryFrom<u128> + TryInto<u128>> FixedPointOperand for T {}
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Storage::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	#[serde(skip_deserializing)]
	pub message: Option<&'static str>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Clone, Copy, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		#[serde(skip_deserializing)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl PartialEq for DispatchError {
	fn eq(&self, o: &Self) -> bool {
		use DispatchError::*;
		match (self, o) {
			(Other(_), Other(_)) => true,
			(Module(a), Module(b)) => (a.index, a.error) == (b.index, b.error),
			(Token(a), Token(b)) => a == b,
			(Arithmetic(a), Arithmetic(b)) => a == b,
			(Transactional(a), Transactional(b)) => a == b,
			(a, b) => std::mem::discriminant(a) == std::mem::discriminant(b),
		}
	}
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(ModuleError { index, error, .. }) => DispatchError::Module(ModuleError { index, error, message: None }),
			m => m,
		}
	}
}
impl From<&'static str> for DispatchError {
	fn from(s: &'static str) -> Self {
		DispatchError::Other(s)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		DispatchError::Arithmetic(e)
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		DispatchError::Token(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		DispatchError::Transactional(e)
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::ConsumerRemaining => "Consumer remaining",
			DispatchError::NoProviders => "No providers",
			DispatchError::TooManyConsumers => "Too many consumers",
			DispatchError::Token(_) => "Token error",
			DispatchError::Arithmetic(e) => e.into(),
			_ => "Dispatch error",
		}
	}
}
impl<T> From<DispatchErrorWithPostInfo<T>> for &'static str {
	fn from(e: DispatchErrorWithPostInfo<T>) -> &'static str {
		e.error.into()
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info> {
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> {
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
pub use crate::sp_core::{ecdsa, ed25519, sr25519};
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
pub enum MultiSignature {
	Ed25519(ed25519::Signature),
	Sr25519(sr25519::Signature),
	Ecdsa(ecdsa::Signature),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum MultiSigner {
	Ed25519(ed25519::Public),
	Sr25519(sr25519::Public),
	Ecdsa(ecdsa::Public),
}
macro_rules! multi {
	($($v:ident $m:ident),*) => {$(
		impl From<$m::Signature> for MultiSignature { fn from(x: $m::Signature) -> Self { MultiSignature::$v(x) } }
		impl From<$m::Public> for MultiSigner { fn from(x: $m::Public) -> Self { MultiSigner::$v(x) } }
	)*}
}
multi!(Ed25519 ed25519, Sr25519 sr25519, Ecdsa ecdsa);
impl From<sr25519::Public> for AccountId32 {
	fn from(p: sr25519::Public) -> Self {
		AccountId32(p.0)
	}
}
impl From<ed25519::Public> for AccountId32 {
	fn from(p: ed25519::Public) -> Self {
		AccountId32(p.0)
	}
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			MultiSigner::Ed25519(x) => AccountId32(x.0),
			MultiSigner::Sr25519(x) => AccountId32(x.0),
			// the same account that `verify` takes the signature to be of, see there
			MultiSigner::Ecdsa(x) => AccountId32(x.0[1..].try_into().unwrap()),
		}
	}
}
impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
	fn verify<L: traits::Lazy<[u8]>>(&self, mut m: L, who: &AccountId32) -> bool {
		use sp_core::Pair;
		match self {
			MultiSignature::Ed25519(s) => ed25519::Pair::verify(s, m.get(), &ed25519::Public(who.0)),
			MultiSignature::Sr25519(s) => sr25519::Pair::verify(s, m.get(), &sr25519::Public(who.0)),
			// no key recovery in the toy scheme: the account carries the tail of the key itself
			MultiSignature::Ecdsa(s) => {
				let mut p = [2u8; 33];
				p[1..].copy_from_slice(&who.0);
				ecdsa::Pair::verify(s, m.get(), &ecdsa::Public(p))
			},
		}
	}
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<A, I> From<A> for MultiAddress<A, I> {
	fn from(a: A) -> Self {
		MultiAddress::Id(a)
	}
}
#[derive(Clone, PartialEq, Eq, Default, Debug, TypeInfo)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
impl OpaqueExtrinsic {
	pub fn from_bytes(mut b: &[u8]) -> Result<Self, Error> {
		Self::decode(&mut b)
	}
}
impl Encode for OpaqueExtrinsic {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl EncodeLike for OpaqueExtrinsic {}
impl Decode for OpaqueExtrinsic {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(OpaqueExtrinsic(Vec::decode(i)?))
	}
}
impl traits::Extrinsic for OpaqueExtrinsic {
	type Call = ();
	type SignaturePayload = ();
}

pub mod transaction_validity {
	use super::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl TransactionValidityError {
		pub fn exhausted_resources(&self) -> bool {
			matches!(self, TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources))
		}
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			Self::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			Self::Unknown(e)
		}
	}
	impl From<TransactionValidityError> for &'static str {
		fn from(e: TransactionValidityError) -> &'static str {
			match e {
				TransactionValidityError::Invalid(_) => "Invalid transaction",
				TransactionValidityError::Unknown(_) => "Unknown transaction",
			}
		}
	}
	impl From<InvalidTransaction> for &'static str {
		fn from(_: InvalidTransaction) -> &'static str {
			"Invalid transaction"
		}
	}
	impl std::fmt::Display for TransactionValidityError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for TransactionValidityError {}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(TransactionValidityError::Invalid(e))
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(e: UnknownTransaction) -> Self {
			Err(TransactionValidityError::Unknown(e))
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub struct ValidTransaction {
		pub priority: u64,
		pub requires: Vec<TransactionTag>,
		pub provides: Vec<TransactionTag>,
		pub longevity: u64,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(p: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder { prefix: Some(p), validity: Default::default() }
		}
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			Self {
				priority: self.priority.saturating_add(o.priority),
				requires: {
					self.requires.append(&mut o.requires);
					self.requires
				},
				provides: {
					self.provides.append(&mut o.provides);
					self.provides
				},
				longevity: self.longevity.min(o.longevity),
				propagate: self.propagate && o.propagate,
			}
		}
	}
	#[derive(Default, Clone)]
	pub struct ValidTransactionBuilder {
		prefix: Option<&'static str>,
		validity: ValidTransaction,
	}
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: u64) -> Self {
			self.validity.priority = p;
			self
		}
		pub fn longevity(mut self, l: u64) -> Self {
			self.validity.longevity = l;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.validity.propagate = p;
			self
		}
		fn tag(&self, t: impl Encode) -> Vec<u8> {
			match self.prefix {
				Some(p) => (p, t).encode(),
				None => t.encode(),
			}
		}
		pub fn and_requires(mut self, t: impl Encode) -> Self {
			let t = self.tag(t);
			self.validity.requires.push(t);
			self
		}
		pub fn and_provides(mut self, t: impl Encode) -> Self {
			let t = self.tag(t);
			self.validity.provides.push(t);
			self
		}
		pub fn build(self) -> TransactionValidity {
			Ok(self.validity)
		}
	}
	impl From<ValidTransactionBuilder> for TransactionValidity {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.build()
		}
	}
}
pub mod traits {
	pub use super::transaction_validity::{TransactionSource, TransactionValidity, TransactionValidityError, ValidTransaction};
	use super::*;
	pub use crate::arith::*;
	pub use crate::codec::Codec as CodecT;
	pub use crate::frame_support::traits::Get;
	pub use crate::misc::TrailingZeroInput;
	use crate::frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
	use transaction_validity::*;
	pub trait MaybeDisplay: std::fmt::Display {}
	impl<T: std::fmt::Display> MaybeDisplay for T {}
	pub trait MaybeDebug: Debug {}
	impl<T: Debug> MaybeDebug for T {}
	pub trait MaybeSerialize {}
	impl<T> MaybeSerialize for T {}
	pub trait MaybeSerializeDeserialize {}
	impl<T> MaybeSerializeDeserialize for T {}
	pub trait MaybeHash {}
	impl<T> MaybeHash for T {}
	pub trait MaybeFromStr {}
	impl<T> MaybeFromStr for T {}
	pub trait MaybeEquivalence<A, B> {
		fn convert(a: &A) -> Option<B>;
		fn convert_back(b: &B) -> Option<A>;
	}
	pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub struct BadOrigin;
	impl From<BadOrigin> for &'static str {
		fn from(_: BadOrigin) -> &'static str {
			"Bad origin"
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct LookupError;
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	impl<'a> Lazy<[u8]> for &'a Vec<u8> {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	impl<'a, const N: usize> Lazy<[u8]> for &'a [u8; N] {
		fn get(&mut self) -> &[u8] {
			&self[..]
		}
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, m: L, s: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	impl IdentifyAccount for sr25519::Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	impl Verify for sr25519::Signature {
		type Signer = sr25519::Public;
		fn verify<L: Lazy<[u8]>>(&self, mut m: L, s: &sr25519::Public) -> bool {
			use sp_core::Pair;
			sr25519::Pair::verify(self, m.get(), s)
		}
	}
	pub trait StaticLookup {
		type Source: Codec + Clone + PartialEq + Debug + TypeInfo + Eq + EncodeLike + Send + Sync + 'static;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	pub trait Lookup {
		type Source;
		type Target;
		fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
	}
	#[derive(Clone, Copy, PartialEq, Eq)]
	pub struct IdentityLookup<T>(std::marker::PhantomData<T>);
	impl<T: Codec + Clone + PartialEq + Debug + TypeInfo + Eq + EncodeLike + Send + Sync + 'static> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	impl<T> Default for IdentityLookup<T> {
		fn default() -> Self {
			Self(Default::default())
		}
	}
	impl<T> Lookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(&self, x: T) -> Result<T, LookupError> {
			Ok(x)
		}
	}
	pub struct AccountIdLookup<A, I>(std::marker::PhantomData<(A, I)>);
	impl<A, I> StaticLookup for AccountIdLookup<A, I>
	where
		A: Codec + Clone + PartialEq + Debug + TypeInfo + Eq + EncodeLike + Send + Sync + 'static,
		I: Codec + Clone + PartialEq + Debug + TypeInfo + Eq + EncodeLike + Send + Sync + 'static,
		MultiAddress<A, I>: Codec,
	{
		type Source = MultiAddress<A, I>;
		type Target = A;
		fn lookup(x: Self::Source) -> Result<A, LookupError> {
			match x {
				MultiAddress::Id(i) => Ok(i),
				_ => Err(LookupError),
			}
		}
		fn unlookup(x: A) -> Self::Source {
			MultiAddress::Id(x)
		}
	}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			Default::default()
		}
	}
	pub trait TryConvert<A, B> {
		fn try_convert(a: A) -> Result<B, A>;
	}
	pub struct ConvertInto;
	impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	pub trait CheckEqual {}
	impl<T> CheckEqual for T {}
	pub trait SimpleBitOps {}
	impl<T> SimpleBitOps for T {}
	pub trait HashOutput: Member + Debug + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + std::hash::Hash + std::fmt::Display {}
	impl<T: Member + Debug + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + std::hash::Hash + std::fmt::Display> HashOutput for T {}
	pub trait Hash: 'static + Clone + Eq + PartialEq + Debug {
		type Output: HashOutput;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output {
			s.using_encoded(Self::hash)
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, TypeInfo)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 {
		type Output = H256;
		fn hash(s: &[u8]) -> H256 {
			H256(crate::hashing::blake2_256(s))
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, TypeInfo)]
	pub struct Keccak256;
	impl Hash for Keccak256 {
		type Output = H256;
		fn hash(s: &[u8]) -> H256 {
			H256(crate::hashing::keccak_256(s))
		}
	}
	pub trait BlockNumber: Member + MaybeSerializeDeserialize + std::fmt::Display + AtLeast32BitUnsigned + Default + Copy + TypeInfo + MaxEncodedLen + Codec + EncodeLike + std::hash::Hash + std::str::FromStr + HasCompact {}
	impl<T: Member + std::fmt::Display + AtLeast32BitUnsigned + Default + Copy + TypeInfo + MaxEncodedLen + Codec + EncodeLike + std::hash::Hash + std::str::FromStr + HasCompact> BlockNumber for T {}
	pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + TypeInfo + 'static {
		type Number: BlockNumber;
		type Hash: HashOutput;
		type Hashing: Hash<Output = Self::Hash>;
		fn new(n: Self::Number, er: Self::Hash, sr: Self::Hash, p: Self::Hash, d: generic::Digest) -> Self;
		fn number(&self) -> &Self::Number;
		fn parent_hash(&self) -> &Self::Hash;
		fn hash(&self) -> Self::Hash {
			<Self::Hashing as Hash>::hash_of(self)
		}
	}
	pub trait Extrinsic: Sized {
		type Call;
		type SignaturePayload;
		fn is_signed(&self) -> Option<bool> {
			None
		}
		fn new(_c: Self::Call, _s: Option<Self::SignaturePayload>) -> Option<Self> {
			None
		}
	}
	pub trait ExtrinsicMetadata {
		const VERSION: u8;
		type SignedExtensions;
	}
	pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Codec + Eq + Debug + 'static {
		type Extrinsic: Member + Codec;
		type Header: Header<Hash = Self::Hash>;
		type Hash: HashOutput;
		fn header(&self) -> &Self::Header;
		fn extrinsics(&self) -> &[Self::Extrinsic];
		fn new(h: Self::Header, e: Vec<Self::Extrinsic>) -> Self;
		fn hash(&self) -> Self::Hash {
			<<Self::Header as Header>::Hashing as Hash>::hash_of(self.header())
		}
	}
	pub type NumberFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Number;
	pub trait HeaderProvider {
		type HeaderT: Header;
	}
	pub trait BlockNumberProvider {
		type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + Debug + MaxEncodedLen + Copy + EncodeLike;
		fn current_block_number() -> Self::BlockNumber;
		fn set_block_number(_: Self::BlockNumber) {}
	}
	pub trait Dispatchable {
		type RuntimeOrigin: Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Default + Debug;
		fn dispatch(self, o: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	pub type DispatchOriginOf<T> = <T as Dispatchable>::RuntimeOrigin;
	impl Dispatchable for () {
		type RuntimeOrigin = ();
		type Config = ();
		type Info = ();
		type PostInfo = ();
		fn dispatch(self, _: ()) -> DispatchResultWithInfo<()> {
			panic!("This implementation should not be used for actual dispatch.")
		}
	}
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ())
		}
		fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct SignedExtensionMetadata {
		pub identifier: &'static str,
	}
	pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq + StaticTypeInfo {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Codec + TypeInfo;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(call, info, len).map(|_| ())
		}
		fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post: &PostDispatchInfoOf<Self::Call>, _len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
			Ok(())
		}
		fn metadata() -> Vec<SignedExtensionMetadata> {
			vec![SignedExtensionMetadata { identifier: Self::IDENTIFIER }]
		}
	}
	macro_rules! ext_tuple {
		($($n:ident $i:tt),*) => {
			impl<AccountId, Call: Dispatchable, $($n: SignedExtension<AccountId = AccountId, Call = Call>),*> SignedExtension for ($($n,)*)
			where ($($n,)*): Codec + Debug + Clone + Eq + TypeInfo + 'static + Sync + Send, ($($n::AdditionalSigned,)*): Codec + TypeInfo {
				const IDENTIFIER: &'static str = "tuple";
				type AccountId = AccountId;
				type Call = Call;
				type AdditionalSigned = ($($n::AdditionalSigned,)*);
				type Pre = ($($n::Pre,)*);
				fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> { Ok(($(self.$i.additional_signed()?,)*)) }
				fn validate(&self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
					let v = ValidTransaction::default();
					$(let v = v.combine_with(self.$i.validate(who, call, info, len)?);)*
					Ok(v)
				}
				fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> { Ok(($(self.$i.pre_dispatch(who, call, info, len)?,)*)) }
				fn validate_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
					let v = ValidTransaction::default();
					$(let v = v.combine_with($n::validate_unsigned(call, info, len)?);)*
					Ok(v)
				}
				fn pre_dispatch_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<(), TransactionValidityError> { $($n::pre_dispatch_unsigned(call, info, len)?;)* Ok(()) }
				fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Call>, post: &PostDispatchInfoOf<Call>, len: usize, r: &DispatchResult) -> Result<(), TransactionValidityError> {
					match pre {
						Some(x) => { $($n::post_dispatch(Some(x.$i), info, post, len, r)?;)* },
						None => { $($n::post_dispatch(None, info, post, len, r)?;)* },
					}
					Ok(())
				}
			}
		}
	}
	ext_tuple!(A0 0);
	ext_tuple!(A0 0, A1 1);
	ext_tuple!(A0 0, A1 1, A2 2);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10);
	ext_tuple!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11);
	pub trait GetNodeBlockType {
		type NodeBlock: Block;
	}
	pub trait AccountIdConversion<AccountId>: Sized {
		fn into_account_truncating(&self) -> AccountId;
	}
	impl<T: Decode> AccountIdConversion<T> for crate::frame_support::PalletId {
		fn into_account_truncating(&self) -> T {
			let b = [&b"modl"[..], &self.0].concat();
			T::decode(&mut TrailingZeroInput::new(&b)).expect("account from pallet id")
		}
	}
	pub trait Printable {}
	impl<T> Printable for T {}
	pub trait EnsureAddTrait {}
	pub trait Applyable {}
	pub trait OpaqueKeys {}
	pub use crate::frame_support::dispatch as _dispatch;
	#[allow(unused)]
	type _Unused = (DispatchInfo, PostDispatchInfo, Compact<u8>, H160);
	pub trait ReduceBy {}
	pub trait ConstInt {}
	/// Reads `N` from bounded types.
	pub trait AsIter {}
}
pub mod generic {
	use super::traits::{Block as BlockT, Hash as HashT, Header as HeaderT};
	use super::*;
	#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, Serialize, Deserialize)]
	pub struct Digest {
		pub logs: Vec<DigestItem>,
	}
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
	pub enum DigestItem {
		Other(Vec<u8>),
	}
	#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
	pub struct Header<N: traits::BlockNumber, H: HashT> {
		pub parent_hash: H::Output,
		pub number: N,
		pub state_root: H::Output,
		pub extrinsics_root: H::Output,
		pub digest: Digest,
	}
	impl<N: traits::BlockNumber, H: HashT> Encode for Header<N, H> {
		fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
			(&self.parent_hash, &self.number, &self.state_root, &self.extrinsics_root, &self.digest).encode_to(d)
		}
	}
	impl<N: traits::BlockNumber, H: HashT> EncodeLike for Header<N, H> {}
	impl<N: traits::BlockNumber, H: HashT> Decode for Header<N, H> {
		fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
			Ok(Header { parent_hash: Decode::decode(i)?, number: Decode::decode(i)?, state_root: Decode::decode(i)?, extrinsics_root: Decode::decode(i)?, digest: Decode::decode(i)? })
		}
	}
	impl<N: traits::BlockNumber, H: HashT + TypeInfo + Send + Sync> HeaderT for Header<N, H> {
		type Number = N;
		type Hash = H::Output;
		type Hashing = H;
		fn new(number: N, extrinsics_root: H::Output, state_root: H::Output, parent_hash: H::Output, digest: Digest) -> Self {
			Header { parent_hash, number, state_root, extrinsics_root, digest }
		}
		fn number(&self) -> &N {
			&self.number
		}
		fn parent_hash(&self) -> &H::Output {
			&self.parent_hash
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub struct Block<H, E> {
		pub header: H,
		pub extrinsics: Vec<E>,
	}
	impl<H: HeaderT, E> traits::HeaderProvider for Block<H, E> {
		type HeaderT = H;
	}
	impl<H: HeaderT, E: traits::Member + Codec> BlockT for Block<H, E> {
		type Extrinsic = E;
		type Header = H;
		type Hash = H::Hash;
		fn header(&self) -> &H {
			&self.header
		}
		fn extrinsics(&self) -> &[E] {
			&self.extrinsics
		}
		fn new(header: H, extrinsics: Vec<E>) -> Self {
			Block { header, extrinsics }
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct SignedBlock<B> {
		pub block: B,
		pub justifications: Option<()>,
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum BlockId<B: BlockT> {
		Hash(B::Hash),
		Number(traits::NumberFor<B>),
	}
	#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
	pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub signature: Option<(Address, Signature, Extra)>,
		pub function: Call,
	}
	impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
		pub fn new_unsigned(function: C) -> Self {
			Self { signature: None, function }
		}
		pub fn new_signed(function: C, a: A, s: S, e: E) -> Self {
			Self { signature: Some((a, s, e)), function }
		}
	}
	impl<A, C: crate::frame_support::dispatch::GetDispatchInfo, S, E> crate::frame_support::dispatch::GetDispatchInfo for UncheckedExtrinsic<A, C, S, E> {
		fn get_dispatch_info(&self) -> crate::frame_support::dispatch::DispatchInfo {
			self.function.get_dispatch_info()
		}
	}
	impl<A: Encode, C: Encode, S: Encode, E: Encode> Encode for UncheckedExtrinsic<A, C, S, E> {
		fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
			let mut b = vec![];
			match &self.signature {
				Some((a, s, e)) => {
					b.push(0x84);
					a.encode_to(&mut b);
					s.encode_to(&mut b);
					e.encode_to(&mut b);
				},
				None => b.push(4),
			}
			self.function.encode_to(&mut b);
			b.encode_to(d)
		}
	}
	impl<A: Encode, C: Encode, S: Encode, E: Encode> EncodeLike for UncheckedExtrinsic<A, C, S, E> {}
	impl<A: Decode, C: Decode, S: Decode, E: Decode> Decode for UncheckedExtrinsic<A, C, S, E> {
		fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
			let _n = Compact::<u32>::decode(i)?;
			let v = u8::decode(i)?;
			let signature = if v & 0x80 != 0 { Some((A::decode(i)?, S::decode(i)?, E::decode(i)?)) } else { None };
			Ok(Self { signature, function: C::decode(i)? })
		}
	}
	impl<A, C, S, E> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> {
		type Call = C;
		type SignaturePayload = (A, S, E);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(function: C, s: Option<(A, S, E)>) -> Option<Self> {
			Some(Self { signature: s, function })
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn immortal() -> Self {
			Era::Immortal
		}
	}
}
pub mod offchain {
	pub use crate::offchain::{http, storage, storage_lock, Duration, OffchainStorage, Timestamp, STORAGE_PREFIX};
}
pub mod app_crypto {}

pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
pub fn print<T>(_: T) {}

#[macro_export]
macro_rules! create_runtime_str {
	($s:expr) => {
		$s
	};
}
#[macro_export]
macro_rules! impl_opaque_keys {
	($($t:tt)*) => {};
}
pub use crate::{create_runtime_str, impl_opaque_keys};

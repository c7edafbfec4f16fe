//! frame_support::traits
use crate::arith::{AtLeast32BitUnsigned, Zero};
use crate::codec::{Codec, Decode, Encode, FullCodec, MaxEncodedLen};
use crate::frame_support::dispatch::DispatchResultWithPostInfo;
pub use crate::frame_support::dispatch::{UnfilteredDispatchable, GetCallIndex, GetCallName};
use crate::frame_support::weights::Weight;
use crate::frame_support::{storage, Parameter};
use crate::scale_info::TypeInfo;
pub use crate::sp_runtime::traits::{BlockNumberProvider, BadOrigin};
use crate::sp_runtime::{DispatchError, DispatchResult};
use std::any::TypeId;
use std::fmt::Debug;
use std::marker::PhantomData;

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
macro_rules! consts { ($($n:ident $t:ty),*) => {$(
	#[derive(Default, Clone, Debug, PartialEq, Eq)]
	pub struct $n<const T: $t>;
	impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
	impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
	impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
	impl<const T: $t> TypeInfo for $n<T> { type Identity = Self; fn type_info() -> crate::scale_info::Type { crate::scale_info::Type::named(stringify!($n)) } }
)*} }
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128, ConstUint u64);

// ---- metadata / pallets ----
pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
}
pub trait PalletInfo {
	fn lookup(t: TypeId) -> Option<(usize, &'static str)>;
	fn index<P: 'static>() -> Option<usize> {
		Self::lookup(TypeId::of::<P>()).map(|x| x.0)
	}
	fn name<P: 'static>() -> Option<&'static str> {
		Self::lookup(TypeId::of::<P>()).map(|x| x.1)
	}
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Encode, Decode, TypeInfo)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(n: u16) -> Self {
		Self(n)
	}
	fn key<P: PalletInfoAccess>() -> [u8; 32] {
		storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:")
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		storage::unhashed::put(&Self::key::<P>(), self)
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		storage::unhashed::get(&Self::key::<P>()).unwrap_or_default()
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		storage::unhashed::exists(&Self::key::<P>())
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(o)
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct NoStorageVersionSet;
pub trait GetStorageVersion {
	type CurrentStorageVersion;
	fn current_storage_version() -> Self::CurrentStorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
	fn get_call_metadata(&self) -> CallMetadata;
	fn get_module_names() -> &'static [&'static str];
	fn get_call_names(module: &str) -> &'static [&'static str];
	/// (pallet index, call index)
	fn get_call_indices(&self) -> (u8, u8);
}
pub trait PalletError: Encode + Decode {
	const MAX_ENCODED_SIZE: usize;
}
macro_rules! pe { ($($t:ty = $n:expr),*) => {$(impl PalletError for $t { const MAX_ENCODED_SIZE: usize = $n; })*} }
pe!(u8 = 1, u16 = 2, u32 = 4, bool = 1, () = 0);

// ---- hooks ----
pub trait Hooks<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: BlockNumber) {}
	fn integrity_test() {}
}
pub trait OnInitialize<N> {
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<N> {
	fn on_finalize(_n: N) {}
}
pub trait OnIdle<N> {
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
pub trait OffchainWorker<N> {
	fn offchain_worker(_n: N) {}
}
pub trait IntegrityTest {
	fn integrity_test() {}
}
pub trait OnGenesis {
	fn on_genesis() {}
}
macro_rules! hook_tuples { ($($n:ident),*) => {
	impl<N: Clone, $($n: OnInitialize<N>),*> OnInitialize<N> for ($($n,)*) { fn on_initialize(n: N) -> Weight { let w = Weight::zero(); $(let w = w.saturating_add($n::on_initialize(n.clone()));)* let _ = n; w } }
	impl<N: Clone, $($n: OnFinalize<N>),*> OnFinalize<N> for ($($n,)*) { fn on_finalize(n: N) { $($n::on_finalize(n.clone());)* let _ = n; } }
	impl<$($n: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($n,)*) { fn on_runtime_upgrade() -> Weight { let w = Weight::zero(); $(let w = w.saturating_add($n::on_runtime_upgrade());)* w } }
	impl<$($n: OnGenesis),*> OnGenesis for ($($n,)*) { fn on_genesis() { $($n::on_genesis();)* } }
	impl<N: Clone, $($n: OffchainWorker<N>),*> OffchainWorker<N> for ($($n,)*) { fn offchain_worker(n: N) { $($n::offchain_worker(n.clone());)* let _ = n; } }
} }
hook_tuples!();
hook_tuples!(A);
hook_tuples!(A, B);
hook_tuples!(A, B, C);
hook_tuples!(A, B, C, D);
hook_tuples!(A, B, C, D, E);
hook_tuples!(A, B, C, D, E, F);
hook_tuples!(A, B, C, D, E, F, G);
hook_tuples!(A, B, C, D, E, F, G, H);
hook_tuples!(A, B, C, D, E, F, G, H, I);
hook_tuples!(A, B, C, D, E, F, G, H, I, J);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18);
hook_tuples!(A, B, C, D, E, F, G, H, I, J, K, L, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19);
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}

// ---- origins ----
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId> {
		self.into_caller().into_system().and_then(|s| if let crate::frame_system::RawOrigin::Signed(w) = s { Some(w) } else { None })
	}
	fn as_system_ref(&self) -> Option<&crate::frame_system::RawOrigin<Self::AccountId>> {
		self.caller().as_system_ref()
	}
}
pub trait CallerTrait<AccountId>: Parameter + Member_ + From<crate::frame_system::RawOrigin<AccountId>> {
	fn into_system(self) -> Option<crate::frame_system::RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&crate::frame_system::RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		match self.as_system_ref() {
			Some(crate::frame_system::RawOrigin::Signed(w)) => Some(w),
			_ => None,
		}
	}
	fn is_root(&self) -> bool {
		matches!(self.as_system_ref(), Some(crate::frame_system::RawOrigin::Root))
	}
}
pub use crate::sp_runtime::traits::Member as Member_;
pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).or_else(|o| R::try_origin(o))
	}
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);

// ---- calls ----
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
impl<T> Contains<T> for () {
	fn contains(_: &T) -> bool {
		true
	}
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, i: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &()) -> bool {
		true
	}
}
pub trait EqualPrivilegeOnlyT {}
pub struct EqualPrivilegeOnly;
pub trait Len {
	fn len(&self) -> usize;
}
impl<T: IntoIterator + Clone> Len for T
where
	<T as IntoIterator>::IntoIter: ExactSizeIterator,
{
	fn len(&self) -> usize {
		self.clone().into_iter().len()
	}
}
pub trait ChangeMembers<AccountId: Clone + Ord> {
	fn change_members(incoming: &[AccountId], outgoing: &[AccountId], mut new: Vec<AccountId>) {
		new.sort();
		Self::change_members_sorted(incoming, outgoing, &new[..]);
	}
	fn change_members_sorted(incoming: &[AccountId], outgoing: &[AccountId], sorted_new: &[AccountId]);
	fn set_members_sorted(new: &[AccountId], old: &[AccountId]) {
		let inc: Vec<_> = new.iter().filter(|x| !old.contains(x)).cloned().collect();
		let out: Vec<_> = old.iter().filter(|x| !new.contains(x)).cloned().collect();
		Self::change_members_sorted(&inc, &out, new);
	}
	fn set_prime(_p: Option<AccountId>) {}
	fn get_prime() -> Option<AccountId> {
		None
	}
}
pub trait InitializeMembers<A> {
	fn initialize_members(m: &[A]);
}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
}
pub trait OnNewAccount<A> {
	fn on_new_account(who: &A);
}
impl<A> OnNewAccount<A> for () {
	fn on_new_account(_: &A) {}
}
pub trait OnKilledAccount<A> {
	fn on_killed_account(who: &A);
}
impl<A> OnKilledAccount<A> for () {
	fn on_killed_account(_: &A) {}
}
pub trait OnUnbalanced<T> {
	fn on_unbalanced(_a: T) {}
}
impl<T> OnUnbalanced<T> for () {}
pub trait EstimateCallFee<Call, Balance> {
	fn estimate_call_fee(c: &Call, p: crate::frame_support::dispatch::PostDispatchInfo) -> Balance;
}
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> std::time::Duration;
}
pub trait TryDrop {}
pub trait SameOrOther {}
pub trait LockableCurrencyMarker {}
pub type LockIdentifier = [u8; 8];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct WithdrawReasons(pub u8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(1);
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub const fn all() -> Self {
		Self(31)
	}
	pub const fn empty() -> Self {
		Self(0)
	}
	pub fn except(o: Self) -> Self {
		Self(31 & !o.0)
	}
	pub fn contains(&self, o: Self) -> bool {
		self.0 & o.0 == o.0
	}
	pub fn intersects(&self, o: Self) -> bool {
		self.0 & o.0 != 0
	}
	pub fn is_empty(&self) -> bool {
		self.0 == 0
	}
}
impl std::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
pub trait Imbalance<B> {
	fn peek(&self) -> B;
}
pub trait Currency<AccountId> {
	type Balance: tokens::Balance;
	type PositiveImbalance;
	type NegativeImbalance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
	fn transfer(from: &AccountId, to: &AccountId, v: Self::Balance, r: ExistenceRequirement) -> DispatchResult;
	fn make_free_balance_be(who: &AccountId, v: Self::Balance);
	fn deposit_creating_(who: &AccountId, v: Self::Balance);
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn can_reserve(who: &AccountId, v: Self::Balance) -> bool;
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, v: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, v: Self::Balance) -> Self::Balance;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
	type Moment;
	type MaxLocks: Get<u32>;
	fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, r: WithdrawReasons);
	fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, r: WithdrawReasons);
	fn remove_lock(id: LockIdentifier, who: &AccountId);
}
pub mod tokens {
	pub struct PayFromAccount;
	pub struct UnityAssetBalanceConversion;
	use super::*;
	pub use super::{BalanceStatus, ExistenceRequirement, WithdrawReasons};
	pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + crate::codec::HasCompact {}
	impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + crate::codec::HasCompact> Balance for T {}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Restriction {
		Free,
		OnHold,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum WithdrawConsequence<B> {
		BalanceLow,
		WouldDie,
		UnknownAsset,
		Underflow,
		Overflow,
		Frozen,
		ReducedToZero(B),
		Success,
	}
	impl<B: Zero> WithdrawConsequence<B> {
		pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
			use crate::sp_runtime::{ArithmeticError, TokenError};
			match self {
				WithdrawConsequence::BalanceLow => Err(TokenError::FundsUnavailable.into()),
				WithdrawConsequence::WouldDie => Err(TokenError::OnlyProvider.into()),
				WithdrawConsequence::UnknownAsset => Err(TokenError::UnknownAsset.into()),
				WithdrawConsequence::Underflow => Err(ArithmeticError::Underflow.into()),
				WithdrawConsequence::Overflow => Err(ArithmeticError::Overflow.into()),
				WithdrawConsequence::Frozen => Err(TokenError::Frozen.into()),
				WithdrawConsequence::ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
				WithdrawConsequence::ReducedToZero(r) => Ok(r),
				WithdrawConsequence::Success => Ok(B::zero()),
			}
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum DepositConsequence {
		BelowMinimum,
		CannotCreate,
		UnknownAsset,
		Overflow,
		Success,
		Blocked,
	}
	impl DepositConsequence {
		pub fn into_result(self) -> DispatchResult {
			use crate::sp_runtime::{ArithmeticError, TokenError};
			match self {
				DepositConsequence::BelowMinimum => Err(TokenError::BelowMinimum.into()),
				DepositConsequence::CannotCreate => Err(TokenError::CannotCreate.into()),
				DepositConsequence::UnknownAsset => Err(TokenError::UnknownAsset.into()),
				DepositConsequence::Overflow => Err(ArithmeticError::Overflow.into()),
				DepositConsequence::Blocked => Err(TokenError::Blocked.into()),
				DepositConsequence::Success => Ok(()),
			}
		}
	}
	pub mod imbalance {
		pub struct SplitTwoWays;
		pub struct ResolveTo;
	}
	pub mod fungible {
		pub use super::super::fungible::*;
	}
	pub mod currency {
		pub use super::super::{Currency, LockableCurrency, ReservableCurrency};
	}
	pub use misc::*;
	pub mod misc {
		pub use super::{Balance, DepositConsequence, Fortitude, Precision, Preservation, Provenance, Restriction, WithdrawConsequence};
	}
}
pub mod fungible {
	pub struct HoldConsideration;
	use super::tokens::*;
	use super::*;
	pub trait Inspect<AccountId>: Sized {
		type Balance: super::tokens::Balance;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn minimum_balance() -> Self::Balance;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn balance(who: &AccountId) -> Self::Balance;
		fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
		fn can_deposit(who: &AccountId, a: Self::Balance, p: Provenance) -> DepositConsequence;
		fn can_withdraw(who: &AccountId, a: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn decrease_balance(who: &AccountId, a: Self::Balance, p: Precision, pr: Preservation, f: Fortitude) -> Result<Self::Balance, DispatchError>;
		fn increase_balance(who: &AccountId, a: Self::Balance, p: Precision) -> Result<Self::Balance, DispatchError>;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn mint_into(who: &AccountId, a: Self::Balance) -> Result<Self::Balance, DispatchError>;
		fn burn_from(who: &AccountId, a: Self::Balance, p: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError>;
		fn transfer(s: &AccountId, d: &AccountId, a: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
		fn set_balance(who: &AccountId, a: Self::Balance) -> Self::Balance;
	}
	pub trait InspectFreeze<AccountId>: Inspect<AccountId> {
		type Id: Encode + Decode + TypeInfo + Debug + Clone + PartialEq + 'static;
		fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(who: &AccountId) -> Self::Balance {
			Self::total_balance(who)
		}
		fn can_freeze(id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait MutateFreeze<AccountId>: InspectFreeze<AccountId> {
		fn set_freeze(id: &Self::Id, who: &AccountId, a: Self::Balance) -> DispatchResult;
		fn extend_freeze(id: &Self::Id, who: &AccountId, a: Self::Balance) -> DispatchResult;
		fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(id: &Self::Id, who: &AccountId, a: Self::Balance, f: Fortitude) -> DispatchResult {
			if f == Fortitude::Polite && Self::balance_freezable(who) < a {
				return Err(crate::sp_runtime::TokenError::FundsUnavailable.into())
			}
			Self::set_freeze(id, who, a)
		}
		fn ensure_frozen(id: &Self::Id, who: &AccountId, a: Self::Balance, f: Fortitude) -> DispatchResult {
			let cur = Self::balance_frozen(id, who);
			Self::set_frozen(id, who, cur.max(a), f)
		}
		fn decrease_frozen(id: &Self::Id, who: &AccountId, a: Self::Balance) -> DispatchResult {
			use crate::arith::CheckedSub;
			let n = Self::balance_frozen(id, who).checked_sub(&a).ok_or(crate::sp_runtime::ArithmeticError::Underflow)?;
			Self::set_freeze(id, who, n)
		}
		fn increase_frozen(id: &Self::Id, who: &AccountId, a: Self::Balance) -> DispatchResult {
			use crate::arith::CheckedAdd;
			let n = Self::balance_frozen(id, who).checked_add(&a).ok_or(crate::sp_runtime::ArithmeticError::Overflow)?;
			Self::set_frozen(id, who, n, Fortitude::Polite)
		}
	}
	pub trait Balanced<A>: Inspect<A> {}
	pub trait Credit {}
}
#[allow(unused)]
fn _u<T: Codec>(_: DispatchResultWithPostInfo) {}

pub struct LinearStoragePrice<A, B, C>(PhantomData<(A, B, C)>);
/// infallible conversions that report a broken expectation; outside tests the
/// real ones only log, as these do
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, other: T) -> T;
	fn defensive_unwrap_or_else(self, f: impl FnOnce() -> T) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F>(self, o: impl FnOnce(E) -> F) -> Result<T, F>;
	fn defensive_map_or_else<U>(self, d: impl FnOnce(E) -> U, f: impl FnOnce(T) -> U) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U>(self, f: impl FnOnce(T) -> U) -> Result<U, E>;
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U>(self, d: impl FnOnce() -> U, f: impl FnOnce(T) -> U) -> U;
	fn defensive_ok_or_else<E>(self, e: impl FnOnce() -> E) -> Result<T, E>;
	fn defensive_ok_or<E>(self, e: E) -> Result<T, E>;
	fn defensive_map<U>(self, f: impl FnOnce(T) -> U) -> Option<U>;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.unwrap_or(other)
	}
	fn defensive_unwrap_or_else(self, f: impl FnOnce() -> T) -> T {
		self.unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &'static str) -> Self {
		self
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.unwrap_or(other)
	}
	fn defensive_unwrap_or_else(self, f: impl FnOnce() -> T) -> T {
		self.unwrap_or_else(|_| f())
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &'static str) -> Self {
		self
	}
}
impl<T, E> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F>(self, o: impl FnOnce(E) -> F) -> Result<T, F> {
		self.map_err(o)
	}
	fn defensive_map_or_else<U>(self, d: impl FnOnce(E) -> U, f: impl FnOnce(T) -> U) -> U {
		self.map_or_else(d, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.ok()
	}
	fn defensive_map<U>(self, f: impl FnOnce(T) -> U) -> Result<U, E> {
		self.map(f)
	}
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U>(self, d: impl FnOnce() -> U, f: impl FnOnce(T) -> U) -> U {
		self.map_or_else(d, f)
	}
	fn defensive_ok_or_else<E>(self, e: impl FnOnce() -> E) -> Result<T, E> {
		self.ok_or_else(e)
	}
	fn defensive_ok_or<E>(self, e: E) -> Result<T, E> {
		self.ok_or(e)
	}
	fn defensive_map<U>(self, f: impl FnOnce(T) -> U) -> Option<U> {
		self.map(f)
	}
}
pub trait DefensiveSaturating: crate::arith::Saturating + Copy {
	fn defensive_saturating_add(self, o: Self) -> Self {
		self.saturating_add(o)
	}
	fn defensive_saturating_sub(self, o: Self) -> Self {
		self.saturating_sub(o)
	}
	fn defensive_saturating_mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
	fn defensive_saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	fn defensive_saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	fn defensive_saturating_inc(&mut self)
	where
		Self: crate::arith::One,
	{
		*self = self.saturating_add(crate::arith::One::one())
	}
	fn defensive_saturating_dec(&mut self)
	where
		Self: crate::arith::One,
	{
		*self = self.saturating_sub(crate::arith::One::one())
	}
}
impl<T: crate::arith::Saturating + Copy> DefensiveSaturating for T {}
pub trait DefensiveTruncateFrom<T> {
	fn defensive_truncate_from(unbound: T) -> Self;
}
impl<T, S: Get<u32>> DefensiveTruncateFrom<Vec<T>> for crate::frame_support::BoundedVec<T, S> {
	fn defensive_truncate_from(v: Vec<T>) -> Self {
		Self::truncate_from(v)
	}
}

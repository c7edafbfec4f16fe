//! frame_system
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::dispatch::DispatchClass;
use crate::frame_support::traits::{EnsureOrigin, Get, OriginTrait, StoredMap};
use crate::frame_support::weights::Weight;
use crate::scale_info::TypeInfo;
use crate::sp_runtime::traits::{BadOrigin, Block as BlockT, BlockNumberProvider, Header as HeaderT, Lookup, LookupError, NumberFor, One, StaticLookup, Zero};
use crate::sp_runtime::{DispatchError, RuntimeDebug};
use std::fmt::Debug;
use std::marker::PhantomData;

pub use pallet::*;

#[derive(Clone, PartialEq, Eq, RuntimeDebug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(w) => RawOrigin::Signed(w),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> {
		match self {
			Self::Signed(a) => Some(a),
			_ => None,
		}
	}
	pub fn is_root(&self) -> bool {
		matches!(self, Self::Root)
	}
}
#[derive(Clone, PartialEq, Eq, Default, RuntimeDebug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
pub type RefCount = u32;
pub type ConsumedWeight = crate::frame_support::dispatch::PerDispatchClass<Weight>;
#[derive(Clone, PartialEq, Eq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
impl Default for Phase {
	fn default() -> Self {
		Phase::Initialization
	}
}
#[derive(Clone, PartialEq, Eq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub struct EventRecord<E: crate::frame_support::Parameter, T> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<T>,
}
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum RefStatus {
	Referenced,
	Unreferenced,
}
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
pub trait WeightInfo {
	fn remark(_b: u32) -> Weight {
		Weight::zero()
	}
}
impl WeightInfo for () {}
pub trait SetCode<T> {}
impl<T> SetCode<T> for () {}
pub use crate::executive::{CheckEra, CheckGenesis, CheckNonZeroSender, CheckSpecVersion, CheckTxVersion, CheckWeight};
pub mod limits {
	use super::*;
	use crate::arith::Perbill;
	use crate::frame_support::dispatch::{OneOrMany, PerDispatchClass};
	#[derive(Clone, PartialEq, Eq, RuntimeDebug)]
	pub struct BlockLength {
		pub max: PerDispatchClass<u32>,
	}
	impl Default for BlockLength {
		fn default() -> Self {
			Self::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75))
		}
	}
	impl BlockLength {
		pub fn max(m: u32) -> Self {
			Self { max: PerDispatchClass::new(|_| m) }
		}
		pub fn max_with_normal_ratio(m: u32, r: Perbill) -> Self {
			Self { max: PerDispatchClass::new(|c| if c == DispatchClass::Normal { r * m } else { m }) }
		}
	}
	#[derive(Clone, PartialEq, Eq, RuntimeDebug, Default)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Clone, PartialEq, Eq, RuntimeDebug)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub per_class: PerDispatchClass<WeightsPerClass>,
	}
	impl Default for BlockWeights {
		fn default() -> Self {
			Self::with_sensible_defaults(Weight::from_parts(crate::frame_support::weights::constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX), Perbill::from_percent(75))
		}
	}
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			self.per_class.get(c)
		}
		pub fn simple_max(w: Weight) -> Self {
			Self::builder().base_block(Weight::zero()).for_class(DispatchClass::all(), |x| x.base_extrinsic = Weight::zero()).for_class(DispatchClass::non_mandatory(), |x| x.max_total = Some(w)).build_or_panic()
		}
		pub fn with_sensible_defaults(expected: Weight, ratio: Perbill) -> Self {
			let n = ratio * expected;
			Self::builder()
				.for_class(DispatchClass::Normal, |w| w.max_total = Some(n))
				.for_class(DispatchClass::Operational, |w| {
					w.max_total = Some(expected);
					w.reserved = Some(expected - n);
				})
				.avg_block_initialization(Perbill::from_percent(10))
				.build_or_panic()
		}
		pub fn builder() -> BlockWeightsBuilder {
			use crate::frame_support::weights::constants::{BlockExecutionWeight, ExtrinsicBaseWeight};
			BlockWeightsBuilder {
				w: BlockWeights {
					base_block: BlockExecutionWeight::get(),
					max_block: Weight::zero(),
					per_class: PerDispatchClass::new(|c| WeightsPerClass { base_extrinsic: ExtrinsicBaseWeight::get(), max_extrinsic: None, max_total: if c == DispatchClass::Mandatory { None } else { Some(Weight::zero()) }, reserved: if c == DispatchClass::Mandatory { None } else { Some(Weight::zero()) } }),
				},
				init: None,
			}
		}
	}
	pub struct BlockWeightsBuilder {
		w: BlockWeights,
		init: Option<Perbill>,
	}
	impl BlockWeightsBuilder {
		pub fn base_block(mut self, b: Weight) -> Self {
			self.w.base_block = b;
			self
		}
		pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
			self.init = Some(p);
			self
		}
		pub fn for_class(mut self, c: impl OneOrMany<DispatchClass>, f: impl Fn(&mut WeightsPerClass)) -> Self {
			for c in c.into_iter() {
				f(self.w.per_class.get_mut(c))
			}
			self
		}
		pub fn build_or_panic(mut self) -> BlockWeights {
			for c in DispatchClass::all() {
				self.w.max_block = match self.w.per_class.get(*c).max_total {
					Some(m) if m.ref_time() > self.w.max_block.ref_time() => m,
					_ => self.w.max_block,
				};
			}
			let init = self.init.map(|p| p * self.w.max_block);
			if let Some(i) = init {
				for c in DispatchClass::all() {
					let p = self.w.per_class.get_mut(*c);
					if p.max_extrinsic.is_none() && i.ref_time() > 0 {
						p.max_extrinsic = p.max_total.map(|m| m.saturating_sub(i).saturating_sub(p.base_extrinsic));
					}
				}
			}
			self.w
		}
	}
}
pub mod mocking {
	use super::*;
	use crate::sp_runtime::generic;
	pub type MockUncheckedExtrinsic<T, S = (), E = ()> = generic::UncheckedExtrinsic<<T as Config>::AccountId, <T as Config>::RuntimeCall, S, E>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, crate::sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, crate::sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU128<T> = generic::Block<generic::Header<u128, crate::sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod pallet_prelude {
	use super::*;
	pub use super::{ensure_none, ensure_root, ensure_signed};
	pub type OriginFor<T> = <T as Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as Config>::Block as BlockT>::Header;
	pub type BlockNumberFor<T> = <<<T as Config>::Block as crate::sp_runtime::traits::HeaderProvider>::HeaderT as crate::sp_runtime::traits::Header>::Number;
	pub type ExtrinsicFor<T> = <<T as Config>::Block as BlockT>::Extrinsic;
	pub type RuntimeCallFor<T> = <T as Config>::RuntimeCall;
}
use pallet_prelude::BlockNumberFor;
#[crate::frame_support::pallet]
pub mod pallet {
	use super::pallet_prelude::*;
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::{self, Parameter};
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: frame_support::traits::Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + Debug + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + crate::sp_runtime::traits::Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + 'static + frame_support::dispatch::GetDispatchInfo + frame_support::traits::UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + MaybeDisplay + crate::arith::AtLeast32Bit + Copy + MaxEncodedLen + Send + Sync;
		type Hash: crate::sp_runtime::traits::HashOutput;
		type Hashing: crate::sp_runtime::traits::Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: BlockT<Hash = Self::Hash>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
		type Version: Get<crate::sp_version::RuntimeVersion>;
		type PalletInfo: frame_support::traits::PalletInfo;
		type AccountData: Member + crate::codec::FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: frame_support::traits::OnNewAccount<Self::AccountId>;
		type OnKilledAccount: frame_support::traits::OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix;
		type OnSetCode: SetCode<Self>;
		type MaxConsumers: Get<u32>;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as Config>::RuntimeEvent>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: frame_support::dispatch::DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: frame_support::dispatch::DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
	}
	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, ConsumedWeight, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn event_count)]
	pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	/// What events belong to now.
	#[pallet::storage]
	pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub _config: PhantomData<T>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { _config: PhantomData }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			BlockHash::<T>::insert(BlockNumberFor::<T>::zero(), crate::codec::Decode::decode(&mut crate::misc::TrailingZeroInput::new(&[69u8; 32])).unwrap_or_else(|_: crate::codec::Error| T::Hash::default()));
			ParentHash::<T>::put(BlockHash::<T>::get(BlockNumberFor::<T>::zero()));
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in &items {
				crate::io::storage::set(k, v)
			}
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::zero())]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			let hash = <T::Hashing as crate::sp_runtime::traits::Hash>::hash(&remark[..]);
			Self::deposit_event(Event::<T>::Remarked { sender, hash });
			Ok(().into())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn initialize(n: &BlockNumberFor<T>, parent: &T::Hash, _d: &crate::sp_runtime::generic::Digest) {
		Number::<T>::put(*n);
		ParentHash::<T>::put(*parent);
		Self::set_phase(Phase::Initialization);
		if !n.is_zero() {
			BlockHash::<T>::insert(*n - One::one(), *parent);
		}
		Self::reset_events();
	}
	/// Deposits an event; none is recorded at the genesis block.
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		if Self::block_number().is_zero() {
			return
		}
		EventCount::<T>::mutate(|c| *c += 1);
		Events::<T>::append(EventRecord::<T::RuntimeEvent, T::Hash> { phase: ExecutionPhase::<T>::get().unwrap_or_default(), event: event.into(), topics: vec![] });
	}
	pub fn set_phase(p: Phase) {
		ExecutionPhase::<T>::put(p)
	}
	/// The end of a transaction, under its number; the next one follows.
	pub fn note_applied_extrinsic(r: &crate::sp_runtime::DispatchResult, dispatch_info: crate::frame_support::dispatch::DispatchInfo) {
		Self::deposit_event(match r {
			Ok(()) => Event::ExtrinsicSuccess { dispatch_info },
			Err(e) => Event::ExtrinsicFailed { dispatch_error: e.clone(), dispatch_info },
		});
		if let Some(Phase::ApplyExtrinsic(n)) = ExecutionPhase::<T>::get() {
			Self::set_phase(Phase::ApplyExtrinsic(n + 1));
		}
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		Events::<T>::get()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Events::<T>::get().into_iter().map(Box::new)
	}
	pub fn reset_events() {
		Events::<T>::kill();
		EventCount::<T>::kill();
	}
	pub fn assert_has_event(e: T::RuntimeEvent) {
		assert!(Self::events().iter().any(|r| r.event == e), "expected event {:?} not found in events {:?}", e, Self::events())
	}
	pub fn assert_last_event(e: T::RuntimeEvent) {
		assert_eq!(Self::events().last().expect("events expected").event, e)
	}
	pub fn account_nonce(who: impl crate::codec::EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl crate::codec::EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce = a.nonce + T::Nonce::one())
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	fn on_created_account(who: T::AccountId) {
		<T::OnNewAccount as crate::frame_support::traits::OnNewAccount<_>>::on_new_account(&who);
		Self::deposit_event(Event::NewAccount { account: who });
	}
	fn on_killed_account(who: T::AccountId) {
		<T::OnKilledAccount as crate::frame_support::traits::OnKilledAccount<_>>::on_killed_account(&who);
		Self::deposit_event(Event::KilledAccount { account: who });
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn reference_count(who: &T::AccountId) -> RefCount {
		let a = Account::<T>::get(who);
		a.consumers + a.providers + a.sufficients
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				Self::on_created_account(who.clone());
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |m| {
			if let Some(mut a) = m.take() {
				if a.providers == 0 {
					a.providers = 1;
				}
				match (a.providers, a.consumers, a.sufficients) {
					(1, 0, 0) => {
						Self::on_killed_account(who.clone());
						Ok(DecRefStatus::Reaped)
					},
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						a.providers = x - 1;
						*m = Some(a);
						Ok(DecRefStatus::Exists)
					},
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::on_created_account(who.clone());
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::get() {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				a.consumers = a.consumers.saturating_add(1);
				Ok(())
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.providers > 0 && a.consumers < T::MaxConsumers::get()
	}
	pub fn is_provider_required(who: &T::AccountId) -> bool {
		Account::<T>::get(who).consumers != 0
	}
	pub fn register_extra_weight_unchecked(_w: Weight, _c: DispatchClass) {}
	pub fn externalities() -> crate::io::TestExternalities {
		crate::io::TestExternalities::new_empty()
	}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some = if is_default { None } else { Some(account.data) };
		let r = f(&mut some)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(r)
	}
}
impl<T: Config> BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> Self::BlockNumber {
		Self::block_number()
	}
	fn set_block_number(n: Self::BlockNumber) {
		Self::set_block_number(n)
	}
}
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> {
	fn default() -> Self {
		ChainContext(PhantomData)
	}
}
impl<T: Config> Lookup for ChainContext<T> {
	type Source = <T::Lookup as StaticLookup>::Source;
	type Target = <T::Lookup as StaticLookup>::Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError> {
		<T::Lookup as StaticLookup>::lookup(s)
	}
}
pub trait DefaultHeader: HeaderT {}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(w) => Ok(w),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNone<A>(PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}

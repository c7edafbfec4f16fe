//! pallet_balances (the fungible model: free, reserved, frozen; frozen may exceed free).
use crate::arith::{CheckedAdd, CheckedSub, Saturating, Zero};
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::traits::fungible::{self, Inspect, InspectFreeze, Mutate, MutateFreeze};
use crate::frame_support::traits::tokens::{DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence};
use crate::frame_support::traits::{Currency, ExistenceRequirement, Get, LockIdentifier, LockableCurrency, ReservableCurrency, StoredMap, WithdrawReasons};
use crate::frame_support::BoundedVec;
use crate::frame_system::{self, pallet_prelude::OriginFor};
use crate::scale_info::TypeInfo;
use crate::sp_runtime::traits::StaticLookup;
use crate::sp_runtime::{ArithmeticError, DispatchError, DispatchResult, RuntimeDebug, TokenError};
pub use pallet::*;

#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: ExtraFlags,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct ExtraFlags(pub u128);
const NEW_LOGIC: u128 = 0x80000000_00000000_00000000_00000000;
impl Default for ExtraFlags {
	fn default() -> Self {
		ExtraFlags(NEW_LOGIC)
	}
}
impl<B: Copy + Saturating + Ord> AccountData<B> {
	pub fn total(&self) -> B {
		self.free.saturating_add(self.reserved)
	}
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub enum Reasons {
	Fee = 0,
	Misc = 1,
	All = 2,
}
impl From<WithdrawReasons> for Reasons {
	fn from(r: WithdrawReasons) -> Reasons {
		if r == WithdrawReasons::TRANSACTION_PAYMENT {
			Reasons::Fee
		} else if r.contains(WithdrawReasons::TRANSACTION_PAYMENT) {
			Reasons::All
		} else {
			Reasons::Misc
		}
	}
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> {
	pub id: LockIdentifier,
	pub amount: Balance,
	pub reasons: Reasons,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
pub use crate::weightinfos::pallet_balances::WeightInfo;
pub struct NegativeImbalance<T: Config>(pub T::Balance);
pub struct PositiveImbalance<T: Config>(pub T::Balance);
#[crate::frame_support::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::{self, Parameter};
	use crate::frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent> + Into<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
		type WeightInfo: super::WeightInfo;
		type Balance: Parameter + Member + crate::arith::AtLeast32BitUnsigned + crate::codec::FullCodec + crate::codec::HasCompact + Default + Copy + MaybeSerializeDeserialize + std::fmt::Debug + MaxEncodedLen + TypeInfo + crate::sp_runtime::FixedPointOperand;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxHolds: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Slashed { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Issued { amount: T::Balance },
		Rescinded { amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
	}
	#[pallet::storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>, ValueQuery>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { balances: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(T::Balance::zero(), |a, b| a + b.1);
			TotalIssuance::<T>::put(total);
			for (who, free) in self.balances.iter() {
				frame_system::Pallet::<T>::inc_providers(who);
				let a = AccountData { free: *free, ..Default::default() };
				let _ = T::AccountStore::try_mutate_exists(who, |x| -> Result<(), DispatchError> {
					*x = Some(a);
					Ok(())
				});
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = frame_system::ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = frame_system::ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let s = frame_system::ensure_signed(origin)?;
			let ka = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let v = <Self as Inspect<_>>::reducible_balance(&s, ka, Fortitude::Polite);
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, v, ka)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			frame_system::ensure_root(origin)?;
			let s = T::Lookup::lookup(source)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			frame_system::ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			<Self as Currency<_>>::make_free_balance_be(&w, new_free);
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn usable_balance_for_fees(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as Inspect<_>>::reducible_balance(who.borrow(), Preservation::Protect, Fortitude::Polite)
	}
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn ed() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	/// `try_mutate_account` of pallet_balances: keeps providers and consumers, reaps dust.
	pub fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
		let out = T::AccountStore::try_mutate_exists(who, |maybe| {
			let is_new = maybe.is_none();
			let mut account = maybe.take().unwrap_or_default();
			let did_provide = account.free >= Self::ed() && !is_new;
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let r = f(&mut account, is_new)?;
			let does_provide = account.free >= Self::ed();
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide {
				frame_system::Pallet::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				frame_system::Pallet::<T>::inc_consumers(who)?;
			}
			if did_provide && !does_provide {
				if let Err(e) = frame_system::Pallet::<T>::dec_providers(who) {
					if did_consume && !does_consume {
						let _ = frame_system::Pallet::<T>::inc_consumers(who);
					}
					if !did_consume && does_consume {
						let _ = frame_system::Pallet::<T>::dec_consumers(who);
					}
					return Err(e.into())
				}
			}
			let endowed = if is_new { Some(account.free) } else { None };
			let dust = if account.free < Self::ed() && account.reserved.is_zero() {
				if account.free.is_zero() {
					None
				} else {
					Some(account.free)
				}
			} else {
				// preserve
				*maybe = Some(account);
				return Ok((endowed, None, r))
			};
			Ok((endowed, dust, r))
		});
		out.map(|(endowed, dust, r)| {
			if let Some(e) = endowed {
				Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e });
			}
			if let Some(d) = dust {
				TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(d));
				Self::deposit_event(Event::DustLost { account: who.clone(), amount: d });
			}
			r
		})
	}
	fn update_frozen(who: &T::AccountId, frozen: T::Balance) -> DispatchResult {
		let before = Self::account(who).frozen;
		Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.frozen = frozen;
			Ok(())
		})?;
		if before > frozen {
			Self::deposit_event(Event::Thawed { who: who.clone(), amount: before - frozen });
		} else if frozen > before {
			Self::deposit_event(Event::Frozen { who: who.clone(), amount: frozen - before });
		}
		Ok(())
	}
	fn compute_frozen(locks: &[BalanceLock<T::Balance>], freezes: &[IdAmount<T::FreezeIdentifier, T::Balance>]) -> T::Balance {
		locks.iter().map(|l| l.amount).chain(freezes.iter().map(|f| f.amount)).fold(T::Balance::zero(), |a, b| a.max(b))
	}
	fn update_locks(who: &T::AccountId, locks: Vec<BalanceLock<T::Balance>>) {
		let (b, a0) = (Self::account(who).frozen, Self::compute_frozen(&locks, &Freezes::<T>::get(who)));
		let _ = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.frozen = a0;
			Ok(())
		});
		let existed = Locks::<T>::contains_key(who);
		if locks.is_empty() {
			Locks::<T>::remove(who);
			if existed {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
		} else {
			Locks::<T>::insert(who, locks);
			if !existed {
				let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(who);
			}
		}
		if b > a0 {
			Self::deposit_event(Event::Unlocked { who: who.clone(), amount: b - a0 });
		} else if a0 > b {
			Self::deposit_event(Event::Locked { who: who.clone(), amount: a0 - b });
		}
	}
}
impl<T: Config> Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		Self::ed()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).total()
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = T::Balance::zero();
		if f == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if p == Preservation::Preserve || p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1 || p == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who) {
			untouchable = untouchable.max(Self::ed());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success
		}
		if p == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow
		}
		let a = Self::account(who);
		match a.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < Self::ed() => return DepositConsequence::BelowMinimum,
			_ => {},
		}
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_sub(&amount) {
			None => return WithdrawConsequence::BalanceLow,
			Some(x) => x,
		};
		let liquid = Self::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen
		}
		let success = if new_free < Self::ed() {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie
			}
		} else {
			WithdrawConsequence::Success
		};
		if new_free.saturating_add(a.reserved) < a.frozen {
			return WithdrawConsequence::Frozen
		}
		success
	}
}
impl<T: Config> Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(who: &T::AccountId, a: T::Balance) -> Result<T::Balance, DispatchError> {
		let n = TotalIssuance::<T>::get().checked_add(&a).ok_or(ArithmeticError::Overflow)?;
		Self::can_deposit(who, a, Provenance::Minted).into_result()?;
		Self::try_mutate_account(who, |x, _| -> DispatchResult {
			x.free = x.free.checked_add(&a).ok_or(ArithmeticError::Overflow)?;
			Ok(())
		})?;
		TotalIssuance::<T>::put(n);
		Self::deposit_event(Event::Minted { who: who.clone(), amount: a });
		Ok(a)
	}
	fn burn_from(who: &T::AccountId, amount: T::Balance, p: Precision, f: Fortitude) -> Result<T::Balance, DispatchError> {
		let actual = Self::reducible_balance(who, Preservation::Expendable, f).min(amount);
		if actual != amount && p == Precision::Exact {
			return Err(TokenError::FundsUnavailable.into())
		}
		Self::try_mutate_account(who, |x, _| -> DispatchResult {
			x.free = x.free.checked_sub(&actual).ok_or(TokenError::FundsUnavailable)?;
			Ok(())
		})?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(actual));
		Self::deposit_event(Event::Burned { who: who.clone(), amount: actual });
		Ok(actual)
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, amount: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
		let keep = p != Preservation::Expendable;
		let _extra = Self::can_withdraw(s, amount).into_result(keep)?;
		Self::can_deposit(d, amount, Provenance::Extant).into_result()?;
		if s == d {
			return Ok(amount)
		}
		// decrease
		let liquid = Self::reducible_balance(s, p, Fortitude::Polite);
		if amount > liquid {
			return Err(if Self::account(s).free >= amount && p != Preservation::Expendable { TokenError::NotExpendable.into() } else { TokenError::FundsUnavailable.into() })
		}
		Self::try_mutate_account(s, |x, _| -> DispatchResult {
			x.free = x.free.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			Ok(())
		})?;
		Self::try_mutate_account(d, |x, _| -> DispatchResult {
			x.free = x.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			Ok(())
		})?;
		Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount });
		Ok(amount)
	}
	fn set_balance(who: &T::AccountId, a: T::Balance) -> T::Balance {
		<Self as Currency<_>>::make_free_balance_be(who, a);
		Self::account(who).free
	}
}
impl<T: Config> InspectFreeze<T::AccountId> for Pallet<T> {
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T>::get(who).iter().find(|x| &x.id == id).map_or_else(T::Balance::zero, |x| x.amount)
	}
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool {
		let l = Freezes::<T>::get(who);
		(l.len() as u32) < T::MaxFreezes::get() || l.iter().any(|x| &x.id == id)
	}
}
impl<T: Config> Pallet<T> {
	fn update_freezes(who: &T::AccountId, f: BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>) -> DispatchResult {
		let n = Self::compute_frozen(&Locks::<T>::get(who), &f);
		Self::update_frozen(who, n)?;
		if f.is_empty() {
			Freezes::<T>::remove(who);
		} else {
			Freezes::<T>::insert(who, f);
		}
		Ok(())
	}
}
impl<T: Config> MutateFreeze<T::AccountId> for Pallet<T> {
	fn set_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Self::thaw(id, who)
		}
		let mut l = Freezes::<T>::get(who);
		if let Some(i) = l.iter_mut().find(|x| &x.id == id) {
			i.amount = amount;
		} else {
			l.try_push(IdAmount { id: id.clone(), amount }).map_err(|_| Error::<T>::TooManyFreezes)?;
		}
		Self::update_freezes(who, l)
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(())
		}
		let mut l = Freezes::<T>::get(who);
		if let Some(i) = l.iter_mut().find(|x| &x.id == id) {
			i.amount = i.amount.max(amount);
		} else {
			l.try_push(IdAmount { id: id.clone(), amount }).map_err(|_| Error::<T>::TooManyFreezes)?;
		}
		Self::update_freezes(who, l)
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut l = Freezes::<T>::get(who);
		l.retain(|x| &x.id != id);
		Self::update_freezes(who, l)
	}
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).total()
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		Self::ed()
	}
	fn transfer(from: &T::AccountId, to: &T::AccountId, v: T::Balance, r: ExistenceRequirement) -> DispatchResult {
		if v.is_zero() || from == to {
			return Ok(())
		}
		<Self as Mutate<_>>::transfer(from, to, v, if r == ExistenceRequirement::KeepAlive { Preservation::Preserve } else { Preservation::Expendable })?;
		Ok(())
	}
	fn make_free_balance_be(who: &T::AccountId, v: T::Balance) {
		let old = Self::account(who).free;
		if v < Self::ed() && Self::account(who).total().is_zero() {
			return
		}
		if Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.free = v;
			Ok(())
		})
		.is_ok()
		{
			TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(v).saturating_sub(old));
			Self::deposit_event(Event::BalanceSet { who: who.clone(), free: v });
		}
	}
	fn deposit_creating_(who: &T::AccountId, v: T::Balance) {
		if v.is_zero() {
			return
		}
		let ok = Self::try_mutate_account(who, |a, is_new| -> DispatchResult {
			if is_new && v < Self::ed() {
				return Err(TokenError::BelowMinimum.into())
			}
			a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			Ok(())
		});
		if ok.is_ok() {
			TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(v));
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
		}
	}
}
impl<T: Config> Pallet<T> {
	/// `Currency::withdraw`: takes `v` from the free balance.
	pub fn withdraw(who: &T::AccountId, v: T::Balance, keep_alive: bool) -> DispatchResult {
		if v.is_zero() {
			return Ok(())
		}
		Self::try_mutate_account(who, |a, _| -> DispatchResult {
			let n = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			let dead = n < Self::ed();
			if dead && keep_alive && a.free >= Self::ed() {
				return Err(Error::<T>::Expendability.into())
			}
			if n < a.frozen.saturating_sub(a.reserved) {
				return Err(Error::<T>::LiquidityRestrictions.into())
			}
			a.free = n;
			Ok(())
		})?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(v));
		Self::deposit_event(Event::Withdraw { who: who.clone(), amount: v });
		Ok(())
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool {
		v.is_zero() || Self::account(who).free.checked_sub(&v).map_or(false, |n| n >= Self::account(who).frozen)
	}
	fn reserved_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() {
			return Ok(())
		}
		Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.free = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			if a.free < Self::ed() {
				return Err(Error::<T>::InsufficientBalance.into())
			}
			Ok(())
		})?;
		Self::deposit_event(Event::Reserved { who: who.clone(), amount: v });
		Ok(())
	}
	fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance {
		let actual = Self::account(who).reserved.min(v);
		let _ = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.reserved -= actual;
			a.free = a.free.saturating_add(actual);
			Ok(())
		});
		Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
		v - actual
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, r: WithdrawReasons) {
		if r.is_empty() || amount.is_zero() {
			return Self::remove_lock(id, who)
		}
		let new = BalanceLock { id, amount, reasons: r.into() };
		let mut l = Locks::<T>::get(who);
		match l.iter_mut().find(|x| x.id == id) {
			Some(x) => *x = new,
			None => l.push(new),
		}
		Self::update_locks(who, l);
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, r: WithdrawReasons) {
		let cur = Locks::<T>::get(who).iter().find(|x| x.id == id).map_or_else(T::Balance::zero, |x| x.amount);
		Self::set_lock(id, who, cur.max(amount), r)
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let mut l = Locks::<T>::get(who);
		l.retain(|x| x.id != id);
		Self::update_locks(who, l);
	}
}
#[allow(unused)]
fn _u<T: Config>(_: OriginFor<T>) {}

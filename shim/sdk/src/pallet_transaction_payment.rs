//! pallet_transaction_payment
use crate::arith::{FixedU128, One, SaturatedConversion, Saturating, Zero};
use crate::codec::{Decode, Encode};
use crate::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo};
use crate::frame_support::traits::{Get, OnUnbalanced};
use crate::frame_support::weights::{Weight, WeightToFee as WeightToFeeT};
use crate::frame_system::{self};
use crate::scale_info::TypeInfo;
use crate::sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf};
use crate::sp_runtime::transaction_validity::{InvalidTransaction, TransactionPriority, TransactionValidityError};
use crate::sp_runtime::{DispatchResult, FixedPointOperand};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
pub use pallet::*;
pub type Multiplier = FixedU128;
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub type LiquidityInfoOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InclusionFee<Balance> {
	pub base_fee: Balance,
	pub len_fee: Balance,
	pub adjusted_weight_fee: Balance,
}
impl<B: Saturating + Copy> InclusionFee<B> {
	pub fn inclusion_fee(&self) -> B {
		self.base_fee.saturating_add(self.len_fee).saturating_add(self.adjusted_weight_fee)
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FeeDetails<Balance> {
	pub inclusion_fee: Option<InclusionFee<Balance>>,
	#[serde(skip)]
	pub tip: Balance,
}
impl<B: Saturating + Zero + Copy> FeeDetails<B> {
	pub fn final_fee(&self) -> B {
		self.inclusion_fee.as_ref().map(|i| i.inclusion_fee()).unwrap_or_else(B::zero).saturating_add(self.tip)
	}
}
pub trait OnChargeTransaction<T: Config> {
	type Balance: crate::arith::AtLeast32BitUnsigned + crate::codec::FullCodec + Copy + std::fmt::Debug + Default + TypeInfo + FixedPointOperand + Send + Sync + From<u64> + crate::codec::HasCompact + crate::codec::EncodeLike + Eq + 'static;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(who: &T::AccountId, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, corrected: Self::Balance, tip: Self::Balance, already: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
/// Charges the balance of `C`; refunds the difference afterwards.
impl<T, OU> OnChargeTransaction<T> for CurrencyAdapter<crate::pallet_balances::Pallet<T>, OU>
where
	T: Config + crate::pallet_balances::Config,
	T::Balance: From<u64>,
	OU: OnUnbalanced<()>,
{
	type Balance = T::Balance;
	type LiquidityInfo = Option<T::Balance>;
	fn withdraw_fee(who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, fee: T::Balance, _tip: T::Balance) -> Result<Option<T::Balance>, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None)
		}
		crate::pallet_balances::Pallet::<T>::withdraw(who, fee, true).map(|_| Some(fee)).map_err(|_| InvalidTransaction::Payment.into())
	}
	fn correct_and_deposit_fee(who: &T::AccountId, _i: &DispatchInfoOf<T::RuntimeCall>, _p: &PostDispatchInfoOf<T::RuntimeCall>, corrected: T::Balance, _tip: T::Balance, already: Option<T::Balance>) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already {
			let refund = paid.saturating_sub(corrected);
			if !refund.is_zero() && !<crate::pallet_balances::Pallet<T> as crate::frame_support::traits::Currency<_>>::total_balance(who).is_zero() {
				<crate::pallet_balances::Pallet<T> as crate::frame_support::traits::Currency<_>>::deposit_creating_(who, refund);
			}
		}
		Ok(())
	}
}
#[crate::frame_support::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_support;
	use crate::frame_support::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent> + Into<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFeeT<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFeeT<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::type_value]
	pub fn NextFeeMultiplierOnEmpty() -> Multiplier {
		Multiplier::one()
	}
	#[pallet::storage]
	#[pallet::getter(fn next_fee_multiplier)]
	pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, NextFeeMultiplierOnEmpty>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> },
	}
}
impl<T: Config> Pallet<T> {
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> {
		let cap = T::BlockWeights::get().max_block;
		T::WeightToFee::weight_to_fee(&w.min(cap))
	}
	pub fn length_to_fee(len: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0))
	}
	fn raw(len: u32, w: Weight, tip: BalanceOf<T>, pays: Pays, class: crate::frame_support::dispatch::DispatchClass) -> FeeDetails<BalanceOf<T>> {
		if pays == Pays::No {
			return FeeDetails { inclusion_fee: None, tip }
		}
		let unadjusted = Self::weight_to_fee(w);
		let adjusted = Self::next_fee_multiplier().saturating_mul_int(unadjusted);
		let base = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
		FeeDetails { inclusion_fee: Some(InclusionFee { base_fee: base, len_fee: Self::length_to_fee(len), adjusted_weight_fee: adjusted }), tip }
	}
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::raw(len, info.weight, tip, info.pays_fee, info.class).final_fee()
	}
	pub fn compute_fee_details(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> FeeDetails<BalanceOf<T>>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::raw(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class).final_fee()
	}
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct ChargeTransactionPayment<T: Config>(PhantomData<T>);
impl<T: Config> ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, len: usize, tip: BalanceOf<T>, _fee: BalanceOf<T>) -> TransactionPriority {
		let limits = T::BlockWeights::get();
		let max_w = limits.get(info.class).max_total.unwrap_or(limits.max_block);
		let max_l = *T::BlockLength::get().max.get(info.class) as u64;
		let w = info.weight.ref_time().clamp(1, max_w.ref_time().max(1));
		let l = (len as u64).clamp(1, max_l.max(1));
		let per = (max_w.ref_time() / w).min(max_l / l).max(1);
		tip.saturating_add(One::one()).saturating_mul(per.saturated_into::<u64>().into()).saturated_into::<u64>()
	}
	pub fn post_dispatch(pre: Option<(BalanceOf<T>, T::AccountId, LiquidityInfoOf<T>)>, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imb)) = pre {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual, tip, imb)?;
			Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee: actual, tip });
		}
		Ok(())
	}
}
#[allow(unused)]
fn _u<T: GetDispatchInfo>() {}

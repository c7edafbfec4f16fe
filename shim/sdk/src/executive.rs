//! frame_executive: transactions in the order a node applies them, and the extensions of frame_system.
use crate::arith::Zero;
use crate::codec::{Codec, Decode, Encode};
use crate::frame_support::dispatch::{DispatchClass, DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use crate::frame_support::traits::{Get, OffchainWorker, OnFinalize, OnInitialize, OnRuntimeUpgrade};
use crate::frame_support::weights::Weight;
use crate::frame_system::{self, pallet_prelude::BlockNumberFor};
use crate::scale_info::TypeInfo;
use crate::sp_runtime::generic::{Era, UncheckedExtrinsic};
use crate::sp_runtime::traits::{Block as BlockT, DispatchInfoOf, Dispatchable, IdentifyAccount, Lookup, SignedExtension, ValidateUnsigned, Verify};
use crate::sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction};
use crate::sp_runtime::{ApplyExtrinsicResult, DispatchResult};
use std::fmt::Debug;
use std::marker::PhantomData;

macro_rules! ext {
	($name:ident, $id:literal $(, $field:ty)?) => {
		#[derive(Encode, Decode, TypeInfo)]
		#[scale_info(skip_type_params(T))]
		pub struct $name<T: frame_system::Config>($(pub $field,)? pub PhantomData<T>);
		impl<T: frame_system::Config> Debug for $name<T> {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str($id) }
		}
	};
}
macro_rules! plain {
	($($name:ident)*) => {$(
		impl<T: frame_system::Config> Clone for $name<T> { fn clone(&self) -> Self { $name(PhantomData) } }
		impl<T: frame_system::Config> PartialEq for $name<T> { fn eq(&self, _: &Self) -> bool { true } }
		impl<T: frame_system::Config> Eq for $name<T> {}
		impl<T: frame_system::Config> Default for $name<T> { fn default() -> Self { $name(PhantomData) } }
		impl<T: frame_system::Config> $name<T> { pub fn new() -> Self { $name(PhantomData) } }
	)*};
}
ext!(CheckNonZeroSender, "CheckNonZeroSender");
ext!(CheckSpecVersion, "CheckSpecVersion");
ext!(CheckTxVersion, "CheckTxVersion");
ext!(CheckGenesis, "CheckGenesis");
ext!(CheckWeight, "CheckWeight");
ext!(CheckEra, "CheckMortality", Era);
plain!(CheckNonZeroSender CheckSpecVersion CheckTxVersion CheckGenesis CheckWeight);
impl<T: frame_system::Config> Clone for CheckEra<T> {
	fn clone(&self) -> Self {
		CheckEra(self.0, PhantomData)
	}
}
impl<T: frame_system::Config> PartialEq for CheckEra<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: frame_system::Config> Eq for CheckEra<T> {}
impl<T: frame_system::Config> CheckEra<T> {
	pub fn from(e: Era) -> Self {
		CheckEra(e, PhantomData)
	}
}
macro_rules! additional {
	($name:ident, $ty:ty, $e:expr) => {
		impl<T: frame_system::Config + Send + Sync> SignedExtension for $name<T>
		where
			T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
		{
			const IDENTIFIER: &'static str = stringify!($name);
			type AccountId = T::AccountId;
			type Call = T::RuntimeCall;
			type AdditionalSigned = $ty;
			type Pre = ();
			fn additional_signed(&self) -> Result<$ty, TransactionValidityError> {
				Ok($e)
			}
			fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(), TransactionValidityError> {
				self.validate(who, call, info, len).map(|_| ())
			}
		}
	};
}
additional!(CheckSpecVersion, u32, <T::Version as Get<crate::sp_version::RuntimeVersion>>::get().spec_version);
additional!(CheckTxVersion, u32, <T::Version as Get<crate::sp_version::RuntimeVersion>>::get().transaction_version);
additional!(CheckGenesis, T::Hash, frame_system::BlockHash::<T>::get(BlockNumberFor::<T>::zero()));
// only immortal transactions are built here
additional!(CheckEra, T::Hash, frame_system::BlockHash::<T>::get(BlockNumberFor::<T>::zero()));
impl<T: frame_system::Config + Send + Sync> SignedExtension for CheckNonZeroSender<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
{
	const IDENTIFIER: &'static str = "CheckNonZeroSender";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> TransactionValidity {
		if who.encode().iter().all(|b| *b == 0) {
			return Err(InvalidTransaction::BadSigner.into())
		}
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(), TransactionValidityError> {
		self.validate(who, call, info, len).map(|_| ())
	}
}
impl<T: frame_system::Config> CheckWeight<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	fn limits(info: &DispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		if T::BlockWeights::get().get(info.class).max_extrinsic.map_or(false, |m| info.weight.any_gt(m)) || len as u32 > *T::BlockLength::get().max.get(info.class) {
			return Err(InvalidTransaction::ExhaustsResources.into())
		}
		Ok(())
	}
	fn add(info: &DispatchInfo) -> Result<(), TransactionValidityError> {
		let l = T::BlockWeights::get();
		let c = l.get(info.class);
		frame_system::BlockWeight::<T>::mutate(|w| {
			let here = w.get(info.class).saturating_add(info.weight).saturating_add(c.base_extrinsic);
			if c.max_total.map_or(false, |m| here.any_gt(m)) {
				return Err(InvalidTransaction::ExhaustsResources.into())
			}
			*w.get_mut(info.class) = here;
			Ok(())
		})
	}
}
impl<T: frame_system::Config + Send + Sync> SignedExtension for CheckWeight<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "CheckWeight";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, _: &T::AccountId, _: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> TransactionValidity {
		Self::limits(info, len).map(|_| ValidTransaction::default())
	}
	fn pre_dispatch(self, _: &T::AccountId, _: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		Self::limits(info, len)?;
		Self::add(info)
	}
	fn validate_unsigned(_: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> TransactionValidity {
		Self::limits(info, len).map(|_| ValidTransaction::default())
	}
	fn pre_dispatch_unsigned(_: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
		Self::limits(info, len)?;
		Self::add(info)
	}
	fn post_dispatch(_: Option<()>, info: &DispatchInfo, post: &PostDispatchInfo, _: usize, _: &DispatchResult) -> Result<(), TransactionValidityError> {
		let unspent = post.calc_unspent(info);
		frame_system::BlockWeight::<T>::mutate(|w| {
			let x = w.get(info.class).saturating_sub(unspent);
			*w.get_mut(info.class) = x;
		});
		Ok(())
	}
}
/// What is signed of a transaction.
pub fn payload<C: Encode, E: SignedExtension>(call: &C, extra: &E) -> Result<Vec<u8>, TransactionValidityError> {
	let b = (call.encode(), extra.encode(), extra.additional_signed()?.encode());
	let b = [b.0, b.1, b.2].concat();
	Ok(if b.len() > 256 { crate::sp_core::hashing::blake2_256(&b).to_vec() } else { b })
}
/// A transaction that can be checked: its signer (if signed), call and extensions.
pub trait Transaction<T: frame_system::Config>: Codec {
	type Extra: SignedExtension<AccountId = T::AccountId, Call = T::RuntimeCall>;
	fn check(self) -> Result<(Option<(T::AccountId, Self::Extra)>, T::RuntimeCall), TransactionValidityError>;
	fn call(&self) -> &T::RuntimeCall;
}
impl<T, Address, Signature, Extra> Transaction<T> for UncheckedExtrinsic<Address, T::RuntimeCall, Signature, Extra>
where
	T: frame_system::Config,
	T::RuntimeCall: Dispatchable + Codec,
	frame_system::ChainContext<T>: Lookup<Source = Address, Target = T::AccountId>,
	Address: Codec,
	Signature: Codec + Verify,
	<Signature as Verify>::Signer: IdentifyAccount<AccountId = T::AccountId>,
	Extra: SignedExtension<AccountId = T::AccountId, Call = T::RuntimeCall>,
{
	type Extra = Extra;
	fn check(self) -> Result<(Option<(T::AccountId, Extra)>, T::RuntimeCall), TransactionValidityError> {
		match self.signature {
			Some((a, sig, extra)) => {
				let who = frame_system::ChainContext::<T>::default().lookup(a).map_err(|_| TransactionValidityError::Unknown(UnknownTransaction::CannotLookup))?;
				let p = payload(&self.function, &extra)?;
				if !sig.verify(&p[..], &who) {
					return Err(InvalidTransaction::BadProof.into())
				}
				Ok((Some((who, extra)), self.function))
			},
			None => Ok((None, self.function)),
		}
	}
	fn call(&self) -> &T::RuntimeCall {
		&self.function
	}
}
pub struct Executive<System, Block, Context, UnsignedValidator, AllPallets, OnUpgrade = ()>(PhantomData<(System, Block, Context, UnsignedValidator, AllPallets, OnUpgrade)>);
impl<T, Block, Context, Unsigned, All, Upgrade> Executive<T, Block, Context, Unsigned, All, Upgrade>
where
	T: frame_system::Config<Block = Block>,
	Block: BlockT,
	Block::Extrinsic: Transaction<T>,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> + GetDispatchInfo,
	<T::RuntimeCall as Dispatchable>::RuntimeOrigin: From<Option<T::AccountId>>,
	Unsigned: ValidateUnsigned<Call = T::RuntimeCall>,
	All: OnInitialize<BlockNumberFor<T>> + OnFinalize<BlockNumberFor<T>> + OnRuntimeUpgrade + OffchainWorker<BlockNumberFor<T>>,
	Upgrade: OnRuntimeUpgrade,
{
	/// Migrations run before the pallets' own.
	pub fn execute_on_runtime_upgrade() -> Weight {
		Upgrade::on_runtime_upgrade().saturating_add(All::on_runtime_upgrade())
	}
	pub fn initialize_block(n: BlockNumberFor<T>, parent: T::Hash) {
		frame_system::Pallet::<T>::initialize(&n, &parent, &Default::default());
		frame_system::BlockWeight::<T>::kill();
		let w = All::on_initialize(n).saturating_add(T::BlockWeights::get().base_block);
		frame_system::BlockWeight::<T>::mutate(|x| *x.get_mut(DispatchClass::Mandatory) = w);
		frame_system::Pallet::<T>::set_phase(frame_system::Phase::ApplyExtrinsic(0));
	}
	pub fn finalize_block() {
		frame_system::Pallet::<T>::set_phase(frame_system::Phase::Finalization);
		All::on_finalize(frame_system::Pallet::<T>::block_number())
	}
	pub fn offchain_worker(n: BlockNumberFor<T>) {
		All::offchain_worker(n)
	}
	/// Validates for the pool; nothing it does to the state stays.
	pub fn validate_transaction(source: TransactionSource, xt: Block::Extrinsic) -> TransactionValidity {
		let len = xt.encoded_size();
		let mut out = Err(UnknownTransaction::CannotLookup.into());
		let _: Result<(), ()> = crate::io::with_transaction_result(|| {
			out = (|| {
				let (signed, call) = xt.check()?;
				let info = call.get_dispatch_info();
				if info.class == DispatchClass::Mandatory {
					return Err(InvalidTransaction::MandatoryValidation.into())
				}
				match signed {
					Some((who, extra)) => extra.validate(&who, &call, &info, len),
					None => {
						let a = <Block::Extrinsic as Transaction<T>>::Extra::validate_unsigned(&call, &info, len)?;
						Ok(a.combine_with(Unsigned::validate_unsigned(source, &call)?))
					},
				}
			})();
			Err(())
		});
		out
	}
	/// Applies a transaction as a block author does: what an invalid one did to the state is undone.
	pub fn apply_extrinsic(xt: Block::Extrinsic) -> ApplyExtrinsicResult {
		let len = xt.encoded_size();
		crate::io::with_transaction_result(|| {
			let (signed, call) = xt.check()?;
			let info = call.get_dispatch_info();
			let (who, pre) = match signed {
				Some((who, extra)) => {
					let pre = extra.pre_dispatch(&who, &call, &info, len)?;
					(Some(who), Some(pre))
				},
				None => {
					<Block::Extrinsic as Transaction<T>>::Extra::pre_dispatch_unsigned(&call, &info, len)?;
					Unsigned::pre_dispatch(&call)?;
					(None, None)
				},
			};
			let r = call.dispatch(<T::RuntimeCall as Dispatchable>::RuntimeOrigin::from(who));
			let post = match &r {
				Ok(p) => *p,
				Err(e) => e.post_info,
			};
			let outcome: DispatchResult = r.map(|_| ()).map_err(|e| e.error);
			<Block::Extrinsic as Transaction<T>>::Extra::post_dispatch(pre, &info, &post, len, &outcome)?;
			if outcome.is_err() && info.class == DispatchClass::Mandatory {
				return Err(InvalidTransaction::BadMandatory.into())
			}
			frame_system::Pallet::<T>::note_applied_extrinsic(&outcome, info);
			Ok(outcome)
		})
	}
}

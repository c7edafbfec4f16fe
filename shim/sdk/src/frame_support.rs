//! frame_support
pub mod bounded;
pub mod dispatch;
pub mod storage;
pub mod traits;
pub mod weights;
pub use bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::codec::{self, MaxEncodedLen};
pub use crate::frame_support::storage::{storage_prefix, Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, ReversibleStorageHasher, StorageHasher, Twox128, Twox256, Twox64Concat};
pub use crate::frame_support::storage::types::{CountedStorageMap, StorageDoubleMap, StorageMap, StorageNMap, StorageValue};
pub use crate::sp_runtime::{print, ConsensusEngineId};
pub use crate::{assert_err, assert_err_ignore_postinfo, assert_err_with_weight, assert_noop, assert_ok, assert_storage_noop, bounded_btree_map, bounded_btree_set, bounded_vec, defensive, defensive_assert, ensure, fail};
pub use crate::{io as sp_io, misc::sp_std, scale_info, sp_core, sp_runtime};
pub use crate::arith as sp_arithmetic;
pub use sdk_macros::{construct_runtime, pallet, parameter_types, storage_alias, transactional, passthrough as require_transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
pub use log;
pub use serde;

use crate::codec::{Codec, Decode, Encode, EncodeLike};
use crate::scale_info::TypeInfo;
pub mod __private {
	pub use crate::codec;
	pub use crate::{log, scale_info, serde};
}
pub trait Parameter: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + TypeInfo> Parameter for T {}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)]
pub enum Never {}
pub type Void = Never;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct PalletId(pub [u8; 8]);
pub mod error {
	pub use crate::sp_runtime::traits::{BadOrigin, LookupError};
}
pub mod unsigned {
	pub use crate::sp_runtime::traits::ValidateUnsigned;
	pub use crate::sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction};
}
pub mod pallet_prelude {
	pub use super::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use super::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
	pub use super::storage::types::{CountedStorageMap, Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery};
	pub use super::storage::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat};
	pub use super::traits::{BuildGenesisConfig, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstBool, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInstance, StorageVersion, TypedGet};
	pub use super::weights::Weight;
	pub use super::{assert_ok, bounded_vec, ensure, fail, storage, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
	pub use crate::codec::{Decode, Encode, MaxEncodedLen};
	pub use crate::scale_info::TypeInfo;
	pub use crate::sp_runtime::traits::{MaybeDisplay, MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use crate::sp_runtime::transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction};
	pub use std::marker::PhantomData;
}
pub mod genesis_builder_helper {
	pub fn build_config() {}
	pub fn create_default_config() {}
}
pub mod instances {}
pub mod inherent {
	pub type InherentIdentifier = [u8; 8];
}
#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			return Err(::core::convert::Into::into($y))
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err(::core::convert::Into::into($y))
	}};
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => {};
}
#[macro_export]
macro_rules! defensive_assert {
	($c:expr $(, $($t:tt)*)?) => {{
		let _ = $c;
	}};
}
#[macro_export]
macro_rules! bounded_btree_set {
	($($k:expr),* $(,)?) => { $crate::frame_support::BoundedBTreeSet::try_from([$($k),*].into_iter().collect::<std::collections::BTreeSet<_>>()).expect("bound") };
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {{
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	}};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y))
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err(::core::convert::Into::into($y)))
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x.map(|_| ()).map_err(|e| e.error), Err(::core::convert::Into::into($y)))
	};
}
#[macro_export]
macro_rules! assert_err_with_weight {
	($call:expr, $err:expr, $weight:expr $(,)?) => {
		if let Err(dispatch_err) = $call {
			let e: $crate::sp_runtime::DispatchError = $err.into();
			assert_eq!(dispatch_err.error, e);
			assert_eq!(dispatch_err.post_info.actual_weight, $weight);
		} else {
			panic!("expected Err(_), got Ok(_).")
		}
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr) => {{
		let h = $crate::io::snapshot();
		$x;
		assert_eq!(h, $crate::io::snapshot(), "storage has been mutated");
	}};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {{
		let h = $crate::io::snapshot();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::io::snapshot(), "storage has been mutated");
	}};
}
#[macro_export]
macro_rules! bounded_vec {
	($($x:expr),* $(,)?) => { $crate::frame_support::BoundedVec::try_from(vec![$($x),*]).expect("bound") };
	($x:expr; $n:expr) => { $crate::frame_support::BoundedVec::try_from(vec![$x; $n]).expect("bound") };
}
#[macro_export]
macro_rules! bounded_btree_map {
	($($k:expr => $v:expr),* $(,)?) => { $crate::frame_support::BoundedBTreeMap::try_from([$(($k, $v)),*].into_iter().collect::<std::collections::BTreeMap<_, _>>()).expect("bound") };
}

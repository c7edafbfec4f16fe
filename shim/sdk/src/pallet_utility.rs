//! pallet_utility: batches.
use crate::frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
use crate::frame_support::traits::{IsSubType, OriginTrait, UnfilteredDispatchable};
use crate::frame_support::weights::Weight;
use crate::frame_system;
use crate::sp_runtime::traits::Dispatchable;
use crate::sp_runtime::{DispatchError, DispatchResult};
pub use pallet::*;
pub use crate::weightinfos::pallet_utility::WeightInfo;
#[crate::frame_support::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::{self, Parameter};
	use crate::frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent> + Into<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin;
		type WeightInfo;
	}
	#[pallet::event]
	pub enum Event {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		BatchCompletedWithErrors,
		ItemCompleted,
		ItemFailed { error: DispatchError },
		DispatchedAs { result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooManyCalls,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(sum::<T>(calls))]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let is_root = frame_system::ensure_root(origin.clone()).is_ok();
			for (i, c) in calls.into_iter().enumerate() {
				let r = if is_root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) };
				if let Err(e) = r {
					Self::dep(Event::BatchInterrupted { index: i as u32, error: e.error });
					return Ok(().into())
				}
				Self::dep(Event::ItemCompleted);
			}
			Self::dep(Event::BatchCompleted);
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight({ let i = call.get_dispatch_info(); (i.weight, i.class) })]
		pub fn as_derivative(origin: OriginFor<T>, index: u16, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let mut origin = origin;
			let who = frame_system::ensure_signed(origin.clone())?;
			let b = (b"modlpy/utilisuba", who, index).using_encoded(crate::sp_core::hashing::blake2_256);
			let p = <T::AccountId as crate::codec::Decode>::decode(&mut crate::misc::TrailingZeroInput::new(&b)).expect("an account");
			origin.set_caller_from(frame_system::RawOrigin::Signed(p));
			call.dispatch(origin)
		}
		#[pallet::call_index(2)]
		#[pallet::weight(sum::<T>(calls))]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if frame_system::ensure_none(origin.clone()).is_ok() {
				return Err(crate::sp_runtime::traits::BadOrigin.into())
			}
			let is_root = frame_system::ensure_root(origin.clone()).is_ok();
			for c in calls {
				if is_root {
					c.dispatch_bypass_filter(origin.clone())?;
				} else {
					let mut o = origin.clone();
					o.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
						let c = <<T as Config>::RuntimeCall as IsType<_>>::from_ref(c);
						!matches!(c.is_sub_type(), Some(Call::batch_all { .. }))
					});
					c.dispatch(o)?;
				}
				Self::dep(Event::ItemCompleted);
			}
			Self::dep(Event::BatchCompleted);
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::zero())]
		pub fn dispatch_as(origin: OriginFor<T>, as_origin: Box<u8>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			frame_system::ensure_root(origin)?;
			let _ = (as_origin, call);
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(sum::<T>(calls))]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let is_root = frame_system::ensure_root(origin.clone()).is_ok();
			let mut bad = false;
			for c in calls {
				let r = if is_root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) };
				match r {
					Ok(_) => Self::dep(Event::ItemCompleted),
					Err(e) => {
						bad = true;
						Self::dep(Event::ItemFailed { error: e.error })
					},
				}
			}
			Self::dep(if bad { Event::BatchCompletedWithErrors } else { Event::BatchCompleted });
			Ok(().into())
		}
	}
}
fn sum<T: Config>(calls: &[<T as Config>::RuntimeCall]) -> Weight {
	calls.iter().fold(Weight::from_parts(1_000_000, 0), |w, c| w.saturating_add(c.get_dispatch_info().weight))
}
impl<T: Config> Pallet<T> {
	fn dep(e: Event) {
		let e: <T as Config>::RuntimeEvent = e.into();
		frame_system::Pallet::<T>::deposit_event(Into::<<T as frame_system::Config>::RuntimeEvent>::into(e))
	}
}

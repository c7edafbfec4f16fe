//! pallet_proxy: proxies without delay (announcements are only recorded as calls).
use crate::frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
use crate::frame_support::traits::{Currency, Get, InstanceFilter, IsSubType, OriginTrait, ReservableCurrency};
use crate::frame_support::weights::Weight;
use crate::frame_system;
use crate::sp_runtime::traits::{Dispatchable, StaticLookup};
use crate::sp_runtime::DispatchResult;
pub use pallet::*;
pub use crate::weightinfos::pallet_proxy::WeightInfo;
type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
type LookupSource<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
#[crate::frame_support::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::{self, Parameter};
	use crate::frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent> + Into<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type Currency: ReservableCurrency<Self::AccountId>;
		type ProxyType: Parameter + Member + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen;
		type ProxyDepositBase: Get<BalanceOf<Self>>;
		type ProxyDepositFactor: Get<BalanceOf<Self>>;
		type MaxProxies: Get<u32>;
		type MaxPending: Get<u32>;
		type CallHasher;
		type AnnouncementDepositBase: Get<BalanceOf<Self>>;
		type AnnouncementDepositFactor: Get<BalanceOf<Self>>;
		type WeightInfo: WeightInfo;
	}
	/// (delegate, type, delay) of an account
	#[pallet::storage]
	pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, Vec<(T::AccountId, T::ProxyType, BlockNumberFor<T>)>, ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		ProxyExecuted { result: DispatchResult },
		ProxyAdded { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> },
		ProxyRemoved { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooMany,
		NotFound,
		NotProxy,
		Unproxyable,
		Duplicate,
		NoPermission,
		Unannounced,
		NoSelfProxy,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let di = call.get_dispatch_info(); (T::WeightInfo::proxy(T::MaxProxies::get()).saturating_add(di.weight), di.class) })]
		pub fn proxy(origin: OriginFor<T>, real: LookupSource<T>, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let who = frame_system::ensure_signed(origin)?;
			let real = T::Lookup::lookup(real)?;
			let def = Self::find_proxy(&real, &who, force_proxy_type)?;
			ensure!(def.2 == BlockNumberFor::<T>::from(0u8), Error::<T>::Unannounced);
			Self::do_proxy(def.1, real, *call);
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(T::WeightInfo::add_proxy(T::MaxProxies::get()))]
		pub fn add_proxy(origin: OriginFor<T>, delegate: LookupSource<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
			let delegator = frame_system::ensure_signed(origin)?;
			let delegatee = T::Lookup::lookup(delegate)?;
			ensure!(delegator != delegatee, Error::<T>::NoSelfProxy);
			let mut v = Proxies::<T>::get(&delegator);
			let d = (delegatee.clone(), proxy_type.clone(), delay);
			ensure!(!v.contains(&d), Error::<T>::Duplicate);
			ensure!((v.len() as u32) < T::MaxProxies::get(), Error::<T>::TooMany);
			T::Currency::reserve(&delegator, T::ProxyDepositFactor::get())?;
			if v.is_empty() {
				T::Currency::reserve(&delegator, T::ProxyDepositBase::get())?;
			}
			v.push(d);
			v.sort();
			Proxies::<T>::insert(&delegator, v);
			Self::deposit_event(Event::ProxyAdded { delegator, delegatee, proxy_type, delay });
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::remove_proxy(T::MaxProxies::get()))]
		pub fn remove_proxy(origin: OriginFor<T>, delegate: LookupSource<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
			let delegator = frame_system::ensure_signed(origin)?;
			let delegatee = T::Lookup::lookup(delegate)?;
			let mut v = Proxies::<T>::get(&delegator);
			let i = v.iter().position(|x| *x == (delegatee.clone(), proxy_type.clone(), delay)).ok_or(Error::<T>::NotFound)?;
			v.remove(i);
			if v.is_empty() {
				Proxies::<T>::remove(&delegator);
			} else {
				Proxies::<T>::insert(&delegator, v);
			}
			Self::deposit_event(Event::ProxyRemoved { delegator, delegatee, proxy_type, delay });
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::remove_proxies(T::MaxProxies::get()))]
		pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResult {
			let who = frame_system::ensure_signed(origin)?;
			Proxies::<T>::remove(&who);
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(T::WeightInfo::kill_pure(T::MaxProxies::get()))]
		pub fn kill_pure(origin: OriginFor<T>) -> DispatchResult {
			frame_system::ensure_signed(origin)?;
			Err(Error::<T>::NoPermission.into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(T::WeightInfo::announce(0, T::MaxProxies::get()))]
		pub fn announce(origin: OriginFor<T>) -> DispatchResult {
			frame_system::ensure_signed(origin)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::reject_announcement(0, T::MaxProxies::get()))]
		pub fn reject_announcement(origin: OriginFor<T>) -> DispatchResult {
			frame_system::ensure_signed(origin)?;
			Ok(())
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn find_proxy(real: &T::AccountId, delegate: &T::AccountId, force: Option<T::ProxyType>) -> Result<(T::AccountId, T::ProxyType, BlockNumberFor<T>), DispatchError> {
			Proxies::<T>::get(real).into_iter().find(|x| &x.0 == delegate && force.as_ref().map_or(true, |y| &x.1 == y)).ok_or(Error::<T>::NotProxy.into())
		}
		fn do_proxy(kind: T::ProxyType, real: T::AccountId, call: <T as Config>::RuntimeCall) {
			let mut origin: T::RuntimeOrigin = frame_system::RawOrigin::Signed(real).into();
			origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
				let c = <<T as Config>::RuntimeCall as IsType<_>>::from_ref(c);
				match c.is_sub_type() {
					Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. }) if !kind.is_superset(proxy_type) => false,
					Some(Call::remove_proxies { .. }) | Some(Call::kill_pure { .. }) if kind != T::ProxyType::default() => false,
					_ => kind.filter(c),
				}
			});
			let e = call.dispatch(origin);
			Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
		}
	}
}

//! pallet_collective: members vote on proposals; origins carry the tally.
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use crate::frame_support::traits::{ChangeMembers, EnsureOrigin, Get, InitializeMembers};
use crate::frame_support::weights::Weight;
use crate::frame_support::BoundedVec;
use crate::frame_system;
use crate::scale_info::TypeInfo;
use crate::sp_runtime::traits::{Dispatchable, Hash as HashT};
use crate::sp_runtime::{DispatchError, RuntimeDebug};
use std::marker::PhantomData;
pub use pallet::*;
pub type ProposalIndex = u32;
pub type MemberCount = u32;
macro_rules! inst { ($($n:ident)*) => {$(#[derive(Clone, Copy, PartialEq, Eq, Debug, TypeInfo)] pub struct $n;)*} }
inst!(Instance1 Instance2 Instance3);
pub trait DefaultVote {
	fn default_vote(prime: Option<bool>, yes: MemberCount, no: MemberCount, len: MemberCount) -> bool;
}
pub struct PrimeDefaultVote;
impl DefaultVote for PrimeDefaultVote {
	fn default_vote(prime: Option<bool>, _y: u32, _n: u32, _l: u32) -> bool {
		prime.unwrap_or(false)
	}
}
#[derive(PartialEq, Eq, Clone, RuntimeDebug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId, I> {
	Members(MemberCount, MemberCount),
	Member(AccountId),
	_Phantom(PhantomData<I>),
}
#[derive(PartialEq, Eq, Clone, RuntimeDebug, Encode, Decode, TypeInfo)]
pub struct Votes<AccountId, BlockNumber> {
	pub index: ProposalIndex,
	pub threshold: MemberCount,
	pub ayes: Vec<AccountId>,
	pub nays: Vec<AccountId>,
	pub end: BlockNumber,
}
pub use crate::weightinfos::pallet_collective::WeightInfo;
#[crate::frame_support::pallet]
pub mod pallet {
	use super::*;
	use crate::frame_support::pallet_prelude::*;
	use crate::frame_support::{self, Parameter};
	use crate::frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeOrigin: From<RawOrigin<Self::AccountId, I>>;
		type Proposal: Parameter + Dispatchable<RuntimeOrigin = <Self as Config<I>>::RuntimeOrigin, PostInfo = PostDispatchInfo> + From<frame_system::Call<Self>> + GetDispatchInfo;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent> + Into<<Self as frame_system::Config>::RuntimeEvent>;
		type MotionDuration: Get<BlockNumberFor<Self>>;
		type MaxProposals: Get<ProposalIndex>;
		type MaxMembers: Get<MemberCount>;
		type DefaultVote: DefaultVote;
		type WeightInfo;
		type SetMembersOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type MaxProposalWeight: Get<Weight>;
	}
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub phantom: PhantomData<I>,
		pub members: Vec<T::AccountId>,
	}
	impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> {
		fn default() -> Self {
			Self { phantom: PhantomData, members: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			<Pallet<T, I> as InitializeMembers<_>>::initialize_members(&self.members)
		}
	}
	#[pallet::origin]
	pub type Origin<T, I = ()> = RawOrigin<<T as frame_system::Config>::AccountId, I>;
	#[pallet::storage]
	#[pallet::getter(fn proposals)]
	pub type Proposals<T: Config<I>, I: 'static = ()> = StorageValue<_, BoundedVec<T::Hash, T::MaxProposals>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_of)]
	pub type ProposalOf<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, <T as Config<I>>::Proposal, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn voting)]
	pub type Voting<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, Votes<T::AccountId, BlockNumberFor<T>>, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_count)]
	pub type ProposalCount<T: Config<I>, I: 'static = ()> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn members)]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn prime)]
	pub type Prime<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Proposed { account: T::AccountId, proposal_index: ProposalIndex, proposal_hash: T::Hash, threshold: MemberCount },
		Voted { account: T::AccountId, proposal_hash: T::Hash, voted: bool, yes: MemberCount, no: MemberCount },
		Approved { proposal_hash: T::Hash },
		Disapproved { proposal_hash: T::Hash },
		Executed { proposal_hash: T::Hash, result: Result<(), DispatchError> },
		MemberExecuted { proposal_hash: T::Hash, result: Result<(), DispatchError> },
		Closed { proposal_hash: T::Hash, yes: MemberCount, no: MemberCount },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NotMember,
		DuplicateProposal,
		ProposalMissing,
		WrongIndex,
		DuplicateVote,
		AlreadyInitialized,
		TooEarly,
		TooManyProposals,
		WrongProposalWeight,
		WrongProposalLength,
		PrimeAccountNotMember,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_members(origin: OriginFor<T>, new_members: Vec<T::AccountId>, prime: Option<T::AccountId>, old_count: MemberCount) -> DispatchResultWithPostInfo {
			T::SetMembersOrigin::ensure_origin(origin)?;
			let _ = old_count;
			let mut n = new_members;
			n.sort();
			let old = Members::<T, I>::get();
			<Self as ChangeMembers<T::AccountId>>::set_members_sorted(&n, &old);
			Prime::<T, I>::set(prime);
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn execute(origin: OriginFor<T>, proposal: Box<<T as Config<I>>::Proposal>, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let who = frame_system::ensure_signed(origin)?;
			let members = Self::members();
			ensure!(members.contains(&who), Error::<T, I>::NotMember);
			let _ = length_bound;
			let proposal_hash = T::Hashing::hash_of(&proposal);
			let r = proposal.dispatch(RawOrigin::Member(who).into());
			Self::deposit_event(Event::MemberExecuted { proposal_hash, result: r.map(|_| ()).map_err(|e| e.error) });
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn propose(origin: OriginFor<T>, #[pallet::compact] threshold: MemberCount, proposal: Box<<T as Config<I>>::Proposal>, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let who = frame_system::ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			if threshold < 2 {
				Self::do_propose_execute(proposal, length_bound)?;
			} else {
				Self::do_propose_proposed(who, threshold, proposal, length_bound)?;
			}
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn vote(origin: OriginFor<T>, proposal: T::Hash, #[pallet::compact] index: ProposalIndex, approve: bool) -> DispatchResultWithPostInfo {
			let who = frame_system::ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			let mut v = Self::voting(&proposal).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(v.index == index, Error::<T, I>::WrongIndex);
			let (ya, na) = (v.ayes.iter().position(|a| a == &who), v.nays.iter().position(|a| a == &who));
			if approve {
				ensure!(ya.is_none(), Error::<T, I>::DuplicateVote);
				v.ayes.push(who.clone());
				if let Some(p) = na {
					v.nays.swap_remove(p);
				}
			} else {
				ensure!(na.is_none(), Error::<T, I>::DuplicateVote);
				v.nays.push(who.clone());
				if let Some(p) = ya {
					v.ayes.swap_remove(p);
				}
			}
			Self::deposit_event(Event::Voted { account: who, proposal_hash: proposal, voted: approve, yes: v.ayes.len() as u32, no: v.nays.len() as u32 });
			Voting::<T, I>::insert(proposal, v);
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn close(origin: OriginFor<T>, proposal_hash: T::Hash, #[pallet::compact] index: ProposalIndex, proposal_weight_bound: Weight, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let _ = frame_system::ensure_signed(origin)?;
			let v = Self::voting(&proposal_hash).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(v.index == index, Error::<T, I>::WrongIndex);
			let mut no = v.nays.len() as u32;
			let mut yes = v.ayes.len() as u32;
			let seats = Self::members().len() as u32;
			let approved = yes >= v.threshold;
			let disapproved = seats.saturating_sub(no) < v.threshold;
			if approved {
				Self::exec(proposal_hash, v, yes, no, seats, proposal_weight_bound, length_bound)?;
				return Ok(().into())
			} else if disapproved {
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::deposit_event(Event::Disapproved { proposal_hash });
				Self::remove_proposal(proposal_hash);
				return Ok(().into())
			}
			ensure!(frame_system::Pallet::<T>::block_number() >= v.end, Error::<T, I>::TooEarly);
			let prime = Self::prime().map(|w| v.ayes.iter().any(|a| a == &w));
			let default = T::DefaultVote::default_vote(prime, yes, no, seats);
			let abst = seats - (yes + no);
			if default {
				yes += abst
			} else {
				no += abst
			}
			if yes >= v.threshold {
				Self::exec(proposal_hash, v, yes, no, seats, proposal_weight_bound, length_bound)?;
			} else {
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::deposit_event(Event::Disapproved { proposal_hash });
				Self::remove_proposal(proposal_hash);
			}
			Ok(().into())
		}
	}
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn is_member(who: &T::AccountId) -> bool {
		Self::members().contains(who)
	}
	fn exec(h: T::Hash, v: Votes<T::AccountId, frame_system::pallet_prelude::BlockNumberFor<T>>, yes: u32, no: u32, seats: u32, w: Weight, len: u32) -> Result<(), DispatchError> {
		let p = Self::proposal_of(&h).ok_or(Error::<T, I>::ProposalMissing)?;
		if p.encoded_size() as u32 > len {
			return Err(Error::<T, I>::WrongProposalLength.into())
		}
		if p.get_dispatch_info().weight.any_gt(w) {
			return Err(Error::<T, I>::WrongProposalWeight.into())
		}
		Self::deposit_event(Event::Closed { proposal_hash: h, yes, no });
		Self::deposit_event(Event::Approved { proposal_hash: h });
		let _ = v;
		let r = p.dispatch(RawOrigin::Members(yes, seats).into());
		Self::deposit_event(Event::Executed { proposal_hash: h, result: r.map(|_| ()).map_err(|e| e.error) });
		Self::remove_proposal(h);
		Ok(())
	}
	fn remove_proposal(h: T::Hash) {
		ProposalOf::<T, I>::remove(&h);
		Voting::<T, I>::remove(&h);
		Proposals::<T, I>::mutate(|p| p.retain(|x| x != &h));
	}
	pub fn do_propose_execute(p: Box<<T as Config<I>>::Proposal>, _len: u32) -> Result<(u32, crate::frame_support::dispatch::DispatchResultWithPostInfo), DispatchError> {
		let h = T::Hashing::hash_of(&p);
		if ProposalOf::<T, I>::contains_key(h) {
			return Err(Error::<T, I>::DuplicateProposal.into())
		}
		let n = Self::members().len() as u32;
		let r = p.dispatch(RawOrigin::Members(1, n).into());
		Self::deposit_event(Event::Executed { proposal_hash: h, result: r.clone().map(|_| ()).map_err(|e| e.error) });
		Ok((0, r))
	}
	pub fn do_propose_proposed(who: T::AccountId, threshold: MemberCount, proposal: Box<<T as Config<I>>::Proposal>, length_bound: MemberCount) -> Result<(u32, u32), DispatchError> {
		let len = proposal.encoded_size();
		if len as u32 > length_bound {
			return Err(Error::<T, I>::WrongProposalLength.into())
		}
		let h = T::Hashing::hash_of(&proposal);
		if ProposalOf::<T, I>::contains_key(h) {
			return Err(Error::<T, I>::DuplicateProposal.into())
		}
		let active = Proposals::<T, I>::try_mutate(|p| -> Result<usize, DispatchError> {
			p.try_push(h).map_err(|_| Error::<T, I>::TooManyProposals)?;
			Ok(p.len())
		})?;
		let index = Self::proposal_count();
		ProposalCount::<T, I>::mutate(|i| *i += 1);
		ProposalOf::<T, I>::insert(h, *proposal);
		let end = frame_system::Pallet::<T>::block_number() + T::MotionDuration::get();
		Voting::<T, I>::insert(h, Votes { index, threshold, ayes: vec![], nays: vec![], end });
		Self::deposit_event(Event::Proposed { account: who, proposal_index: index, proposal_hash: h, threshold });
		Ok((len as u32, active as u32))
	}
}
impl<T: Config<I>, I: 'static> ChangeMembers<T::AccountId> for Pallet<T, I> {
	fn change_members_sorted(_incoming: &[T::AccountId], outgoing: &[T::AccountId], new: &[T::AccountId]) {
		for h in Self::proposals().into_iter() {
			Voting::<T, I>::mutate(h, |v| {
				if let Some(v) = v {
					v.ayes.retain(|a| !outgoing.contains(a));
					v.nays.retain(|a| !outgoing.contains(a));
				}
			});
		}
		Members::<T, I>::put(new.to_vec());
		Prime::<T, I>::kill();
	}
}
impl<T: Config<I>, I: 'static> InitializeMembers<T::AccountId> for Pallet<T, I> {
	fn initialize_members(m: &[T::AccountId]) {
		if !m.is_empty() {
			let mut m = m.to_vec();
			m.sort();
			Members::<T, I>::put(m);
		}
	}
}
pub struct EnsureMember<A, I>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I> EnsureOrigin<O> for EnsureMember<A, I> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Member(id) => Ok(id),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureMembers<A, I, const N: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32> EnsureOrigin<O> for EnsureMembers<A, I, N> {
	type Success = (u32, u32);
	fn try_origin(o: O) -> Result<(u32, u32), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n >= N => Ok((n, m)),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureProportionMoreThan<A, I, const N: u32, const D: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionMoreThan<A, I, N, D> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n * D > N * m => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureProportionAtLeast<A, I, const N: u32, const D: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionAtLeast<A, I, N, D> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n * D >= N * m => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
#[allow(unused)]
fn _u(_: DispatchInfo, _: BoundedVec<u8, ()>) {}

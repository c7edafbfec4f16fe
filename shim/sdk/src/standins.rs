//! Pallets that the runtime only names: their calls exist (so that filters can be asked about them), they do nothing.
macro_rules! standin {
	($name:ident { $($extra:item)* } [$($idx:literal $call:ident),* $(,)?] $(weights $w:ident)?) => {
		pub mod $name {
			pub use pallet::*;
			$(pub use crate::weightinfos::$w::WeightInfo;)?
			#[crate::frame_support::pallet]
			pub mod pallet {
				use crate::frame_support::pallet_prelude::*;
				use crate::{frame_support, frame_system};
				use crate::frame_system::pallet_prelude::*;
				#[pallet::pallet]
				pub struct Pallet<T>(_);
				#[pallet::config]
				pub trait Config: frame_system::Config {}
				impl<T: frame_system::Config> Config for T {}
				#[pallet::event]
				pub enum Event<T: Config> {}
				#[pallet::error]
				pub enum Error<T> {}
				#[pallet::genesis_config]
				pub struct GenesisConfig<T: Config> { #[serde(skip)] pub _t: PhantomData<T> }
				impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { _t: PhantomData } } }
				#[pallet::genesis_build]
				impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) {} }
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					$(#[pallet::call_index($idx)]
					#[pallet::weight(Weight::from_parts(1_000_000, 0))]
					pub fn $call(_origin: OriginFor<T>) -> DispatchResult { Ok(()) })*
				}
			}
			$($extra)*
		}
	};
}
standin!(pallet_timestamp {} [0 set] weights pallet_timestamp);
standin!(parachain_info {} []);
standin!(pallet_sudo {} [0 sudo, 1 sudo_unchecked_weight, 2 set_key, 3 sudo_as]);
standin!(pallet_preimage {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, crate::codec::Encode, crate::codec::Decode, crate::codec::MaxEncodedLen, crate::scale_info::TypeInfo)]
	pub enum HoldReason { Preimage }
} [0 note_preimage, 1 unnote_preimage, 2 request_preimage, 3 unrequest_preimage, 4 ensure_updated] weights pallet_preimage);
standin!(pallet_democracy {} [0 propose, 1 second, 2 vote, 3 emergency_cancel, 4 external_propose, 10 delegate, 11 undelegate, 13 unlock, 14 remove_vote] weights pallet_democracy);
standin!(pallet_scheduler {} [0 schedule, 1 cancel, 2 schedule_named, 3 cancel_named, 4 schedule_after, 5 schedule_named_after] weights pallet_scheduler);
standin!(pallet_treasury {} [0 propose_spend, 1 reject_proposal, 2 approve_proposal, 3 spend_local, 4 remove_approval, 5 spend] weights pallet_treasury);
standin!(pallet_authorship {} []);
standin!(pallet_collator_selection {} [0 set_invulnerables, 1 set_desired_candidates, 2 set_candidacy_bond, 3 register_as_candidate, 4 leave_intent, 5 add_invulnerable, 6 remove_invulnerable] weights pallet_collator_selection);
pub mod pallet_session {
	pub use pallet::*;
	pub use crate::weightinfos::pallet_session::WeightInfo;
	#[crate::frame_support::pallet]
	pub mod pallet {
		use crate::frame_support::pallet_prelude::*;
		use crate::frame_system::pallet_prelude::*;
		use crate::{frame_support, frame_system};
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::config]
		pub trait Config: frame_system::Config {}
		impl<T: frame_system::Config> Config for T {}
		#[pallet::event]
		pub enum Event {
			NewSession { session_index: u32 },
		}
		#[pallet::genesis_config]
		pub struct GenesisConfig<T: Config> {
			#[serde(skip)]
			pub _t: PhantomData<T>,
		}
		impl<T: Config> Default for GenesisConfig<T> {
			fn default() -> Self {
				Self { _t: PhantomData }
			}
		}
		#[pallet::genesis_build]
		impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
			fn build(&self) {}
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::from_parts(1_000_000, 0))]
			pub fn set_keys(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::from_parts(1_000_000, 0))]
			pub fn purge_keys(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
		}
	}
}
standin!(pallet_aura {} []);
standin!(cumulus_pallet_aura_ext {} []);
standin!(pallet_multisig {} [0 as_multi_threshold_1, 1 as_multi, 2 approve_as_multi, 3 cancel_as_multi] weights pallet_multisig);
standin!(cumulus_pallet_parachain_system {
	pub struct RelayNumberMonotonicallyIncreases;
	pub struct ParachainSetCode<T>(std::marker::PhantomData<T>);
	impl<T> crate::frame_system::SetCode<T> for ParachainSetCode<T> {}
	/// The relay chain's block number: what the check has put there.
	pub struct RelaychainDataProvider<T>(std::marker::PhantomData<T>);
	const KEY: &[u8] = b"relay-block-number";
	impl<T> crate::sp_runtime::traits::BlockNumberProvider for RelaychainDataProvider<T> {
		type BlockNumber = u32;
		fn current_block_number() -> u32 { crate::io::storage::get(KEY).and_then(|b| crate::codec::Decode::decode(&mut &b[..]).ok()).unwrap_or(0) }
		fn set_block_number(n: u32) { crate::io::storage::set(KEY, &crate::codec::Encode::encode(&n)) }
	}
	impl<T: crate::frame_system::Config> crate::sp_runtime::traits::ValidateUnsigned for Pallet<T> {
		type Call = Call<T>;
		fn validate_unsigned(_: crate::sp_runtime::transaction_validity::TransactionSource, _: &Call<T>) -> crate::sp_runtime::transaction_validity::TransactionValidity {
			Err(crate::sp_runtime::transaction_validity::InvalidTransaction::Call.into())
		}
	}
} [0 set_validation_data, 1 sudo_send_upward_message, 2 authorize_upgrade, 3 enact_authorized_upgrade]);

//! WeightInfo traits of the SDK pallets (all methods optional: the runtime supplies them)
pub mod pallet_balances {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn transfer_allow_death() -> Weight {
			Weight::from_parts(95_380_000, 3593)
		}
		fn transfer_keep_alive() -> Weight {
			Weight::zero()
		}
		fn force_set_balance_creating() -> Weight {
			Weight::zero()
		}
		fn force_set_balance_killing() -> Weight {
			Weight::zero()
		}
		fn force_transfer() -> Weight {
			Weight::zero()
		}
		fn transfer_all() -> Weight {
			Weight::zero()
		}
		fn force_unreserve() -> Weight {
			Weight::zero()
		}
		fn upgrade_accounts(_u: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_collator_selection {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn set_invulnerables(_b: u32) -> Weight {
			Weight::zero()
		}
		fn add_invulnerable(_b: u32,_c: u32) -> Weight {
			Weight::zero()
		}
		fn remove_invulnerable(_b: u32) -> Weight {
			Weight::zero()
		}
		fn set_desired_candidates() -> Weight {
			Weight::zero()
		}
		fn set_candidacy_bond(_c: u32,_k: u32) -> Weight {
			Weight::zero()
		}
		fn update_bond(_c: u32) -> Weight {
			Weight::zero()
		}
		fn register_as_candidate(_c: u32) -> Weight {
			Weight::zero()
		}
		fn take_candidate_slot(_c: u32) -> Weight {
			Weight::zero()
		}
		fn leave_intent(_c: u32) -> Weight {
			Weight::zero()
		}
		fn note_author() -> Weight {
			Weight::zero()
		}
		fn new_session(_r: u32,_c: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_collective {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn set_members(_m: u32,_n: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn execute(_b: u32,_m: u32) -> Weight {
			Weight::zero()
		}
		fn propose_execute(_b: u32,_m: u32) -> Weight {
			Weight::zero()
		}
		fn propose_proposed(_b: u32,_m: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn vote(_m: u32) -> Weight {
			Weight::zero()
		}
		fn close_early_disapproved(_m: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn close_early_approved(_b: u32,_m: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn close_disapproved(_m: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn close_approved(_b: u32,_m: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn disapprove_proposal(_p: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_democracy {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn propose() -> Weight {
			Weight::zero()
		}
		fn second() -> Weight {
			Weight::zero()
		}
		fn vote_new() -> Weight {
			Weight::zero()
		}
		fn vote_existing() -> Weight {
			Weight::zero()
		}
		fn emergency_cancel() -> Weight {
			Weight::zero()
		}
		fn blacklist() -> Weight {
			Weight::zero()
		}
		fn external_propose() -> Weight {
			Weight::zero()
		}
		fn external_propose_majority() -> Weight {
			Weight::zero()
		}
		fn external_propose_default() -> Weight {
			Weight::zero()
		}
		fn fast_track() -> Weight {
			Weight::zero()
		}
		fn veto_external() -> Weight {
			Weight::zero()
		}
		fn cancel_proposal() -> Weight {
			Weight::zero()
		}
		fn cancel_referendum() -> Weight {
			Weight::zero()
		}
		fn on_initialize_base(_r: u32) -> Weight {
			Weight::zero()
		}
		fn on_initialize_base_with_launch_period(_r: u32) -> Weight {
			Weight::zero()
		}
		fn delegate(_r: u32) -> Weight {
			Weight::zero()
		}
		fn undelegate(_r: u32) -> Weight {
			Weight::zero()
		}
		fn clear_public_proposals() -> Weight {
			Weight::zero()
		}
		fn unlock_remove(_r: u32) -> Weight {
			Weight::zero()
		}
		fn unlock_set(_r: u32) -> Weight {
			Weight::zero()
		}
		fn remove_vote(_r: u32) -> Weight {
			Weight::zero()
		}
		fn remove_other_vote(_r: u32) -> Weight {
			Weight::zero()
		}
		fn set_external_metadata() -> Weight {
			Weight::zero()
		}
		fn clear_external_metadata() -> Weight {
			Weight::zero()
		}
		fn set_proposal_metadata() -> Weight {
			Weight::zero()
		}
		fn clear_proposal_metadata() -> Weight {
			Weight::zero()
		}
		fn set_referendum_metadata() -> Weight {
			Weight::zero()
		}
		fn clear_referendum_metadata() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_multisig {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn as_multi_threshold_1(_z: u32) -> Weight {
			Weight::zero()
		}
		fn as_multi_create(_s: u32,_z: u32) -> Weight {
			Weight::zero()
		}
		fn as_multi_approve(_s: u32,_z: u32) -> Weight {
			Weight::zero()
		}
		fn as_multi_complete(_s: u32,_z: u32) -> Weight {
			Weight::zero()
		}
		fn approve_as_multi_create(_s: u32) -> Weight {
			Weight::zero()
		}
		fn approve_as_multi_approve(_s: u32) -> Weight {
			Weight::zero()
		}
		fn cancel_as_multi(_s: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_preimage {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn note_preimage(_s: u32) -> Weight {
			Weight::zero()
		}
		fn note_requested_preimage(_s: u32) -> Weight {
			Weight::zero()
		}
		fn note_no_deposit_preimage(_s: u32) -> Weight {
			Weight::zero()
		}
		fn unnote_preimage() -> Weight {
			Weight::zero()
		}
		fn unnote_no_deposit_preimage() -> Weight {
			Weight::zero()
		}
		fn request_preimage() -> Weight {
			Weight::zero()
		}
		fn request_no_deposit_preimage() -> Weight {
			Weight::zero()
		}
		fn request_unnoted_preimage() -> Weight {
			Weight::zero()
		}
		fn request_requested_preimage() -> Weight {
			Weight::zero()
		}
		fn unrequest_preimage() -> Weight {
			Weight::zero()
		}
		fn unrequest_unnoted_preimage() -> Weight {
			Weight::zero()
		}
		fn unrequest_multi_referenced_preimage() -> Weight {
			Weight::zero()
		}
		fn ensure_updated(_n: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_proxy {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn proxy(_p: u32) -> Weight {
			Weight::zero()
		}
		fn proxy_announced(_a: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn remove_announcement(_a: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn reject_announcement(_a: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn announce(_a: u32,_p: u32) -> Weight {
			Weight::zero()
		}
		fn add_proxy(_p: u32) -> Weight {
			Weight::zero()
		}
		fn remove_proxy(_p: u32) -> Weight {
			Weight::zero()
		}
		fn remove_proxies(_p: u32) -> Weight {
			Weight::zero()
		}
		fn create_pure(_p: u32) -> Weight {
			Weight::zero()
		}
		fn kill_pure(_p: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_scheduler {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn service_agendas_base() -> Weight {
			Weight::zero()
		}
		fn service_agenda_base(_s: u32) -> Weight {
			Weight::zero()
		}
		fn service_task_base() -> Weight {
			Weight::zero()
		}
		fn service_task_fetched(_s: u32) -> Weight {
			Weight::zero()
		}
		fn service_task_named() -> Weight {
			Weight::zero()
		}
		fn service_task_periodic() -> Weight {
			Weight::zero()
		}
		fn execute_dispatch_signed() -> Weight {
			Weight::zero()
		}
		fn execute_dispatch_unsigned() -> Weight {
			Weight::zero()
		}
		fn schedule(_s: u32) -> Weight {
			Weight::zero()
		}
		fn cancel(_s: u32) -> Weight {
			Weight::zero()
		}
		fn schedule_named(_s: u32) -> Weight {
			Weight::zero()
		}
		fn cancel_named(_s: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_session {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn set_keys() -> Weight {
			Weight::zero()
		}
		fn purge_keys() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_timestamp {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn set() -> Weight {
			Weight::zero()
		}
		fn on_finalize() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_treasury {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn spend_local() -> Weight {
			Weight::zero()
		}
		fn propose_spend() -> Weight {
			Weight::zero()
		}
		fn reject_proposal() -> Weight {
			Weight::zero()
		}
		fn approve_proposal(_p: u32) -> Weight {
			Weight::zero()
		}
		fn remove_approval() -> Weight {
			Weight::zero()
		}
		fn on_initialize_proposals(_p: u32) -> Weight {
			Weight::zero()
		}
		fn spend() -> Weight {
			Weight::zero()
		}
		fn payout() -> Weight {
			Weight::zero()
		}
		fn check_status() -> Weight {
			Weight::zero()
		}
		fn void_spend() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}
pub mod pallet_utility {
	use crate::frame_support::weights::Weight;
	pub trait WeightInfo {
		fn batch(_c: u32) -> Weight {
			Weight::zero()
		}
		fn as_derivative() -> Weight {
			Weight::zero()
		}
		fn batch_all(_c: u32) -> Weight {
			Weight::zero()
		}
		fn dispatch_as() -> Weight {
			Weight::zero()
		}
		fn force_batch(_c: u32) -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
}

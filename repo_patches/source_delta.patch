From 0d2adf96a1b1177d7bd0b9060a1d3cb4a02a5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 01/19] fix: suffix sequences whose range ends at u16::MAX
 overflow

---
 pallets/handles/src/handles-utils/src/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/handles-utils/src/suffix.rs b/pallets/handles/src/handles-utils/src/suffix.rs
index 2a1f674..765fbd1 100644
--- a/pallets/handles/src/handles-utils/src/suffix.rs
+++ b/pallets/handles/src/handles-utils/src/suffix.rs
@@ -37,7 +37,7 @@ pub fn generate_unique_suffixes(
 
 	let mut indices: Vec<u16> = (min..=max).collect();
 	(min..=max).rev().map(move |i| {
-		let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16;
+		let j = rng.rand_range((min as u32)..(i as u32 + 1)) as u16;
 		indices.swap((i - min) as usize, (j - min) as usize);
 		indices[(i - min) as usize]
 	})
-- 
2.43.0


From 7314dd5bf396306e0276c192f3d5c6f7af3fa1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 02/19] fix: handles whose canonical form exceeds 32 bytes
 shared the empty canonical base

---
 pallets/handles/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..c4fc7a2 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -696,6 +696,12 @@ pub mod pallet {
 				len >= HANDLE_CHARS_MIN && len <= HANDLE_CHARS_MAX,
 				Error::<T>::InvalidHandleCharacterLength
 			);
+
+			// Validation: converting to canonical can lengthen the handle, it must still fit a `CanonicalBase`
+			ensure!(
+				canonical_handle_str.len() as u32 <= HANDLE_BYTES_MAX,
+				Error::<T>::InvalidHandleByteLength
+			);
 			Ok(())
 		}
 
-- 
2.43.0


From 7583624446bc0866dd3eaa793c646fa121bd7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 03/19] fix: validate_handle accepted handles whose canonical
 form has an invalid length

---
 pallets/handles/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index c4fc7a2..741c542 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -774,6 +774,7 @@ pub mod pallet {
 					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
 						&canonical_handle_str,
 					)
+					.and_then(|_| Self::validate_canonical_handle_length(&canonical_handle_str))
 					.is_ok()
 				},
 				_ => false,
-- 
2.43.0


From 3bb23b2fe424a046f1096e2b9989dbcdcad03127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 04/19] fix: revoking a schema permission again moved its
 revocation into a later block

---
 pallets/msa/src/lib.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..153ac4e 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -988,18 +988,40 @@ impl<T: Config> Pallet<T> {
 			ensure!(!is_new_delegation, Error::<T>::DelegationNotFound);
 			Self::ensure_all_schema_ids_are_valid(&schema_ids)?;
 
-			let current_block = frame_system::Pallet::<T>::block_number();
+			let revoked_at = Self::schema_revocation_block(delegation);
+
+			// An earlier revocation stands, revoking again must not move its block
+			let mut revoke_ids: Vec<SchemaId> = Vec::new();
+			for schema_id in schema_ids {
+				let permission = delegation
+					.schema_permissions
+					.get(&schema_id)
+					.ok_or(Error::<T>::SchemaNotGranted)?;
+				if *permission == BlockNumberFor::<T>::zero() {
+					revoke_ids.push(schema_id);
+				}
+			}
 
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
-				delegation,
-				schema_ids,
-				current_block,
+				delegation, revoke_ids, revoked_at,
 			)?;
 
 			Ok(())
 		})
 	}
 
+	/// The block from which a schema permission that is revoked now does not hold: the current one, or the
+	/// one the whole delegation was revoked at
+	fn schema_revocation_block(
+		delegation: &Delegation<SchemaId, BlockNumberFor<T>, T::MaxSchemaGrantsPerDelegation>,
+	) -> BlockNumberFor<T> {
+		if delegation.revoked_at == BlockNumberFor::<T>::zero() {
+			frame_system::Pallet::<T>::block_number()
+		} else {
+			delegation.revoked_at
+		}
+	}
+
 	/// Add a new key to the MSA
 	///
 	/// # Errors
@@ -1170,13 +1192,11 @@ impl<T: Config> Pallet<T> {
 				}
 			}
 
-			let current_block = frame_system::Pallet::<T>::block_number();
+			let revoked_at = Self::schema_revocation_block(delegation);
 
 			// Revoke any that are not in the new list that are not already revoked
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
-				delegation,
-				revoke_ids,
-				current_block,
+				delegation, revoke_ids, revoked_at,
 			)?;
 
 			// Update any that are in the list but are not new
-- 
2.43.0


From 022008bbe3188b9c2e8e6c8d47f54fd81ba9bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 05/19] fix: revoking a delegation a second time in a block
 passed the free-call validation and then failed

---
 pallets/msa/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 153ac4e..9923b4e 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1663,8 +1663,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation revoked in this block is still valid in it but cannot be revoked again
+		ensure!(
+			delegation.revoked_at == BlockNumberFor::<T>::zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
@@ -1690,8 +1696,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation revoked in this block is still valid in it but cannot be revoked again
+		ensure!(
+			delegation.revoked_at == BlockNumberFor::<T>::zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From 89a2928183c5e0d72b028ac8cdd90d98a47f65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:23 +0000
Subject: [PATCH 06/19] fix: do not count tokens already frozen for staking as
 stakable again

---
 pallets/capacity/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..aab4696 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -560,8 +560,11 @@ impl<T: Config> Pallet<T> {
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		let already_frozen =
+			T::Currency::balance_frozen(&FreezeReason::CapacityStaking.into(), &staker);
 		account_balance
 			.saturating_sub(T::MinimumTokenBalance::get())
+			.saturating_sub(already_frozen)
 			.min(proposed_amount)
 	}
 
-- 
2.43.0


From 57269c4b5347ae6522617aa8edc411be1d189b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 07/19] fix: unstaking from one target never takes tokens
 staked to another

---
 pallets/capacity/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index aab4696..8c4f956 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -382,7 +382,8 @@ pub mod pallet {
 
 			ensure!(requested_amount > Zero::zero(), Error::<T>::UnstakedAmountIsZero);
 
-			let actual_amount = Self::decrease_active_staking_balance(&unstaker, requested_amount)?;
+			let actual_amount =
+				Self::decrease_active_staking_balance(&unstaker, target, requested_amount)?;
 			Self::add_unlock_chunk(&unstaker, actual_amount)?;
 
 			let capacity_reduction = Self::reduce_capacity(&unstaker, target, actual_amount)?;
@@ -521,16 +522,26 @@ impl<T: Config> Pallet<T> {
 		CapacityLedger::<T>::insert(target, capacity_details);
 	}
 
-	/// Decrease a staking account's active token.
+	/// Decrease a staking account's active token by an amount staked to the target.
 	fn decrease_active_staking_balance(
 		unstaker: &T::AccountId,
+		target: MessageSourceId,
 		amount: BalanceOf<T>,
 	) -> Result<BalanceOf<T>, DispatchError> {
 		let mut staking_account =
 			Self::get_staking_account_for(unstaker).ok_or(Error::<T>::NotAStakingAccount)?;
 		ensure!(amount <= staking_account.active, Error::<T>::AmountToUnstakeExceedsAmountStaked);
 
-		let actual_unstaked_amount = staking_account.withdraw(amount)?;
+		let staked_to_target = Self::get_target_for(unstaker, &target)
+			.ok_or(Error::<T>::StakerTargetRelationshipNotFound)?
+			.amount;
+		ensure!(amount <= staked_to_target, Error::<T>::AmountToUnstakeExceedsAmountStaked);
+
+		let total_active = staking_account.active;
+		// Withdrawing may take everything that is left on the account, but never more than what
+		// is staked to this target: the rest is still backing the Capacity of other targets.
+		let actual_unstaked_amount = staking_account.withdraw(amount)?.min(staked_to_target);
+		staking_account.active = total_active.saturating_sub(actual_unstaked_amount);
 		Self::set_staking_account(unstaker, &staking_account);
 		Ok(actual_unstaked_amount)
 	}
-- 
2.43.0


From 557127bd4ccaee4c559384c5ef8b97e48119a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 08/19] fix: a schema named by governance could be given
 further names

---
 pallets/schemas/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..3feb2ec 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -641,6 +641,11 @@ pub mod pallet {
 				&parsed_name.descriptor,
 				|schema_version_id| -> DispatchResult {
 					schema_version_id.add::<T>(schema_id)?;
+					SchemaInfos::<T>::mutate(schema_id, |schema_info| {
+						if let Some(info) = schema_info {
+							info.has_name = true;
+						}
+					});
 
 					Self::deposit_event(Event::SchemaNameCreated {
 						schema_id,
-- 
2.43.0


From 293ac7917946d73053d2996c307627930303ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 09/19] fix: enforce the maximum number of schema registrations

---
 pallets/schemas/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index 3feb2ec..eaf7e7c 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -772,6 +772,7 @@ pub mod pallet {
 			let next = Self::get_current_schema_identifier_maximum()
 				.checked_add(1)
 				.ok_or(Error::<T>::SchemaCountOverflow)?;
+			ensure!(next <= T::MaxSchemaRegistrations::get(), Error::<T>::SchemaCountOverflow);
 
 			Ok(next)
 		}
-- 
2.43.0


From c9c8e5f7f3dc5a78858825b2ddbe090d0c8188f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 10/19] fix: schema id 0 was taken for a registered schema

---
 pallets/schemas/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index eaf7e7c..1ab9a64 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -886,7 +886,7 @@ impl<T: Config> SchemaBenchmarkHelper for Pallet<T> {
 impl<T: Config> SchemaValidator<SchemaId> for Pallet<T> {
 	fn are_all_schema_ids_valid(schema_ids: &Vec<SchemaId>) -> bool {
 		let latest_issue_schema_id = Self::get_current_schema_identifier_maximum();
-		schema_ids.iter().all(|id| id <= &latest_issue_schema_id)
+		schema_ids.iter().all(|id| id > &0 && id <= &latest_issue_schema_id)
 	}
 
 	#[cfg(any(feature = "std", feature = "runtime-benchmarks", test))]
-- 
2.43.0


From 6f2358b45be3790c895ae083815abc5da102eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 11/19] fix: the 65537th message of a block overwrote the
 65536th

---
 pallets/messages/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index b8ee6b6..5e66716 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -318,6 +318,7 @@ impl<T: Config> Pallet<T> {
 	) -> Result<bool, DispatchError> {
 		let index = BlockMessageIndex::<T>::get();
 		let first = index == 0;
+		let next_index = index.checked_add(1).ok_or(Error::<T>::TooManyMessagesInBlock)?;
 		let msg = Message {
 			payload, // size is checked on top of extrinsic
 			provider_msa_id,
@@ -325,7 +326,7 @@ impl<T: Config> Pallet<T> {
 		};
 
 		<MessagesV2<T>>::insert((current_block, schema_id, index), msg);
-		BlockMessageIndex::<T>::set(index.saturating_add(1));
+		BlockMessageIndex::<T>::set(next_index);
 		Ok(first)
 	}
 
-- 
2.43.0


From 6952cd03aadd9c3f00483b6f0da2834adc8b834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 12/19] fix: version-0 content identifiers and bytes after an
 identifier were accepted

---
 pallets/messages/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index 5e66716..7426f9d 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -52,7 +52,7 @@ pub use pallet::*;
 pub use types::*;
 pub use weights::*;
 
-use cid::Cid;
+use cid::{Cid, Version};
 use frame_system::pallet_prelude::*;
 
 const LOG_TARGET: &str = "runtime::messages";
@@ -384,7 +384,10 @@ impl<T: Config> Pallet<T> {
 
 		// Assume it's a multibase-encoded string. Decode it to a byte array so we can parse the CID.
 		let cid_b = multibase::decode(cid_str).map_err(|_| Error::<T>::InvalidCid)?.1;
-		ensure!(Cid::read_bytes(&cid_b[..]).is_ok(), Error::<T>::InvalidCid);
+		let mut unread = &cid_b[..];
+		let cid = Cid::read_bytes(&mut unread).map_err(|_| Error::<T>::InvalidCid)?;
+		ensure!(unread.is_empty(), Error::<T>::InvalidCid);
+		ensure!(cid.version() == Version::V1, Error::<T>::UnsupportedCidVersion);
 
 		Ok(cid_b)
 	}
-- 
2.43.0


From 6f46e6b268842844ae144ceabb50d20174da8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 13/19] fix: report a block whose messages cannot be read
 instead of dropping them from the page

---
 pallets/messages/src/rpc/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pallets/messages/src/rpc/src/lib.rs b/pallets/messages/src/rpc/src/lib.rs
index 65ed4c1..9f59035 100644
--- a/pallets/messages/src/rpc/src/lib.rs
+++ b/pallets/messages/src/rpc/src/lib.rs
@@ -98,14 +98,12 @@ where
 		let mut from_index = pagination.from_index;
 
 		'loops: for block_number in from..to {
-			let list: Vec<MessageResponse> = api
-				.get_messages_by_schema_and_block(
-					at,
-					schema.schema_id,
-					schema.payload_location,
-					block_number,
-				)
-				.unwrap_or_default();
+			let list: Vec<MessageResponse> = map_rpc_result(api.get_messages_by_schema_and_block(
+				at,
+				schema.schema_id,
+				schema.payload_location,
+				block_number,
+			))?;
 
 			let list_size: u32 =
 				list.len().try_into().map_err(|_| MessageRpcError::TypeConversionOverflow)?;
-- 
2.43.0


From 8df6d4eb56df1ad28c2c21b37c1fe8762af3e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 14/19] fix: a utility batch is admitted only if every call in
 it is

---
 runtime/frequency/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..459b8de 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,8 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } =>
+				calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From 46e9a34697ed46f9985a067bd2a9a9112e70cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:01 +0000
Subject: [PATCH 15/19] fix: a restarted initial key index loses key deletions
 made since the first attempt

---
 pallets/msa/src/offchain_storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index 612c0a5..bba2544 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -260,6 +260,12 @@ fn init_last_processed_block<T: Config>(current_block_number: BlockNumberFor<T>)
 	let last_processed_block_storage =
 		StorageValueRef::persistent(LAST_PROCESSED_BLOCK_STORAGE_NAME);
 
+	// an earlier attempt that did not finish may have indexed keys that were deleted since: keep the
+	// block it started from so that those events are still applied
+	if let Ok(Some(_)) = last_processed_block_storage.get::<BlockNumberFor<T>>() {
+		return
+	}
+
 	// setting current_block-1 as the last processed so that we start indexing from current_block
 	let target_block: BlockNumberFor<T> =
 		current_block_number.saturating_sub(BlockNumberFor::<T>::one());
-- 
2.43.0


From fc91bb2bf636aeacb50244d182d0b64d8392ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:01 +0000
Subject: [PATCH 16/19] fix: time-release migration freezes tokens that were
 already released

---
 pallets/time-release/src/migration/v2.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pallets/time-release/src/migration/v2.rs b/pallets/time-release/src/migration/v2.rs
index b7cde23..56eec6e 100644
--- a/pallets/time-release/src/migration/v2.rs
+++ b/pallets/time-release/src/migration/v2.rs
@@ -8,7 +8,10 @@ use frame_support::{
 };
 use parity_scale_codec::Encode;
 use sp_core::hexdisplay::HexDisplay;
-use sp_runtime::{traits::Zero, Saturating};
+use sp_runtime::{
+	traits::{BlockNumberProvider, Zero},
+	Saturating,
+};
 
 const LOG_TARGET: &str = "runtime::time-release";
 
@@ -167,16 +170,18 @@ where
 fn calculate_total_scheduled_frozen_for_account<T: Config>(
 	account_id: &T::AccountId,
 ) -> (BalanceOf<T>, Weight) {
+	// what earlier periods released may already have been claimed, only the rest is still to be frozen
+	let now = T::BlockNumberProvider::current_block_number(); // 1r
 	let total = ReleaseSchedules::<T>::get(&account_id) // 1r
 		.iter()
 		.map(|schedule: &types::ReleaseSchedule<BlockNumberFor<T>, BalanceOf<T>>| {
-			schedule.total_amount()
+			schedule.total_amount().map(|_| schedule.frozen_amount(now))
 		})
 		.fold(Zero::zero(), |acc: BalanceOf<T>, amount| {
 			acc.saturating_add(amount.unwrap_or(Zero::zero()))
 		});
 
-	(total, T::DbWeight::get().reads(1))
+	(total, T::DbWeight::get().reads(2))
 }
 
 #[cfg(test)]
-- 
2.43.0


From e825ae59382e0d25e10717b873cdefe85bb0797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 17/19] fix: msa: refuse removing a foreign or own key and
 retiring an MSA early, also inside wrapped calls

The SignedExtension only sees the outermost call, so through a proxy, multisig or
derivative account anybody's key could be deleted, and an MSA retired while it had
other keys, a handle or a provider registration.
---
 pallets/msa/src/lib.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 9923b4e..6a999a1 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -387,6 +387,15 @@ pub mod pallet {
 
 		/// Attempted to add a new signature to a corrupt signature registry
 		SignatureRegistryCorrupted,
+
+		/// A registered provider cannot be retired
+		RegisteredProviderCannotBeRetired,
+
+		/// An MSA that holds a handle cannot be retired
+		HandleNotRetired,
+
+		/// An MSA with more than one key cannot be retired
+		MoreThanOneKeyExists,
 	}
 
 	impl<T: Config> BlockNumberProvider for Pallet<T> {
@@ -717,6 +726,12 @@ pub mod pallet {
 
 			match Self::get_msa_by_public_key(&who) {
 				Some(who_msa_id) => {
+					// The SignedExtension is not run for calls wrapped in a proxy, multisig or
+					// derivative account call
+					ensure!(who != public_key_to_delete, Error::<T>::InvalidSelfRemoval);
+					Self::ensure_msa_owner(&public_key_to_delete, who_msa_id)
+						.map_err(|_| Error::<T>::NotKeyOwner)?;
+
 					Self::delete_key_for_msa(who_msa_id, &public_key_to_delete)?;
 
 					// Deposit the event
@@ -826,6 +841,9 @@ pub mod pallet {
 		///
 		/// # Errors
 		/// * [`Error::NoKeyExists`] - `delegator` does not have an MSA key.
+		/// * [`Error::RegisteredProviderCannotBeRetired`] - the MSA is a registered provider.
+		/// * [`Error::HandleNotRetired`] - the MSA still holds a handle.
+		/// * [`Error::MoreThanOneKeyExists`] - the MSA has other keys.
 		///
 		#[pallet::call_index(10)]
 		#[pallet::weight((T::WeightInfo::retire_msa(), DispatchClass::Normal, Pays::No))]
@@ -837,6 +855,21 @@ pub mod pallet {
 			// check for valid MSA is in SignedExtension.
 			match Self::get_msa_by_public_key(&who) {
 				Some(msa_id) => {
+					// The SignedExtension is not run for calls wrapped in a proxy, multisig or
+					// derivative account call
+					ensure!(
+						!Self::is_registered_provider(msa_id),
+						Error::<T>::RegisteredProviderCannotBeRetired
+					);
+					ensure!(
+						T::HandleProvider::get_handle_for_msa(msa_id).is_none(),
+						Error::<T>::HandleNotRetired
+					);
+					ensure!(
+						Self::get_public_key_count_by_msa_id(msa_id) == 1,
+						Error::<T>::MoreThanOneKeyExists
+					);
+
 					Self::delete_key_for_msa(msa_id, &who)?;
 					let event = Event::PublicKeyDeleted { key: who };
 					offchain_index_event::<T>(&event, msa_id);
-- 
2.43.0


From b58544c762a6e718ae8d01aa5eae64dd7061ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 18/19] fix: handles: refuse retiring a handle before its
 minimum lifetime, also inside wrapped calls

The SignedExtension only sees the outermost call.
---
 pallets/handles/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 741c542..b35b7b1 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -423,6 +423,15 @@ pub mod pallet {
 			let msa_id = T::MsaInfoProvider::ensure_valid_msa_key(&msa_owner_key)
 				.map_err(|_| Error::<T>::InvalidMessageSourceAccount)?;
 
+			// Validation: The minimum lifetime of the handle must have passed (the SignedExtension
+			// is not run for calls wrapped in a proxy, multisig or derivative account call)
+			if let Some((_, expiration)) = Self::get_display_name_for_msa_id(msa_id) {
+				ensure!(
+					frame_system::Pallet::<T>::block_number() >= expiration,
+					Error::<T>::HandleWithinMortalityPeriod
+				);
+			}
+
 			let display_handle: Vec<u8> = Self::do_retire_handle(msa_id)?;
 
 			Self::deposit_event(Event::HandleRetired { msa_id, handle: display_handle });
-- 
2.43.0


From 3a189ff0cbc6df2a72f35b3604c89ce45f20186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:47 +0000
Subject: [PATCH 19/19] fix: time-release: announce the amount that was
 claimed, not the amount still frozen

---
 pallets/time-release/src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pallets/time-release/src/lib.rs b/pallets/time-release/src/lib.rs
index 5c41752..1bbc13e 100644
--- a/pallets/time-release/src/lib.rs
+++ b/pallets/time-release/src/lib.rs
@@ -23,7 +23,7 @@ use frame_support::{
 	pallet_prelude::*,
 	traits::{
 		tokens::{
-			fungible::{Inspect as InspectFungible, Mutate, MutateFreeze},
+			fungible::{Inspect as InspectFungible, InspectFreeze, Mutate, MutateFreeze},
 			Balance, Preservation,
 		},
 		BuildGenesisConfig, EnsureOrigin, Get,
@@ -32,7 +32,7 @@ use frame_support::{
 };
 use frame_system::{ensure_root, ensure_signed, pallet_prelude::*};
 use sp_runtime::{
-	traits::{BlockNumberProvider, CheckedAdd, StaticLookup, Zero},
+	traits::{BlockNumberProvider, CheckedAdd, Saturating, StaticLookup, Zero},
 	ArithmeticError,
 };
 use sp_std::vec::Vec;
@@ -245,9 +245,9 @@ pub mod module {
 		#[pallet::weight(T::WeightInfo::claim(<T as Config>::MaxReleaseSchedules::get() / 2))]
 		pub fn claim(origin: OriginFor<T>) -> DispatchResult {
 			let who = ensure_signed(origin)?;
-			let frozen_amount = Self::do_claim(&who)?;
+			let claimed_amount = Self::do_claim(&who)?;
 
-			Self::deposit_event(Event::Claimed { who, amount: frozen_amount });
+			Self::deposit_event(Event::Claimed { who, amount: claimed_amount });
 			Ok(())
 		}
 
@@ -330,16 +330,19 @@ pub mod module {
 		) -> DispatchResult {
 			ensure_signed(origin)?;
 			let who = T::Lookup::lookup(dest)?;
-			let frozen_amount = Self::do_claim(&who)?;
+			let claimed_amount = Self::do_claim(&who)?;
 
-			Self::deposit_event(Event::Claimed { who, amount: frozen_amount });
+			Self::deposit_event(Event::Claimed { who, amount: claimed_amount });
 			Ok(())
 		}
 	}
 }
 
 impl<T: Config> Pallet<T> {
+	/// Thaws what has been released, returns the amount that is no longer frozen.
 	fn do_claim(who: &T::AccountId) -> Result<BalanceOf<T>, DispatchError> {
+		let frozen_before =
+			T::Currency::balance_frozen(&FreezeReason::TimeReleaseVesting.into(), who);
 		let frozen = Self::prune_and_get_frozen_balance(who);
 		if frozen.is_zero() {
 			Self::delete_freeze(who)?;
@@ -347,7 +350,7 @@ impl<T: Config> Pallet<T> {
 			Self::update_freeze(who, frozen)?;
 		}
 
-		Ok(frozen)
+		Ok(frozen_before.saturating_sub(frozen))
 	}
 
 	/// Deletes schedules that have released all funds up to a block-number.
-- 
2.43.0


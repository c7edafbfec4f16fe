// C18: the call filters. C19: the calls that may be paid for with capacity.
use super::*;
use common_primitives::stateful_storage as css;
use pallet_frequency_tx_payment::types::GetStableWeight;
use sdk::frame_support::weights::Weight;
use sdk::frame_support::BoundedVec;
type Util = sdk::pallet_utility::Call<Runtime>;
type Ftp = pallet_frequency_tx_payment::Call<Runtime>;

const CREATION: [&str; 4] = ["Msa.create_provider", "Schemas.create_schema", "Schemas.create_schema_v2", "Schemas.create_schema_v3"];
const BATCHES: [&str; 3] = ["Utility.batch", "Utility.batch_all", "Utility.force_batch"];
/// What may stand inside a batch.
fn batchable(c: &RuntimeCall) -> bool {
	let n = name(c);
	!BATCHES.contains(&&n[..]) && !n.starts_with("FrequencyTxPayment.") && !CREATION.contains(&&n[..]) && c.get_dispatch_info().pays_fee == Pays::Yes
}
fn inner(c: &RuntimeCall) -> Option<&Vec<RuntimeCall>> {
	match c {
		RuntimeCall::Utility(Util::batch { calls }) | RuntimeCall::Utility(Util::batch_all { calls }) | RuntimeCall::Utility(Util::force_batch { calls }) => Some(calls),
		_ => None,
	}
}
fn admitted(c: &RuntimeCall) -> bool {
	match inner(c) {
		// a batch of nothing does nothing: either verdict is as good
		Some(v) => v.iter().all(batchable),
		None => !(MAINNET && CREATION.contains(&&name(c)[..])),
	}
}
fn batch(kind: usize, calls: Vec<RuntimeCall>) -> RuntimeCall {
	RuntimeCall::Utility(match kind {
		0 => Util::batch { calls },
		1 => Util::batch_all { calls },
		_ => Util::force_batch { calls },
	})
}
fn show(c: &RuntimeCall) -> String {
	match inner(c) {
		Some(v) => format!("{}[{}]", name(c), v.iter().map(show).collect::<Vec<_>>().join(", ")),
		None => name(c),
	}
}
fn proxy_permits(t: &str, n: &str) -> bool {
	let pallet = n.split('.').next().unwrap();
	match t {
		"Any" => true,
		"NonTransfer" =>
			["Capacity", "CollatorSelection", "Council", "Democracy", "FrequencyTxPayment", "Handles", "Messages", "Msa", "Multisig", "Preimage", "Scheduler", "Schemas", "Session", "StatefulStorage", "TechnicalCommittee", "Treasury", "Utility"].contains(&pallet) ||
				["TimeRelease.claim", "TimeRelease.claim_for"].contains(&n),
		"Governance" => ["Treasury", "Democracy", "TechnicalCommittee", "Council", "Utility"].contains(&pallet),
		"Staking" => ["Capacity.stake", "CollatorSelection.set_candidacy_bond"].contains(&n),
		"CancelProxy" => n == "Proxy.reject_announcement",
		_ => false,
	}
}
pub fn c18(run: &Run) {
	use rt::{BaseCallFilter, PasskeyCallFilter, ProxyType};
	let all = every_call();
	run.note(&format!("{NET}_calls"), all.len());
	if MAINNET || all.len() < 200 {
		run.note(&format!("{NET}_call_names"), all.iter().map(name).collect::<Vec<_>>().join(" "));
	}
	for n in CREATION.iter().chain(&BATCHES) {
		assert!(all.iter().any(|c| name(c) == *n), "{n} not among the calls of {NET}");
	}
	let judge = |c: &RuntimeCall| {
		run.eval(1);
		if inner(c).map_or(false, |v| v.is_empty()) {
			return
		}
		let (got, want) = (BaseCallFilter::contains(c), admitted(c));
		run.ok(got == want, "base-filter", || format!("{NET}: the base filter {} {}", if got { "admits" } else { "refuses" }, show(c)));
	};
	// every call alone, in batches of one, two and three, and in batches within batches
	for a in &all {
		judge(a);
		for k in 0..3 {
			let one = batch(k, vec![a.clone()]);
			judge(&one);
			for j in 0..3 {
				judge(&batch(j, vec![one.clone()]));
				judge(&batch(j, vec![one.clone(), a.clone()]));
				judge(&batch(j, vec![a.clone(), one.clone()]));
			}
		}
	}
	mc::par(all.len(), |i| {
		for b in &all {
			for k in 0..3 {
				judge(&batch(k, vec![all[i].clone(), b.clone()]));
			}
		}
	});
	// batches of three over one call of each kind
	let mut kinds: Vec<RuntimeCall> = vec![];
	for c in &all {
		let class = |c: &RuntimeCall| (batchable(c), name(c).split('.').next().unwrap().to_string());
		if CREATION.contains(&&name(c)[..]) || !kinds.iter().any(|k| class(k) == class(c)) {
			kinds.push(c.clone())
		}
	}
	run.note(&format!("{NET}_kinds"), kinds.len());
	mc::par(kinds.len(), |i| {
		for b in &kinds {
			for c in &kinds {
				for k in 0..3 {
					judge(&batch(k, vec![kinds[i].clone(), b.clone(), c.clone()]));
				}
			}
		}
	});
	// a disallowed call at any place of a longer batch of permitted ones
	let good = all.iter().find(|c| name(c) == "System.remark").unwrap();
	for bad in all.iter().filter(|c| !batchable(c)) {
		for len in [4usize, 10, 40] {
			for at in 0..len {
				for k in 0..3 {
					let mut v = vec![good.clone(); len];
					v[at] = bad.clone();
					judge(&batch(k, v));
				}
			}
		}
	}
	// and at the end of very long ones
	let few: Vec<&RuntimeCall> = all.iter().filter(|c| !batchable(c)).collect();
	for len in [65usize, 130, 257, 1025, 4097, 10_900] {
		for bad in few.iter().take(if len > 300 { 3 } else { usize::MAX }) {
			for at in [len / 2, len - 1] {
				let mut v = vec![good.clone(); len];
				v[at] = (*bad).clone();
				judge(&batch(1, v));
			}
		}
		judge(&batch(0, vec![good.clone(); len]));
	}
	// passkeys and proxies
	for c in &all {
		run.eval(1);
		let want = ["Balances.transfer_keep_alive", "Balances.transfer_allow_death", "Balances.transfer_all"].contains(&&name(c)[..]);
		run.ok(PasskeyCallFilter::contains(c) == want, "passkey-filter", || format!("{NET}: passkey transactions may{} make {}", if want { " not" } else { "" }, name(c)));
	}
	let types = [("Any", ProxyType::Any), ("NonTransfer", ProxyType::NonTransfer), ("Governance", ProxyType::Governance), ("Staking", ProxyType::Staking), ("CancelProxy", ProxyType::CancelProxy)];
	for (tn, t) in &types {
		for c in &all {
			run.eval(1);
			let want = proxy_permits(tn, &name(c));
			run.ok(t.filter(c) == want, "proxy-filter", || format!("{NET}: a {tn} proxy may{} make {}", if want { " not" } else { "" }, name(c)));
		}
		for (on, o) in &types {
			run.eval(1);
			let want = tn == on || *tn == "Any" || (*on != "Any" && *tn == "NonTransfer");
			run.ok(t.is_superset(o) == want, "proxy-superset", || format!("{NET}: a {tn} proxy is{} held to be at least as powerful as a {on} proxy", if want { " not" } else { "" }));
		}
	}
	run.ok(ProxyType::default() == ProxyType::Any, "proxy-default", || "the default proxy is not the fully permissioned one".into());
	run.sample(serde_json::json!({"net": NET, "batch": show(&batch(1, vec![all[0].clone(), kinds.last().unwrap().clone()]))}));
}

const ELIGIBLE: [&str; 16] = [
	"Msa.add_public_key_to_msa",
	"Msa.create_sponsored_account_with_delegation",
	"Msa.grant_delegation",
	"Messages.add_ipfs_message",
	"Messages.add_onchain_message",
	"StatefulStorage.apply_item_actions",
	"StatefulStorage.upsert_page",
	"StatefulStorage.delete_page",
	"StatefulStorage.apply_item_actions_with_signature",
	"StatefulStorage.apply_item_actions_with_signature_v2",
	"StatefulStorage.upsert_page_with_signature",
	"StatefulStorage.upsert_page_with_signature_v2",
	"StatefulStorage.delete_page_with_signature",
	"StatefulStorage.delete_page_with_signature_v2",
	"Handles.claim_handle",
	"Handles.change_handle",
];
type Actions = BoundedVec<css_action::ItemAction, <Runtime as pallet_stateful_storage::Config>::MaxItemizedActionsCount>;
mod css_action {
	pub type ItemAction = pallet_stateful_storage::types::ItemAction<<super::Runtime as pallet_stateful_storage::Config>::MaxItemizedBlobSizeBytes>;
}
/// `adds` actions adding `n` bytes each among deletions; `None` if that does not fit.
fn actions(adds: usize, n: usize, deletes: usize) -> Option<Actions> {
	let mut v = vec![];
	for i in 0..adds.max(deletes) {
		if i < deletes {
			v.push(css_action::ItemAction::Delete { index: 500 + i as u16 });
		}
		if i < adds {
			v.push(css_action::ItemAction::Add { data: vec![7u8; n].try_into().ok()? });
		}
	}
	v.try_into().ok()
}
/// Every call on the list with a size of `n` (items, bytes), and what else may vary varied by `v`.
pub fn sized(n: usize, v: u8) -> Vec<(RuntimeCall, u32)> {
	use pallet_stateful_storage::{types as st, Call as S};
	let key = account(v as usize);
	let proof = sign(v as usize, &[v]);
	let mut o: Vec<(RuntimeCall, u32)> = vec![];
	let n32 = n as u32;
	if n <= 30 {
		let p = pallet_msa::types::AddProvider { authorized_msa_id: v as u64, schema_ids: vec![v as u16; n], expiration: v as u32 };
		o.push((RuntimeCall::Msa(pallet_msa::Call::create_sponsored_account_with_delegation { delegator_key: key.clone(), proof: proof.clone(), add_provider_payload: p.clone() }), n32));
		o.push((RuntimeCall::Msa(pallet_msa::Call::grant_delegation { delegator_key: key.clone(), proof: proof.clone(), add_provider_payload: p }), n32));
	}
	o.push((RuntimeCall::Msa(pallet_msa::Call::add_public_key_to_msa { msa_owner_public_key: key.clone(), msa_owner_proof: proof.clone(), new_key_owner_proof: proof.clone(), add_key_payload: pallet_msa::types::AddKeyData { msa_id: v as u64, expiration: v as u32, new_public_key: key.clone() } }), 0));
	o.push((RuntimeCall::Messages(pallet_messages::Call::add_ipfs_message { schema_id: v as u16, cid: vec![v; n], payload_length: n32 }), 0));
	o.push((RuntimeCall::Messages(pallet_messages::Call::add_onchain_message { on_behalf_of: if v % 2 == 0 { None } else { Some(v as u64) }, schema_id: v as u16, payload: vec![v; n] }), n32));
	for (adds, deletes) in [(1, 0), (1, 2), (3, 1), (0, 3)] {
		if let Some(a) = actions(adds, n, deletes) {
			let size = (adds * n) as u32;
			o.push((RuntimeCall::StatefulStorage(S::apply_item_actions { state_owner_msa_id: v as u64, schema_id: v as u16, target_hash: v as u32, actions: a.clone() }), size));
			o.push((RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature { delegator_key: key.clone(), proof: proof.clone(), payload: st::ItemizedSignaturePayload { msa_id: v as u64, schema_id: v as u16, target_hash: v as u32, expiration: v as u32, actions: a.clone() } }), size));
			o.push((RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature_v2 { delegator_key: key.clone(), proof: proof.clone(), payload: st::ItemizedSignaturePayloadV2 { schema_id: v as u16, target_hash: v as u32, expiration: v as u32, actions: a } }), size));
		}
	}
	if let Ok(b) = BoundedVec::try_from(vec![v; n]) {
		o.push((RuntimeCall::StatefulStorage(S::upsert_page { state_owner_msa_id: v as u64, schema_id: v as u16, page_id: v as u16, target_hash: v as u32, payload: b }), n32));
	}
	if let Ok(b) = BoundedVec::try_from(vec![v; n]) {
		o.push((RuntimeCall::StatefulStorage(S::upsert_page_with_signature { delegator_key: key.clone(), proof: proof.clone(), payload: st::PaginatedUpsertSignaturePayload { msa_id: v as u64, schema_id: v as u16, page_id: v as u16, target_hash: v as u32, expiration: v as u32, payload: b } }), n32));
	}
	if let Ok(b) = BoundedVec::try_from(vec![v; n]) {
		o.push((RuntimeCall::StatefulStorage(S::upsert_page_with_signature_v2 { delegator_key: key.clone(), proof: proof.clone(), payload: st::PaginatedUpsertSignaturePayloadV2 { schema_id: v as u16, page_id: v as u16, target_hash: v as u32, expiration: v as u32, payload: b } }), n32));
	}
	o.push((RuntimeCall::StatefulStorage(S::delete_page { state_owner_msa_id: v as u64, schema_id: v as u16, page_id: v as u16, target_hash: v as u32 }), 0));
	o.push((RuntimeCall::StatefulStorage(S::delete_page_with_signature { delegator_key: key.clone(), proof: proof.clone(), payload: st::PaginatedDeleteSignaturePayload { msa_id: v as u64, schema_id: v as u16, page_id: v as u16, target_hash: v as u32, expiration: v as u32 } }), 0));
	o.push((RuntimeCall::StatefulStorage(S::delete_page_with_signature_v2 { delegator_key: key.clone(), proof: proof.clone(), payload: st::PaginatedDeleteSignaturePayloadV2 { schema_id: v as u16, page_id: v as u16, target_hash: v as u32, expiration: v as u32 } }), 0));
	let h = common_primitives::handles::ClaimHandlePayload { base_handle: vec![b'a' + v % 20; n], expiration: v as u32 };
	o.push((RuntimeCall::Handles(pallet_handles::Call::claim_handle { msa_owner_key: key.clone(), proof: proof.clone(), payload: h.clone() }), n32));
	o.push((RuntimeCall::Handles(pallet_handles::Call::change_handle { msa_owner_key: key, proof, payload: h }), n32));
	o
}
pub fn weight(c: &RuntimeCall) -> Option<Weight> {
	rt::CapacityEligibleCalls::get_stable_weight(c)
}
pub fn c19(run: &Run) {
	let all = every_call();
	run.note(&format!("{NET}_calls"), all.len());
	for n in ELIGIBLE {
		assert!(all.iter().any(|c| name(c) == n), "{n} not among the calls of {NET}");
	}
	for c in &all {
		run.eval(1);
		let (got, want) = (weight(c).is_some(), ELIGIBLE.contains(&&name(c)[..]));
		run.ok(got == want, "list", || format!("{NET}: {} is{} eligible for capacity", name(c), if got { "" } else { " not" }));
		// a wrapped call stands for itself; what is wrapped is what is paid for
		let calls = rt::CapacityEligibleCalls::get_inner_calls(&RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity { call: Box::new(c.clone()) })).map(|v| v.into_iter().cloned().collect::<Vec<_>>());
		run.ok(calls == Some(vec![c.clone()]), "inner-single", || format!("{NET}: the calls of pay_with_capacity({}) are {calls:?}", name(c)));
		if !name(c).starts_with("FrequencyTxPayment.") {
			let calls = rt::CapacityEligibleCalls::get_inner_calls(c).map(|v| v.into_iter().cloned().collect::<Vec<_>>());
			run.ok(calls == Some(vec![c.clone()]), "inner-plain", || format!("{NET}: the calls of {} are {calls:?}", name(c)));
		}
		for d in &all {
			run.eval(1);
			let v = vec![d.clone(), c.clone(), d.clone()];
			let calls = rt::CapacityEligibleCalls::get_inner_calls(&RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity_batch_all { calls: v.clone() })).map(|v| v.into_iter().cloned().collect::<Vec<_>>());
			run.ok(calls == Some(v), "inner-batch", || format!("{NET}: the calls of a batch of {} and {} are {calls:?}", name(d), name(c)));
		}
		// wrapping does not make a call eligible
		let w = RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity { call: Box::new(c.clone()) });
		run.ok(weight(&w).is_none(), "nested", || format!("{NET}: {} within two capacity payments is eligible", name(c)));
		for k in 0..3 {
			run.ok(weight(&batch(k, vec![c.clone()])).is_none(), "nested-batch", || format!("{NET}: a batch of {} is eligible", name(c)));
		}
	}
	// sizes: every one up to the smaller limits, then around powers of two up to the page and message limits
	let mut sizes: Vec<usize> = (0..=mc::pick(130, 1200)).collect();
	for p in 7..16 {
		sizes.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
	}
	sizes.extend([3072 - 1, 3072, 50_000, 65_535]);
	sizes.sort();
	sizes.dedup();
	let mut table: std::collections::BTreeMap<(String, u32), Weight> = Default::default();
	for n in sizes {
		for v in 0..mc::pick(6, 12) {
			for (c, size) in sized(n, v) {
				run.eval(1);
				run.state(1);
				let Some(w) = weight(&c) else {
					run.fail("list", format!("{NET}: {} of size {n} is not eligible for capacity", name(&c)), serde_json::json!({"call": format!("{c:?}")}));
					continue
				};
				run.ok(w.ref_time() > 0, "positive", || format!("{NET}: {} of size {n} costs no capacity", name(&c)));
				// equal sizes, equal weights
				let old = *table.entry((name(&c), size)).or_insert(w);
				run.ok(old == w, "fixed", || format!("{NET}: {} of size {size} weighs {old:?} or {w:?}", name(&c)));
			}
		}
	}
	// the weight never falls as the size grows, and where data is stored it grows
	for n in ELIGIBLE {
		let ws: Vec<(u32, Weight)> = table.iter().filter(|((m, _), _)| m == n).map(|((_, s), w)| (*s, *w)).collect();
		assert!(!ws.is_empty(), "{n}");
		for p in ws.windows(2) {
			run.eval(1);
			run.ok(p[0].1.ref_time() <= p[1].1.ref_time(), "monotone", || format!("{NET}: {n} weighs {} with size {} and {} with size {}", p[0].1.ref_time(), p[0].0, p[1].1.ref_time(), p[1].0));
		}
		let (a, b) = (ws[0], *ws.last().unwrap());
		let fixed = ["Msa.add_public_key_to_msa", "Messages.add_ipfs_message", "StatefulStorage.delete_page", "StatefulStorage.delete_page_with_signature", "StatefulStorage.delete_page_with_signature_v2"].contains(&n);
		run.note(&format!("{NET} {n}"), format!("{} at {} .. {} at {}", a.1.ref_time(), a.0, b.1.ref_time(), b.0));
		if !fixed {
			run.ok(b.1.ref_time() > a.1.ref_time(), "grows", || format!("{NET}: {n} weighs the same with size {} and with size {}", a.0, b.0));
		}
	}
}

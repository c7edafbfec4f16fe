// C41: what the runtime answers is what the chain did.
use super::fees::{self, *};
use super::governed::By;
use super::*;
use common_primitives::handles::ClaimHandlePayload;
use common_primitives::messages::MessageResponse;
use common_primitives::msa::{DelegatorId, ProviderId};
use common_primitives::schema::{ModelType, PayloadLocation};
use pallet_frequency_tx_payment_runtime_api::CapacityTransactionPaymentRuntimeApi as _;
use pallet_handles_runtime_api::HandlesRuntimeApi as _;
use pallet_messages_runtime_api::MessagesRuntimeApi as _;
use pallet_msa_runtime_api::MsaRuntimeApi as _;
use pallet_schemas_runtime_api::SchemasRuntimeApi as _;
use sdk::frame_system_rpc_runtime_api::AccountNonceApi as _;
use pallet_stateful_storage::types::ItemAction;
use pallet_stateful_storage_runtime_api::StatefulStorageRuntimeApi as _;
use sdk::sp_runtime::traits::Dispatchable;
use std::collections::{BTreeMap, BTreeSet};
use system_runtime_api::AdditionalRuntimeApi as _;
type MsaCall = pallet_msa::Call<Runtime>;
type SchemaCall = pallet_schemas::Call<Runtime>;
type MsgCall = pallet_messages::Call<Runtime>;
type HandleCall = pallet_handles::Call<Runtime>;
type StoreCall = pallet_stateful_storage::Call<Runtime>;
type System = sdk::frame_system::Pallet<Runtime>;

/// Schemas 1 to 5 at the start.
const PLACES: [PayloadLocation; 5] = [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated, PayloadLocation::OnChain];
/// The identity of the fourth user; cut to any smaller number it is the first user's.
const P: u64 = 0x0101_0000_0001;
const USERS: [usize; 4] = [OWNER, DRY, OTHER, PLAIN];
fn id(n: usize) -> u64 {
	match n {
		PLAIN => P,
		n => identity(n).unwrap(),
	}
}
fn signer_of(id: u64) -> usize {
	if id == P {
		return PLAIN
	}
	[OWNER, DRY, OTHER][id as usize - 1]
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Deleg {
	revoked: u32,
	schemas: BTreeMap<u16, u32>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Msg {
	block: u32,
	index: u16,
	schema: u16,
	provider: u64,
	of: Option<u64>,
	payload: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Handle {
	base: String,
	suffix: u16,
	until: u32,
}
/// What happened.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct M {
	now: u32,
	/// (delegator, provider)
	deleg: BTreeMap<(u64, u64), Deleg>,
	messages: Vec<Msg>,
	next: u16,
	handles: BTreeMap<u64, Handle>,
	/// how many suffixes of each canonical base are gone
	used: BTreeMap<String, usize>,
	items: BTreeMap<(u64, u16), Vec<Vec<u8>>>,
	pages: BTreeMap<(u64, u16), BTreeMap<u16, Vec<u8>>>,
	/// model and place
	schemas: Vec<(Vec<u8>, usize)>,
	names: BTreeMap<String, Vec<u16>>,
	acts: u32,
}
impl M {
	fn acts_for(&self, d: u64, p: u64, b: u32) -> bool {
		b <= self.now && self.deleg.get(&(d, p)).map_or(false, |x| x.revoked == 0 || b <= x.revoked)
	}
	fn granted(&self, d: u64, p: u64, s: u16, b: u32) -> bool {
		self.acts_for(d, p, b) && self.deleg[&(d, p)].schemas.get(&s).map_or(false, |r| *r == 0 || b <= *r)
	}
	fn place(&self, s: u16) -> Option<PayloadLocation> {
		(s as usize).checked_sub(1).and_then(|i| self.schemas.get(i)).map(|x| PLACES[x.1])
	}
}
#[derive(Clone, Debug)]
enum Act {
	Grant(u64, u64, Vec<u16>),
	Revoke(u64, u64, Vec<u16>),
	Leave(u64, u64),
	Drop(u64, u64),
	Post(u64, Option<u64>, u16),
	Ipfs(u64, u16),
	Claim(u64, &'static str),
	Change(u64, &'static str),
	Retire(u64),
	Items(u64, u64, u16, bool),
	Page(u64, u64, u16, u16),
	DeletePage(u64, u64, u16, u16),
	/// a write that carries another hash than the one reported
	Stale(u64, u16),
	Schema(usize, Option<&'static str>),
	Name(u16, &'static str),
	Block,
	Later,
}
#[derive(Clone)]
struct St {
	io: Io,
	m: M,
}
struct Chain {
	acts: Vec<Act>,
	/// the suffixes of each canonical base in the order they are handed out
	order: BTreeMap<String, Vec<u16>>,
	/// whether what is announced is looked at, rather than what is answered
	told: bool,
}
const BASES: [&str; 4] = ["Bob", "bob", "carol", "dave"];
fn stage() -> Io {
	on(&start(), || {
		pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::set(P - 1);
		Msa::create_account(account(PLAIN), |_| Ok(())).expect("identity");
		for (i, l) in PLACES.iter().enumerate().skip(1) {
			pallet_schemas::Pallet::<Runtime>::create_schema_v3(RuntimeOrigin::signed(account(OWNER)), model(i as u16 + 1), ModelType::AvroBinary, *l, Default::default(), None).expect("schema");
		}
		System::reset_events();
	})
	.1
}
type Msa = pallet_msa::Pallet<Runtime>;
fn model(n: u16) -> sdk::frame_support::BoundedVec<u8, <Runtime as pallet_schemas::Config>::SchemaModelMaxBytesBoundedVecLimit> {
	if n == 1 { b"{\"type\":\"record\"}".to_vec() } else { format!("{{\"type\":\"record{n}\"}}").into_bytes() }.try_into().unwrap()
}
fn canonical(b: &str) -> String {
	b.to_lowercase().replace('o', "0").replace('l', "1")
}
const CID: &str = "bafkreidgvpkjawlxz6sffxzwgooowe5yt7i6wsyg236mfoks77nywkptdq";
fn at() -> <rt::Block as sdk::sp_runtime::traits::Block>::Hash {
	Default::default()
}
fn hash_of_items(u: u64, s: u16) -> u32 {
	Runtime.get_itemized_storage(at(), u, s).unwrap().map_or(0, |r| r.content_hash)
}
fn hash_of_page(u: u64, s: u16, page: u16) -> u32 {
	Runtime.get_paginated_storage(at(), u, s).unwrap().ok().and_then(|v| v.into_iter().find(|r| r.page_id == page)).map_or(0, |r| r.content_hash)
}
impl Chain {
	fn call(&self, s: &St, a: &Act) -> (usize, RuntimeCall) {
		let m = &s.m;
		let expiration = m.now + 20 + m.acts % 16;
		let proof = |who: u64, p: &dyn Fn() -> Vec<u8>| sign(signer_of(who), &p());
		match a {
			Act::Grant(d, p, schemas) => {
				let add_provider_payload = pallet_msa::AddProvider::new(*p, Some(schemas.clone()), expiration);
				let proof = proof(*d, &|| wrapped(&add_provider_payload));
				(signer_of(*p), RuntimeCall::Msa(MsaCall::grant_delegation { delegator_key: account(signer_of(*d)), proof, add_provider_payload }))
			},
			Act::Revoke(d, p, schema_ids) => (signer_of(*d), RuntimeCall::Msa(MsaCall::revoke_schema_permissions { provider_msa_id: *p, schema_ids: schema_ids.clone() })),
			Act::Leave(d, p) => (signer_of(*d), RuntimeCall::Msa(MsaCall::revoke_delegation_by_delegator { provider_msa_id: *p })),
			Act::Drop(d, p) => (signer_of(*p), RuntimeCall::Msa(MsaCall::revoke_delegation_by_provider { delegator: *d })),
			Act::Post(p, of, schema_id) => (signer_of(*p), RuntimeCall::Messages(MsgCall::add_onchain_message { on_behalf_of: *of, schema_id: *schema_id, payload: m.acts.to_be_bytes().to_vec() })),
			Act::Ipfs(p, schema_id) => (signer_of(*p), RuntimeCall::Messages(MsgCall::add_ipfs_message { schema_id: *schema_id, cid: CID.as_bytes().to_vec(), payload_length: 1000 + m.acts })),
			Act::Claim(u, base) | Act::Change(u, base) => {
				let payload = ClaimHandlePayload::new(base.as_bytes().to_vec(), m.now + 5);
				let proof = proof(*u, &|| wrapped(&payload));
				let msa_owner_key = account(signer_of(*u));
				(OWNER, RuntimeCall::Handles(if matches!(a, Act::Claim(..)) { HandleCall::claim_handle { msa_owner_key, proof, payload } } else { HandleCall::change_handle { msa_owner_key, proof, payload } }))
			},
			Act::Retire(u) => (signer_of(*u), RuntimeCall::Handles(HandleCall::retire_handle {})),
			Act::Items(by, u, schema, add) => {
				let target_hash = peek(&s.io, || hash_of_items(*u, *schema));
				let action = if *add { ItemAction::Add { data: m.acts.to_be_bytes().to_vec().try_into().unwrap() } } else { ItemAction::Delete { index: 0 } };
				(signer_of(*by), RuntimeCall::StatefulStorage(StoreCall::apply_item_actions { state_owner_msa_id: *u, schema_id: *schema, target_hash, actions: vec![action].try_into().unwrap() }))
			},
			Act::Stale(u, schema) => {
				let target_hash = peek(&s.io, || hash_of_items(*u, *schema)) ^ 1;
				(signer_of(*u), RuntimeCall::StatefulStorage(StoreCall::apply_item_actions { state_owner_msa_id: *u, schema_id: *schema, target_hash, actions: vec![ItemAction::Add { data: vec![1].try_into().unwrap() }].try_into().unwrap() }))
			},
			Act::Page(by, u, schema, page) => {
				let target_hash = peek(&s.io, || hash_of_page(*u, *schema, *page));
				(signer_of(*by), RuntimeCall::StatefulStorage(StoreCall::upsert_page { state_owner_msa_id: *u, schema_id: *schema, page_id: *page, target_hash, payload: m.acts.to_be_bytes().to_vec().try_into().unwrap() }))
			},
			Act::DeletePage(by, u, schema, page) => {
				let target_hash = peek(&s.io, || hash_of_page(*u, *schema, *page));
				(signer_of(*by), RuntimeCall::StatefulStorage(StoreCall::delete_page { state_owner_msa_id: *u, schema_id: *schema, page_id: *page, target_hash }))
			},
			Act::Schema(l, name) => (OWNER, RuntimeCall::Schemas(SchemaCall::create_schema_via_governance_v2 { creator_key: account(OWNER), model: model(m.schemas.len() as u16 + 1), model_type: ModelType::AvroBinary, payload_location: PLACES[*l], settings: Default::default(), schema_name: name.map(|n| n.as_bytes().to_vec().try_into().unwrap()) })),
			Act::Name(s, n) => (OWNER, RuntimeCall::Schemas(SchemaCall::create_schema_name_via_governance { schema_id: *s, schema_name: n.as_bytes().to_vec().try_into().unwrap() })),
			Act::Block | Act::Later => unreachable!(),
		}
	}
	/// What the call does to what is known, if it is admitted.
	fn effect(&self, m: &M, a: &Act) -> Option<M> {
		let mut n = m.clone();
		n.acts += 1;
		let may = |by: u64, u: u64, s: u16| by == u || m.granted(u, by, s, m.now);
		let payload = m.acts.to_be_bytes().to_vec();
		match a {
			Act::Grant(d, p, schemas) => {
				if *p == P || d == p {
					return None
				}
				let x = n.deleg.entry((*d, *p)).or_default();
				let at = if x.revoked > 0 { x.revoked } else { m.now };
				for (s, r) in x.schemas.iter_mut() {
					if schemas.contains(s) {
						*r = 0
					} else if *r == 0 {
						*r = at
					}
				}
				for s in schemas {
					x.schemas.entry(*s).or_insert(0);
				}
				x.revoked = 0;
			},
			Act::Revoke(d, p, schemas) => {
				let x = n.deleg.get_mut(&(*d, *p))?;
				let at = if x.revoked > 0 { x.revoked } else { m.now };
				for s in schemas {
					let r = x.schemas.get_mut(s)?;
					if *r == 0 {
						*r = at
					}
				}
			},
			Act::Leave(d, p) | Act::Drop(d, p) => {
				let x = n.deleg.get_mut(&(*d, *p))?;
				if x.revoked > 0 {
					return None
				}
				x.revoked = m.now;
			},
			Act::Post(p, of, s) => {
				if m.place(*s) != Some(PayloadLocation::OnChain) || of.map_or(false, |d| !m.granted(d, *p, *s, m.now)) {
					return None
				}
				n.messages.push(Msg { block: m.now, index: m.next, schema: *s, provider: *p, of: Some(of.unwrap_or(*p)), payload });
				n.next += 1;
			},
			Act::Ipfs(p, s) => {
				if m.place(*s) != Some(PayloadLocation::IPFS) {
					return None
				}
				n.messages.push(Msg { block: m.now, index: m.next, schema: *s, provider: *p, of: None, payload });
				n.next += 1;
			},
			Act::Claim(u, b) | Act::Change(u, b) => {
				if m.handles.contains_key(u) != matches!(a, Act::Change(..)) {
					return None
				}
				let k = n.used.entry(canonical(b)).or_insert(0);
				let suffix = self.order[&canonical(b)][*k];
				*k += 1;
				n.handles.insert(*u, Handle { base: b.to_string(), suffix, until: m.now + 5 });
			},
			Act::Retire(u) => {
				if n.handles.remove(u)?.until > m.now {
					return None
				}
			},
			Act::Items(by, u, s, add) => {
				if m.place(*s) != Some(PayloadLocation::Itemized) || !may(*by, *u, *s) {
					return None
				}
				let x = n.items.entry((*u, *s)).or_default();
				if *add {
					x.push(payload)
				} else if x.is_empty() {
					return None
				} else {
					x.remove(0);
				}
				if x.is_empty() {
					n.items.remove(&(*u, *s));
				}
			},
			Act::Stale(..) => return None,
			Act::Page(by, u, s, p) => {
				if m.place(*s) != Some(PayloadLocation::Paginated) || !may(*by, *u, *s) {
					return None
				}
				n.pages.entry((*u, *s)).or_default().insert(*p, payload);
			},
			Act::DeletePage(by, u, s, p) => {
				if m.place(*s) != Some(PayloadLocation::Paginated) || !may(*by, *u, *s) {
					return None
				}
				if let Some(x) = n.pages.get_mut(&(*u, *s)) {
					x.remove(p);
				}
			},
			Act::Schema(l, name) => {
				n.schemas.push((model(m.schemas.len() as u16 + 1).into_inner(), *l));
				if let Some(name) = name {
					n.names.entry(name.to_string()).or_default().push(n.schemas.len() as u16);
				}
			},
			Act::Name(s, name) => {
				if m.place(*s).is_none() || m.names.values().any(|v| v.contains(s)) {
					return None
				}
				n.names.entry(name.to_string()).or_default().push(*s);
			},
			Act::Block | Act::Later => unreachable!(),
		}
		Some(n)
	}
}
impl Chain {
	/// What a successful call has to announce.
	fn announces(&self, s: &St, a: &Act, n: &M, after: &Io) -> Vec<rt::RuntimeEvent> {
		use pallet_handles::Event as H;
		use pallet_msa::Event as I;
		use pallet_schemas::Event as S;
		use pallet_stateful_storage::Event as D;
		let both = |p: u64, d: u64| (ProviderId(p), DelegatorId(d));
		let named = |m: &M, u: &u64| format!("{}.{}", m.handles[u].base, m.handles[u].suffix).into_bytes();
		match a {
			Act::Grant(d, p, _) => {
				let (provider_id, delegator_id) = both(*p, *d);
				vec![I::<Runtime>::DelegationGranted { provider_id, delegator_id }.into()]
			},
			Act::Revoke(d, p, _) => {
				let (provider_id, delegator_id) = both(*p, *d);
				vec![I::<Runtime>::DelegationUpdated { provider_id, delegator_id }.into()]
			},
			Act::Leave(d, p) | Act::Drop(d, p) => {
				let (provider_id, delegator_id) = both(*p, *d);
				vec![I::<Runtime>::DelegationRevoked { provider_id, delegator_id }.into()]
			},
			// once in a block
			Act::Post(..) | Act::Ipfs(..) => if s.m.next == 0 { vec![pallet_messages::Event::<Runtime>::MessagesInBlock.into()] } else { vec![] },
			Act::Claim(u, _) => vec![H::<Runtime>::HandleClaimed { msa_id: *u, handle: named(n, u) }.into()],
			Act::Change(u, _) => vec![H::<Runtime>::HandleRetired { msa_id: *u, handle: named(&s.m, u) }.into(), H::<Runtime>::HandleClaimed { msa_id: *u, handle: named(n, u) }.into()],
			Act::Retire(u) => vec![H::<Runtime>::HandleRetired { msa_id: *u, handle: named(&s.m, u) }.into()],
			Act::Items(_, u, sc, _) => {
				let (msa_id, schema_id, prev_content_hash) = (*u, *sc, peek(&s.io, || hash_of_items(*u, *sc)));
				if n.items.contains_key(&(*u, *sc)) {
					vec![D::<Runtime>::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash: peek(after, || hash_of_items(*u, *sc)) }.into()]
				} else {
					vec![D::<Runtime>::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash }.into()]
				}
			},
			Act::Page(_, u, sc, page) => {
				let (msa_id, schema_id, page_id) = (*u, *sc, *page);
				let at = |io: &Io| peek(io, || hash_of_page(*u, *sc, *page));
				vec![D::<Runtime>::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash: at(&s.io), curr_content_hash: at(after) }.into()]
			},
			Act::DeletePage(_, u, sc, page) => {
				if !s.m.pages.get(&(*u, *sc)).map_or(false, |v| v.contains_key(page)) {
					return vec![]
				}
				let (msa_id, schema_id, page_id) = (*u, *sc, *page);
				vec![D::<Runtime>::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash: peek(&s.io, || hash_of_page(*u, *sc, *page)) }.into()]
			},
			Act::Schema(_, name) => {
				let schema_id = n.schemas.len() as u16;
				let mut v = vec![S::<Runtime>::SchemaCreated { key: account(OWNER), schema_id }.into()];
				if let Some(name) = name {
					v.push(S::<Runtime>::SchemaNameCreated { schema_id, name: name.as_bytes().to_vec() }.into());
				}
				v
			},
			Act::Name(schema_id, name) => vec![S::<Runtime>::SchemaNameCreated { schema_id: *schema_id, name: name.as_bytes().to_vec() }.into()],
			Act::Stale(..) | Act::Block | Act::Later => vec![],
		}
	}
}
const OFF: [(&str, &str); 5] = [("System", "Events"), ("System", "EventCount"), ("System", "BlockWeight"), ("System", "BlockHash"), ("System", "ExecutionPhase")];
impl mc::explore::System for Chain {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let io = stage();
		let schemas = (0..PLACES.len()).map(|i| (model(i as u16 + 1).into_inner(), i)).collect();
		vec![St { m: M { now: 1, schemas, ..Default::default() }, io }]
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(rest(&s.io, &OFF), &s.m)
	}
	fn actions(&self, _: &St) -> Vec<Act> {
		self.acts.clone()
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, mc::explore::Bad> {
		let mut m = s.m.clone();
		match a {
			Act::Block => {
				m.now += 1;
				m.next = 0;
				return Ok(Some(St { io: block(&s.io), m }))
			},
			Act::Later => {
				m.now += 5;
				m.next = 0;
				return Ok(Some(St { io: (0..5).fold(s.io.clone(), |io, _| block(&io)), m }))
			},
			_ => {},
		}
		let (who, call) = self.call(s, a);
		let origin = || match &call {
			RuntimeCall::Schemas(_) => RuntimeOrigin::root(),
			_ => RuntimeOrigin::signed(account(who)),
		};
		let (r, io) = on(&s.io, || sdk::io::with_transaction_result(|| call.clone().dispatch(origin())));
		let want = self.effect(&s.m, a);
		let what = || format!("{NET}: {a:?} ended with {:?} after {:?}", r.as_ref().map(|_| ()).map_err(|e| e.error.clone()), s.m);
		must!(r.is_ok() == want.is_some(), "outcome", "{}, expected {}", what(), if want.is_some() { "success" } else { "a refusal" });
		let Some(m) = want else {
			must!(rest(&io, &OFF) == rest(&s.io, &OFF), "refused-with-effects", "{}, yet the state changed", what());
			return Ok(None)
		};
		if self.told {
			let got = super::announced::since(&io, super::announced::count(&s.io));
			let want = self.announces(s, a, &m, &io);
			must!(super::announced::same(&got, &want), "announced", "{} and announces {got:?}, not {want:?}", what());
			if matches!(a, Act::Change(..)) {
				must!(got == want, "announced-order", "{} and announces {got:?}, not {want:?}", what());
			}
		}
		Ok(Some(St { io, m }))
	}
	fn check(&self, s: &St) -> Result<(), mc::explore::Bad> {
		if self.told {
			return Ok(())
		}
		let m = &s.m;
		let wrote = fr::key(&s.io);
		let (r, after) = on(&s.io, || self.ask(m));
		must!(fr::key(&after) == wrote, "query-writes", "{NET}: asking changed the state after {m:?}");
		r
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!(format!("{:?}", s.m))
	}
}
impl Chain {
	fn ask(&self, m: &M) -> Result<(), mc::explore::Bad> {
		let ids: Vec<u64> = (0..=5).chain([P]).collect();
		for n in USERS.into_iter().chain([NOBODY]) {
			let got = Runtime.account_nonce(at(), account(n)).unwrap();
			let want = System::account(account(n)).nonce;
			must!(got == want, "nonce", "{NET}: the next transaction of account {n} is said to be {got} and not {want}");
		}
		// who may act for whom
		for d in &ids {
			let mut all = BTreeMap::new();
			for p in &ids {
				for b in 0..=m.now + 2 {
					let got = Runtime.has_delegation(at(), DelegatorId(*d), ProviderId(*p), b, None).unwrap();
					must!(got == m.acts_for(*d, *p, b), "has-delegation", "{NET}: does {p} act for {d} at block {b}? Answered {got} after {m:?}");
					for sc in 0..=6u16 {
						let got = Runtime.has_delegation(at(), DelegatorId(*d), ProviderId(*p), b, Some(sc)).unwrap();
						must!(got == m.granted(*d, *p, sc, b), "has-grant", "{NET}: does {p} act for {d} on schema {sc} at block {b}? Answered {got} after {m:?}");
					}
				}
				let list = |x: &Deleg| x.schemas.iter().map(|(s, r)| (*s, if x.revoked > 0 && (*r == 0 || *r > x.revoked) { x.revoked } else { *r })).collect::<BTreeMap<u16, u32>>();
				let got = Runtime.get_granted_schemas_by_msa_id(at(), DelegatorId(*d), ProviderId(*p)).unwrap();
				let got = got.map(|v| (v.len(), v.into_iter().map(|g| (g.schema_id, g.revoked_at)).collect::<BTreeMap<_, _>>()));
				let want = m.deleg.get(&(*d, *p)).filter(|x| !x.schemas.is_empty()).map(|x| (x.schemas.len(), list(x)));
				must!(got == want, "granted-schemas", "{NET}: schemas {d} grants to {p}: {got:?}, expected {want:?} after {m:?}");
				if let Some(x) = m.deleg.get(&(*d, *p)) {
					all.insert(*p, list(x));
				}
			}
			let got = Runtime.get_all_granted_delegations_by_msa_id(at(), DelegatorId(*d)).unwrap();
			let n = got.len();
			let got: BTreeMap<_, _> = got.into_iter().map(|x| (x.provider_id.0, x.permissions.into_iter().map(|g| (g.schema_id, g.revoked_at)).collect::<BTreeMap<_, _>>())).collect();
			must!(n == all.len() && got == all, "all-delegations", "{NET}: delegations of {d}: {got:?}, expected {all:?} after {m:?}");
		}
		// schemas and their names
		for sc in 0..=m.schemas.len() as u16 + 2 {
			let want = (sc as usize).checked_sub(1).and_then(|i| m.schemas.get(i)).map(|(model, l)| (sc, model.clone(), ModelType::AvroBinary, PLACES[*l], vec![]));
			for got in [Runtime.get_by_schema_id(at(), sc).unwrap(), Runtime.get_schema_by_id(at(), sc).unwrap()] {
				let got = got.map(|r| (r.schema_id, r.model, r.model_type, r.payload_location, r.settings));
				must!(got == want, "schema", "{NET}: schema {sc}: {got:?}, expected {want:?} after {m:?}");
			}
		}
		for q in ["frequency.one", "frequency.two", "social.one", "frequency", "social", "other"] {
			let got = Runtime.get_schema_versions_by_name(at(), q.as_bytes().to_vec()).unwrap();
			let got: BTreeSet<(String, u16, u16)> = got.into_iter().flatten().map(|v| (String::from_utf8_lossy(&v.schema_name).into_owned(), v.schema_version as u16, v.schema_id)).collect();
			let want: BTreeSet<(String, u16, u16)> = m
				.names
				.iter()
				.filter(|(n, _)| *n == q || n.split('.').next() == Some(q))
				.flat_map(|(n, v)| v.iter().enumerate().map(|(i, s)| (n.clone(), i as u16 + 1, *s)).collect::<Vec<_>>())
				.collect();
			must!(got == want, "schema-versions", "{NET}: versions of {q}: {got:?}, expected {want:?} after {m:?}");
		}
		// messages
		for b in 0..=m.now + 1 {
			for sc in 0..=6u16 {
				for l in [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated] {
					if m.place(sc) != Some(l) && matches!(l, PayloadLocation::OnChain | PayloadLocation::IPFS) {
						continue
					}
					let got = Runtime.get_messages_by_schema_and_block(at(), sc, l, b).unwrap();
					let want: Vec<MessageResponse> = m
						.messages
						.iter()
						.filter(|x| x.block == b && x.schema == sc && m.place(sc) == Some(l))
						.map(|x| {
							let n = u32::from_be_bytes(x.payload[..].try_into().unwrap());
							if l == PayloadLocation::OnChain {
								MessageResponse { provider_msa_id: x.provider, index: x.index, block_number: b, msa_id: x.of, payload: Some(x.payload.clone()), cid: None, payload_length: None }
							} else {
								MessageResponse { provider_msa_id: x.provider, index: x.index, block_number: b, msa_id: None, payload: None, cid: Some(CID.as_bytes().to_vec()), payload_length: Some(1000 + n) }
							}
						})
						.collect();
					must!(got == want, "messages", "{NET}: messages of schema {sc} ({l:?}) in block {b}: {got:?}, expected {want:?}");
				}
			}
		}
		// handles
		for u in &ids {
			let got = Runtime.get_handle_for_msa(at(), *u).unwrap().map(|h| (h.base_handle, h.canonical_base, h.suffix));
			let want = m.handles.get(u).map(|h| (h.base.as_bytes().to_vec(), canonical(&h.base).into_bytes(), h.suffix));
			must!(got == want, "handle", "{NET}: handle of {u}: {got:?}, expected {want:?} after {m:?}");
		}
		for b in BASES {
			let c = canonical(b);
			let k = m.used.get(&c).copied().unwrap_or(0);
			for n in [1usize, 3] {
				let got = Runtime.get_next_suffixes(at(), b.as_bytes().to_vec().try_into().unwrap(), n as u16).unwrap();
				let want = &self.order[&c][k..k + n];
				must!(got.suffixes == want && got.base_handle == b.as_bytes(), "suffixes", "{NET}: next suffixes of {b}: {got:?}, expected {want:?} after {m:?}");
			}
			for suffix in &self.order[&c][..k + 2] {
				let name = format!("{b}.{suffix}");
				let got = Runtime.get_msa_for_handle(at(), name.as_bytes().to_vec().try_into().unwrap()).unwrap();
				let want = m.handles.iter().find(|(_, h)| canonical(&h.base) == c && h.suffix == *suffix).map(|x| *x.0);
				must!(got == want, "handle-owner", "{NET}: owner of {name}: {got:?}, expected {want:?} after {m:?}");
			}
		}
		for (b, good) in [("bob", true), ("Bob", true), ("carol", true), ("b", false), ("admin", false), ("bob.1", false), ("a\"bc", false), ("abcdefghijklmnopqrstuvwxyz", false)] {
			let got = Runtime.validate_handle(at(), b.as_bytes().to_vec().try_into().unwrap()).unwrap();
			must!(got == good, "valid-handle", "{NET}: is {b} a good handle? Answered {got}");
		}
		// storage
		for u in &ids {
			for sc in 0..=6u16 {
				let place = m.place(sc);
				let got = Runtime.get_itemized_storage(at(), *u, sc).unwrap();
				let got = got.map(|r| (r.msa_id, r.schema_id, r.content_hash == 0, r.items.into_iter().map(|i| (i.index, i.payload)).collect::<Vec<_>>())).ok();
				let want = m.items.get(&(*u, sc)).cloned().unwrap_or_default();
				let want = (place == Some(PayloadLocation::Itemized)).then(|| (*u, sc, want.is_empty(), want.into_iter().enumerate().map(|(i, p)| (i as u16, p)).collect::<Vec<_>>()));
				must!(got == want, "items", "{NET}: items of {u} under schema {sc}: {got:?}, expected {want:?}");
				let got = Runtime.get_paginated_storage(at(), *u, sc).unwrap();
				let got = got.map(|v| (v.len(), v.iter().all(|r| r.msa_id == *u && r.schema_id == sc && r.content_hash != 0), v.into_iter().map(|r| (r.page_id, r.payload)).collect::<BTreeMap<_, _>>())).ok();
				let want = m.pages.get(&(*u, sc)).cloned().unwrap_or_default();
				let want = (place == Some(PayloadLocation::Paginated)).then(|| (want.len(), true, want));
				must!(got == want, "pages", "{NET}: pages of {u} under schema {sc}: {got:?}, expected {want:?}");
			}
		}
		Ok(())
	}
}
/// What paying with capacity is said to cost, and what it does cost.
fn quotes(run: &Run) {
	use sdk::pallet_transaction_payment::FeeDetails;
	let base = on(&start(), || set_capacity(1, 900_000 * ED, 900_000 * ED, 1)).1;
	let all: Vec<RuntimeCall> = every_call();
	let eligible: Vec<RuntimeCall> = all.iter().filter(|c| super::filters::weight(c).is_some()).cloned().collect();
	run.note(&format!("{NET}_quoted"), eligible.len());
	let mut calls: Vec<(RuntimeCall, Vec<RuntimeCall>)> = eligible.iter().map(|c| (cap(c.clone()), vec![c.clone()])).collect();
	for a in &eligible {
		for b in &eligible {
			calls.push((caps(vec![a.clone(), b.clone()]), vec![a.clone(), b.clone()]));
		}
	}
	for n in 1..=10 {
		for a in &eligible {
			calls.push((caps(vec![a.clone(); n]), vec![a.clone(); n]));
		}
		for len in [0usize, 1, 1000, 3000] {
			calls.push((caps(vec![message(1, len); n]), vec![message(1, len); n]));
		}
	}
	let paid = std::sync::atomic::AtomicU64::new(0);
	mc::par(calls.len(), |i| {
		let (call, inner) = &calls[i];
		run.eval(1);
		run.state(1);
		let x = peek(&base, || tx(OWNER, nonce(OWNER), 0, call.clone()));
		let len = x.encode().len();
		let q: FeeDetails<Balance> = peek(&base, || Runtime.compute_capacity_fee(at(), x.clone(), len as u32).unwrap());
		let (r, after) = on(&base, || rt::Executive::apply_extrinsic(x));
		let charge = peek(&base, || capacity(1)).unwrap().0 - peek(&after, || capacity(1)).map_or(0, |c| c.0);
		let what = || format!("{NET}: {} of {len} bytes is quoted {:?} and ended with {r:?}, charged {charge}", fees::show(call), q.inclusion_fee.as_ref().map(|f| (f.base_fee, f.len_fee, f.adjusted_weight_fee)));
		let Some(f) = &q.inclusion_fee else {
			run.ok(false, "quote", || what());
			return
		};
		let stable: u64 = inner.iter().map(|c| super::filters::weight(c).unwrap().ref_time()).sum();
		run.ok(f.base_fee == weight_fee(BASE) && f.len_fee == BYTE * len as Balance && q.tip == 0, "quote", || format!("{}: base {} and length {} expected", what(), weight_fee(BASE), BYTE * len as Balance));
		run.ok(f.adjusted_weight_fee >= weight_fee(stable), "quote", || format!("{}: the calls' stable weight alone costs {}", what(), weight_fee(stable)));
		if r.is_ok() {
			paid.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
			run.ok(f.base_fee + f.len_fee + f.adjusted_weight_fee >= charge, "quote", what);
		}
	});
	assert!(paid.load(std::sync::atomic::Ordering::Relaxed) as usize > calls.len() / 2);
	// what may not be paid for with capacity has no price
	for c in all.iter().filter(|c| super::filters::weight(c).is_none() && wrapped_calls(c).is_none()) {
		run.eval(1);
		for x in [c.clone(), cap(c.clone()), caps(vec![c.clone()])] {
			let t = peek(&base, || tx(OWNER, 0, 0, x.clone()));
			let q: FeeDetails<Balance> = peek(&base, || Runtime.compute_capacity_fee(at(), t, 200).unwrap());
			run.ok(q.inclusion_fee.is_none() && q.tip == 0, "quote-ineligible", || format!("{NET}: {} is quoted {:?}", fees::show(&x), q.inclusion_fee.map(|f| (f.base_fee, f.len_fee, f.adjusted_weight_fee))));
		}
	}
}
/// The events of blocks of up to `n` transactions.
/// Twice the same, so that it leaves the same events twice.
fn both(c: &RuntimeCall) -> RuntimeCall {
	RuntimeCall::Utility(sdk::pallet_utility::Call::batch { calls: vec![c.clone(), c.clone()] })
}
fn events(run: &Run) {
	let base = on(&start(), || set_capacity(1, 900_000 * ED, 900_000 * ED, 1)).1;
	let base = block(&base);
	let pool: Vec<(usize, RuntimeCall)> = vec![(OWNER, message(1, 3)), (OWNER, message(99, 3)), (PLAIN, pay(NOBODY, ED)), (OWNER, cap(message(1, 3))), (OTHER, remark()), (PLAIN, RuntimeCall::Msa(MsaCall::create {})), (OWNER, both(&message(1, 3)))];
	let blocks = mc::strings(&(0..pool.len()).collect::<Vec<_>>(), mc::pick(4, 6));
	let seen = std::sync::atomic::AtomicU64::new(0);
	mc::par(blocks.len(), |i| {
		run.eval(1);
		run.state(1);
		let mut io = base.clone();
		let mut ends = vec![];
		let began = peek(&io, || System::events().len());
		for k in &blocks[i] {
			let (who, call) = &pool[*k];
			let x = peek(&io, || tx(*who, nonce(*who), 0, call.clone()));
			let (r, after) = on(&io, || rt::Executive::apply_extrinsic(x));
			io = after;
			if let Ok(r) = r {
				ends.push(r.is_ok());
			}
		}
		for fin in [false, true] {
			if fin {
				io = on(&io, || rt::Executive::finalize_block()).1;
			}
			let (got, raw) = peek(&io, || (Runtime.get_events(at()).unwrap(), System::events()));
			let what = || format!("{NET}: a block of {:?}", blocks[i].iter().map(|k| fees::show(&pool[*k].1)).collect::<Vec<_>>());
			// each record as it was deposited
			run.ok(got.len() == raw.len(), "events", || format!("{}: {} events instead of {}", what(), got.len(), raw.len()));
			for (g, r) in got.iter().zip(&raw) {
				let e = r.event.encode();
				let phase = match r.phase {
					sdk::frame_system::Phase::ApplyExtrinsic(n) => Some(n),
					_ => None,
				};
				run.ok(g.phase == phase && [&[g.pallet, g.event], &g.data[..]].concat() == e, "events", || format!("{}: {:?} is reported as {g:?}", what(), r));
			}
			// and each transaction's end under its number
			let ended: Vec<(Option<u32>, bool)> = got.iter().skip(began).filter(|g| g.pallet == 0 && g.event < 2).map(|g| (g.phase, g.event == 0)).collect();
			let want: Vec<(Option<u32>, bool)> = ends.iter().enumerate().map(|(n, ok)| (Some(n as u32), *ok)).collect();
			run.ok(ended == want, "events-of-transactions", || format!("{}: transactions are said to have ended {ended:?}, expected {want:?}", what()));
			seen.fetch_add(got.len() as u64, std::sync::atomic::Ordering::Relaxed);
		}
	});
	run.note(&format!("{NET}_events"), seen.load(std::sync::atomic::Ordering::Relaxed));
}
fn grants() -> Vec<Act> {
	let mut v = vec![];
	for (d, p) in [(P, 1), (P, 2), (3, 1)] {
		v.extend([Act::Grant(d, p, vec![1]), Act::Grant(d, p, vec![1, 5]), Act::Revoke(d, p, vec![1]), Act::Leave(d, p), Act::Drop(d, p)]);
	}
	v.extend([Act::Grant(P, 1, vec![]), Act::Post(1, Some(P), 1), Act::Post(P, Some(1), 1), Act::Block]);
	v
}
pub fn c41(run: &Run) {
	quotes(run);
	events(run);
	chains(run, false);
}
/// Histories of everything that has queries.
pub fn chains(run: &Run, told: bool) {
	let order: BTreeMap<String, Vec<u16>> = peek(&stage(), || {
		BASES.iter().map(|b| (canonical(b), Runtime.get_next_suffixes(at(), b.as_bytes().to_vec().try_into().unwrap(), 40).unwrap().suffixes)).collect()
	});
	for (b, v) in &order {
		run.ok(v.len() == 40 && mc::distinct(v.clone()) == 40, "suffixes", || format!("{NET}: the first suffixes of {b}: {v:?}"));
	}
	let mut messages = vec![Act::Grant(P, 1, vec![1]), Act::Leave(P, 1), Act::Block];
	for p in [1, 2] {
		messages.extend([Act::Post(p, None, 1), Act::Post(p, Some(P), 1), Act::Ipfs(p, 2), Act::Post(p, None, 5)]);
	}
	messages.extend([Act::Post(P, None, 1), Act::Post(1, None, 2), Act::Post(1, None, 3), Act::Ipfs(1, 1), Act::Post(1, None, 9)]);
	let mut handles = vec![Act::Later];
	for u in [3, P] {
		handles.extend(["Bob", "bob", "carol"].map(|b| Act::Claim(u, b)));
		handles.extend(["Bob", "dave"].map(|b| Act::Change(u, b)));
		handles.push(Act::Retire(u));
	}
	let mut store = vec![Act::Grant(P, 1, vec![3, 4]), Act::Grant(P, 1, vec![4]), Act::Leave(P, 1), Act::Block, Act::Stale(P, 3)];
	for (by, u) in [(P, P), (1, P), (1, 1), (2, P)] {
		store.extend([Act::Items(by, u, 3, true), Act::Items(by, u, 3, false), Act::Page(by, u, 4, 0), Act::DeletePage(by, u, 4, 0)]);
	}
	store.extend([Act::Page(P, P, 4, 1), Act::Page(P, P, 3, 1), Act::Items(P, P, 4, true)]);
	let mut schemas = vec![Act::Name(1, "frequency.one"), Act::Name(2, "frequency.one"), Act::Name(2, "social.one"), Act::Name(9, "social.one"), Act::Name(6, "frequency.two"), Act::Post(1, None, 6)];
	for l in [0, 2] {
		for n in [None, Some("frequency.one"), Some("frequency.two"), Some("social.one")] {
			schemas.push(Act::Schema(l, n));
		}
	}
	for (what, acts, depth) in [("delegations", grants(), 5), ("messages", messages, 5), ("handles", handles, 5), ("storage", store, 4), ("schemas", schemas, 5)] {
		let b = mc::explore::Bounds { depth: mc::pick(depth, depth + 2), max_states: mc::pick(if told { 25_000 } else { 15_000 }, 200_000), secs: mc::pick(60, 600) };
		mc::explore::explore(run, &format!("{NET} {what}"), &Chain { acts, order: order.clone(), told }, b);
	}
	let _ = By::Root;
}

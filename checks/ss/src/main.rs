//! C26 C27 C28 C29: pallet-stateful-storage, explored state by state and compared with plain lists and maps.
use common_primitives::{
	msa::{DelegatorId, MessageSourceId, MsaLookup, MsaValidator, ProviderId, SchemaGrantValidator},
	schema::{ModelType, PayloadLocation, SchemaId, SchemaInfoResponse, SchemaProvider, SchemaResponse, SchemaSetting},
	utils::wrap_binary_data,
};
use fr::{peek, run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_stateful_storage as ss;
use sdk::codec::{Decode, Encode};
use sdk::frame_support::traits::Get;
use sdk::frame_support::{construct_runtime, traits::UnfilteredDispatchable, Twox128};
use sdk::frame_system;
use sdk::pallet_balances;
use sdk::sp_core::{crypto::AccountId32, sr25519, Pair};
use sdk::sp_runtime::traits::ConvertInto;
use sdk::sp_runtime::{BuildStorage, DispatchError, DispatchResult, MultiSignature};
use serde_json::json;
use ss::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

fr::base_runtime!(account = AccountId32, balance = u64, ed = 1, freezes = 1);

/// Identities that agree with identity 1 in their lower halves.
const FAR: u64 = 1 + (1 << 32);
const FARTHEST: u64 = 1 + (1 << 56);
/// Keys 0 and 1 control identity 1, key 2 identity 256, key 3 identity 2, key 4 none, keys 5 and 6 identities far away.
const OWNER: [Option<MessageSourceId>; 7] = [Some(1), Some(1), Some(256), Some(2), None, Some(FAR), Some(FARTHEST)];
fn pairs() -> &'static Vec<(sr25519::Pair, AccountId32)> {
	static P: OnceLock<Vec<(sr25519::Pair, AccountId32)>> = OnceLock::new();
	P.get_or_init(|| {
		(0..7u8)
			.map(|i| {
				let p = sr25519::Pair::from_seed(&[i + 1; 32]);
				let a = AccountId32::from(p.public());
				(p, a)
			})
			.collect()
	})
}
fn acc(k: usize) -> AccountId32 {
	pairs()[k].1.clone()
}
pub struct Env;
impl MsaLookup for Env {
	type AccountId = AccountId32;
	fn get_msa_id(key: &AccountId32) -> Option<MessageSourceId> {
		pairs().iter().position(|p| p.1 == *key).and_then(|i| OWNER[i])
	}
}
impl MsaValidator for Env {
	type AccountId = AccountId32;
	fn ensure_valid_msa_key(key: &AccountId32) -> Result<MessageSourceId, DispatchError> {
		Self::get_msa_id(key).ok_or(DispatchError::Other("no identity"))
	}
}
/// Identity 1 grants every schema up to 8 except 7 to provider 256 until block 2; identity 2 grants schema 1 to provider 1 from block 2 on; nothing else.
fn granted(provider: u64, delegator: u64, schema: u16, block: u32) -> bool {
	match (provider, delegator) {
		(256, 1) => block <= 2 && schema <= 8 && schema != 7,
		(1, 2) => block >= 2 && schema == 1,
		_ => false,
	}
}
impl SchemaGrantValidator<u32> for Env {
	fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: SchemaId, b: u32) -> DispatchResult {
		if granted(p.0, d.0, s, b) {
			Ok(())
		} else {
			Err(DispatchError::Other("not granted"))
		}
	}
}
/// (layout, append only, signature required)
fn schema(id: u16) -> Option<(PayloadLocation, bool, bool)> {
	use PayloadLocation::*;
	match id {
		1..=4 => Some((Itemized, id == 2 || id == 4, id >= 3)),
		5..=8 => Some((Paginated, id == 6 || id == 8, id >= 7)),
		9 => Some((OnChain, false, false)),
		10 => Some((IPFS, false, false)),
		0x0100 | 0x0101 => Some((Itemized, false, false)),
		0x0500 | 0x0105 => Some((Paginated, false, false)),
		_ => None,
	}
}
fn settings(id: u16) -> Vec<SchemaSetting> {
	let mut v = vec![];
	if let Some((_, a, s)) = schema(id) {
		if a {
			v.push(SchemaSetting::AppendOnly)
		}
		if s {
			v.push(SchemaSetting::SignatureRequired)
		}
	}
	v
}
impl SchemaProvider<SchemaId> for Env {
	fn get_schema_by_id(schema_id: SchemaId) -> Option<SchemaResponse> {
		schema(schema_id).map(|s| SchemaResponse { schema_id, model: vec![], model_type: ModelType::AvroBinary, payload_location: s.0, settings: settings(schema_id) })
	}
	fn get_schema_info_by_id(schema_id: SchemaId) -> Option<SchemaInfoResponse> {
		schema(schema_id).map(|s| SchemaInfoResponse { schema_id, model_type: ModelType::AvroBinary, payload_location: s.0, settings: settings(schema_id) })
	}
}
macro_rules! limit {
	($n:ident, $t:ty, $v:expr) => {
		#[derive(Clone, Debug, Default, PartialEq, Eq)]
		pub struct $n;
		impl Get<$t> for $n {
			fn get() -> $t {
				$v
			}
		}
	};
}
const WINDOW: u32 = 3;
const MAX_ITEM: usize = 300;
const MAX_LIST: usize = 620;
const MAX_PAGE: usize = 600;
const LAST_PAGE: u16 = 257;
const MAX_ACTIONS: usize = 6;
limit!(ItemMax, u32, MAX_ITEM as u32);
limit!(ListMax, u32, MAX_LIST as u32);
limit!(PageMax, u32, MAX_PAGE as u32);
limit!(LastPage, u16, LAST_PAGE);
limit!(ActionsMax, u32, MAX_ACTIONS as u32);
limit!(Window, u32, WINDOW);
impl ss::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Env;
	type SchemaGrantValidator = Env;
	type SchemaProvider = Env;
	type MaxItemizedPageSizeBytes = ListMax;
	type MaxPaginatedPageSizeBytes = PageMax;
	type MaxItemizedBlobSizeBytes = ItemMax;
	type MaxPaginatedPageId = LastPage;
	type MaxItemizedActionsCount = ActionsMax;
	type KeyHasher = Twox128;
	type ConvertIntoAccountId32 = ConvertInto;
	type MortalityWindowSize = Window;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Store: ss::{Pallet, Call, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);

// ------------------------------------------------------------------ requests
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Item {
	Add(Vec<u8>),
	Del(u16),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
	Items(Vec<Item>),
	Put(u16, Vec<u8>),
	Drop(u16),
}
/// What is asked for: the owner's identity, the schema, the operation and the state hash it was prepared against.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Req {
	owner: u64,
	schema: u16,
	op: Op,
	target: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Who {
	/// sent by this key
	Key(usize),
	Nobody,
	Root,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Tamper {
	No,
	Owner,
	Schema,
	Page,
	Target,
	Expiry,
	Content,
	Bare,
	Junk,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum How {
	Direct,
	/// signed by `signer` for `key`; version 1 names the identity itself
	Signed { v1: bool, key: usize, signer: usize, exp: u32, tamper: Tamper },
}
fn act(l: &[Item]) -> Vec<ItemAction<ItemMax>> {
	l.iter()
		.map(|a| match a {
			Item::Add(d) => ItemAction::Add { data: d.clone().try_into().expect("within the limit") },
			Item::Del(i) => ItemAction::Delete { index: *i },
		})
		.collect()
}
/// The payload that the owner signs.
fn payload(r: &Req, v1: bool, exp: u32) -> Vec<u8> {
	let (msa_id, schema_id, target_hash, expiration) = (r.owner, r.schema, r.target, exp);
	match (&r.op, v1) {
		(Op::Items(l), true) => ItemizedSignaturePayload::<Test> { msa_id, schema_id, target_hash, expiration, actions: act(l).try_into().unwrap() }.encode(),
		(Op::Items(l), false) => ItemizedSignaturePayloadV2::<Test> { schema_id, target_hash, expiration, actions: act(l).try_into().unwrap() }.encode(),
		(Op::Put(p, d), true) => PaginatedUpsertSignaturePayload::<Test> { msa_id, schema_id, page_id: *p, target_hash, expiration, payload: d.clone().try_into().unwrap() }.encode(),
		(Op::Put(p, d), false) => PaginatedUpsertSignaturePayloadV2::<Test> { schema_id, page_id: *p, target_hash, expiration, payload: d.clone().try_into().unwrap() }.encode(),
		(Op::Drop(p), true) => PaginatedDeleteSignaturePayload::<Test> { msa_id, schema_id, page_id: *p, target_hash, expiration }.encode(),
		(Op::Drop(p), false) => PaginatedDeleteSignaturePayloadV2::<Test> { schema_id, page_id: *p, target_hash, expiration }.encode(),
	}
}
/// The request whose signature is presented when somebody tampers.
fn tampered(r: &Req, t: Tamper, exp: u32) -> (Req, u32) {
	let mut q = r.clone();
	let mut e = exp;
	match t {
		Tamper::Owner => q.owner ^= 3,
		Tamper::Schema => q.schema ^= 1,
		Tamper::Page => match &mut q.op {
			Op::Put(p, _) | Op::Drop(p) => *p ^= 1,
			_ => (),
		},
		Tamper::Target => q.target ^= 1 << 8,
		Tamper::Expiry => e += 1,
		Tamper::Content => match &mut q.op {
			Op::Items(l) => l.push(Item::Add(vec![9])),
			Op::Put(_, d) => d.push(9),
			Op::Drop(_) => (),
		},
		_ => (),
	}
	(q, e)
}
#[allow(deprecated)]
fn call(r: &Req, how: &How) -> RuntimeCall {
	let (schema_id, target_hash) = (r.schema, r.target);
	RuntimeCall::Store(match how {
		How::Direct => match &r.op {
			Op::Items(l) => ss::Call::apply_item_actions { state_owner_msa_id: r.owner, schema_id, target_hash, actions: act(l).try_into().unwrap() },
			Op::Put(p, d) => ss::Call::upsert_page { state_owner_msa_id: r.owner, schema_id, page_id: *p, target_hash, payload: d.clone().try_into().unwrap() },
			Op::Drop(p) => ss::Call::delete_page { state_owner_msa_id: r.owner, schema_id, page_id: *p, target_hash },
		},
		How::Signed { v1, key, signer, exp, tamper } => {
			let (q, e) = tampered(r, *tamper, *exp);
			let bytes = payload(&q, *v1, e);
			let bytes = match tamper {
				Tamper::Bare => bytes,
				Tamper::Junk => [wrap_binary_data(bytes), vec![0]].concat(),
				_ => wrap_binary_data(bytes),
			};
			let proof = MultiSignature::Sr25519(pairs()[*signer].0.sign(&bytes));
			let delegator_key = acc(*key);
			let (msa_id, expiration) = (r.owner, *exp);
			match (&r.op, v1) {
				(Op::Items(l), true) =>
					ss::Call::apply_item_actions_with_signature { delegator_key, proof, payload: ItemizedSignaturePayload { msa_id, schema_id, target_hash, expiration, actions: act(l).try_into().unwrap() } },
				(Op::Items(l), false) => ss::Call::apply_item_actions_with_signature_v2 { delegator_key, proof, payload: ItemizedSignaturePayloadV2 { schema_id, target_hash, expiration, actions: act(l).try_into().unwrap() } },
				(Op::Put(p, d), true) => ss::Call::upsert_page_with_signature {
					delegator_key,
					proof,
					payload: PaginatedUpsertSignaturePayload { msa_id, schema_id, page_id: *p, target_hash, expiration, payload: d.clone().try_into().unwrap() },
				},
				(Op::Put(p, d), false) =>
					ss::Call::upsert_page_with_signature_v2 { delegator_key, proof, payload: PaginatedUpsertSignaturePayloadV2 { schema_id, page_id: *p, target_hash, expiration, payload: d.clone().try_into().unwrap() } },
				(Op::Drop(p), true) => ss::Call::delete_page_with_signature { delegator_key, proof, payload: PaginatedDeleteSignaturePayload { msa_id, schema_id, page_id: *p, target_hash, expiration } },
				(Op::Drop(p), false) => ss::Call::delete_page_with_signature_v2 { delegator_key, proof, payload: PaginatedDeleteSignaturePayloadV2 { schema_id, page_id: *p, target_hash, expiration } },
			}
		},
	})
}
fn submit(r: &Req, how: &How, who: Who) -> Result<(), String> {
	let o = match who {
		Who::Key(k) => RuntimeOrigin::signed(acc(k)),
		Who::Nobody => RuntimeOrigin::none(),
		Who::Root => RuntimeOrigin::root(),
	};
	call(r, how).dispatch_bypass_filter(o).map(|_| ()).map_err(|e| format!("{:?}", e.error))
}

// ------------------------------------------------------------------ what the operations imply
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Data {
	items: BTreeMap<(u64, u16), Vec<Vec<u8>>>,
	pages: BTreeMap<(u64, u16, u16), Vec<u8>>,
}
fn size(l: &[Vec<u8>]) -> usize {
	l.iter().map(|x| x.len() + 2).sum()
}
impl Data {
	/// What the request leaves behind when it is one the owner may make (None: it must be refused).
	fn after(&self, r: &Req) -> Option<Data> {
		let mut d = self.clone();
		match &r.op {
			Op::Items(l) => {
				let old = self.items.get(&(r.owner, r.schema)).cloned().unwrap_or_default();
				let mut keep: Vec<Option<Vec<u8>>> = old.into_iter().map(Some).collect();
				let mut add = vec![];
				for a in l {
					match a {
						Item::Add(x) => add.push(x.clone()),
						Item::Del(i) => {
							keep.get_mut(*i as usize)?.take()?;
						},
					}
				}
				let new: Vec<_> = keep.into_iter().flatten().chain(add).collect();
				if size(&new) > MAX_LIST {
					return None
				}
				if new.is_empty() {
					d.items.remove(&(r.owner, r.schema));
				} else {
					d.items.insert((r.owner, r.schema), new);
				}
			},
			Op::Put(p, x) => {
				if *p > LAST_PAGE {
					return None
				}
				d.pages.insert((r.owner, r.schema, *p), x.clone());
			},
			Op::Drop(p) => {
				if *p > LAST_PAGE {
					return None
				}
				d.pages.remove(&(r.owner, r.schema, *p));
			},
		}
		Some(d)
	}
}
fn layout(op: &Op) -> PayloadLocation {
	match op {
		Op::Items(_) => PayloadLocation::Itemized,
		_ => PayloadLocation::Paginated,
	}
}
/// May this request be made this way at this block (whatever it asks for)?
fn allowed(r: &Req, how: &How, who: Who, now: u32) -> bool {
	let Who::Key(sender) = who else { return false };
	let Some((loc, append, signed)) = schema(r.schema) else { return false };
	if loc != layout(&r.op) {
		return false
	}
	let removes = match &r.op {
		Op::Items(l) => l.iter().any(|a| matches!(a, Item::Del(_))),
		Op::Put(..) => false,
		Op::Drop(_) => true,
	};
	if append && removes {
		return false
	}
	match how {
		How::Direct => match OWNER[sender] {
			Some(m) if m == r.owner => true,
			Some(m) => granted(m, r.owner, r.schema, now) && !signed,
			None => false,
		},
		How::Signed { v1, key, signer, exp, tamper } => {
			let untouched = match tamper {
				Tamper::Bare | Tamper::Junk => false,
				t => {
					let (q, e) = tampered(r, *t, *exp);
					payload(&q, *v1, e) == payload(r, *v1, *exp)
				},
			};
			untouched && key == signer && OWNER[*key] == Some(r.owner) && now < *exp && *exp < now + WINDOW
		},
	}
}
const IDS: [u64; 7] = [0, 1, 2, 256, 257, FAR, FARTHEST];
const SCHEMAS: [u16; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x0100, 0x0101, 0x0105, 0x0500];
/// Everything the queries say, for all small identities and schemas; and the state hashes they announce.
fn read() -> Result<(Data, BTreeMap<(u64, u16, Option<u16>), u32>), String> {
	let mut d = Data::default();
	let mut h = BTreeMap::new();
	for id in IDS {
		for s in SCHEMAS {
			let i = Store::get_itemized_storage(id, s);
			let p = Store::get_paginated_storage(id, s);
			let loc = schema(s).map(|x| x.0);
			if i.is_ok() != (loc == Some(PayloadLocation::Itemized)) || p.is_ok() != (loc == Some(PayloadLocation::Paginated)) {
				return Err(format!("identity {id} schema {s}: itemized query {i:?}, paginated query {p:?}"))
			}
			if let Ok(i) = i {
				if i.msa_id != id || i.schema_id != s || i.items.iter().enumerate().any(|(n, x)| x.index as usize != n) {
					return Err(format!("identity {id} schema {s}: {i:?}"))
				}
				h.insert((id, s, None), i.content_hash);
				if !i.items.is_empty() {
					d.items.insert((id, s), i.items.into_iter().map(|x| x.payload).collect());
				}
			}
			for p in p.unwrap_or_default() {
				if p.msa_id != id || p.schema_id != s {
					return Err(format!("identity {id} schema {s}: {p:?}"))
				}
				h.insert((id, s, Some(p.page_id)), p.content_hash);
				if d.pages.insert((id, s, p.page_id), p.payload).is_some() {
					return Err(format!("identity {id} schema {s}: page {} listed twice", p.page_id))
				}
			}
		}
	}
	Ok((d, h))
}
/// The hash a write must name now.
fn hash_now(owner: u64, schema: u16, op: &Op) -> u32 {
	match op {
		Op::Items(_) => Store::get_itemized_storage(owner, schema).map_or(0, |p| p.content_hash),
		Op::Put(n, _) | Op::Drop(n) => Store::get_paginated_storage(owner, schema).unwrap_or_default().into_iter().find(|p| p.page_id == *n).map_or(0, |p| p.content_hash),
	}
}
fn events() -> usize {
	let n = System::events().into_iter().filter(|e| matches!(e.event, RuntimeEvent::Store(_))).count();
	System::reset_events();
	n
}
fn fresh(now: u32) -> Io {
	let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut x = sdk::io::TestExternalities::new(t);
	x.execute_with(|| System::set_block_number(now));
	x.into_state()
}
fn owner_key(id: u64) -> usize {
	OWNER.iter().position(|o| *o == Some(id)).unwrap()
}
/// Writes by the owner, to set the scene.
fn write(io: &Io, d: &mut Data, owner: u64, schema: u16, op: Op) -> Io {
	let (_, io2) = run(io, || {
		let target = hash_now(owner, schema, &op);
		let r = Req { owner, schema, op: op.clone(), target };
		*d = d.after(&r).expect("scene");
		if let Err(e) = submit(&r, &How::Direct, Who::Key(owner_key(owner))) {
			eprintln!("scene: {r:?}: {e}");
		}
		System::reset_events();
	});
	io2
}
/// One request against one state: decision, effect, and everything that must not change. Returns the state after it.
fn judge(io: &Io, d: &Data, now: u32, r: &Req, how: &How, who: Who, current: u32, exists: bool) -> Result<Option<(Io, Data)>, Bad> {
	let may = allowed(r, how, who, now);
	// removing a page that is not there changes nothing, whatever it names
	let fits = r.target == current || (matches!(r.op, Op::Drop(_)) && !exists);
	let after = d.after(r);
	let want = may && fits && after.is_some();
	let ((res, ev, seen), io2) = run(io, || {
		let res = submit(r, how, who);
		let ev = events();
		let seen = if res.is_ok() { Some(read()) } else { None };
		(res, ev, seen)
	});
	if res.is_ok() && !want {
		let k = if !may {
			"C26:unauthorised-write"
		} else if !fits {
			"C27:stale-write"
		} else {
			"C28:invalid-write"
		};
		let effect = seen.map_or(true, |s| s.map_or(true, |s| s.0 != *d)) || fr::key(&io2) != fr::key(io);
		// nothing is lost when a refused request merely looks accepted, but the caller is told it was done
		return mc::bad(k, format!("{r:?} {how:?} sent by {who:?} in block {now} accepted{}, state hash {current}", if effect { "" } else { " (without effect)" }))
	}
	if res.is_err() && want {
		return mc::bad("C26,C27,C28,C29:refused", format!("{r:?} {how:?} sent by {who:?} in block {now} refused: {res:?}, state hash {current}"))
	}
	if res.is_err() {
		must!(fr::key(&io2) == fr::key(io) && ev == 0, "C26,C27,C28:refused-with-effect", "{r:?} {how:?} failed with {res:?} but changed storage or deposited {ev} events");
		return Ok(None)
	}
	let after = after.unwrap();
	match seen.unwrap() {
		Err(e) => return mc::bad("C28,C29:query", format!("after {r:?}: {e}")),
		Ok((got, h)) => {
			if got != after {
				// a difference elsewhere than at the key that was written is a mix-up
				let strip = |d: &Data| {
					let mut d = d.clone();
					match &r.op {
						Op::Items(_) => {
							d.items.remove(&(r.owner, r.schema));
						},
						Op::Put(p, _) | Op::Drop(p) => {
							d.pages.remove(&(r.owner, r.schema, *p));
						},
					}
					d
				};
				let k = if strip(&got) != strip(&after) { "C29,C28,C26:other-data-changed" } else { "C28:wrong-content" };
				return mc::bad(k, format!("after {r:?} {how:?} on {} the queries show {}, expected {}", show(d), show(&got), show(&after)))
			}
			let key = match &r.op {
				Op::Items(_) => (r.owner, r.schema, None),
				Op::Put(p, _) | Op::Drop(p) => (r.owner, r.schema, Some(*p)),
			};
			let new = h.get(&key).copied().unwrap_or(0);
			let left = match &r.op {
				Op::Items(_) => after.items.contains_key(&(r.owner, r.schema)),
				Op::Put(_, x) => !x.is_empty(),
				Op::Drop(_) => false,
			};
			must!(!left || new != current, "C27:same-hash", "{r:?} left data but the state hash is still {current}");
			must!(left || new == 0, "C27:empty-hash", "{r:?} left nothing but the state hash is {new}");
		},
	}
	Ok(Some((io2, after)))
}
fn show(d: &Data) -> String {
	let s = |x: &Vec<u8>| if x.len() > 16 { format!("[{}; {}]", x[0], x.len()) } else { format!("{x:?}") };
	let mut o = String::from("{");
	for (k, v) in &d.items {
		o += &format!("items{k:?}: [{}] ", v.iter().map(s).collect::<Vec<_>>().join(","));
	}
	for (k, v) in &d.pages {
		o += &format!("page{k:?}: {} ", s(v));
	}
	o + "}"
}

// ------------------------------------------------------------------ C26: who may write
fn scene(now: u32) -> (Io, Data) {
	let mut io = fresh(now);
	let mut d = Data::default();
	for id in [1, 256, FAR] {
		for s in 1..=4 {
			io = write(&io, &mut d, id, s, Op::Items(vec![Item::Add(vec![1]), Item::Add(vec![2, 2])]));
		}
		for s in 5..=8 {
			io = write(&io, &mut d, id, s, Op::Put(0, vec![id as u8, 7]));
			io = write(&io, &mut d, id, s, Op::Put(1, vec![8]));
		}
	}
	(io, d)
}
fn authorisation(r: &Run) {
	let ops = [
		Op::Items(vec![Item::Add(vec![5])]),
		Op::Items(vec![Item::Del(1)]),
		Op::Items(vec![Item::Add(vec![5]), Item::Del(0)]),
		Op::Items(vec![Item::Del(0), Item::Del(1)]),
		Op::Items(vec![]),
		Op::Put(0, vec![3]),
		Op::Put(2, vec![4]),
		Op::Put(LAST_PAGE + 1, vec![4]),
		Op::Drop(0),
		Op::Drop(1),
		Op::Drop(2),
		Op::Drop(LAST_PAGE + 1),
	];
	let mut hows = vec![];
	for now in 1..=3u32 {
		for owner in [1u64, 2, 256, 257, FAR] {
			for s in 0..=11u16 {
				for op in &ops {
					hows.push((now, owner, s, op.clone()));
				}
			}
		}
	}
	let scenes: Vec<(Io, Data)> = (1..=3).map(scene).collect();
	let yes = std::sync::atomic::AtomicU64::new(0);
	mc::par(hows.len(), |i| {
		let (now, owner, s, op) = &hows[i];
		let (io, d) = &scenes[*now as usize - 1];
		let (current, exists) = peek(io, || (hash_now(*owner, *s, op), read().map_or(false, |x| matches!(op, Op::Drop(p) if x.0.pages.contains_key(&(*owner, *s, *p))))));
		let mut tries: Vec<(How, Who)> = vec![];
		for who in [Who::Key(0), Who::Key(1), Who::Key(2), Who::Key(3), Who::Key(4), Who::Key(5), Who::Key(6), Who::Nobody, Who::Root] {
			tries.push((How::Direct, who));
		}
		let deep = mc::thorough();
		for v1 in [false, true] {
			for key in 0..OWNER.len() {
				for signer in 0..OWNER.len() {
					if key > 4 && key != signer {
						continue
					}
					for exp in now.saturating_sub(1)..=now + WINDOW + 1 {
						for tamper in [Tamper::No, Tamper::Owner, Tamper::Schema, Tamper::Page, Tamper::Target, Tamper::Expiry, Tamper::Content, Tamper::Bare, Tamper::Junk] {
							// a version-2 request is for the identity of the key; say so
							if !v1 && OWNER[key] != Some(*owner) && OWNER[key].is_some() {
								continue
							}
							if !deep && (tamper != Tamper::No && (key != signer || exp != now + 1)) {
								continue
							}
							tries.push((How::Signed { v1, key, signer, exp, tamper }, Who::Key(4)));
							if key == signer && exp == now + 1 && tamper == Tamper::No {
								tries.push((How::Signed { v1, key, signer, exp, tamper }, Who::Key(2)));
								tries.push((How::Signed { v1, key, signer, exp, tamper }, Who::Nobody));
								tries.push((How::Signed { v1, key, signer, exp, tamper }, Who::Root));
							}
						}
					}
				}
			}
		}
		for (how, who) in tries {
			for target in [current, current ^ 1, 0, u32::MAX] {
				if target == 0 && current == 0 && target != current {
					continue
				}
				let q = Req { owner: *owner, schema: *s, op: op.clone(), target };
				r.trans(1);
				match mc::catch(|| judge(io, d, *now, &q, &how, who, current, exists)) {
					Err(p) => r.fail("panic", format!("{q:?} {how:?} {who:?} panicked: {p}"), json!(format!("{q:?}"))),
					Ok(Err(b)) => r.fail(&b.key, b.what.clone(), json!({"block": now, "request": format!("{q:?}"), "how": format!("{how:?}"), "who": format!("{who:?}"), "stored": show(d)})),
					Ok(Ok(x)) =>
						if x.is_some() {
							yes.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
						},
				}
			}
		}
	});
	r.state(3);
	r.note("authorisation matrix", json!({"block, owner, schema and operation": hows.len(), "accepted": yes.into_inner()}));
}

// ------------------------------------------------------------------ C27: writers that race
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Pending {
	op: Op,
	signed: bool,
	target: u32,
	/// which version of the page it was prepared against: 0 is the page without data
	version: u64,
	/// how often the page had been emptied or deleted by then
	epoch: u64,
	/// what it held by then
	held: Vec<Vec<u8>>,
}
/// What a request prepared before its page was emptied did afterwards (a known weakness; any other replay is a violation).
static REVIVED: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
#[derive(Clone)]
struct Race {
	io: Io,
	d: Data,
	/// per page (0: the list, 1: page 0): current version, and the hashes shown since it last had no data
	version: [u64; 2],
	epoch: [u64; 2],
	seen: [BTreeSet<u32>; 2],
	count: u64,
	pending: Vec<Option<Pending>>,
}
/// What a list (0) or page (1) holds; a page without data counts as no page.
fn holds(d: &Data, at: usize) -> Vec<Vec<u8>> {
	match at {
		0 => d.items.get(&(1, 1)).cloned().unwrap_or_default(),
		_ => d.pages.get(&(1, 5, 0)).filter(|x| !x.is_empty()).cloned().into_iter().collect(),
	}
}
struct Racing {
	writers: usize,
	ops: Vec<Op>,
	signed: Vec<bool>,
}
#[derive(Clone, Debug)]
enum RaceAct {
	Prepare(usize, usize),
	Submit(usize),
}
fn place(op: &Op) -> usize {
	!matches!(op, Op::Items(_)) as usize
}
fn race_schema(op: &Op) -> u16 {
	[1, 5][place(op)]
}
impl Sm for Racing {
	type State = Race;
	type Action = RaceAct;
	fn init(&self) -> Vec<Race> {
		vec![Race { io: fresh(1), d: Data::default(), version: [0; 2], epoch: [0; 2], seen: Default::default(), count: 0, pending: vec![None; self.writers] }]
	}
	fn key(&self, s: &Race) -> u128 {
		let p: Vec<_> = s.pending.iter().map(|p| p.as_ref().map(|p| (p.op.clone(), p.signed, p.target, p.version == 0, p.version == s.version[place(&p.op)], p.epoch == s.epoch[place(&p.op)], p.held.clone()))).collect();
		// which hashes were shown before matters for what may be shown next
		fr::mix(fr::mix(fr::key(&s.io), &p), &s.seen)
	}
	fn actions(&self, s: &Race) -> Vec<RaceAct> {
		let mut v = vec![];
		for w in 0..self.writers {
			for o in 0..self.ops.len() {
				v.push(RaceAct::Prepare(w, o));
			}
			if s.pending[w].is_some() {
				v.push(RaceAct::Submit(w));
			}
		}
		v
	}
	fn step(&self, s: &Race, a: &RaceAct) -> Result<Option<Race>, Bad> {
		match a {
			RaceAct::Prepare(w, o) => {
				let op = self.ops[*o].clone();
				let mut n = s.clone();
				let p = place(&op);
				n.pending[*w] = Some(Pending { signed: self.signed[*w], target: peek(&s.io, || hash_now(1, race_schema(&op), &op)), version: s.version[p], epoch: s.epoch[p], held: holds(&s.d, p), op });
				Ok(Some(n))
			},
			// a request stays with its writer: it can be sent again
			RaceAct::Submit(w) => {
				let p = s.pending[*w].clone().unwrap();
				let at = place(&p.op);
				let sc = race_schema(&p.op);
				let r = Req { owner: 1, schema: sc, op: p.op.clone(), target: p.target };
				let (how, who) = if p.signed { (How::Signed { v1: *w == 1, key: 1, signer: 1, exp: 3, tamper: Tamper::No }, Who::Key(4)) } else { (How::Direct, Who::Key([0, 2][*w % 2])) };
				let current = peek(&s.io, || hash_now(1, sc, &p.op));
				let exists = s.d.pages.contains_key(&(1, 5, 0));
				let removes_nothing = matches!(p.op, Op::Drop(_)) && !exists;
				let same_epoch = p.epoch == s.epoch[at];
				let up_to_date = p.version == s.version[at];
				// the names of versions and the hashes must agree
				must!(!same_epoch || (p.target == current) == up_to_date, "C27:stale-hash-current", "{p:?} prepared against version {} names the hash of version {} in {}", p.version, s.version[at], show(&s.d));
				// even across an emptying, a hash stands for what the page holds
				must!(p.target != current || p.held == holds(&s.d, at), "C27:hash-of-other-content", "{p:?} names the hash that is current now, with other content: {}", show(&s.d));
				let Some((io, d)) = judge(&s.io, &s.d, 1, &r, &how, who, current, exists)? else { return Ok(None) };
				let mut n = Race { io, d, ..s.clone() };
				if removes_nothing {
					return Ok(Some(n))
				}
				if !same_epoch && n.d != s.d {
					REVIVED.lock().unwrap().get_or_insert_with(|| format!("{p:?}, prepared before the {} was emptied, took effect afterwards on {}", ["list", "page"][at], show(&s.d)));
				}
				let new = peek(&n.io, || hash_now(1, sc, &p.op));
				let left = match &p.op {
					Op::Items(_) => n.d.items.contains_key(&(1, 1)),
					_ => n.d.pages.get(&(1, 5, 0)).map_or(false, |x| !x.is_empty()),
				};
				if left {
					n.count += 1;
					n.version[at] = n.count;
					must!(n.seen[at].insert(new), "C27:hash-returns", "after {p:?} the state hash {new} is one that was current before: {:?}", s.seen[at]);
				} else {
					n.version[at] = 0;
					n.epoch[at] += (s.version[at] != 0) as u64;
					n.seen[at].clear();
				}
				Ok(Some(n))
			},
		}
	}
	fn describe(&self, s: &Race) -> serde_json::Value {
		json!({"stored": show(&s.d), "pending": format!("{:?}", s.pending)})
	}
}
fn racing(r: &Run) {
	let item = |b: u8| Op::Items(vec![Item::Add(vec![b])]);
	let a = Racing { writers: 2, signed: vec![false, true], ops: vec![item(1), item(2), Op::Items(vec![Item::Del(0)]), Op::Items(vec![Item::Del(0), Item::Add(vec![1])]), Op::Items(vec![])] };
	mc::explore(r, "two writers on a list", &a, Bounds { depth: mc::pick(8, 11), max_states: mc::pick(120_000, 1_500_000), secs: mc::pick(60, 200) });
	let b = Racing { writers: 2, signed: vec![true, true], ops: vec![Op::Put(0, vec![1]), Op::Put(0, vec![2]), Op::Put(0, vec![]), Op::Drop(0)] };
	mc::explore(r, "two writers on a page", &b, Bounds { depth: mc::pick(8, 11), max_states: mc::pick(120_000, 1_500_000), secs: mc::pick(60, 200) });
	let c = Racing { writers: 3, signed: vec![true, false, true], ops: vec![Op::Put(0, vec![1]), Op::Drop(0), item(1), Op::Items(vec![Item::Del(0)])] };
	mc::explore(r, "three writers on a list and a page", &c, Bounds { depth: mc::pick(6, 8), max_states: mc::pick(120_000, 1_500_000), secs: mc::pick(60, 200) });
	if let Some(w) = REVIVED.lock().unwrap().clone() {
		r.fail("C27:replay-after-emptying", w.clone(), json!(w));
	}
}
/// More writes than the page's counter has values, all leaving the same bytes behind every second time.
fn long_history(r: &Run) {
	for list in [true, false] {
		let mut io = fresh(1);
		let mut recent: Vec<(u32, Req)> = vec![];
		// a 32-bit hash may meet an earlier one by accident, but not often
		let mut shown: BTreeSet<u32> = BTreeSet::new();
		let mut met = 0;
		let n = 65_600usize;
		let mut first = true;
		for i in 0..n {
			let x = vec![(i % 2) as u8];
			let op = if list { Op::Items(if first { vec![Item::Add(x)] } else { vec![Item::Del(0), Item::Add(x)] }) } else { Op::Put(0, x) };
			first = false;
			let s = race_schema(&op);
			let ((h, res, again, later), io2) = run(&io, || {
				let h = hash_now(1, s, &op);
				let q = Req { owner: 1, schema: s, op: op.clone(), target: h };
				// an earlier request, sent again
				let again = recent.iter().rev().nth(i % 40).map(|(_, q)| submit(q, &How::Direct, Who::Key(0)));
				let res = submit(&q, &How::Direct, Who::Key(0));
				let later = hash_now(1, s, &op);
				System::reset_events();
				recent.push((h, q));
				(h, res, again, later)
			});
			io = io2;
			r.trans(1);
			let what = if list { "list" } else { "page" };
			if let Err(e) = res {
				r.fail("C27,C28:refused", format!("write number {i} of a {what} refused: {e}"), json!(i));
				return
			}
			if matches!(again, Some(Ok(()))) {
				r.fail("C27:replayed", format!("write number {i} of a {what}: an earlier request took effect again"), json!(i));
				return
			}
			if recent.iter().any(|(x, _)| *x == later) || h == later {
				r.fail("C27:hash-returns", format!("write number {i} of a {what}: the state hash is one of the last {}", recent.len()), json!(i));
				return
			}
			if i < 65_535 && !shown.insert(later) {
				met += 1;
				if met > 16 {
					r.fail("C27:hash-returns", format!("write number {i} of a {what}: the state hash {later} was current before; this is the {met}th time it happens"), json!(i));
					return
				}
			}
			if recent.len() > 64 {
				recent.remove(0);
			}
		}
	}
	r.note("long history", json!("65600 writes in a row to one list and to one page, each refused a second time"));
}

/// First writes that differ in one byte, or in length, must not share a hash: a request against one is not one against the other.
fn every_byte(r: &Run) {
	let n = 600usize;
	for (list, max) in [(true, MAX_ITEM), (false, MAX_PAGE.min(n))] {
		let io = fresh(1);
		let mut seen: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
		let mut contents: Vec<Vec<u8>> = (1..=max).map(blob).collect();
		for i in 0..max {
			for bit in [1u8, 128] {
				let mut b = blob(max);
				b[i] ^= bit;
				contents.push(b);
			}
		}
		let all = contents.len();
		let mut met = 0;
		for c in contents {
			let op = if list { Op::Items(vec![Item::Add(c.clone())]) } else { Op::Put(0, c.clone()) };
			let s = race_schema(&op);
			let (h, _) = run(&io, || {
				let _ = submit(&Req { owner: 1, schema: s, op: op.clone(), target: 0 }, &How::Direct, Who::Key(0));
				System::reset_events();
				hash_now(1, s, &op)
			});
			r.trans(1);
			// one meeting in 32 bits may be an accident
			if let Some(x) = seen.insert(h, c.clone()) {
				met += 1;
				if met > 1 {
					let at = x.iter().zip(&c).position(|(a, b)| a != b);
					r.fail("C27:hash-of-other-content", format!("first writes of {} and {} bytes that differ at {at:?} have the same state hash {h}", x.len(), c.len()), json!(at));
					break
				}
			}
		}
		r.note(if list { "contents of a list with distinct hashes" } else { "contents of a page with distinct hashes" }, json!(all));
	}
}

// ------------------------------------------------------------------ C28: what lists and pages hold
fn blob(n: usize) -> Vec<u8> {
	(0..n).map(|i| (i * 7 + n) as u8).collect()
}
const SIZES: [usize; 6] = [0, 1, 14, 15, 256, 300];
struct Lists {
	actions: Vec<Vec<Item>>,
	longest: usize,
}
#[derive(Clone)]
struct One {
	io: Io,
	d: Data,
}
impl Sm for Lists {
	type State = One;
	type Action = usize;
	fn init(&self) -> Vec<One> {
		vec![One { io: fresh(1), d: Data::default() }]
	}
	// the content alone: how it came about shows only in the state hash
	fn key(&self, s: &One) -> u128 {
		fr::mix(0, &s.d)
	}
	fn actions(&self, s: &One) -> Vec<usize> {
		if s.d.items.get(&(1, 1)).map_or(0, |l| l.len()) > self.longest {
			return vec![]
		}
		(0..self.actions.len()).collect()
	}
	fn step(&self, s: &One, a: &usize) -> Result<Option<One>, Bad> {
		let op = Op::Items(self.actions[*a].clone());
		let target = peek(&s.io, || hash_now(1, 1, &op));
		let r = Req { owner: 1, schema: 1, op, target };
		Ok(judge(&s.io, &s.d, 1, &r, &How::Direct, Who::Key(0), target, true)?.map(|(io, d)| One { io, d }))
	}
	fn describe(&self, s: &One) -> serde_json::Value {
		json!(show(&s.d))
	}
}
fn contents(r: &Run) {
	let mut single = vec![];
	for n in SIZES {
		single.push(Item::Add(blob(n)));
	}
	for i in [0, 1, 2, 3, 65535] {
		single.push(Item::Del(i));
	}
	let idx: Vec<usize> = (0..single.len()).collect();
	let lists: Vec<Vec<Item>> = mc::strings(&idx, 3).into_iter().map(|l| l.into_iter().map(|i| single[i].clone()).collect()).collect();
	let n = lists.len();
	let l = Lists { actions: lists, longest: 3 };
	mc::explore(r, "all action lists up to three long on all lists up to three long", &l, Bounds { depth: 4, max_states: 1_000_000, secs: mc::pick(120, 400) });
	if mc::thorough() {
		let few: Vec<usize> = vec![1, 2, 5, 6, 7, 8, 9];
		let lists: Vec<Vec<Item>> = mc::strings(&few, MAX_ACTIONS).into_iter().filter(|l| l.len() > 3).map(|l| l.into_iter().map(|i| single[i].clone()).collect()).collect();
		let l = Lists { actions: lists, longest: 0 };
		mc::explore(r, "longer action lists", &l, Bounds { depth: 1, max_states: 1_000_000, secs: 200 });
	}
	// every item length alone and after another, read back
	let io = fresh(1);
	mc::par(MAX_ITEM + 1, |n| {
		for k in [0usize, 1, 255, 256] {
			let mut d = Data::default();
			let mut io2 = write(&io, &mut d, 1, 1, Op::Items(vec![Item::Add(blob(k)), Item::Add(blob(3))]));
			for l in [vec![Item::Add(blob(n))], vec![Item::Del(0)], vec![Item::Del(1)], vec![Item::Del(0), Item::Add(blob(n))]] {
				let op = Op::Items(l);
				let target = peek(&io2, || hash_now(1, 1, &op));
				let q = Req { owner: 1, schema: 1, op, target };
				r.trans(1);
				match judge(&io2, &d, 1, &q, &How::Direct, Who::Key(0), target, true) {
					Err(b) => r.fail(&b.key, b.what.clone(), json!({"item length": n, "after one of": k})),
					Ok(Some((i, x))) => {
						io2 = i;
						d = x;
					},
					Ok(None) => (),
				}
			}
		}
	});
	// more items than fit in a byte
	let mut d = Data::default();
	let mut io2 = fresh(1);
	let mut len = 0usize;
	while len < 310 {
		let k = (310 - len).min(MAX_ACTIONS);
		io2 = write(&io2, &mut d, 1, 1, Op::Items(vec![Item::Add(vec![]); k]));
		len += k;
	}
	for i in [0u16, 1, 53, 54, 127, 128, 254, 255, 256, 257, 308, 309, 310, 311, 566, 65535] {
		for l in [vec![Item::Del(i)], vec![Item::Del(i), Item::Del(309)], vec![Item::Add(vec![])], vec![Item::Del(i), Item::Add(vec![])], vec![Item::Add(vec![]), Item::Del(i)]] {
			let op = Op::Items(l);
			let target = peek(&io2, || hash_now(1, 1, &op));
			let q = Req { owner: 1, schema: 1, op, target };
			r.trans(1);
			if let Err(b) = judge(&io2, &d, 1, &q, &How::Direct, Who::Key(0), target, true) {
				r.fail(&b.key, b.what.clone(), json!("a list of 310 empty items"));
			}
		}
	}
	r.note("lists", json!({"action lists": n, "item lengths": MAX_ITEM + 1}));
	// limits that the request's own encoding carries
	type Raw = (sdk::codec::Compact<u64>, sdk::codec::Compact<u16>, sdk::codec::Compact<u32>);
	let head = |idx: u8| {
		let c = call(&Req { owner: 1, schema: 1, op: Op::Drop(0), target: 0 }, &How::Direct).encode();
		vec![c[0], idx]
	};
	let id: Raw = (sdk::codec::Compact(1), sdk::codec::Compact(1), sdk::codec::Compact(0));
	let page_id = sdk::codec::Compact(0u16);
	for n in [0, 1, MAX_ITEM - 1, MAX_ITEM, MAX_ITEM + 1, MAX_ITEM + 256] {
		for k in [0, 1, MAX_ACTIONS, MAX_ACTIONS + 1] {
			let mut e = head(0);
			e.extend(id.encode());
			let a: Vec<Vec<u8>> = (0..k).map(|i| [vec![0u8], blob(if i + 1 == k { n } else { 0 }).encode()].concat()).collect();
			e.extend(sdk::codec::Compact(k as u32).encode());
			e.extend(a.concat());
			let ok = RuntimeCall::decode(&mut &e[..]).is_ok();
			r.eval(1);
			let want = (k == 0 || n <= MAX_ITEM) && k <= MAX_ACTIONS;
			r.ok(ok == want, "C28:encoded-limits", || format!("a request with {k} actions, the last adding {n} bytes, decodes: {ok}, expected {want}"));
		}
	}
	for n in [0, 1, MAX_PAGE - 1, MAX_PAGE, MAX_PAGE + 1, MAX_PAGE + 256] {
		let mut e = head(1);
		e.extend((id.0, sdk::codec::Compact(5u16), page_id, id.2, blob(n)).encode());
		let ok = RuntimeCall::decode(&mut &e[..]).is_ok();
		r.eval(1);
		r.ok(ok == (n <= MAX_PAGE), "C28:encoded-limits", || format!("a page write of {n} bytes decodes: {ok}"));
	}
	let p = Places {
		ops: [0u16, 1, LAST_PAGE - 1, LAST_PAGE, LAST_PAGE + 1, u16::MAX]
			.into_iter()
			.flat_map(|n| [0usize, 1, 256, MAX_PAGE].into_iter().map(move |l| (1u64, 5u16, Op::Put(n, blob(l)))).chain([(1, 5, Op::Drop(n))]))
			.collect(),
		full: false,
	};
	mc::explore(r, "all page writes and deletions", &p, Bounds { depth: mc::pick(5, 9), max_states: 1_000_000, secs: mc::pick(100, 200) });
}

// ------------------------------------------------------------------ C29: places never mix
struct Places {
	ops: Vec<(u64, u16, Op)>,
	full: bool,
}
impl Sm for Places {
	type State = One;
	type Action = usize;
	fn init(&self) -> Vec<One> {
		let mut v = vec![One { io: fresh(1), d: Data::default() }];
		if self.full {
			let mut s = v[0].clone();
			for (id, sc, op) in &self.ops {
				let there = s.d.items.contains_key(&(*id, *sc)) || matches!(op, Op::Put(p, _) if s.d.pages.contains_key(&(*id, *sc, *p)));
				if !there && !matches!(op, Op::Drop(_)) && s.d.after(&Req { owner: *id, schema: *sc, op: op.clone(), target: 0 }).is_some() {
					s.io = write(&s.io, &mut s.d, *id, *sc, op.clone());
				}
			}
			v.push(s);
		}
		v
	}
	fn key(&self, s: &One) -> u128 {
		fr::mix(0, &s.d)
	}
	fn actions(&self, _: &One) -> Vec<usize> {
		(0..self.ops.len()).collect()
	}
	fn step(&self, s: &One, a: &usize) -> Result<Option<One>, Bad> {
		let (owner, schema, op) = self.ops[*a].clone();
		let target = peek(&s.io, || hash_now(owner, schema, &op));
		let exists = matches!(op, Op::Drop(p) if s.d.pages.contains_key(&(owner, schema, p)));
		let r = Req { owner, schema, op, target };
		Ok(judge(&s.io, &s.d, 1, &r, &How::Direct, Who::Key(owner_key(owner)), target, exists)?.map(|(io, d)| One { io, d }))
	}
	fn check(&self, s: &One) -> Result<(), Bad> {
		peek(&s.io, || match read() {
			Err(e) => mc::bad("C28,C29:query", e),
			Ok((d, _)) => {
				must!(d == s.d, "C28,C29:stored", "the queries show {}, expected {}", show(&d), show(&s.d));
				Ok(())
			},
		})
	}
	fn describe(&self, s: &One) -> serde_json::Value {
		json!(show(&s.d))
	}
}
fn isolation(r: &Run) {
	let mut ops = vec![];
	for (nth, id) in [1u64, 256, 2, FAR, FARTHEST].into_iter().enumerate() {
		let few = !matches!(id, 1 | 256);
		for (i, sc) in [5u16, 0x0500, 0x0105].into_iter().enumerate() {
			for (j, p) in [0u16, 1, 256].into_iter().enumerate() {
				if few && (i > 0 || j > 0) {
					continue
				}
				ops.push((id, sc, Op::Put(p, vec![nth as u8 + 10, i as u8, j as u8])));
				ops.push((id, sc, Op::Drop(p)));
			}
		}
		for (i, sc) in [1u16, 0x0100, 0x0101].into_iter().enumerate() {
			if few && i > 0 {
				continue
			}
			ops.push((id, sc, Op::Items(vec![Item::Add(vec![nth as u8 + 20, i as u8])])));
			ops.push((id, sc, Op::Items(vec![Item::Del(0)])));
		}
	}
	let n = ops.len();
	let p = Places { ops, full: true };
	mc::explore(r, "writes and deletions at every place", &p, Bounds { depth: mc::pick(3, 5), max_states: mc::pick(40_000, 600_000), secs: mc::pick(120, 500) });
	r.note("places", json!(n));
}
fn c26(r: &Run) {
	authorisation(r);
	racing(r);
}
fn c27(r: &Run) {
	racing(r);
	every_byte(r);
	long_history(r);
	authorisation(r);
}
fn c28(r: &Run) {
	contents(r);
	racing(r);
}
fn c29(r: &Run) {
	isolation(r);
	authorisation(r);
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[("C26", c26), ("C27", c27), ("C28", c28), ("C29", c29)]);
}

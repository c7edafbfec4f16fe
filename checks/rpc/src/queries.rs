//! C38: every query handler over every scripted answer of the runtime.
use crate::{best, encode, node, paging};
use common_primitives::handles::{BaseHandle, DisplayHandle, HandleResponse, PresumptiveSuffixesResponse};
use common_primitives::messages::BlockPaginationRequest;
use common_primitives::msa::{DelegationResponse, DelegatorId, ProviderId, SchemaGrant};
use common_primitives::node::{AccountId, Block, Hash};
use common_primitives::offchain::get_msa_account_storage_key_name;
use common_primitives::rpc::RpcEvent;
use common_primitives::schema::{ModelType, PayloadLocation, SchemaId, SchemaResponse, SchemaSetting, SchemaVersionResponse};
use common_primitives::stateful_storage::{ItemizedStoragePageResponse, ItemizedStorageResponse, PaginatedStorageResponse};
use mc::Run;
use sdk::codec::Encode;
use sdk::offchain::OffchainStorage;
use sdk::pallet_transaction_payment::{FeeDetails, InclusionFee};
use sdk::sc_transaction_pool_api::{InPoolTransaction, ReadyTransactions, TransactionPool};
use sdk::sp_api::ApiError;
use sdk::sp_core::Bytes;
use sdk::sp_rpc::number::NumberOrHex;
use sdk::sp_runtime::{DispatchError, OpaqueExtrinsic};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

/// Texts that must reach the runtime as they are.
const TEXTS: [&str; 13] = [" a.b", "a.b ", "a b", "\ta\n", "\0", "a\0", "A.B", "\u{c9}.b", "e\u{301}.b", "\u{fb01}", "\u{200d}a\u{feff}", "a..b", "%61.b"];
/// Identity numbers to ask about.
const IDS: [u64; 7] = [0, 1, 3, 256, u32::MAX as u64, (1 << 32) + 3, u64::MAX];
type Api<T> = Result<T, ApiError>;
/// What a scripted runtime answers: a value, or a failure of the call.
type Ans<T> = Option<T>;
fn give<T>(at: Hash, a: Ans<T>) -> Api<T> {
	assert_eq!(at, best(), "the query was not asked of the best block");
	a.ok_or(ApiError::UnknownBlock("scripted".into()))
}
/// The handler's answer must be `want`; `None`: an error.
fn expect<T: PartialEq + Debug, E: Debug>(r: &Run, key: &str, what: impl Debug, want: Option<T>, f: impl FnOnce() -> Result<T, E>) {
	r.eval(1);
	match mc::catch(f) {
		Ok(Ok(v)) if Some(&v) == want.as_ref() => {},
		Ok(Err(_)) if want.is_none() => {},
		Ok(got) => r.fail(key, format!("{key}: {what:?} is answered with {got:?}, expected {want:?}"), json!(format!("{what:?}"))),
		Err(p) => r.fail(&format!("{key}-panic"), format!("{key}: {what:?} panicked: {p}"), json!(format!("{what:?}"))),
	}
}

// ---------------------------------------------------------------- identities
/// The answer for delegators 1 to 3, and the arguments it is to be asked with.
#[derive(Clone)]
struct Msa {
	has: [Ans<bool>; 3],
	args: (u64, u32, Option<u16>),
	grants: Ans<Option<Vec<SchemaGrant<u16, u32>>>>,
	all: Ans<Vec<DelegationResponse<u16, u32>>>,
}
impl pallet_msa_runtime_api::MsaRuntimeApi<Block, AccountId> for Msa {
	fn has_delegation(&self, at: Hash, d: DelegatorId, p: ProviderId, n: u32, s: Option<u16>) -> Api<bool> {
		assert_eq!((p.0, n, s), self.args, "wrong arguments");
		give(at, self.has[d.0 as usize - 1])
	}
	fn get_granted_schemas_by_msa_id(&self, at: Hash, d: DelegatorId, p: ProviderId) -> Api<Option<Vec<SchemaGrant<u16, u32>>>> {
		assert_eq!((d.0, p.0), (self.args.0, self.args.0 ^ 7));
		give(at, self.grants.clone())
	}
	fn get_all_granted_delegations_by_msa_id(&self, at: Hash, d: DelegatorId) -> Api<Vec<DelegationResponse<u16, u32>>> {
		assert_eq!(d.0, self.args.0);
		give(at, self.all.clone())
	}
}
#[derive(Clone, Default)]
struct Db(Arc<Mutex<BTreeMap<(Vec<u8>, Vec<u8>), Vec<u8>>>>);
impl OffchainStorage for Db {
	fn set(&mut self, p: &[u8], k: &[u8], v: &[u8]) {
		self.0.lock().unwrap().insert((p.to_vec(), k.to_vec()), v.to_vec());
	}
	fn remove(&mut self, p: &[u8], k: &[u8]) {
		self.0.lock().unwrap().remove(&(p.to_vec(), k.to_vec()));
	}
	fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		self.0.lock().unwrap().get(&(p.to_vec(), k.to_vec())).cloned()
	}
	fn compare_and_set(&mut self, _: &[u8], _: &[u8], _: Option<&[u8]>, _: &[u8]) -> bool {
		unreachable!()
	}
}
fn lists<T: Clone>(of: &[T], n: usize) -> Vec<Vec<T>> {
	let mut v: Vec<Vec<T>> = vec![vec![]];
	let mut i = 0;
	while i < v.len() {
		if v[i].len() < n {
			for x in of {
				let mut y = v[i].clone();
				y.push(x.clone());
				v.push(y)
			}
		}
		i += 1;
	}
	v
}
fn msa(r: &Run) {
	use pallet_msa_rpc::{MsaApiServer, MsaHandler};
	type Server<'a> = dyn MsaApiServer<Hash, AccountId> + 'a;
	let base = Msa { has: [None; 3], args: (0, 0, None), grants: None, all: None };
	let ids = lists(&[DelegatorId(1), DelegatorId(2), DelegatorId(3)], mc::pick(4, 6));
	for args in [(7, 0, None), (1, 1, Some(0)), (u64::MAX, u32::MAX, Some(u16::MAX))] {
		for k in 0..27 {
			let one = |k: usize| [None, Some(false), Some(true)][k % 3];
			let m = Msa { has: [one(k), one(k / 3), one(k / 9)], args, ..base.clone() };
			let h = MsaHandler::<_, Block, Db>::new(node(m.clone()), None);
			let h: &Server = &h;
			for q in &ids {
				// a check that fails is reported as "not delegated"
				let want = q.iter().map(|d| (*d, m.has[d.0 as usize - 1] == Some(true))).collect::<Vec<_>>();
				expect(r, "check-delegations", (q, args, m.has), Some(want), || h.check_delegations(q.clone(), ProviderId(args.0), args.1, args.2));
			}
		}
	}
	let grants = lists(&[SchemaGrant::new(1u16, 0u32), SchemaGrant::new(1, 5), SchemaGrant::new(9, u32::MAX)], 2);
	for (id, g) in IDS.iter().flat_map(|id| grants.iter().cloned().map(|g| Some(Some(g))).chain([None, Some(None)]).map(move |g| (*id, g))) {
		let h = MsaHandler::<_, Block, Db>::new(node(Msa { grants: g.clone(), args: (id, 0, None), ..base.clone() }), None);
		expect(r, "granted-schemas", (id, &g), g.clone(), || (&h as &Server).get_granted_schemas_by_msa_id(DelegatorId(id), ProviderId(id ^ 7)));
	}
	let one: Vec<_> = grants.iter().enumerate().map(|(i, g)| DelegationResponse { provider_id: ProviderId(i as u64), permissions: g.clone() }).collect();
	for (id, a) in IDS.iter().flat_map(|id| lists(&one, 2).into_iter().map(Some).chain([None]).map(move |a| (*id, a))) {
		let h = MsaHandler::<_, Block, Db>::new(node(Msa { all: a.clone(), args: (id, 0, None), ..base.clone() }), None);
		expect(r, "all-delegations", (id, &a), a.clone(), || (&h as &Server).get_all_granted_delegations_by_msa_id(DelegatorId(id)));
	}
	// keys, from the off-chain index
	let key = |b: u8| AccountId::new([b; 32]);
	let key_lists = lists(&[key(1), key(2), key(3)], 2);
	for id in [0u64, 1, 2, 255, 256, u64::MAX] {
		for other in [0u64, 1, 2, 255, 256, u64::MAX] {
			for keys in &key_lists {
				let mut db = Db::default();
				db.set(b"storage", &get_msa_account_storage_key_name(other), &keys.encode());
				let h = MsaHandler::<_, Block, Db>::new(node(base.clone()), Some(db));
				let want = (id == other).then(|| (id, keys.clone()));
				expect(r, "keys", (id, other, keys), Some(want), || (&h as &Server).get_keys_by_msa_id(id).map(|x| x.map(|k| (k.msa_id, k.msa_keys))));
			}
		}
	}
	for bad in [&[][..], &[4], &[4, 1, 2], &[8; 40], &[255; 64], &[3, 0, 0]] {
		let mut db = Db::default();
		db.set(b"storage", &get_msa_account_storage_key_name(5), bad);
		let h = MsaHandler::<_, Block, Db>::new(node(base.clone()), Some(db));
		expect(r, "keys-undecodable", bad, None, || (&h as &Server).get_keys_by_msa_id(5).map(|x| x.map(|k| (k.msa_id, k.msa_keys))));
	}
	let h = MsaHandler::<_, Block, Db>::new(node(base), None);
	expect(r, "keys-not-indexed", (), None, || (&h as &Server).get_keys_by_msa_id(5).map(|x| x.map(|k| (k.msa_id, k.msa_keys))));
	// the names of different identities' records differ
	let mut names: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
	for id in (0..2000).chain((0..64).flat_map(|b| [(1u64 << b), (1u64 << b).wrapping_sub(1), !(1u64 << b), u64::MAX >> b])) {
		r.eval(1);
		let o = names.insert(get_msa_account_storage_key_name(id), id);
		r.ok(o.map_or(true, |o| o == id), "key-record-name", || format!("identities {id} and {o:?} share a record"));
	}
}
// ---------------------------------------------------------------- handles
#[derive(Clone)]
struct Handles {
	handle: Ans<Option<HandleResponse>>,
	of: u64,
	suffixes: bool,
	id: Ans<Option<u64>>,
	valid: Ans<bool>,
	asked: Arc<Mutex<Vec<Vec<u8>>>>,
}
impl pallet_handles_runtime_api::HandlesRuntimeApi<Block> for Handles {
	fn get_handle_for_msa(&self, at: Hash, id: u64) -> Api<Option<HandleResponse>> {
		assert_eq!(id, self.of);
		give(at, self.handle.clone())
	}
	fn get_next_suffixes(&self, at: Hash, base: BaseHandle, count: u16) -> Api<PresumptiveSuffixesResponse> {
		give(at, self.suffixes.then(|| PresumptiveSuffixesResponse { base_handle: base.to_vec(), suffixes: vec![count] }))
	}
	fn get_msa_for_handle(&self, at: Hash, h: DisplayHandle) -> Api<Option<u64>> {
		self.asked.lock().unwrap().push(h.to_vec());
		give(at, self.id)
	}
	fn validate_handle(&self, at: Hash, h: BaseHandle) -> Api<bool> {
		self.asked.lock().unwrap().push(h.to_vec());
		// no runtime takes the empty handle for a valid one
		give(at, self.valid.map(|v| v && !h.is_empty()))
	}
}
fn handles(r: &Run) {
	use pallet_handles_rpc::{HandlesApiServer, HandlesHandler};
	let base = Handles { handle: None, of: 0, suffixes: true, id: None, valid: None, asked: Default::default() };
	let h1 = HandleResponse { base_handle: b"a".to_vec(), canonical_base: b"b".to_vec(), suffix: 7 };
	for (of, a) in IDS.iter().flat_map(|id| [None, Some(None), Some(Some(h1.clone()))].map(|a| (*id, a))) {
		let h = HandlesHandler::<_, Block>::new(node(Handles { handle: a.clone(), of, ..base.clone() }));
		expect(r, "handle-of-msa", (of, &a), a.clone(), || h.get_handle_for_msa(of));
	}
	let texts: Vec<String> = ["a", "\u{e9}", "\u{1F642}"].iter().flat_map(|c| (0..=40usize).map(move |n| c.repeat(n))).chain((36..40).map(|n| format!("{}x", "\u{e9}".repeat(n / 2)))).chain(TEXTS.iter().map(|t| t.to_string())).collect();
	for t in &texts {
		for count in [None, Some(0u16), Some(1), Some(2), Some(99), Some(100), Some(101), Some(256), Some(u16::MAX)] {
			for suffixes in [true, false] {
				let h = HandlesHandler::<_, Block>::new(node(Handles { suffixes, ..base.clone() }));
				let want = (t.len() <= 32 && suffixes).then(|| PresumptiveSuffixesResponse { base_handle: t.clone().into_bytes(), suffixes: vec![count.unwrap_or(1).min(100)] });
				expect(r, "next-suffixes", (t, count, suffixes), want, || h.get_next_suffixes(t.clone(), count));
			}
		}
		for id in [None, Some(None), Some(Some(3)), Some(Some(u64::MAX))] {
			let api = Handles { id, ..base.clone() };
			api.asked.lock().unwrap().clear();
			let h = HandlesHandler::<_, Block>::new(node(api.clone()));
			expect(r, "msa-of-handle", (t, id), (t.len() <= 38).then_some(id).flatten(), || h.get_msa_for_handle(t.clone()));
			let asked = api.asked.lock().unwrap().clone();
			let want = if t.len() <= 38 { vec![t.clone().into_bytes()] } else { vec![] };
			r.ok(asked == want, "msa-of-handle-asks", || format!("the query for {t:?} asked the runtime for {asked:?}"));
		}
		for valid in [None, Some(true), Some(false)] {
			let api = Handles { valid, ..base.clone() };
			api.asked.lock().unwrap().clear();
			let h = HandlesHandler::<_, Block>::new(node(api.clone()));
			r.eval(1);
			let got = mc::catch(|| h.validate_handle(t.clone()));
			let asked = api.asked.lock().unwrap().clone();
			let ok = match (&got, valid, t.len()) {
				(Ok(Ok(v)), Some(w), 1..=32) => *v == w && asked == [t.clone().into_bytes()],
				// what is too long for a handle is no valid handle
				(Ok(Ok(v)), _, _) => !*v && valid.is_some(),
				(Ok(Err(_)), None, _) => true,
				(Ok(Err(_)), _, n) => n > 32,
				(Err(_), ..) => false,
			};
			r.ok(ok, "validate-handle", || format!("validate {t:?} over a runtime answering {valid:?} returned {got:?} and asked for {asked:?}"));
		}
	}
}
// ---------------------------------------------------------------- schemas
#[derive(Clone)]
struct Schemas(Ans<Option<SchemaResponse>>, Ans<Option<Vec<SchemaVersionResponse>>>, Vec<u8>, u16);
impl pallet_schemas_runtime_api::SchemasRuntimeApi<Block> for Schemas {
	fn get_by_schema_id(&self, at: Hash, id: SchemaId) -> Api<Option<SchemaResponse>> {
		assert_eq!(id, self.3);
		give(at, self.0.clone())
	}
	fn get_schema_versions_by_name(&self, at: Hash, name: Vec<u8>) -> Api<Option<Vec<SchemaVersionResponse>>> {
		assert_eq!(name, self.2);
		give(at, self.1.clone())
	}
}
fn schemas(r: &Run) {
	use pallet_schemas_rpc::{SchemasApiServer, SchemasHandler};
	let s = SchemaResponse { schema_id: 12, model: b"{}".to_vec(), model_type: ModelType::Parquet, payload_location: PayloadLocation::Itemized, settings: vec![SchemaSetting::AppendOnly] };
	for (id, a) in [0u16, 1, 12, 256, u16::MAX].into_iter().flat_map(|id| [None, Some(None), Some(Some(s.clone()))].map(|a| (id, a))) {
		let h = SchemasHandler::<_, Block>::new(node(Schemas(a.clone(), None, vec![], id)));
		expect(r, "schema", (id, &a), a.clone(), || SchemasApiServer::<Hash>::get_by_schema_id(&h, id));
	}
	let v = |n: u8| SchemaVersionResponse { schema_name: b"a.b".to_vec(), schema_version: n, schema_id: 3 * n as u16 };
	let long = "a".repeat(300);
	for name in ["", "a.b", "a", "\u{e9}.b", &long].into_iter().chain(TEXTS) {
		for a in lists(&[v(1), v(2)], 3).into_iter().map(|l| Some(Some(l))).chain([None, Some(None)]) {
			let h = SchemasHandler::<_, Block>::new(node(Schemas(None, a.clone(), name.as_bytes().to_vec(), 0)));
			expect(r, "schema-versions", (name, &a), a.clone(), || SchemasApiServer::<Hash>::get_versions(&h, name.into()));
		}
	}
	let h = SchemasHandler::<_, Block>::new(node(Schemas(None, None, vec![], 0)));
	let types = ["null", "boolean", "int", "long", "float", "double", "bytes", "string", "nothing"];
	for (i, t) in types.iter().enumerate() {
		let good = i < 8;
		for (text, ok) in [
			(format!("\"{t}\""), good),
			(format!("{{\"type\":\"{t}\"}}"), good),
			(format!("{{\"type\":\"array\",\"items\":\"{t}\"}}"), good),
			(format!("{{\"type\":\"record\",\"name\":\"r\",\"fields\":[{{\"name\":\"a\",\"type\":\"{t}\"}}]}}"), good),
			(format!("{{\"type\":\"record\",\"name\":\"r\",\"fields\":[{{\"name\":\"a\",\"type\":\"{t}\"}}]"), false),
			(format!("\"{t}"), false),
			(format!("{{\"type\":\"record\",\"fields\":[{{\"name\":\"a\",\"type\":\"{t}\"}}]}}"), false),
		] {
			for at in [None, Some(best()), Some(Hash::repeat_byte(9))] {
				expect(r, "schema-validity", &text, ok.then_some(true), || h.check_schema_validity(text.clone().into_bytes(), at));
			}
		}
	}
	expect(r, "schema-validity", "not text", None, || h.check_schema_validity(vec![0xff, 0xfe], None::<Hash>));
	expect(r, "schema-validity", "empty", None, || h.check_schema_validity(vec![], None::<Hash>));
}
// ---------------------------------------------------------------- user data
#[derive(Clone)]
struct Storage(Ans<Result<Vec<PaginatedStorageResponse>, DispatchError>>, Ans<Result<ItemizedStoragePageResponse, DispatchError>>, (u64, u16));
impl pallet_stateful_storage_runtime_api::StatefulStorageRuntimeApi<Block> for Storage {
	fn get_paginated_storage(&self, at: Hash, m: u64, s: u16) -> Api<Result<Vec<PaginatedStorageResponse>, DispatchError>> {
		assert_eq!((m, s), self.2);
		give(at, self.0.clone())
	}
	fn get_itemized_storage(&self, at: Hash, m: u64, s: u16) -> Api<Result<ItemizedStoragePageResponse, DispatchError>> {
		assert_eq!((m, s), self.2);
		give(at, self.1.clone())
	}
}
fn storage(r: &Run) {
	use pallet_stateful_storage_rpc::{StatefulStorageApiServer, StatefulStorageHandler};
	let page = |n: u16| PaginatedStorageResponse::new(n, 3, 4, n as u32 * 7, n, vec![n as u8; n as usize]);
	let errors = [DispatchError::Other("x"), DispatchError::BadOrigin, DispatchError::CannotLookup];
	let asked: Vec<(u64, u16)> = IDS.iter().flat_map(|m| [0u16, 4, 259, u16::MAX].map(|s| (*m, s))).collect();
	for (m, s) in asked.iter().copied() {
	for a in lists(&[page(0), page(1), page(5)], 3).into_iter().map(|l| Some(Ok(l))).chain(errors.iter().map(|e| Some(Err(*e)))).chain([None]) {
		let h = StatefulStorageHandler::<_, Block>::new(node(Storage(a.clone(), None, (m, s))));
		expect(r, "pages", (m, s, &a), a.clone().and_then(|x| x.ok()), || StatefulStorageApiServer::<Hash>::get_paginated_storage(&h, m, s));
	}
	}
	let item = |n: u16| ItemizedStorageResponse { index: n, payload: vec![n as u8; n as usize] };
	for (m, s) in asked {
	for a in lists(&[item(0), item(1), item(5)], 3).into_iter().map(|l| Some(Ok(ItemizedStoragePageResponse { msa_id: 3, schema_id: 4, content_hash: 8, nonce: 9, items: l }))).chain(errors.iter().map(|e| Some(Err(*e)))).chain([None]) {
		let h = StatefulStorageHandler::<_, Block>::new(node(Storage(None, a.clone(), (m, s))));
		expect(r, "items", (m, s, &a), a.clone().and_then(|x| x.ok()), || StatefulStorageApiServer::<Hash>::get_itemized_storage(&h, m, s));
	}
	}
}
// ---------------------------------------------------------------- fees
/// A balance that may be too large for the encoding of numbers.
#[derive(Clone)]
struct Fees {
	at: Hash,
	xt: Vec<u8>,
	answer: Ans<Option<[u128; 3]>>,
}
impl pallet_frequency_tx_payment_rpc::CapacityTransactionPaymentRuntimeApi<Block, u128> for Fees {
	fn compute_capacity_fee(&self, at: Hash, uxt: OpaqueExtrinsic, len: u32) -> Api<FeeDetails<u128>> {
		assert_eq!((at, uxt.0.clone(), len as usize), (self.at, self.xt.clone(), self.xt.encode().len()), "wrong arguments");
		let i = self.answer.ok_or(ApiError::UnknownBlock("x".into()))?;
		Ok(FeeDetails { inclusion_fee: i.map(|[base_fee, len_fee, adjusted_weight_fee]| InclusionFee { base_fee, len_fee, adjusted_weight_fee }), tip: 0 })
	}
}
fn fees(r: &Run) {
	use pallet_frequency_tx_payment_rpc::{CapacityPaymentApiServer, CapacityPaymentHandler};
	let ask = |f: &Fees, bytes: Vec<u8>, at: Option<Hash>| {
		let h = CapacityPaymentHandler::<_, Block>::new(node(f.clone()));
		CapacityPaymentApiServer::<Hash, u128>::compute_capacity_fee_details(&h, Bytes(bytes), at).map(|d| d.inclusion_fee.map(|i| [i.base_fee, i.len_fee, i.adjusted_weight_fee]))
	};
	let amounts = [0u128, 1, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX];
	let num = |n: NumberOrHex| match n {
		NumberOrHex::Number(n) => n as u128,
		NumberOrHex::Hex(n) => n,
	};
	for at in [None, Some(best()), Some(Hash::repeat_byte(3))] {
		for len in [0usize, 1, 63, 64, 300, 20_000] {
			let xt = vec![7u8; len];
			for a in [None, Some(None)].into_iter().chain(lists(&amounts, 3).into_iter().filter(|l| l.len() == 3).map(|l| Some(Some([l[0], l[1], l[2]])))) {
				let f = Fees { at: at.unwrap_or(best()), xt: xt.clone(), answer: a };
				expect(r, "fees", (at, len, a), a, || ask(&f, xt.encode(), at).map(|o| o.map(|x| x.map(num))));
			}
			let f = Fees { at: at.unwrap_or(best()), xt: xt.clone(), answer: Some(None) };
			let e = xt.encode();
			for cut in [1, len / 2 + 1, len.max(1)] {
				expect(r, "fees-undecodable", (at, len, cut), None, || ask(&f, e[..e.len() - cut.min(e.len())].to_vec(), at).map(|o| o.map(|x| x.map(num))));
			}
		}
	}
}
// ---------------------------------------------------------------- events and nonces
#[derive(Clone)]
struct Chain {
	events: Ans<Vec<RpcEvent>>,
	nonce: Ans<u32>,
}
impl system_runtime_api::AdditionalRuntimeApi<Block> for Chain {
	fn get_events(&self, at: Hash) -> Api<Vec<RpcEvent>> {
		assert_eq!(at, Hash::repeat_byte(3), "events of another block");
		self.events.clone().ok_or(ApiError::UnknownBlock("x".into()))
	}
}
impl sdk::substrate_frame_rpc_system::AccountNonceApi<Block, AccountId, u32> for Chain {
	fn account_nonce(&self, at: Hash, who: AccountId) -> Api<u32> {
		assert_eq!(who, AccountId::new([1; 32]));
		give(at, self.nonce)
	}
}
#[derive(Clone, Debug)]
struct Tx(Vec<Vec<u8>>);
impl InPoolTransaction for Tx {
	fn provides(&self) -> &[Vec<u8>] {
		&self.0
	}
}
#[derive(Clone)]
struct Pool(Vec<Tx>, Vec<Tx>);
impl TransactionPool for Pool {
	type Block = Block;
	type InPoolTransaction = Tx;
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Tx>> + Send> {
		Box::new(self.0.iter().cloned().map(Arc::new).collect::<Vec<_>>().into_iter())
	}
	fn futures(&self) -> Vec<Tx> {
		self.1.clone()
	}
}
fn chain(r: &Run) {
	use frequency_rpc::{FrequencyRpcApiServer, FrequencyRpcHandler};
	let me = AccountId::new([1; 32]);
	let tx = |who: u8, n: u32| Tx(vec![(AccountId::new([who; 32]), n).encode()]);
	let ev = |n: u8| RpcEvent { phase: (n > 1).then_some(n as u32), pallet: n, event: n + 1, data: vec![n; n as usize] };
	for a in lists(&[ev(0), ev(1), ev(2)], 3).into_iter().map(Some).chain([None]) {
		let h = FrequencyRpcHandler::<Pool, _, Block>::new(node(Chain { events: a.clone(), nonce: None }), Arc::new(Pool(vec![], vec![])));
		expect(r, "events", &a, a.clone(), || FrequencyRpcApiServer::<Block, AccountId, u32>::get_events(&h, Hash::repeat_byte(3)));
	}
	let ask = |c: Chain, p: Pool| FrequencyRpcApiServer::<Block, AccountId, u32>::get_missing_nonce_values(&FrequencyRpcHandler::<Pool, _, Block>::new(node(c), Arc::new(p)), me.clone());
	expect(r, "missing-nonces-error", (), None, || ask(Chain { events: None, nonce: None }, Pool(vec![], vec![])));
	// every pool in which the account has `ready` transactions in a row and any set of later ones
	for nonce in [0u32, 1, 5, 255, 256, 1 << 30] {
		for ready in 0..4u32 {
			for set in 0..1u32 << mc::pick(6, 9) {
				for noise in 0..4 {
					let next = nonce + ready;
					// what waits is never executable at once
					let waits: Vec<u32> = (0..12).filter(|i| set >> i & 1 == 1).map(|i| next + 1 + i).collect();
					let mut ready_txs: Vec<Tx> = (0..ready).map(|i| tx(1, nonce + i)).collect();
					let mut future: Vec<Tx> = waits.iter().map(|n| tx(1, *n)).collect();
					if noise & 1 == 1 {
						// others' transactions, and ones that are of no account, in between and in any order
						ready_txs.insert(0, tx(2, nonce));
						ready_txs.insert(ready_txs.len() / 2, Tx(vec![vec![9]]));
						ready_txs.push(tx(2, next));
						future.push(tx(2, next + 3));
						future.push(Tx(vec![]));
						future.insert(0, Tx(vec![[1; 32].to_vec()]));
					}
					if noise & 2 == 2 {
						future.reverse();
					}
					let want: Vec<u32> = waits.iter().max().map_or(vec![], |m| (next..*m).filter(|n| !waits.contains(n)).collect());
					expect(r, "missing-nonces", (nonce, ready, &waits, noise), Some(want), || ask(Chain { events: None, nonce: Some(nonce) }, Pool(ready_txs.clone(), future.clone())));
				}
			}
		}
	}
	for (far, n) in [(500u32, 500), (999, 999), (1000, 1000), (1001, 1000), (5000, 1000), (u32::MAX, 1000)] {
		expect(r, "missing-nonces-many", far, Some((0..n).collect::<Vec<u32>>()), || ask(Chain { events: None, nonce: Some(0) }, Pool(vec![], vec![tx(1, far)])));
	}
}
// ---------------------------------------------------------------- messages
fn messages(r: &Run) {
	use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
	for broken in [None, Some(3), Some(4), Some(5), Some(6)] {
		for counts in [vec![1, 2, 1], vec![0, 0, 3], vec![0, 0, 0]] {
			let c = paging::Chain { first: 3, counts: Arc::new(counts), broken, location: PayloadLocation::OnChain };
			let h = MessagesHandler::<_, Block>::new(node(c.clone()));
			let want = (broken.is_none() || broken == Some(6)).then(|| (3..6).flat_map(|b| c.block(b)).collect::<Vec<_>>());
			expect(r, "messages", (&c.counts, broken), want, || h.get_messages_by_schema_id(paging::SCHEMA, BlockPaginationRequest { from_block: 3, from_index: 0, to_block: 6, page_size: 100 }).map(|p| p.content));
		}
	}
}
/// A failed call of the runtime is an error; whatever it answers is passed on.
fn mapping(r: &Run) {
	use common_helpers::rpc::map_rpc_result;
	for v in [None, Some(0u64), Some(1), Some(u64::MAX)] {
		expect(r, "map-result", v, v, || map_rpc_result(v.ok_or(ApiError::StateBackendIsNotTrie)));
	}
}
pub fn c38(r: &Run) {
	mapping(r);
	msa(r);
	handles(r);
	schemas(r);
	storage(r);
	fees(r);
	chain(r);
	messages(r);
	encode::all(r);
}

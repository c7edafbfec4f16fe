//! C37: pallet-msa's off-chain worker, explored over histories of blocks, worker runs, stops and overlapping workers.
use common_primitives::{
	handles::{HandleProvider, HandleResponse},
	msa::MessageSourceId,
	node::ProposalProvider,
	offchain::{get_index_value, get_msa_account_storage_key_name},
	schema::{SchemaId, SchemaValidator},
	utils::wrap_binary_data,
};
use fr::{run, Io};
use mc::{bad, must, Bad, Bounds, Run, System as Sm};
use pallet_msa as pm;
use sdk::codec::Encode;
use sdk::frame_support::traits::{ConstU32, ConstU8, Get, Hooks};
use sdk::frame_support::construct_runtime;
use sdk::frame_system::{self, EnsureRoot};
use sdk::io::TestExternalities;
use sdk::offchain::{control, testing, OffchainDbExt, OffchainWorkerExt, Timestamp, STORAGE_PREFIX};
use sdk::pallet_balances;
use sdk::sp_core::{crypto::AccountId32, sr25519, Pair, H256};
use sdk::sp_runtime::traits::ConvertInto;
use sdk::sp_runtime::{BuildStorage, DispatchError, MultiSignature};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

fr::base_runtime!(account = AccountId32, balance = u64, ed = 1, freezes = 1);
fn pair(i: usize) -> (sr25519::Pair, AccountId32) {
	static P: OnceLock<Vec<(sr25519::Pair, AccountId32)>> = OnceLock::new();
	P.get_or_init(|| {
		(0..3u8)
			.map(|i| {
				let p = sr25519::Pair::from_seed(&[i + 1; 32]);
				let a = AccountId32::from(p.public());
				(p, a)
			})
			.collect()
	})[i]
		.clone()
}
fn acc(i: usize) -> AccountId32 {
	if i < 3 {
		pair(i).1
	} else {
		let mut b = [9u8; 32];
		b[..8].copy_from_slice(&(i as u64).to_le_bytes());
		AccountId32::new(b)
	}
}
const NK: usize = 3;
pub struct NoHandles;
impl HandleProvider for NoHandles {
	fn get_handle_for_msa(_: MessageSourceId) -> Option<HandleResponse> {
		None
	}
}
pub struct AnySchema;
impl SchemaValidator<SchemaId> for AnySchema {
	fn are_all_schema_ids_valid(_: &Vec<SchemaId>) -> bool {
		true
	}
	fn set_schema_count(_: SchemaId) {}
}
pub struct NoCouncil;
impl ProposalProvider<AccountId32, RuntimeCall> for NoCouncil {
	fn propose(_: AccountId32, _: u32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		Ok((0, 0))
	}
	fn propose_with_simple_majority(_: AccountId32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		Ok((0, 0))
	}
}
pub struct MaxSigs;
impl Get<Option<u32>> for MaxSigs {
	fn get() -> Option<u32> {
		Some(1000)
	}
}
impl pm::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MaxPublicKeysPerMsa = ConstU8<25>;
	type MaxSchemaGrantsPerDelegation = ConstU32<2>;
	type MaxProviderNameSize = ConstU32<4>;
	type SchemaValidator = AnySchema;
	type HandleProvider = NoHandles;
	type MortalityWindowSize = ConstU32<100>;
	type MaxSignaturesStored = MaxSigs;
	type Proposal = RuntimeCall;
	type ProposalProvider = NoCouncil;
	type CreateProviderViaGovernanceOrigin = EnsureRoot<AccountId32>;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Msa: pm::{Pallet, Call, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);
type Db = BTreeMap<Vec<u8>, Vec<u8>>;
type Keys = BTreeMap<usize, u64>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
	Create(usize),
	/// the provider key, the new owner's key
	Sponsor(usize, usize),
	Add(usize, usize),
	Delete(usize, usize),
	Retire(usize),
}
#[derive(Clone, Debug)]
enum How {
	Fine,
	/// the process ends before the worker's i-th access to its storage
	Stop(usize),
	/// before the i-th access another worker runs from start to end, told that the given block is final
	Meet(usize, usize),
	/// the same, after one more block was imported: that worker runs on the new best block
	MeetNext(usize, usize, Vec<Op>),
	Http(&'static str),
}
#[derive(Clone, Debug)]
enum Act {
	Block(Vec<Op>),
	/// Many empty blocks: every lock left behind expires.
	Pause,
	Work { last_final: usize, how: How },
	/// The best block is abandoned for another one at the same height.
	Fork(Vec<Op>),
}
#[derive(Clone)]
struct St {
	io: Io,
	before: Option<Io>,
	db: Db,
	time: u64,
	/// the keys after each block, from block 0
	chain: Vec<Keys>,
	/// the block from whose state the completed initial index was taken
	snap: Option<usize>,
	stale_locks: bool,
	/// a worker was stopped and none has run to its end since: the block after the last processed one may be half done
	midway: bool,
	salt: u64,
	left: (u8, u8, u8),
	/// keys an abandoned block touched: where its events were left behind, and where the initial index was taken from it
	left_behind: BTreeSet<(usize, usize)>,
	taken: BTreeSet<usize>,
}
fn hash(n: usize, salt: u64) -> H256 {
	let mut h = [0u8; 32];
	h[..8].copy_from_slice(&(n as u64).to_le_bytes());
	h[8..16].copy_from_slice(&salt.to_le_bytes());
	h[31] = 1;
	H256(h)
}
fn observe(max: usize) -> Keys {
	(0..max).filter_map(|k| pm::PublicKeyToMsaId::<Test>::get(acc(k)).map(|o| (k, o))).collect()
}
fn apply(op: &Op, salt: &mut u64) -> Result<(), String> {
	*salt += 1;
	let o = |k: usize| RuntimeOrigin::signed(acc(k));
	let sign = |k: usize, p: Vec<u8>| MultiSignature::Sr25519(pair(k).0.sign_salted(&wrap_binary_data(p), *salt));
	let now = System::block_number();
	let owner = |k: usize| pm::PublicKeyToMsaId::<Test>::get(acc(k)).unwrap_or(0);
	match op {
		Op::Create(k) => Msa::create(o(*k)).map_err(|e| format!("{e:?}")),
		Op::Sponsor(p, k) => {
			let d = pm::types::AddProvider::new(owner(*p), None, now + 5);
			let _ = Msa::create_registered_provider(common_primitives::msa::ProviderId(owner(*p)), b"p".to_vec().try_into().unwrap());
			Msa::create_sponsored_account_with_delegation(o(*p), acc(*k), sign(*k, d.encode()), d).map_err(|e| format!("{e:?}"))
		},
		Op::Add(k, n) => {
			let d = pm::types::AddKeyData::<Test> { msa_id: owner(*k), expiration: now + 5, new_public_key: acc(*n) };
			Msa::add_public_key_to_msa(o(*k), acc(*k), sign(*k, d.encode()), sign(*n, d.encode()), d).map_err(|e| format!("{e:?}"))
		},
		Op::Delete(k, d) => Msa::delete_msa_public_key(o(*k), acc(*d)).map_err(|e| format!("{e:?}")),
		Op::Retire(k) => Msa::retire_msa(o(*k)).map_err(|e| format!("{e:?}")),
	}
}
/// The operations that can succeed now.
fn ops(keys: &Keys, sponsor: bool) -> Vec<Op> {
	let mut v = vec![];
	let free: Vec<usize> = (0..NK).filter(|k| !keys.contains_key(k)).collect();
	if let Some(k) = free.first() {
		v.push(Op::Create(*k));
	}
	for (k, o) in keys {
		if *k >= NK {
			continue
		}
		for n in &free {
			v.push(Op::Add(*k, *n));
		}
		for (d, p) in keys {
			if o == p && d != k {
				v.push(Op::Delete(*k, *d));
			}
		}
		if keys.values().filter(|p| *p == o).count() == 1 {
			v.push(Op::Retire(*k));
		}
	}
	if sponsor {
		if let (Some(f), Some((k, _))) = (free.first(), keys.iter().next()) {
			v.push(Op::Sponsor(*k, *f));
		}
	}
	v
}
fn next_keys(keys: &Keys, op: &Op) -> Keys {
	let mut m = keys.clone();
	match op {
		Op::Create(k) | Op::Sponsor(_, k) => {
			m.insert(*k, 999);
		},
		Op::Add(k, n) => {
			let o = m[k];
			m.insert(*n, o);
		},
		Op::Delete(_, d) => {
			m.remove(d);
		},
		Op::Retire(k) => {
			m.remove(k);
		},
	}
	m
}
impl St {
	fn start() -> St {
		let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		let mut x = TestExternalities::new(t);
		x.execute_with(|| Msa::set_msa_identifier(8).unwrap());
		St { io: x.into_state(), before: None, db: Db::new(), time: 1_000_000, chain: vec![Keys::new()], snap: None, stale_locks: false, midway: false, salt: 0, left: (0, 0, 0), left_behind: Default::default(), taken: Default::default() }
	}
	fn best(&self) -> usize {
		self.chain.len() - 1
	}
	/// Executes and imports the block on top of the best one.
	fn block(&mut self, ops: &[Op], nk: usize) -> Result<(), Bad> {
		let n = self.best() + 1;
		let mut salt = self.salt;
		let parent = hash(n - 1, self.salt_of(n - 1));
		let ((r, keys), mut io) = run(&self.io, || {
			System::reset_events();
			System::initialize(&(n as u32), &parent, &Default::default());
			Msa::on_initialize(n as u32);
			let r: Vec<_> = ops.iter().map(|o| apply(o, &mut salt)).collect();
			Msa::on_finalize(n as u32);
			(r, observe(nk))
		});
		self.salt = salt;
		for (o, r) in ops.iter().zip(&r) {
			// that these must succeed is for C08 to say; here a refused one would only be a block without it
			if r.is_err() && std::env::var("OFW_DEBUG").is_ok() {
				eprintln!("{o:?}: {r:?}");
			}
		}
		for (k, v) in std::mem::take(&mut io.index) {
			let k = [STORAGE_PREFIX, &k[..]].concat();
			match v {
				Some(v) => self.db.insert(k, v),
				None => self.db.remove(&k),
			};
		}
		self.before = Some(std::mem::replace(&mut self.io, io));
		self.chain.push(keys);
		self.time += 6000;
		Ok(())
	}
	fn salt_of(&self, _n: usize) -> u64 {
		0
	}
	fn ext(&self, shared: &testing::TestPersistentOffchainDB, last_final: usize, how: &str) -> TestExternalities {
		let mut t = TestExternalities::from_state(self.io.clone());
		let (e, state) = testing::TestOffchainExt::with_offchain_db(shared.clone());
		{
			let mut w = state.write();
			w.timestamp = Timestamp(self.time);
			let h = hash(last_final, 0);
			let hex: String = h.0.iter().map(|b| format!("{b:02x}")).collect();
			let answer = format!("{{\"jsonrpc\":\"2.0\",\"result\":\"0x{hex}\",\"id\":10}}");
			let mut response = Some(answer.into_bytes());
			match how {
				"unreachable" => w.fail = true,
				"error" => response = None,
				"code" => w.code = Some(500),
				"garbage" => response = Some(b"{\"result\": 7".to_vec()),
				"binary" => response = Some(vec![0xff, 0xfe]),
				"nothex" => response = Some(b"{\"result\":\"0xzz\"}".to_vec()),
				"short" => response = Some(b"{\"result\":\"0x0102\"}".to_vec()),
				"unknown" => response = Some(format!("{{\"result\":\"0x{}\"}}", "ab".repeat(32)).into_bytes()),
				_ => (),
			}
			if how != "timeout" {
				w.expect_request(testing::PendingRequest {
					method: "POST".into(),
					uri: pm::RPC_FINALIZED_BLOCK_REQUEST_URL.into(),
					headers: vec![("Content-Type".into(), "application/json".into())],
					sent: true,
					body: pm::RPC_FINALIZED_BLOCK_REQUEST_BODY.to_vec(),
					response,
					..Default::default()
				});
			}
		}
		t.register_extension(OffchainDbExt::new(e.clone()));
		t.register_extension(OffchainWorkerExt::new(e));
		t
	}
	/// The worker as the node runs it on its best block; what it writes to the chain's own storage is dropped.
	fn go(&self, shared: &testing::TestPersistentOffchainDB, last_final: usize, how: &str) {
		let n = self.best();
		let mut t = self.ext(shared, last_final, how);
		t.execute_with(|| {
			frame_system::BlockHash::<Test>::insert(n as u32, hash(n, 0));
			Msa::offchain_worker(n as u32)
		})
	}
	/// How often the worker touches its storage when run now.
	fn accesses(&self, last_final: usize) -> usize {
		let shared = testing::TestPersistentOffchainDB::new();
		shared.restore(self.db.clone());
		control::with_hook(|_| (), || self.go(&shared, last_final, "")).1
	}
	fn work(&mut self, last_final: usize, how: &How, nk: usize) -> Result<(), Bad> {
		let shared = testing::TestPersistentOffchainDB::new();
		shared.restore(self.db.clone());
		match how {
			How::Fine => self.go(&shared, last_final, ""),
			How::Http(w) => self.go(&shared, last_final, w),
			How::Stop(i) => {
				let i = *i;
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
					control::with_hook(
						move |j| {
							if i == j {
								control::stop()
							}
						},
						|| self.go(&shared, last_final, ""),
					)
				}));
				if let Err(p) = r {
					if !p.is::<control::Stopped>() {
						std::panic::resume_unwind(p)
					}
				}
				self.stale_locks = true;
			},
			How::Meet(i, f2) => {
				let (i, f2) = (*i, *f2);
				let (other, s2) = (self.clone(), shared.clone());
				control::with_hook(
					move |j| {
						if i == j {
							other.go(&s2, f2, "")
						}
					},
					|| self.go(&shared, last_final, ""),
				);
			},
			How::MeetNext(i, f2, ops) => {
				let (i, f2, ops) = (*i, *f2, ops.clone());
				let after = std::rc::Rc::new(std::cell::RefCell::new(self.clone()));
				let (a2, s2) = (after.clone(), shared.clone());
				control::with_hook(
					move |j| {
						if i == j {
							let mut o = a2.borrow_mut();
							o.db = s2.snapshot();
							let _ = o.block(&ops, nk);
							s2.restore(std::mem::take(&mut o.db));
							o.go(&s2, f2, "");
						}
					},
					|| self.go(&shared, last_final, ""),
				);
				let o = after.borrow().clone();
				*self = o;
			},
		}
		self.db = shared.snapshot();
		Ok(())
	}
	fn read<V: sdk::codec::Decode + std::fmt::Debug>(&self, k: &[u8]) -> Result<Option<V>, Bad> {
		let shared = testing::TestPersistentOffchainDB::new();
		shared.restore(self.db.clone());
		let mut t = self.ext(&shared, 0, "");
		t.execute_with(|| get_index_value::<V>(k)).or_else(|e| bad("unreadable", format!("{:?} cannot be read: {e:?}", String::from_utf8_lossy(k))))
	}
	fn indexed(&self) -> Result<bool, Bad> {
		Ok(self.read::<bool>(&pm::MSA_INITIAL_INDEXED_STORAGE_NAME[..])?.unwrap_or(false))
	}
	fn last(&self) -> Result<Option<usize>, Bad> {
		Ok(self.read::<u32>(&pm::LAST_PROCESSED_BLOCK_STORAGE_NAME[..])?.map(|n| n as usize))
	}
	/// The index, read as the node's RPC reads it.
	fn index(&self, nk: usize) -> Result<BTreeMap<u64, BTreeSet<usize>>, Bad> {
		let mut m = BTreeMap::new();
		let ids: BTreeSet<u64> = self.chain.iter().flat_map(|k| k.values().copied()).collect();
		for o in ids {
			let l = self.read::<Vec<AccountId32>>(&get_msa_account_storage_key_name(o))?.unwrap_or_default();
			let s: BTreeSet<usize> = (0..nk).filter(|k| l.contains(&acc(*k))).collect();
			must!(s.len() == l.len(), "duplicate-keys", "the index of identity {o} lists {} keys, {} of them different and known", l.len(), s.len());
			m.insert(o, s);
		}
		Ok(m)
	}
	/// Does the index hold what the chain held at the last processed block?
	fn converged(&self, nk: usize) -> Result<(), Bad> {
		if !self.indexed()? {
			return Ok(())
		}
		let Some(l) = self.last()? else { return bad("no-last-block", "the initial index is complete but no last processed block is recorded") };
		let idx = self.index(nk)?;
		// until the worker has passed the block whose state the initial index was taken from, a key may be as of any block in between
		let hi = self.snap.map_or(l, |s| s.max(l)).max(l + self.midway as usize).min(self.best());
		// what abandoned blocks explain must not hide a key they do not explain
		let mut explained = None;
		for (o, got) in &idx {
			for k in 0..nk {
				let has = got.contains(&k);
				let ok = (l.min(hi)..=hi).any(|b| (self.chain[b].get(&k) == Some(o)) == has);
				if !ok {
					let at: Vec<String> = (0..self.chain.len().min(12)).map(|b| format!("{b}:{:?}", self.chain[b])).collect();
					let key = if self.left_behind.iter().any(|(b, t)| *b <= l && *t == k) { "abandoned-block-events" } else if self.taken.contains(&k) { "abandoned-initial-state" } else if has { "extra-key" } else { "missing-key" };
					let x = bad(key, format!("blocks up to {l} are processed: the index says key {k} {} identity {o}, the chain that it does {} (keys per block {at:?}, initial index from block {:?})", if has { "controls" } else { "does not control" }, if has { "not" } else { "" }, self.snap));
					if !key.starts_with("abandoned") {
						return x
					}
					explained.get_or_insert(x);
				}
			}
		}
		explained.unwrap_or(Ok(()))
	}
	fn act(&self, a: &Act, nk: usize) -> Result<St, Bad> {
		let mut s = self.clone();
		let (was, last) = (s.indexed()?, s.last()?);
		match a {
			Act::Block(ops) => s.block(ops, nk)?,
			Act::Pause => {
				for _ in 0..45 {
					s.block(&[], nk)?
				}
				s.time += 3_600_000;
				s.stale_locks = false;
			},
			Act::Fork(ops) => {
				s.io = s.before.take().unwrap();
				let old = s.chain.pop().unwrap();
				let n = s.best() + 1;
				let touched: Vec<usize> = (0..nk).filter(|k| old.get(k) != s.chain[n - 1].get(k)).collect();
				let events = !s.events_of(n).is_empty();
				s.block(ops, nk)?;
				// a later block with events of its own replaces what the abandoned one left, one without does not
				if ops.is_empty() && events {
					s.left_behind.extend(touched.iter().map(|k| (n, *k)));
				}
				if s.snap.map_or(false, |b| b >= n) {
					s.taken.extend(touched);
				}
				s.left.2 += 1;
			},
			Act::Work { last_final, how } => {
				match how {
					How::Stop(_) => s.left.0 += 1,
					How::Meet(..) | How::MeetNext(..) => s.left.1 += 1,
					_ => (),
				}
				s.work(*last_final, how, nk)?;
				match how {
					How::Stop(_) => s.midway = true,
					How::Fine | How::Meet(..) | How::MeetNext(..) if !s.stale_locks => s.midway = false,
					_ => (),
				}
				if s.indexed()? && !was {
					s.snap = Some(s.best());
				}
				let now = s.last()?;
				let done = match how {
					How::Meet(_, f) | How::MeetNext(_, f, _) => *last_final.max(f),
					_ => *last_final,
				};
				match how {
					How::Http(_) => must!(s.db == self.db, "worked-blindly", "{a:?} changed the worker's storage"),
					How::Fine | How::Meet(..) | How::MeetNext(..) if !s.stale_locks => {
						must!(s.indexed()?, "initial-index-not-done", "{a:?} with nothing in its way left the initial index undone");
						let want = done.max(if was { last.unwrap_or(0) } else { 0 });
						let low = if let How::Meet(..) | How::MeetNext(..) = how { *last_final.max(&last.unwrap_or(0)) } else { want };
						let got = now.unwrap_or(0);
						must!(got <= want && got >= low.min(want), "not-processed", "{a:?} with nothing in its way processed up to {now:?} (before: {last:?}), block {want} is final");
					},
					_ => (),
				}
				if was {
					must!(s.indexed()? && now >= last, "went-back", "{a:?} took the last processed block from {last:?} to {now:?}");
				}
				must!(now.map_or(true, |n| n <= done.max(last.unwrap_or(0))), "ran-ahead", "{a:?} claims to have processed {now:?}");
			},
		}
		s.converged(nk)?;
		Ok(s)
	}
	/// Keys of the events recorded for a block.
	fn events_of(&self, n: usize) -> Vec<Vec<u8>> {
		let p = [STORAGE_PREFIX, b"frequency::block_event::msa::", &(n as u32).encode()[..]].concat();
		self.db.keys().filter(|k| k.starts_with(&p)).cloned().collect()
	}
}
#[derive(Clone, Copy)]
struct Sys {
	blocks: usize,
	per_block: usize,
	stops: u8,
	meets: u8,
	forks: u8,
	http: bool,
	sponsor: bool,
	/// blocks put in before exploring begins
	prefix: usize,
}
impl Sys {
	fn blocks_now(&self, keys: &Keys) -> Vec<Vec<Op>> {
		let mut v = vec![vec![]];
		let mut last: Vec<(Vec<Op>, Keys)> = vec![(vec![], keys.clone())];
		for _ in 0..self.per_block {
			let mut next = vec![];
			for (l, k) in last {
				for o in ops(&k, self.sponsor) {
					// an identity created in this block has no number we know yet; at most one such
					if l.iter().any(|x| matches!(x, Op::Create(_) | Op::Sponsor(..))) && matches!(o, Op::Create(_) | Op::Sponsor(..)) {
						continue
					}
					let mut m = l.clone();
					let k2 = next_keys(&k, &o);
					m.push(o);
					v.push(m.clone());
					next.push((m, k2));
				}
			}
			last = next;
		}
		v
	}
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let mut v = vec![St::start()];
		if self.prefix > 0 {
			let mut s = St::start();
			for b in [vec![Op::Create(0)], vec![Op::Add(0, 1)]].iter().cycle().take(self.prefix) {
				s.block(b, NK).ok().unwrap();
			}
			v = vec![s];
		}
		v
	}
	fn key(&self, s: &St) -> u128 {
		let from = s.last().ok().flatten().unwrap_or(0).min(s.best());
		let skip = [fr::prefix("System", "Events"), fr::prefix("System", "EventCount")];
		fr::mix(fr::key_without(&s.io, &skip), (&s.db, from, &s.chain[from..], s.snap, s.stale_locks, s.midway, s.left, (&s.left_behind, &s.taken), s.best(), s.before.as_ref().filter(|_| self.forks > 0).map(fr::key)))
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		let b = s.best();
		if b < self.blocks + self.prefix || (s.stale_locks && b >= 45 && b < self.blocks + self.prefix + 45) {
			v.extend(self.blocks_now(s.chain.last().unwrap()).into_iter().map(Act::Block));
		}
		if s.stale_locks {
			v.push(Act::Pause);
		}
		if s.left.2 < self.forks && s.before.is_some() && s.last().ok().flatten().unwrap_or(0) < b {
			v.extend(self.blocks_now(&s.chain[b - 1]).into_iter().map(Act::Fork));
		}
		let l = s.last().ok().flatten().unwrap_or(0);
		for f in (1..=b).rev().take(5) {
			if f < l && f + 2 < b {
				continue
			}
			v.push(Act::Work { last_final: f, how: How::Fine });
			let n = if s.left.0 < self.stops || s.left.1 < self.meets { s.accesses(f) } else { 0 };
			for i in 0..n {
				if s.left.0 < self.stops {
					v.push(Act::Work { last_final: f, how: How::Stop(i) });
				}
				if s.left.1 < self.meets {
					for f2 in [f, b] {
						if f2 == b || f2 != f {
							v.push(Act::Work { last_final: f, how: How::Meet(i, f2) });
						}
					}
					if b < self.blocks + self.prefix {
						for ops in self.blocks_now(s.chain.last().unwrap()) {
							for f2 in [f, b, b + 1] {
								if f2 != f || f == b {
									v.push(Act::Work { last_final: f, how: How::MeetNext(i, f2, ops.clone()) });
								}
							}
						}
					}
				}
			}
			if self.http && f == b {
				for h in ["unreachable", "error", "code", "garbage", "binary", "nothex", "short", "unknown", "timeout"] {
					v.push(Act::Work { last_final: f, how: How::Http(h) });
				}
			}
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		s.act(a, NK).map(Some)
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		json!({"keys per block": s.chain.iter().take(8).map(|k| format!("{k:?}")).collect::<Vec<_>>(), "index": s.index(NK).map(|i| format!("{i:?}")).unwrap_or_default(), "last processed": s.last().ok().flatten()})
	}
}
fn c37(run: &Run) {
	mc::quiet_panics();
	let base = Sys { blocks: 3, per_block: 1, stops: 0, meets: 0, forks: 0, http: false, sponsor: false, prefix: 0 };
	let b = |depth| Bounds { depth, max_states: mc::pick(400_000, 4_000_000), secs: mc::pick(60, 900) };
	let mut go = |name: &str, s: Sys, depth: usize| {
		let o = mc::explore(run, name, &s, b(depth));
		if std::env::var("OFW_DEBUG").is_ok() {
			eprintln!("{name}: {} states {} transitions depth {} complete {}", o.states, o.transitions, o.depth, o.complete);
		}
	};
	go("histories: one operation per block, workers late, skipped and repeated", Sys { blocks: mc::pick(4, 5), http: true, ..base }, mc::pick(7, 9));
	go("histories: two operations per block", Sys { blocks: mc::pick(2, 3), per_block: 2, sponsor: true, ..base }, mc::pick(5, 6));
	go("stopped workers: at every access to storage", Sys { blocks: 3, stops: mc::pick(1, 2), prefix: 2, ..base }, mc::pick(6, 7));
	go("two workers: one running inside the other, at every access", Sys { blocks: 2, meets: mc::pick(1, 2), prefix: 2, ..base }, mc::pick(5, 6));
	go("abandoned blocks", Sys { blocks: 3, forks: 1, prefix: 1, ..base }, 5);
	long(run);
}
/// Histories too long to branch on: many keys, many events in one block, many blocks between two runs.
fn long(run: &Run) {
	const N: usize = 2203;
	let made = |s: &mut St, from: usize, to: usize| -> Result<(), Bad> {
		s.block(&(from..to).map(Op::Create).collect::<Vec<_>>(), N)
	};
	let report = |name: &str, r: Result<(), Bad>| {
		run.trace(1);
		if let Err(b) = r {
			run.fail(&b.key, format!("{name}: {}", b.what), json!({ "history": name }));
		}
	};
	for n in [1, 255, 256, 257, 300] {
		for late in [0, 1, 3] {
			report(&format!("{n} events in one block, read {late} blocks later"), (|| {
				let mut s = St::start();
				s.block(&[Op::Create(0)], N)?;
				s = s.act(&Act::Work { last_final: 1, how: How::Fine }, N)?;
				made(&mut s, 3, 3 + n)?;
				for _ in 0..late {
					s.block(&[], N)?
				}
				let f = s.best();
				s.act(&Act::Work { last_final: f, how: How::Fine }, N).map(|_| ())
			})());
		}
	}
	report("an initial index of 2200 keys", (|| {
		let mut s = St::start();
		for b in 0..4 {
			made(&mut s, 3 + 550 * b, 3 + 550 * (b + 1))?;
		}
		s = s.act(&Act::Work { last_final: 2, how: How::Fine }, N)?;
		s.block(&[Op::Create(0), Op::Retire(700), Op::Retire(2000)], N)?;
		for f in 3..=5 {
			s = s.act(&Act::Work { last_final: f, how: How::Fine }, N)?;
		}
		Ok(())
	})());
	// identity numbers that agree in their lower bits
	for far in [16, 32, 48, 63] {
		report(&format!("identities 2^{far} apart"), (|| {
			let mut s = St::start();
			s.block(&[Op::Create(0)], NK)?;
			s = s.act(&Act::Work { last_final: 1, how: How::Fine }, NK)?;
			s.block(&[Op::Add(0, 1)], NK)?;
			let (_, io) = fr::run(&s.io, || Msa::set_msa_identifier(8 + (1 << far)).unwrap());
			s.io = io;
			s.block(&[Op::Create(2)], NK)?;
			s = s.act(&Act::Work { last_final: 3, how: How::Fine }, NK)?;
			s.block(&[Op::Delete(0, 1)], NK)?;
			s.block(&[Op::Add(2, 1)], NK)?;
			s = s.act(&Act::Work { last_final: 5, how: How::Fine }, NK)?;
			s.block(&[Op::Retire(0), Op::Delete(1, 2)], NK)?;
			s.act(&Act::Work { last_final: 6, how: How::Fine }, NK).map(|_| ())
		})());
	}
	// a key moves in and out every few blocks; the worker runs once at the start and once at the end
	for (gap, lag) in mc::pick(vec![(7, 0), (200, 0), (240, 30), (1030, 990)], vec![(7, 0), (200, 0), (240, 30), (700, 0), (1500, 100), (1030, 990), (1300, 520)]) {
		report(&format!("{gap} blocks between two runs, finality {lag} behind"), (|| {
			let mut s = St::start();
			s.block(&[Op::Create(0)], NK)?;
			s = s.act(&Act::Work { last_final: 1, how: How::Fine }, NK)?;
			for b in 0..gap {
				let ops = match b % 5 {
					0 => vec![Op::Add(0, 1)],
					1 => vec![Op::Create(2)],
					2 => vec![Op::Delete(0, 1), Op::Retire(2)],
					3 => vec![Op::Add(0, 2), Op::Delete(2, 0), Op::Create(0)],
					_ => vec![Op::Retire(0), Op::Add(2, 0), Op::Delete(0, 2)],
				};
				s.block(&ops, NK)?;
			}
			let f = s.best() - lag;
			s.act(&Act::Work { last_final: f, how: How::Fine }, NK).map(|_| ())
		})());
	}
}
fn main() {
	mc::main_with(&[("C37", c37 as fn(&Run))])
}

//! C08 C09 C10 C11 C12: pallet-msa, explored state by state and compared with a model of identities, delegations and used signatures.
use common_primitives::{
	handles::HandleResponse,
	handles::HandleProvider,
	msa::{DelegationValidator, DelegatorId, MessageSourceId, ProviderId, SchemaGrantValidator},
	node::ProposalProvider,
	schema::{SchemaId, SchemaValidator},
	utils::wrap_binary_data,
};
use fr::{peek, run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_msa as pm;
use pm::types::{AddKeyData, AddProvider};
use sdk::codec::Encode;
use sdk::frame_support::dispatch::GetDispatchInfo;
use sdk::frame_support::traits::{ConstU32, Get};
use sdk::frame_support::{construct_runtime, storage::unhashed, traits::UnfilteredDispatchable};
use sdk::frame_system::{self, EnsureRoot};
use sdk::pallet_balances;
use sdk::sp_core::{crypto::AccountId32, sr25519, Pair};
use sdk::sp_runtime::traits::{ConvertInto, SignedExtension};
use sdk::sp_runtime::{BuildStorage, DispatchError, MultiSignature};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::OnceLock;

fr::base_runtime!(account = AccountId32, balance = u64, ed = 1, freezes = 1);
const NK: usize = 5;
fn pairs() -> &'static Vec<(sr25519::Pair, AccountId32)> {
	static P: OnceLock<Vec<(sr25519::Pair, AccountId32)>> = OnceLock::new();
	P.get_or_init(|| {
		(0..NK as u8)
			.map(|i| {
				let p = sr25519::Pair::from_seed(&[i + 1; 32]);
				let a = AccountId32::from(p.public());
				(p, a)
			})
			.collect()
	})
}
fn acc(k: usize) -> AccountId32 {
	pairs()[k].1.clone()
}
// limits that differ between the systems explored (set before exploring, never while)
static MAX_KEYS: AtomicU32 = AtomicU32::new(2);
static MAX_SIGS: AtomicU32 = AtomicU32::new(1000);
static WINDOW: AtomicU32 = AtomicU32::new(3);
const MAX_SCHEMAS: u32 = 2;
pub struct MaxKeys;
impl Get<u8> for MaxKeys {
	fn get() -> u8 {
		MAX_KEYS.load(Relaxed) as u8
	}
}
pub struct MaxSigs;
impl Get<Option<u32>> for MaxSigs {
	fn get() -> Option<u32> {
		Some(MAX_SIGS.load(Relaxed))
	}
}
pub struct Window;
impl Get<u32> for Window {
	fn get() -> u32 {
		WINDOW.load(Relaxed)
	}
}
pub struct Known;
impl SchemaValidator<SchemaId> for Known {
	fn are_all_schema_ids_valid(l: &Vec<SchemaId>) -> bool {
		l.iter().all(|s| (1..=3).contains(s))
	}
	fn set_schema_count(_: SchemaId) {}
}
pub struct Named;
fn hkey(o: MessageSourceId) -> Vec<u8> {
	[b"handle-of".to_vec(), o.encode()].concat()
}
impl HandleProvider for Named {
	fn get_handle_for_msa(o: MessageSourceId) -> Option<HandleResponse> {
		unhashed::get_raw(&hkey(o)).map(|_| HandleResponse { base_handle: b"abc".to_vec(), canonical_base: b"abc".to_vec(), suffix: 1 })
	}
}
pub struct NoCouncil;
impl ProposalProvider<AccountId32, RuntimeCall> for NoCouncil {
	fn propose(_: AccountId32, _: u32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		Ok((0, 0))
	}
	fn propose_with_simple_majority(_: AccountId32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		Ok((0, 0))
	}
}
impl pm::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MaxPublicKeysPerMsa = MaxKeys;
	type MaxSchemaGrantsPerDelegation = ConstU32<MAX_SCHEMAS>;
	type MaxProviderNameSize = ConstU32<4>;
	type SchemaValidator = Known;
	type HandleProvider = Named;
	type MortalityWindowSize = Window;
	type MaxSignaturesStored = MaxSigs;
	type Proposal = RuntimeCall;
	type ProposalProvider = NoCouncil;
	type CreateProviderViaGovernanceOrigin = EnsureRoot<AccountId32>;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Msa: pm::{Pallet, Call, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);
type Ids = Vec<SchemaId>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Deleg {
	revoked: u32,
	schemas: BTreeMap<SchemaId, u32>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
	now: u32,
	max: u64,
	keys: BTreeMap<usize, u64>,
	providers: BTreeSet<u64>,
	handles: BTreeSet<u64>,
	deleg: BTreeMap<(u64, u64), Deleg>,
}
/// What was ever accepted, and what the registry must still remember (oldest first, with expiry).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Sigs {
	used: BTreeSet<Vec<u8>>,
	reg: Vec<u32>,
	n: u64,
}
#[derive(Clone)]
struct St {
	io: Io,
	m: Model,
	s: Sigs,
}
#[derive(Clone, Debug)]
struct Add {
	/// the key paying and acting as the provider
	prov: usize,
	/// the key on whose behalf
	key: usize,
	signer: usize,
	msa: u64,
	ids: Ids,
	signed_ids: Ids,
	exp: u32,
	signed_exp: u32,
	/// which of the many possible signatures of this text; None: one never used before
	salt: Option<u64>,
}
#[derive(Clone, Debug)]
struct NewKey {
	owner: usize,
	new: usize,
	signed_by: (usize, usize),
	msa: u64,
	signed_msa: u64,
	exp: u32,
	salt: Option<u64>,
}
#[derive(Clone, Debug)]
enum Act {
	Create(usize),
	Sponsor(Add),
	Grant(Add),
	AddKey(NewKey),
	DeleteKey(usize, usize),
	Retire(usize),
	CreateProvider(usize, usize),
	/// by root (true) or by a signed account
	Governance(bool, usize),
	RevokeByDelegator(usize, u64),
	RevokeByProvider(usize, u64),
	RevokeSchemas(usize, u64, Ids),
	/// The identity claims or gives up a handle (the handles registry is an environment here).
	Handle(u64),
	NoOrigin(u8),
	Advance,
}
fn sign(k: usize, p: Vec<u8>, salt: u64) -> MultiSignature {
	MultiSignature::Sr25519(pairs()[k].0.sign_salted(&wrap_binary_data(p), salt))
}
fn payload(a: &Add, signed: bool) -> AddProvider {
	AddProvider::new(a.msa, Some(if signed { a.signed_ids.clone() } else { a.ids.clone() }), if signed { a.signed_exp } else { a.exp })
}
fn observe(base: &Model) -> Model {
	let mut m = Model { now: System::block_number(), max: Msa::get_current_msa_identifier_maximum(), keys: Default::default(), providers: Default::default(), handles: base.handles.clone(), deleg: Default::default() };
	for k in 0..NK {
		if let Some(o) = Msa::get_owner_of(&acc(k)) {
			m.keys.insert(k, o);
		}
	}
	// identities are numbered from the initial maximum; look one past the end as well
	for o in ids(base) {
		if Msa::is_registered_provider(o) {
			m.providers.insert(o);
		}
	}
	m
}
fn ids(m: &Model) -> Vec<u64> {
	let lo = m.max.saturating_sub(6);
	(lo..=m.max.saturating_add(1)).collect()
}
impl Model {
	/// May the provider act for the delegator at this block?
	fn acts(&self, d: u64, p: u64, b: u32) -> bool {
		b <= self.now && self.deleg.get(&(d, p)).map_or(false, |x| x.revoked == 0 || b <= x.revoked)
	}
	fn grants(&self, d: u64, p: u64, s: SchemaId, b: u32) -> bool {
		self.acts(d, p, b) && self.deleg[&(d, p)].schemas.get(&s).map_or(false, |r| *r == 0 || b <= *r)
	}
	fn count(&self, o: u64) -> usize {
		self.keys.values().filter(|x| **x == o).count()
	}
	fn ids_ok(l: &Ids) -> bool {
		l.len() <= MAX_SCHEMAS as usize && l.iter().all(|s| (1..=3).contains(s))
	}
}
impl Sigs {
	/// Some(true): must be accepted, Some(false): must be refused, None: either.
	fn register(&mut self, sig: &MultiSignature, exp: u32, now: u32) -> Option<bool> {
		if exp <= now || exp >= now + Window::get() || self.used.contains(&sig.encode()) {
			return Some(false)
		}
		let mut sure = Some(true);
		if self.reg.len() >= MAX_SIGS.load(Relaxed) as usize {
			let dead = |e: &u32| *e < now;
			if !self.reg.iter().any(|e| *e <= now) {
				return Some(false)
			}
			if !self.reg.iter().all(dead) && !dead(&self.reg[0]) {
				sure = None;
			}
			let i = self.reg.iter().position(|e| *e <= now).unwrap();
			self.reg.remove(i);
		}
		self.reg.push(exp);
		self.used.insert(sig.encode());
		self.n += 1;
		sure
	}
}
struct Sys {
	kind: Kind,
	start: Vec<(Model, bool)>,
	horizon: u32,
	/// Distinct signatures are a dimension of the state (else every signature is new and the registry has room)
	sigs: bool,
}
#[derive(PartialEq)]
enum Kind {
	Keys,
	Delegations(usize),
	Signatures,
	Mismatch,
}
const NAME: [&[u8]; 4] = [b"p", b"", b"long", b"long!"];
impl Sys {
	fn call(&self, s: &St, a: &Act) -> (RuntimeOrigin, Option<RuntimeCall>, usize) {
		let o = |k: usize| RuntimeOrigin::signed(acc(k));
		let salt = |x: &Option<u64>| x.unwrap_or(1000 + s.s.n);
		let (k, c) = match a {
			Act::Advance | Act::Handle(_) => return (RuntimeOrigin::none(), None, 0),
			Act::Create(k) => (*k, pm::Call::create {}),
			Act::Sponsor(x) => (x.prov, pm::Call::create_sponsored_account_with_delegation { delegator_key: acc(x.key), proof: sign(x.signer, payload(x, true).encode(), salt(&x.salt)), add_provider_payload: payload(x, false) }),
			Act::Grant(x) => (x.prov, pm::Call::grant_delegation { delegator_key: acc(x.key), proof: sign(x.signer, payload(x, true).encode(), salt(&x.salt)), add_provider_payload: payload(x, false) }),
			Act::AddKey(x) => {
				let p = |msa| AddKeyData::<Test> { msa_id: msa, expiration: x.exp, new_public_key: acc(x.new) };
				let t = p(x.signed_msa).encode();
				(4, pm::Call::add_public_key_to_msa { msa_owner_public_key: acc(x.owner), msa_owner_proof: sign(x.signed_by.0, t.clone(), salt(&x.salt)), new_key_owner_proof: sign(x.signed_by.1, t, salt(&x.salt)), add_key_payload: p(x.msa) })
			},
			Act::DeleteKey(k, d) => (*k, pm::Call::delete_msa_public_key { public_key_to_delete: acc(*d) }),
			Act::Retire(k) => (*k, pm::Call::retire_msa {}),
			Act::CreateProvider(k, n) => (*k, pm::Call::create_provider { provider_name: NAME[*n].to_vec() }),
			Act::Governance(root, k) => {
				let c = pm::Call::create_provider_via_governance { provider_key: acc(*k), provider_name: b"g".to_vec() };
				return (if *root { RuntimeOrigin::root() } else { o(*k) }, Some(RuntimeCall::Msa(c)), *k)
			},
			Act::RevokeByDelegator(k, p) => (*k, pm::Call::revoke_delegation_by_delegator { provider_msa_id: *p }),
			Act::RevokeByProvider(k, d) => (*k, pm::Call::revoke_delegation_by_provider { delegator: *d }),
			#[allow(deprecated)]
			Act::RevokeSchemas(k, p, l) => (*k, pm::Call::revoke_schema_permissions { provider_msa_id: *p, schema_ids: l.clone() }),
			Act::NoOrigin(i) => {
				let c = match i / 2 {
					0 => pm::Call::create {},
					1 => pm::Call::create_provider { provider_name: b"p".to_vec() },
					2 => pm::Call::revoke_delegation_by_delegator { provider_msa_id: 1 },
					3 => pm::Call::revoke_delegation_by_provider { delegator: 2 },
					4 => pm::Call::delete_msa_public_key { public_key_to_delete: acc(0) },
					_ => pm::Call::retire_msa {},
				};
				return (if i % 2 == 0 { RuntimeOrigin::none() } else { RuntimeOrigin::root() }, Some(RuntimeCall::Msa(c)), 0)
			},
		};
		(o(k), Some(RuntimeCall::Msa(c)), k)
	}
	/// Some(true): must succeed and lead to the returned model; Some(false): must fail; None: either.
	fn model(&self, s: &St, a: &Act) -> (Option<bool>, Model, Sigs) {
		let mut m = s.m.clone();
		let mut g = s.s.clone();
		let now = m.now;
		let salt = |x: &Option<u64>| x.unwrap_or(1000 + s.s.n);
		let key = |k: usize| s.m.keys.get(&k).copied();
		let create = |m: &mut Model, k: usize| -> Option<u64> {
			if m.keys.contains_key(&k) {
				return None
			}
			m.max = m.max.checked_add(1)?;
			m.keys.insert(k, m.max);
			Some(m.max)
		};
		let ok: Option<bool> = match a {
			Act::Advance => {
				m.now += 1;
				Some(true)
			},
			Act::Handle(o) => {
				if !m.handles.remove(o) {
					m.handles.insert(*o);
				}
				Some(true)
			},
			Act::NoOrigin(_) => Some(false),
			Act::Create(k) => Some(create(&mut m, *k).is_some()),
			Act::Sponsor(x) | Act::Grant(x) => (|| {
				let grant = matches!(a, Act::Grant(_));
				if x.signer != x.key || x.ids != x.signed_ids || x.exp != x.signed_exp {
					return Some(false)
				}
				let sure = g.register(&sign(x.signer, payload(x, true).encode(), salt(&x.salt)), x.exp, now);
				if sure == Some(false) {
					return sure
				}
				let Some(p) = key(x.prov) else { return Some(false) };
				if p != x.msa || !m.providers.contains(&p) || !Model::ids_ok(&x.ids) {
					return Some(false)
				}
				let d = if grant {
					match key(x.key) {
						Some(d) if d != p => d,
						_ => return Some(false),
					}
				} else {
					match create(&mut m, x.key) {
						Some(d) => d,
						None => return Some(false),
					}
				};
				let e = m.deleg.entry((d, p)).or_default();
				// what is not in the new list ends now, or ended with the delegation
				let end = if e.revoked == 0 { now } else { e.revoked };
				for (s, r) in e.schemas.iter_mut() {
					if x.ids.contains(s) {
						*r = 0
					} else if *r == 0 {
						*r = end
					}
				}
				for s in &x.ids {
					e.schemas.insert(*s, 0);
				}
				e.revoked = 0;
				if e.schemas.len() > MAX_SCHEMAS as usize {
					return Some(false)
				}
				sure
			})(),
			Act::AddKey(x) => (|| {
				if x.signed_by != (x.owner, x.new) || x.msa != x.signed_msa {
					return Some(false)
				}
				let t = AddKeyData::<Test> { msa_id: x.msa, expiration: x.exp, new_public_key: acc(x.new) }.encode();
				let one = g.register(&sign(x.owner, t.clone(), salt(&x.salt)), x.exp, now);
				if one == Some(false) {
					return one
				}
				let two = g.register(&sign(x.new, t, salt(&x.salt)), x.exp, now);
				if two == Some(false) {
					// with both signatures by the same key this is a repetition
					return if one.is_none() { None } else { two }
				}
				if key(x.owner) != Some(x.msa) || key(x.new).is_some() || m.count(x.msa) >= MAX_KEYS.load(Relaxed) as usize {
					return Some(false)
				}
				m.keys.insert(x.new, x.msa);
				if one.is_none() { one } else { two }
			})(),
			Act::DeleteKey(k, d) => {
				let ok = k != d && key(*k).is_some() && key(*k) == key(*d);
				m.keys.remove(d);
				Some(ok)
			},
			Act::Retire(k) => Some(match key(*k) {
				None => false,
				Some(o) => {
					m.keys.remove(k);
					s.m.count(o) == 1 && !m.providers.contains(&o) && !m.handles.contains(&o) && !m.deleg.keys().any(|(d, p)| *d == o && m.acts(*d, *p, now))
				},
			}),
			Act::CreateProvider(k, n) => Some(match key(*k) {
				Some(o) if NAME[*n].len() <= 4 => m.providers.insert(o),
				_ => false,
			}),
			Act::Governance(root, k) => Some(match key(*k) {
				Some(o) if *root => m.providers.insert(o),
				_ => false,
			}),
			Act::RevokeByDelegator(k, o) | Act::RevokeByProvider(k, o) => Some(match key(*k) {
				None => false,
				Some(me) => {
					let pair = if matches!(a, Act::RevokeByDelegator(..)) { (me, *o) } else { (*o, me) };
					match m.deleg.get_mut(&pair) {
						Some(e) if e.revoked == 0 => {
							e.revoked = now;
							true
						},
						_ => false,
					}
				},
			}),
			Act::RevokeSchemas(k, p, l) => Some(match key(*k).and_then(|d| m.deleg.get_mut(&(d, *p))) {
				Some(e) if Model::ids_ok(l) && l.iter().all(|x| e.schemas.contains_key(x)) => {
					let end = if e.revoked == 0 { now } else { e.revoked };
					for x in l {
						let r = e.schemas.get_mut(x).unwrap();
						if *r == 0 {
							*r = end
						}
					}
					true
				},
				_ => false,
			}),
		};
		(ok, m, g)
	}
}
fn props(a: &Act) -> &'static str {
	match a {
		Act::Create(_) => "C08,C09",
		Act::Sponsor(_) => "C08,C09,C10,C11",
		Act::Grant(_) => "C10,C11",
		Act::AddKey(_) => "C08,C10",
		Act::DeleteKey(..) => "C08,C12",
		Act::Retire(_) => "C08,C09,C12",
		Act::CreateProvider(..) | Act::Governance(..) => "C11",
		Act::RevokeByDelegator(..) | Act::RevokeByProvider(..) => "C11,C12",
		Act::RevokeSchemas(..) => "C11",
		Act::NoOrigin(_) => "C08,C11,C12",
		_ => "C08,C09,C10,C11,C12",
	}
}
fn free(a: &Act) -> bool {
	matches!(a, Act::DeleteKey(..) | Act::Retire(_) | Act::RevokeByDelegator(..) | Act::RevokeByProvider(..))
}
fn skip() -> &'static Vec<Vec<u8>> {
	static P: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	P.get_or_init(|| vec![fr::prefix("Msa", "PayloadSignatureRegistryList"), fr::prefix("Msa", "CounterForPayloadSignatureRegistryList"), fr::prefix("Msa", "PayloadSignatureRegistryPointer"), fr::prefix("Msa", "OffchainIndexEventCount")])
}
fn events() -> &'static Vec<Vec<u8>> {
	static P: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	P.get_or_init(|| vec![fr::prefix("System", "Events"), fr::prefix("System", "EventCount"), fr::prefix("System", "EventTopics"), fr::prefix("Msa", "OffchainIndexEventCount")])
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		self.start
			.iter()
			.map(|(m, _)| {
				// build the starting point with the pallet's own calls
				let mut x = sdk::io::TestExternalities::new(t.clone());
				x.execute_with(|| {
					System::set_block_number(m.now);
					let n = m.keys.values().collect::<BTreeSet<_>>().len() as u64;
					Msa::set_msa_identifier(m.max - n).unwrap();
					for (k, o) in &m.keys {
						assert_eq!(Msa::create_account(acc(*k), |_| Ok(())).unwrap().0, *o);
					}
					for p in &m.providers {
						Msa::create_registered_provider(ProviderId(*p), b"p".to_vec().try_into().unwrap()).unwrap();
					}
				});
				St { io: x.into_state(), m: m.clone(), s: Default::default() }
			})
			.collect()
	}
	fn key(&self, s: &St) -> u128 {
		if self.sigs {
			fr::mix(fr::key(&s.io), (&s.m, &s.s))
		} else {
			fr::mix(fr::key_without(&s.io, skip()), &s.m)
		}
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let m = &s.m;
		let now = m.now;
		let mut v = vec![];
		let add = |prov: usize, key: usize, ids: &Ids, exp: u32, salt: Option<u64>| Add { prov, key, signer: key, msa: m.keys.get(&prov).copied().unwrap_or(1), ids: ids.clone(), signed_ids: ids.clone(), exp, signed_exp: exp, salt };
		match self.kind {
			Kind::Keys => {
				let nk = 4;
				for k in 0..nk {
					v.push(Act::Create(k));
					v.push(Act::Retire(k));
					v.push(Act::CreateProvider(k, 0));
					for j in 0..nk {
						v.push(Act::DeleteKey(k, j));
						if let Some(o) = m.keys.get(&k) {
							v.push(Act::AddKey(NewKey { owner: k, new: j, signed_by: (k, j), msa: *o, signed_msa: *o, exp: now + 1, salt: None }));
							v.push(Act::Sponsor(add(k, j, &vec![1], now + 1, None)));
							if m.providers.contains(o) {
								v.push(Act::Grant(add(k, j, &vec![1], now + 1, None)));
							}
						}
					}
					for ((d, p), _) in &m.deleg {
						v.push(Act::RevokeByDelegator(k, *p));
						v.push(Act::RevokeByProvider(k, *d));
					}
				}
				for o in m.keys.values().collect::<BTreeSet<_>>() {
					if m.handles.len() == 0 || m.handles.contains(o) {
						v.push(Act::Handle(*o));
					}
				}
			},
			Kind::Delegations(n) => {
				// keys 0 and 1 are delegators 1 and 2, keys 2 and 3 providers 3 and 4
				let lists: Vec<Ids> = vec![vec![], vec![1], vec![2], vec![1, 2]];
				for d in 0..n {
					for p in 2..2 + n {
						for l in &lists {
							v.push(Act::Grant(add(p, d, l, now + 1, None)));
						}
						v.push(Act::RevokeByDelegator(d, p as u64 + 1));
						v.push(Act::RevokeByProvider(p, d as u64 + 1));
						for l in [vec![1], vec![2], vec![1, 2], vec![2, 1], vec![1, 1]] {
							v.push(Act::RevokeSchemas(d, p as u64 + 1, l));
						}
					}
					v.push(Act::Retire(d));
				}
			},
			Kind::Signatures => {
				// keys: 0 is a provider, 1 a delegator, 2 and 3 free
				for exp in now.saturating_sub(1)..=now + Window::get() + 1 {
					for salt in 0..2 {
						v.push(Act::Grant(add(0, 1, &vec![1], exp, Some(salt))));
					}
					v.push(Act::Sponsor(add(0, 2, &vec![1], exp, Some(0))));
					let o = m.keys.get(&1).copied().unwrap_or(1);
					v.push(Act::AddKey(NewKey { owner: 1, new: 3, signed_by: (1, 3), msa: o, signed_msa: o, exp, salt: Some(0) }));
				}
				v.push(Act::RevokeByDelegator(2, 1));
				v.push(Act::Retire(2));
				v.push(Act::DeleteKey(1, 3));
			},
			Kind::Mismatch => {
				for k in 0..NK {
					v.push(Act::Create(k));
					v.push(Act::Retire(k));
					for n in 0..NAME.len() {
						v.push(Act::CreateProvider(k, n));
					}
					v.push(Act::Governance(true, k));
					v.push(Act::Governance(false, k));
					for o in 0..=5 {
						v.push(Act::RevokeByDelegator(k, o));
						v.push(Act::RevokeByProvider(k, o));
						for l in [vec![], vec![1], vec![9], vec![1, 9], vec![0], vec![3], vec![1, 2, 3]] {
							v.push(Act::RevokeSchemas(k, o, l));
						}
					}
					for j in 0..NK {
						v.push(Act::DeleteKey(k, j));
						for signer in 0..NK {
							for msa in 1..=4 {
								for (ids, signed_ids) in [(vec![1], vec![1]), (vec![1], vec![]), (vec![1, 2], vec![1]), (vec![2], vec![1]), (vec![9], vec![9]), (vec![0], vec![0]), (vec![1, 2, 3], vec![1, 2, 3]), (vec![3], vec![3])] {
									if signer != j && ids != signed_ids {
										continue
									}
									let x = Add { prov: k, key: j, signer, msa, ids, signed_ids, exp: now + 1, signed_exp: now + 1, salt: None };
									v.push(Act::Grant(x.clone()));
									v.push(Act::Sponsor(x.clone()));
									if signer == j {
										for (exp, signed_exp) in [(now + 1, now + 2), (now + 2, now + 1), (now, now), (now + Window::get(), now + Window::get())] {
											let y = Add { exp, signed_exp, ..x.clone() };
											v.push(Act::Grant(y.clone()));
											v.push(Act::Sponsor(y));
										}
									}
								}
								for s2 in [j, k, 4] {
									for signed_msa in [msa, 1] {
										v.push(Act::AddKey(NewKey { owner: k, new: j, signed_by: (signer, s2), msa, signed_msa, exp: now + 1, salt: None }));
									}
								}
							}
						}
					}
				}
				for o in m.keys.values().collect::<BTreeSet<_>>() {
					v.push(Act::Handle(*o));
				}
				for i in 0..12 {
					v.push(Act::NoOrigin(i));
				}
			},
		}
		if now < self.horizon {
			v.push(Act::Advance);
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		let (want, m, g) = self.model(s, a);
		let (origin, call, who) = self.call(s, a);
		let signed = !matches!(a, Act::NoOrigin(_) | Act::Governance(..));
		let ((valid, r, got, nev), mut io) = run(&s.io, || {
			let mut valid = None;
			let r: Result<(), String> = match call {
				None => {
					match a {
						Act::Handle(o) => {
							if m.handles.contains(o) {
								unhashed::put_raw(&hkey(*o), &[1])
							} else {
								unhashed::kill(&hkey(*o))
							}
						},
						_ => System::set_block_number(m.now),
					}
					Ok(())
				},
				Some(c) => {
					let mut go = true;
					if signed {
						let info = c.get_dispatch_info();
						let e = pm::CheckFreeExtrinsicUse::<Test>::new();
						let v = e.validate(&acc(who), &c, &info, 0).is_ok();
						let p = e.clone().pre_dispatch(&acc(who), &c, &info, 0).is_ok();
						valid = Some((v, p));
						go = p;
					}
					if go {
						c.dispatch_bypass_filter(origin).map(|_| ()).map_err(|e| format!("failed when run: {:?}", e.error))
					} else {
						Err("refused by validation".into())
					}
				},
			};
			let n = System::events().len();
			System::reset_events();
			(valid, r, observe(&m), n)
		});
		io.index.clear();
		let p = props(a);
		let name = mc::action_name(a);
		if let Some((v, q)) = valid {
			must!(v == q, format!("C12:{name}-validate-differs"), "validation of {a:?} in {:?} says {v} in the pool and {q} before running", s.m);
			if free(a) {
				must!(!v || r.is_ok(), format!("C12:{name}-valid-but-fails"), "{a:?} in {:?} passes validation but {r:?}", s.m);
			} else {
				must!(v, format!("C12:{name}-unguarded-refused"), "{a:?} in {:?} is not guarded but was refused by validation", s.m);
			}
		}
		if let Some(w) = want {
			must!(r.is_ok() == w, format!("{p}:{name}-{}", if w { "refused" } else { "accepted" }), "{a:?} in {:?}, used signatures {:?}, returned {r:?}", s.m, s.s.reg);
		}
		if r.is_err() {
			must!(fr::key(&Io { index: Default::default(), ..io.clone() }) == fr::key(&Io { index: Default::default(), ..s.io.clone() }) && nev == 0, format!("{p}:{name}-failed-with-effect"), "{a:?} failed with {r:?} but changed {:?}", s.m);
			// A proxy, multisig or derivative account reaches the pallet without the checks of the transaction pool
			if want == Some(false) && matches!(a, Act::DeleteKey(..) | Act::Retire(_)) {
				let (origin, call, _) = self.call(s, a);
				let (r2, io2) = run(&s.io, || call.unwrap().dispatch_bypass_filter(origin).map(|_| ()).map_err(|e| format!("{:?}", e.error)));
				let same = fr::key_without(&Io { index: Default::default(), ..io2 }, events()) == fr::key_without(&Io { index: Default::default(), ..s.io.clone() }, events());
				let (q, only) = match a {
					Act::Retire(k) => ("C09", s.m.keys.get(k).map_or(false, |o| s.m.count(*o) == 1 && !s.m.providers.contains(o) && !s.m.handles.contains(o))),
					_ => ("C08", false),
				};
				must!(same, format!("{q}:{name}-wrapped{}", if only { "-with-delegations" } else { "" }), "{a:?} in {:?}, made through another call, returned {r2:?} and took effect", s.m);
			}
			return Ok(None)
		}
		let want_ids = (&m.now, &m.max, &m.keys, &m.providers);
		let got_ids = (&got.now, &got.max, &got.keys, &got.providers);
		must!(want_ids == got_ids, format!("{p}:{name}-result"), "{a:?} in {:?} led to {got_ids:?}, expected {want_ids:?}", s.m);
		Ok(Some(St { io, m, s: g }))
	}
	fn check(&self, s: &St) -> Result<(), Bad> {
		let m = &s.m;
		peek(&s.io, || {
			for o in ids(m) {
				let n = Msa::get_public_key_count_by_msa_id(o) as usize;
				must!(n == m.count(o), "C08:key-count", "identity {o} records {n} keys, {} accounts resolve to it in {m:?}", m.count(o));
				must!(n <= MAX_KEYS.load(Relaxed) as usize, "C08:too-many-keys", "identity {o} has {n} keys");
			}
			for k in 0..NK {
				let got = Msa::ensure_valid_msa_key(&acc(k)).ok();
				must!(got == m.keys.get(&k).copied(), "C08,C09:lookup", "account {k} resolves to {got:?}, expected {:?}", m.keys.get(&k));
			}
			if self.kind == Kind::Keys {
				return Ok(())
			}
			for d in ids(m) {
				for p in ids(m) {
					let (pi, di) = (ProviderId(p), DelegatorId(d));
					for b in 0..=m.now + 1 {
						let got = Msa::ensure_valid_delegation(pi, di, Some(b)).is_ok();
						must!(got == m.acts(d, p, b), "C11:delegation", "may {p} act for {d} at block {b}: {got}, expected {} in {m:?}", m.acts(d, p, b));
						for sc in 0..=3 {
							let got = Msa::ensure_valid_schema_grant(pi, di, sc, b).is_ok();
							must!(got == m.grants(d, p, sc, b), "C11:schema-grant", "may {p} act for {d} on schema {sc} at block {b}: {got}, expected {} in {m:?}", m.grants(d, p, sc, b));
						}
					}
					let got = Msa::ensure_valid_delegation(pi, di, None).is_ok();
					must!(got == m.acts(d, p, m.now), "C11:delegation-now", "may {p} act for {d} now: {got} in {m:?}");
					let got = Msa::get_granted_schemas_by_msa_id(di, Some(pi)).ok().map(|l| l.into_iter().flat_map(|x| x.permissions).map(|g| (g.schema_id, g.revoked_at)).collect::<BTreeMap<_, _>>());
					let want = m.deleg.get(&(d, p)).filter(|x| !x.schemas.is_empty()).map(|x| x.schemas.iter().map(|(s, r)| (*s, if x.revoked > 0 && (*r == 0 || *r > x.revoked) { x.revoked } else { *r })).collect::<BTreeMap<_, _>>());
					must!(got == want, "C11:granted-list", "schemas granted by {d} to {p}: {got:?}, expected {want:?} in {m:?}");
				}
				let got = Msa::get_granted_schemas_by_msa_id(DelegatorId(d), None).ok().map(|l| l.into_iter().map(|x| x.provider_id.0).collect::<BTreeSet<_>>());
				let want = m.deleg.keys().filter(|x| x.0 == d).map(|x| x.1).collect::<BTreeSet<_>>();
				must!(got.as_ref() == Some(&want), "C11:granted-providers", "providers of {d}: {got:?}, expected {want:?} in {m:?}");
			}
			Ok(())
		})
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!(format!("{:?} {:?}", s.m, s.s.reg))
	}
}
fn empty(max: u64) -> Model {
	Model { now: 1, max, keys: Default::default(), providers: Default::default(), handles: Default::default(), deleg: Default::default() }
}
fn with(n: u64, prov: &[u64]) -> Model {
	Model { max: n, keys: (0..n).map(|i| (i as usize, i + 1)).collect(), providers: prov.iter().copied().collect(), ..empty(0) }
}
fn limits(keys: u32, sigs: u32, window: u32) {
	MAX_KEYS.store(keys, Relaxed);
	MAX_SIGS.store(sigs, Relaxed);
	WINDOW.store(window, Relaxed);
}
fn keys(r: &Run) {
	limits(2, 1000, 3);
	let a = Sys { kind: Kind::Keys, start: vec![(empty(0), true), (empty(u64::MAX - 2), true)], horizon: 2, sigs: false };
	mc::explore(r, "identities", &a, Bounds { depth: mc::pick(8, 11), max_states: mc::pick(250_000, 3_000_000), secs: mc::pick(100, 450) });
}
fn mismatch(r: &Run) {
	limits(2, 1000, 3);
	let a = Sys { kind: Kind::Mismatch, start: vec![(with(4, &[3]), true), (with(3, &[2]), true)], horizon: 3, sigs: false };
	mc::explore(r, "every mismatch", &a, Bounds { depth: mc::pick(2, 3), max_states: 3_000, secs: mc::pick(100, 400) });
}
fn delegations(r: &Run) {
	limits(2, 1000, 3);
	for (n, h, d, ms) in [(1, mc::pick(6, 8), mc::pick(12, 18), mc::pick(200_000, 1_500_000)), (2, mc::pick(3, 4), mc::pick(6, 8), mc::pick(200_000, 1_500_000))] {
		let a = Sys { kind: Kind::Delegations(n), start: vec![(with(4, &[3, 4]), true)], horizon: h, sigs: false };
		mc::explore(r, &format!("delegations, {n} on each side"), &a, Bounds { depth: d, max_states: ms, secs: mc::pick(100, 300) });
	}
}
fn signatures(r: &Run) {
	for size in [2, 3, 4] {
		for window in mc::pick(vec![3], vec![2, 3, 4]) {
			limits(2, size, window);
			let a = Sys { kind: Kind::Signatures, start: vec![(with(2, &[1]), true)], horizon: mc::pick(7, 9), sigs: true };
			mc::explore(r, &format!("signatures, registry of {size}, window {window}"), &a, Bounds { depth: mc::pick(8, 12), max_states: mc::pick(250_000, 1_000_000), secs: mc::pick(60, 250) });
		}
	}
	limits(2, 1000, 3);
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[
		("C08", |r| {
			keys(r);
			mismatch(r)
		}),
		("C09", |r| {
			keys(r);
			delegations(r);
		}),
		("C10", |r| {
			signatures(r);
			mismatch(r)
		}),
		("C11", |r| {
			delegations(r);
			mismatch(r)
		}),
		("C12", |r| {
			keys(r);
			delegations(r);
			mismatch(r)
		}),
	]);
}

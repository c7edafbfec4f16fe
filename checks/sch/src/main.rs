//! C20 C21 C22: pallet-schemas, explored state by state and compared with a register of schemas and names.
use common_primitives::{
	node::ProposalProvider,
	schema::{ModelType, PayloadLocation, SchemaProvider, SchemaSetting, SchemaSettings, SchemaValidator},
};
use fr::{peek, run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_schemas as ps;
use sdk::codec::{Decode, Encode, MaxEncodedLen};
use sdk::frame_support::traits::{ConstU32, EnsureOrigin, Get};
use sdk::frame_support::{construct_runtime, storage::unhashed, traits::UnfilteredDispatchable};
use sdk::frame_system::{self, RawOrigin};
use sdk::pallet_balances;
use sdk::sp_runtime::{BuildStorage, DispatchError};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::OnceLock;

fr::base_runtime!(account = u64, balance = u64, ed = 1, freezes = 1);
const MIN: usize = 8;
const HARD: u32 = 600;
const COUNCIL: u64 = 7;
static MAX_IDS: AtomicU32 = AtomicU32::new(4);
static FIRST_MAX: AtomicU32 = AtomicU32::new(60);
pub struct MaxIds;
impl Get<u16> for MaxIds {
	fn get() -> u16 {
		MAX_IDS.load(Relaxed) as u16
	}
}
pub struct Hard;
impl Get<u32> for Hard {
	fn get() -> u32 {
		HARD
	}
}
impl Encode for Hard {}
impl MaxEncodedLen for Hard {
	fn max_encoded_len() -> usize {
		4
	}
}
/// Root or the council.
pub struct Gov;
impl EnsureOrigin<RuntimeOrigin> for Gov {
	type Success = ();
	fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> {
		match o.clone().into() {
			Ok(RawOrigin::Root) | Ok(RawOrigin::Signed(COUNCIL)) => Ok(()),
			_ => Err(o),
		}
	}
}
/// The council's motions, kept in a list under one key.
pub struct Motions;
fn motions() -> Vec<(u64, RuntimeCall)> {
	unhashed::get_raw(b"motions").map_or(vec![], |b| Decode::decode(&mut &b[..]).unwrap())
}
impl ProposalProvider<u64, RuntimeCall> for Motions {
	fn propose(_: u64, _: u32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		panic!("not used")
	}
	fn propose_with_simple_majority(who: u64, p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		let mut v = motions();
		v.push((who, *p));
		unhashed::put_raw(b"motions", &v.encode());
		Ok((0, 0))
	}
}
impl ps::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MinSchemaModelSizeBytes = ConstU32<{ MIN as u32 }>;
	type SchemaModelMaxBytesBoundedVecLimit = Hard;
	type MaxSchemaRegistrations = MaxIds;
	type MaxSchemaSettingsPerSchema = ConstU32<2>;
	type Proposal = RuntimeCall;
	type ProposalProvider = Motions;
	type CreateSchemaViaGovernanceOrigin = Gov;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Schemas: ps::{Pallet, Call, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);

/// A model text, and whether it is a well-formed Avro (JSON object) and Parquet (list of columns) model.
struct Text {
	text: Vec<u8>,
	avro: bool,
	parquet: bool,
}
fn texts() -> &'static Vec<Text> {
	static P: OnceLock<Vec<Text>> = OnceLock::new();
	P.get_or_init(|| {
		let t = |s: &str, avro, parquet| Text { text: s.as_bytes().to_vec(), avro, parquet };
		let col = r#"{"name":"a","column_type":"INT32","compression":"GZIP","bloom_filter":true}"#;
		let pad = |n: usize| format!("{{\"a\":1{}}}", " ".repeat(n - 7));
		let mut v = vec![
			t(r#"{"a":"b"}"#, true, false),
			t(&pad(MIN), true, false),
			t("[       ]", false, true),
			t(r#"{"a":1,}  "#, false, false),
			t("null      ", false, false),
			// from here on only in the wide system
			t(&pad(MIN - 1), true, false),
			t(&pad(60), true, false),
			t(&pad(61), true, false),
			t(&pad(HARD as usize), true, false),
			t(&pad(300), true, false),
			t(&pad(301), true, false),
			t(&format!("[{col}]"), false, true),
			t(&format!("[{}]", col.replace("INT32", "INT33")), false, false),
			t(&format!("[{}]", col.replace(",\"bloom_filter\":true", "")), false, false),
			t(&format!("{} ", col), true, false),
			t("[1,2,3,4]", false, false),
			t("\"string value\"", false, false),
			t("12345678", false, false),
			t(r#"{"a":"b"} x"#, false, false),
			t("          ", false, false),
			t("", false, false),
		];
		v.push(Text { text: [&b"{\"a\":\""[..], &[0xff], b"\"}  "].concat(), avro: false, parquet: false });
		v
	})
}
const NARROW: usize = 5;
const LOCATIONS: [PayloadLocation; 4] = [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated];
const NAMES: [&str; 10] = ["abc.x", "ABC.x ", "abc.y", "abd.x", "abc", "ab.x", "abc.", "abc.x.y", "ab1.x", "-abc.x"];
/// What a name must be stored as (None: not an acceptable name).
fn name_of(s: &[u8]) -> Option<(String, String)> {
	let (a, b) = split(s)?;
	b.map(|b| (a, b))
}
/// The same, but a namespace alone will do.
fn split(s: &[u8]) -> Option<(String, Option<String>)> {
	if s.len() > 32 || !s.is_ascii() {
		return None
	}
	let mut t: Vec<u8> = s.iter().map(|c| if c.is_ascii_uppercase() { c + 32 } else { *c }).collect();
	let white = |c: &u8| (9..=13).contains(c) || *c == 32;
	while t.last().map_or(false, white) {
		t.pop();
	}
	while t.first().map_or(false, white) {
		t.remove(0);
	}
	let ok = |p: &[u8], lo: usize, hi: usize| p.len() >= lo && p.len() <= hi && p.iter().all(|c| c.is_ascii_lowercase() || *c == b'-') && p[0] != b'-' && p[p.len() - 1] != b'-';
	let parts: Vec<&[u8]> = t.split(|c| *c == b'.').collect();
	let text = |p: &[u8]| String::from_utf8(p.to_vec()).unwrap();
	match parts.len() {
		1 if ok(parts[0], 3, 30) => Some((text(parts[0]), None)),
		2 if ok(parts[0], 3, 30) && ok(parts[1], 1, 28) => Some((text(parts[0]), Some(text(parts[1])))),
		_ => None,
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Entry {
	V1,
	V2,
	V3,
	Gov1,
	Gov2,
	Propose1,
	Propose2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Who {
	User(u64),
	Root,
	Nobody,
}
#[derive(Clone, Copy, Debug)]
struct New {
	who: Who,
	entry: Entry,
	text: usize,
	parquet: bool,
	location: usize,
	/// 0 none, 1 append only, 2 signature required, 3 both, 4 both in the other order, 5 the same twice
	settings: usize,
	name: Option<usize>,
}
#[derive(Clone, Copy, Debug)]
enum Act {
	Create(New),
	Name(Who, u16, usize),
	ProposeName(Who, u16, usize),
	Execute(Who, usize),
	Limit(Who, u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Schema {
	text: usize,
	parquet: bool,
	location: usize,
	settings: usize,
	name: Option<((String, String), u8)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Motion {
	Create(u64, usize, bool, usize, usize, Option<usize>),
	Name(u16, usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
	limit: u32,
	/// schemas before those in the list (their number only was set)
	first: u16,
	schemas: Vec<Schema>,
	names: BTreeMap<(String, String), Vec<u16>>,
	motions: Vec<Motion>,
}
#[derive(Clone)]
struct St {
	io: Io,
	m: Model,
}
fn settings(i: usize) -> Vec<SchemaSetting> {
	use SchemaSetting::*;
	match i {
		0 => vec![],
		1 => vec![AppendOnly],
		2 => vec![SignatureRequired],
		3 => vec![AppendOnly, SignatureRequired],
		4 => vec![SignatureRequired, AppendOnly],
		_ => vec![AppendOnly, AppendOnly],
	}
}
fn shown(i: usize) -> Vec<SchemaSetting> {
	settings(match i {
		4 => 3,
		5 => 1,
		i => i,
	})
}
fn model_type(p: bool) -> ModelType {
	if p {
		ModelType::Parquet
	} else {
		ModelType::AvroBinary
	}
}
fn origin(w: Who) -> RuntimeOrigin {
	match w {
		Who::User(u) => RuntimeOrigin::signed(u),
		Who::Root => RuntimeOrigin::root(),
		Who::Nobody => RuntimeOrigin::none(),
	}
}
fn governs(w: Who) -> bool {
	matches!(w, Who::Root | Who::User(COUNCIL))
}
#[allow(deprecated)]
fn call_of(n: &New, creator: u64) -> RuntimeCall {
	let model = texts()[n.text].text.clone().try_into().unwrap();
	let model_type = model_type(n.parquet);
	let payload_location = LOCATIONS[n.location];
	let settings: sdk::frame_support::BoundedVec<_, ConstU32<2>> = settings(n.settings).try_into().unwrap();
	let schema_name = n.name.map(|i| NAMES[i].as_bytes().to_vec().try_into().unwrap());
	let creator_key = creator;
	RuntimeCall::Schemas(match n.entry {
		Entry::V1 => ps::Call::create_schema { model, model_type, payload_location },
		Entry::V2 => ps::Call::create_schema_v2 { model, model_type, payload_location, settings },
		Entry::V3 => ps::Call::create_schema_v3 { model, model_type, payload_location, settings, schema_name },
		Entry::Gov1 => ps::Call::create_schema_via_governance { creator_key, model, model_type, payload_location, settings },
		Entry::Gov2 => ps::Call::create_schema_via_governance_v2 { creator_key, model, model_type, payload_location, settings, schema_name },
		Entry::Propose1 => ps::Call::propose_to_create_schema { model, model_type, payload_location, settings },
		Entry::Propose2 => ps::Call::propose_to_create_schema_v2 { model, model_type, payload_location, settings, schema_name },
	})
}
const CREATOR: u64 = 33;
#[derive(Clone, Debug, PartialEq)]
enum Ev {
	Created(u64, u16),
	Named(u16, Vec<u8>),
	Limit(u32),
}
fn events() -> Vec<Ev> {
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Schemas(ps::Event::SchemaCreated { key, schema_id }) => Some(Ev::Created(key, schema_id)),
			RuntimeEvent::Schemas(ps::Event::SchemaNameCreated { schema_id, name }) => Some(Ev::Named(schema_id, name)),
			RuntimeEvent::Schemas(ps::Event::SchemaMaxSizeChanged { max_size }) => Some(Ev::Limit(max_size)),
			_ => None,
		})
		.collect()
}
/// What the property says about registering a schema.
fn create(m: &mut Model, ev: &mut Vec<Ev>, key: u64, text: usize, parquet: bool, location: usize, set: usize, name: Option<usize>) -> bool {
	let t = &texts()[text];
	let id = m.first as u32 + m.schemas.len() as u32 + 1;
	if !(if parquet { t.parquet } else { t.avro })
		|| t.text.len() < MIN
		|| t.text.len() > m.limit as usize
		|| settings(set).contains(&SchemaSetting::AppendOnly) && LOCATIONS[location] != PayloadLocation::Itemized
		|| id > MAX_IDS.load(Relaxed)
	{
		return false
	}
	let id = id as u16;
	let name = match name {
		None => None,
		Some(n) => {
			let Some(n) = name_of(NAMES[n].as_bytes()) else { return false };
			let l = m.names.entry(n.clone()).or_default();
			if l.len() >= 254 {
				return false
			}
			l.push(id);
			Some((n, l.len() as u8))
		},
	};
	ev.push(Ev::Created(key, id));
	if let Some((n, _)) = &name {
		ev.push(Ev::Named(id, format!("{}.{}", n.0, n.1).into_bytes()));
	}
	m.schemas.push(Schema { text, parquet, location, settings: set, name });
	true
}
fn nameable(m: &Model, id: u16, name: usize) -> bool {
	id > m.first && m.schemas.get((id - m.first) as usize - 1).map_or(false, |s| s.name.is_none()) && name_of(NAMES[name].as_bytes()).is_some()
}
fn give_name(m: &mut Model, ev: &mut Vec<Ev>, id: u16, name: usize) -> bool {
	if !nameable(m, id, name) {
		return false
	}
	let n = name_of(NAMES[name].as_bytes()).unwrap();
	let l = m.names.entry(n.clone()).or_default();
	if l.len() >= 254 {
		return false
	}
	l.push(id);
	ev.push(Ev::Named(id, format!("{}.{}", n.0, n.1).into_bytes()));
	let v = l.len() as u8;
	m.schemas[(id - m.first) as usize - 1].name = Some((n, v));
	true
}
fn props(a: &Act) -> &'static str {
	match a {
		Act::Create(n) if n.name.is_some() => "C20,C21,C22",
		Act::Create(_) => "C20,C21",
		Act::Name(..) | Act::ProposeName(..) => "C22",
		Act::Execute(..) => "C20,C21,C22",
		Act::Limit(..) => "C21",
	}
}
struct Sys {
	wide: bool,
	counts: Vec<u16>,
}
fn start(count: u16) -> St {
	let t = RuntimeGenesis::build();
	let mut x = sdk::io::TestExternalities::new(t);
	x.execute_with(|| {
		System::set_block_number(1);
		<Schemas as SchemaValidator<u16>>::set_schema_count(count);
	});
	St { io: x.into_state(), m: Model { limit: FIRST_MAX.load(Relaxed), first: count, schemas: vec![], names: BTreeMap::new(), motions: vec![] } }
}
struct RuntimeGenesis;
impl RuntimeGenesis {
	fn build() -> sdk::sp_runtime::Storage {
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		ps::GenesisConfig::<Test> { initial_max_schema_model_size: FIRST_MAX.load(Relaxed), _config: Default::default() }.assimilate_storage(&mut t).unwrap();
		t
	}
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let mut v: Vec<St> = self.counts.iter().map(|c| start(*c)).collect();
		if self.wide {
			// also from a state with schemas and names in it
			let mut s = start(0);
			for (i, name) in [Some(0), None, Some(0), Some(2)].into_iter().enumerate() {
				let n = New { who: Who::User(1), entry: Entry::V3, text: 0, parquet: false, location: i, settings: 0, name };
				s = self.step(&s, &Act::Create(n)).ok().flatten().expect("set-up");
			}
			v.push(s);
			// and with a limit that needs more than a byte
			v.push(self.step(&start(0), &Act::Limit(Who::Root, 300)).ok().flatten().expect("set-up"));
		}
		v
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(fr::key(&s.io), &s.m)
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		let top = s.m.first.saturating_add(s.m.schemas.len() as u16);
		use Entry::*;
		if self.wide {
			for entry in [V1, V2, V3, Gov1, Gov2, Propose1, Propose2] {
				let whos = if matches!(entry, Gov1 | Gov2) { [Who::Root, Who::User(COUNCIL), Who::User(1)] } else { [Who::User(1), Who::Nobody, Who::Root] };
				for (i, who) in whos.into_iter().enumerate() {
					for text in 0..texts().len() {
						for parquet in [false, true] {
							for location in 0..4 {
								for settings in if entry == V1 { 0..1 } else { 0..6 } {
									let named = matches!(entry, V3 | Gov2 | Propose2);
									// callers and names are varied on the plain model only
									let full = text == 0 && !parquet;
									if i > 0 && !full {
										continue
									}
									for name in (0..if named && full { NAMES.len() + 1 } else { 1 }).map(|n| n.checked_sub(1)) {
										v.push(Act::Create(New { who, entry, text, parquet, location, settings, name }));
									}
								}
							}
						}
					}
				}
			}
			for who in [Who::Root, Who::User(COUNCIL), Who::User(1), Who::Nobody] {
				for id in [0, 1, 2, 3, 4, top.saturating_add(1), u16::MAX] {
					for name in 0..NAMES.len() {
						v.push(Act::Name(who, id, name));
						v.push(Act::ProposeName(who, id, name));
					}
				}
				for l in [0, MIN as u32, 59, 60, HARD - 1, HARD, HARD + 1, u32::MAX] {
					v.push(Act::Limit(who, l));
				}
			}
		} else {
			for (entry, who) in [(V1, Who::User(1)), (V3, Who::User(2)), (Gov2, Who::User(COUNCIL)), (Propose2, Who::User(1))] {
				for (text, parquet, location, settings) in [(0, false, 0, 0), (2, true, 1, 0), (1, false, 2, 3), (3, false, 0, 0), (1, false, 3, 1)] {
					if entry == V1 && settings > 0 {
						continue
					}
					for name in if entry == V1 { vec![None] } else { vec![None, Some(0), Some(1), Some(2), Some(3), Some(4)] } {
						// invalid combinations need not be tried with every name
						if (text == 3 || (settings == 1)) && name != Some(0) || text == 2 && !matches!(name, None | Some(1)) {
							continue
						}
						v.push(Act::Create(New { who, entry, text, parquet, location, settings, name }));
					}
				}
			}
			for id in s.m.first..=top.saturating_add(1) {
				for name in [0, 1, 2, 5] {
					v.push(Act::Name(Who::Root, id, name));
				}
				v.push(Act::ProposeName(Who::User(1), id, 0));
			}
			v.push(Act::Limit(Who::Root, if s.m.limit == 60 { MIN as u32 } else { 60 }));
		}
		for i in 0..s.m.motions.len() {
			v.push(Act::Execute(Who::User(COUNCIL), i));
			v.push(Act::Execute(Who::User(1), i));
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		let mut m = s.m.clone();
		let mut want_ev = vec![];
		let want = match a {
			Act::Create(n) => {
				let user = if let Who::User(u) = n.who { Some(u) } else { None };
				let name = if matches!(n.entry, Entry::V3 | Entry::Gov2 | Entry::Propose2) { n.name } else { None };
				let set = if n.entry == Entry::V1 { 0 } else { n.settings };
				match n.entry {
					Entry::V1 | Entry::V2 | Entry::V3 => user.map_or(false, |u| create(&mut m, &mut want_ev, u, n.text, n.parquet, n.location, set, name)),
					Entry::Gov1 | Entry::Gov2 => governs(n.who) && create(&mut m, &mut want_ev, CREATOR, n.text, n.parquet, n.location, set, name),
					Entry::Propose1 | Entry::Propose2 => match user {
						Some(u) if m.motions.len() < 2 => {
							m.motions.push(Motion::Create(u, n.text, n.parquet, n.location, set, name));
							true
						},
						Some(_) => return Ok(None),
						None => false,
					},
				}
			},
			Act::Name(w, id, n) => governs(*w) && give_name(&mut m, &mut want_ev, *id, *n),
			Act::ProposeName(w, id, n) => match w {
				Who::User(_) if m.motions.len() >= 2 => return Ok(None),
				Who::User(_) if nameable(&m, *id, *n) => {
					m.motions.push(Motion::Name(*id, *n));
					true
				},
				_ => false,
			},
			Act::Execute(w, i) => {
				let x = m.motions.remove(*i);
				governs(*w)
					&& match x {
						Motion::Create(u, text, parquet, location, set, name) => create(&mut m, &mut want_ev, u, text, parquet, location, set, name),
						Motion::Name(id, n) => give_name(&mut m, &mut want_ev, id, n),
					}
			},
			Act::Limit(w, l) => {
				let ok = *w == Who::Root && *l <= HARD;
				if ok {
					m.limit = *l;
					want_ev.push(Ev::Limit(*l));
				}
				ok
			},
		};
		let ((r, ev, proposed), io) = run(&s.io, || {
			let go = |w: Who, c: RuntimeCall| c.dispatch_bypass_filter(origin(w)).map(|_| ()).map_err(|e| format!("{:?}", e.error));
			let r = match a {
				Act::Create(n) => go(n.who, call_of(n, CREATOR)),
				Act::Name(w, schema_id, n) => go(*w, RuntimeCall::Schemas(ps::Call::create_schema_name_via_governance { schema_id: *schema_id, schema_name: NAMES[*n].as_bytes().to_vec().try_into().unwrap() })),
				Act::ProposeName(w, schema_id, n) => go(*w, RuntimeCall::Schemas(ps::Call::propose_to_create_schema_name { schema_id: *schema_id, schema_name: NAMES[*n].as_bytes().to_vec().try_into().unwrap() })),
				Act::Execute(w, i) => {
					let mut v = motions();
					let (_, c) = v.remove(*i);
					unhashed::put_raw(b"motions", &v.encode());
					go(*w, c)
				},
				Act::Limit(w, l) => go(*w, RuntimeCall::Schemas(ps::Call::set_max_schema_model_bytes { max_size: *l })),
			};
			let ev = events();
			System::reset_events();
			(r, ev, motions())
		});
		let (p, name) = (props(a), mc::action_name(a));
		must!(r.is_ok() == want, format!("{p}:{name}-{}", if want { "refused" } else { "accepted" }), "{a:?} in {:?} returned {r:?}", s.m);
		if !want {
			if !matches!(a, Act::Execute(..)) {
				must!(fr::key(&io) == fr::key(&s.io) && ev.is_empty(), format!("{p}:{name}-failed-with-effect"), "{a:?} failed with {r:?} but changed the state of {:?}, events {ev:?}", s.m);
			}
			return Ok(None)
		}
		must!(proposed.len() == m.motions.len(), format!("{p}:{name}-motion"), "after {a:?} there are {} motions, expected {} in {m:?}", proposed.len(), m.motions.len());
		// a motion must carry exactly what was asked for
		if let (Act::Create(New { who: Who::User(u), entry: Entry::Propose1 | Entry::Propose2, .. }) | Act::ProposeName(Who::User(u), ..), Some((by, c))) = (a, proposed.last()) {
			let expected = match a {
				Act::Create(n) => call_of(&New { entry: if n.entry == Entry::Propose1 { Entry::Gov1 } else { Entry::Gov2 }, ..*n }, *u),
				Act::ProposeName(_, schema_id, n) => RuntimeCall::Schemas(ps::Call::create_schema_name_via_governance { schema_id: *schema_id, schema_name: NAMES[*n].as_bytes().to_vec().try_into().unwrap() }),
				_ => unreachable!(),
			};
			must!(by == u && *c == expected, format!("{p}:{name}-motion"), "{a:?} proposed {c:?} for {by}");
		}
		must!(ev == want_ev, format!("{p}:{name}-events"), "{a:?} in {:?} deposited {ev:?}, expected {want_ev:?}", s.m);
		Ok(Some(St { io, m }))
	}
	fn check(&self, s: &St) -> Result<(), Bad> {
		let m = &s.m;
		peek(&s.io, || {
			let top = m.first as u32 + m.schemas.len() as u32;
			must!(Schemas::get_current_schema_identifier_maximum() as u32 == top, "C20:counter", "the latest schema number is {}, expected {top} in {m:?}", Schemas::get_current_schema_identifier_maximum());
			must!(Schemas::get_schema_model_max_bytes() == m.limit, "C21:limit", "the size limit is {}, expected {} in {m:?}", Schemas::get_schema_model_max_bytes(), m.limit);
			for id in [0, 1, m.first.saturating_sub(1), m.first].into_iter().chain(m.first..=(top + 2).min(65535) as u16).chain([u16::MAX]) {
				let want = (id > m.first).then(|| m.schemas.get((id - m.first) as usize - 1)).flatten();
				let got = Schemas::get_schema_by_id(id);
				let info = <Schemas as SchemaProvider<u16>>::get_schema_info_by_id(id);
				let again = <Schemas as SchemaProvider<u16>>::get_schema_by_id(id);
				must!(got == again, "C20:lookup", "two lookups of schema {id} differ: {got:?} {again:?}");
				let g = got.map(|g| (g.schema_id, g.model, g.model_type, g.payload_location, g.settings));
				let w = want.map(|w| (id, texts()[w.text].text.clone(), model_type(w.parquet), LOCATIONS[w.location], shown(w.settings)));
				must!(g == w, "C20:lookup", "schema {id} shows {g:?}, expected {w:?} in {m:?}");
				let i = info.map(|g| (g.schema_id, g.model_type, g.payload_location, g.settings));
				must!(i == w.map(|w| (w.0, w.2, w.3, w.4)), "C20:lookup-info", "schema {id} shows {i:?} as its description in {m:?}");
				let valid = <Schemas as SchemaValidator<u16>>::are_all_schema_ids_valid(&vec![id]);
				must!(valid == (id >= 1 && id as u32 <= top), "C20:validity", "schema number {id} is called {} in {m:?}", if valid { "valid" } else { "invalid" });
			}
			for ids in mc::strings(&[1u16, top.min(65535) as u16, (top + 1).min(65535) as u16], 2) {
				let valid = <Schemas as SchemaValidator<u16>>::are_all_schema_ids_valid(&ids);
				must!(valid == ids.iter().all(|i| *i >= 1 && *i as u32 <= top), "C20:validity", "schema numbers {ids:?} are called {} in {m:?}", if valid { "valid" } else { "invalid" });
			}
			for n in NAMES.iter().chain(["ABC", "abd", "abe", "abe.x", " abc.y", ""].iter()) {
				let got = Schemas::get_schema_versions(n.as_bytes().to_vec()).map(|v| v.into_iter().map(|x| (String::from_utf8(x.schema_name).unwrap(), x.schema_version, x.schema_id)).collect::<Vec<_>>());
				let want = split(n.as_bytes()).map(|(ns, d)| {
					let mut v = vec![];
					for ((a, b), ids) in &m.names {
						if *a == ns && d.as_ref().map_or(true, |d| d == b) {
							v.extend(ids.iter().enumerate().map(|(i, id)| (format!("{a}.{b}"), i as u8 + 1, *id)));
						}
					}
					v
				});
				// names of a namespace come in any order, the versions of each in theirs
				let got = got.map(|mut v| {
					v.sort_by(|a, b| a.0.cmp(&b.0));
					v
				});
				must!(got == want, "C22:lookup", "looking up {n:?} gives {got:?}, expected {want:?} in {m:?}");
			}
			Ok(())
		})
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		json!(format!("{:?}", s.m))
	}
}
fn histories(r: &Run) {
	FIRST_MAX.store(60, Relaxed);
	MAX_IDS.store(65_000, Relaxed);
	mc::explore(r, "every request", &Sys { wide: true, counts: vec![0, 64_999, 65_000] }, Bounds { depth: mc::pick(1, 2), max_states: 200_000, secs: mc::pick(60, 300) });
	MAX_IDS.store(65_535, Relaxed);
	mc::explore(r, "numbers running out", &Sys { wide: false, counts: vec![65_534, 65_535] }, Bounds { depth: 2, max_states: 100_000, secs: 60 });
	MAX_IDS.store(3, Relaxed);
	mc::explore(r, "histories", &Sys { wide: false, counts: vec![0] }, Bounds { depth: mc::pick(4, 6), max_states: mc::pick(150_000, 2_000_000), secs: mc::pick(90, 400) });
}
/// Every short JSON text as a model of either type; every settings word.
fn formats(r: &Run) {
	FIRST_MAX.store(60, Relaxed);
	MAX_IDS.store(65_000, Relaxed);
	let base = start(0).io;
	let mut all: Vec<Vec<u8>> = vec![];
	for s in mc::strings(&["{", "}", "[", "]", "\"a\"", ":", ",", "1", "null"], mc::pick(5, 7)) {
		let mut t = s.concat();
		while t.len() < MIN {
			t.push(' ');
		}
		all.push(t.into_bytes());
	}
	// columns: every type and compression, and each with one thing wrong
	let types = [
		("\"BOOLEAN\"", true), ("\"INT32\"", true), ("\"INT64\"", true), ("\"FLOAT\"", true), ("\"DOUBLE\"", true), ("\"BYTE_ARRAY\"", true), ("\"FIXED_LEN_BYTE_ARRAY\"", true),
		("\"STRING\"", true), ("\"UUID\"", true), ("\"DATE\"", true), ("\"INTERVAL\"", true),
		("{\"INTEGER\":{\"bit_width\":8,\"sign\":true}}", true), ("{\"DECIMAL\":{\"scale\":1,\"precision\":2}}", true),
		("{\"TIME\":{\"is_adjusted_to_utc\":true,\"unit\":\"MILLIS\"}}", true), ("{\"TIMESTAMP\":{\"is_adjusted_to_utc\":true,\"unit\":\"NANOS\"}}", true),
		("\"INT96\"", false), ("\"int32\"", false), ("null", false), ("1", false), ("{\"INTEGER\":{\"bit_width\":256,\"sign\":true}}", false), ("{\"INTEGER\":{\"bit_width\":8}}", false),
		("{\"TIME\":{\"is_adjusted_to_utc\":true,\"unit\":\"SECONDS\"}}", false), ("\"INTEGER\"", false),
	];
	let comp = [("\"UNCOMPRESSED\"", true), ("\"SNAPPY\"", true), ("\"GZIP\"", true), ("\"LZO\"", true), ("\"BROTLI\"", true), ("\"LZ4_RAW\"", true), ("\"gzip\"", false), ("\"ZIP\"", false), ("3", false)];
	let bloom = [("true", true), ("false", true), ("0", false)];
	let name = [("\"n\"", true), ("\"\"", true), ("7", false)];
	let mut cols: Vec<(String, bool)> = vec![];
	for n in name {
		for t in types {
			for c in comp {
				for b in bloom {
					cols.push((format!("{{\"name\":{},\"column_type\":{},\"compression\":{},\"bloom_filter\":{}}}", n.0, t.0, c.0, b.0), n.1 && t.1 && c.1 && b.1));
				}
			}
		}
	}
	let mut cases: Vec<(Vec<u8>, bool, bool)> = vec![];
	for t in all {
		let v = serde_json::from_slice::<serde_json::Value>(&t);
		let (o, empty) = (matches!(v, Ok(serde_json::Value::Object(_))), matches!(&v, Ok(serde_json::Value::Array(x)) if x.is_empty()));
		cases.push((t, o, empty));
	}
	let check = |text: &Vec<u8>, avro: bool, parquet: bool, limit: u32| {
		for (p, want) in [(ModelType::AvroBinary, avro), (ModelType::Parquet, parquet)] {
			let got = peek(&base, || {
				if let Ok(model) = text.clone().try_into() {
					let c = RuntimeCall::Schemas(ps::Call::create_schema_v3 { model, model_type: p, payload_location: PayloadLocation::OnChain, settings: Default::default(), schema_name: None });
					c.dispatch_bypass_filter(RuntimeOrigin::signed(1)).map(|_| ()).map_err(|e| format!("{:?}", e.error))
				} else {
					Err("too long for the call".into())
				}
			});
			r.eval(1);
			let want = want && text.len() <= limit as usize;
			if got.is_ok() != want {
				r.fail("C21:model", format!("the model {:?} as {p:?} is {}: {got:?}", String::from_utf8_lossy(text), if want { "refused" } else { "accepted" }), json!(text));
			}
		}
	};
	mc::par(cases.len(), |i| check(&cases[i].0, cases[i].1, cases[i].2, 60));
	// columns are longer than the call's limit here, so they go to the validation itself
	mc::par(cols.len(), |i| {
		for (text, want) in [(format!("[{}]", cols[i].0), cols[i].1), (cols[i].0.clone(), false), (format!("[{},{}]", cols[i].0, cols[(i * 7 + 1) % cols.len()].0), cols[i].1 && cols[(i * 7 + 1) % cols.len()].1), (format!("[{},]", cols[i].0), false)] {
			r.eval(1);
			let got = peek(&base, || Schemas::ensure_valid_model(&ModelType::Parquet, &roomy(&text)));
			if text.len() <= HARD as usize && got.is_ok() != want {
				r.fail("C21:parquet", format!("{text} is {} as a Parquet model", if want { "refused" } else { "accepted" }), json!(text));
			}
		}
	});
	r.note("models", json!({"texts": cases.len(), "columns": cols.len()}));
	for w in 0..=u16::MAX {
		r.eval(1);
		let d = SchemaSettings::decode(&mut &w.to_le_bytes()[..]);
		let ok = match &d {
			Ok(s) => w < 4 && s.is_enabled(SchemaSetting::AppendOnly) == (w & 1 == 1) && s.is_enabled(SchemaSetting::SignatureRequired) == (w & 2 == 2) && s.encode() == w.to_le_bytes(),
			Err(_) => w >= 4,
		};
		if !ok {
			r.fail("C21:settings-word", format!("the settings word {w:#x} decodes to {d:?}"), json!(w));
		}
	}
}
fn roomy(t: &str) -> sdk::frame_support::BoundedVec<u8, Hard> {
	t.as_bytes().to_vec().try_into().unwrap_or_default()
}
/// Every short name.
fn names(r: &Run) {
	FIRST_MAX.store(60, Relaxed);
	MAX_IDS.store(65_000, Relaxed);
	let base = start(0).io;
	let al: Vec<&[u8]> = vec![b"a", b"Z", b"-", b".", b" ", b"1", b"\t", "\u{e9}".as_bytes(), b"\xff", "\u{2003}".as_bytes(), "\u{212a}".as_bytes()];
	let mut all: Vec<Vec<u8>> = mc::strings(&al, mc::pick(5, 6)).into_iter().map(|s| s.concat()).collect();
	for s in mc::strings(&al[..5], mc::pick(7, 8)) {
		all.push(s.concat());
	}
	// around the length limits
	for n in 0..=32 {
		for m in 0..=32 {
			if n + m + 1 <= 32 {
				for x in ["", "-", " ", "B"] {
					for t in [format!("{}.{}{x}", "a".repeat(n), "b".repeat(m)), format!("{x}{}.{}", "a".repeat(n), "b".repeat(m)), format!("{}{x}.{}", "a".repeat(n), "b".repeat(m)), format!("{}.{x}{}", "a".repeat(n), "b".repeat(m))] {
						if t.len() <= 32 {
							all.push(t.into_bytes());
						}
					}
				}
			}
		}
		all.push("a".repeat(n).into_bytes());
	}
	for c in 0..=255u8 {
		for pos in 0..7 {
			let mut t = b"abc.def".to_vec();
			t[pos] = c;
			all.push(t);
		}
	}
	all.sort();
	all.dedup();
	all.retain(|t| t.len() <= 32);
	let good = std::sync::atomic::AtomicU64::new(0);
	mc::par(all.len(), |i| {
		let t = &all[i];
		let want = name_of(t);
		let (got, ev, look, one) = peek(&base, || {
			let c = RuntimeCall::Schemas(ps::Call::create_schema_v3 { model: texts()[0].text.clone().try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::OnChain, settings: Default::default(), schema_name: Some(t.clone().try_into().unwrap()) });
			let before = Schemas::get_schema_versions(t.clone());
			let r = c.dispatch_bypass_filter(RuntimeOrigin::signed(1)).map(|_| ()).map_err(|e| format!("{:?}", e.error));
			(r, events(), Schemas::get_schema_versions(t.clone()), before)
		});
		r.eval(1);
		let text = String::from_utf8_lossy(t).into_owned();
		if got.is_ok() != want.is_some() {
			return r.fail("C22:name", format!("the name {text:?} is {}: {got:?}", if want.is_some() { "refused" } else { "accepted" }), json!(t))
		}
		if one != split(t).map(|_| vec![]) {
			r.fail("C22:lookup-before", format!("looking up {text:?} before anything is named gives {one:?}"), json!(t));
		}
		if let Some((a, b)) = want {
			good.fetch_add(1, Relaxed64);
			let full = format!("{a}.{b}").into_bytes();
			let ok = ev == vec![Ev::Created(1, 1), Ev::Named(1, full.clone())] && look.as_ref().map_or(false, |v| v.len() == 1 && v[0].schema_name == full && v[0].schema_version == 1 && v[0].schema_id == 1);
			if !ok {
				r.fail("C22:name-stored", format!("a schema named {text:?} deposits {ev:?} and is found as {look:?}"), json!(t));
			}
		}
	});
	r.note("names", json!({"tried": all.len(), "acceptable": good.into_inner()}));
	// versions up to the limit and past it
	let mut s = St { io: base, m: start(0).m };
	let sys = Sys { wide: false, counts: vec![] };
	for i in 0..260 {
		let n = New { who: Who::User(1), entry: if i % 2 == 0 { Entry::V3 } else { Entry::Gov2 }, text: 0, parquet: false, location: 0, settings: 0, name: Some(0) };
		let n = if i % 2 == 0 { n } else { New { who: Who::Root, ..n } };
		let n = if i >= 256 { New { name: None, ..n } } else { n };
		r.eval(1);
		match sys.step(&s, &Act::Create(n)) {
			Err(b) => return r.fail(&format!("C22:versions-{}", b.key.split(':').last().unwrap()), b.what, json!(i)),
			Ok(Some(t)) => {
				if let Err(b) = sys.check(&t) {
					return r.fail(&format!("C22:versions-{}", b.key.split(':').last().unwrap()), b.what, json!(i))
				}
				s = t;
			},
			Ok(None) => {},
		}
	}
	// naming an unnamed schema when the name is full
	let last = s.m.schemas.len() as u16;
	if let Err(b) = sys.step(&s, &Act::Name(Who::Root, last, 0)) {
		r.fail(&format!("C22:versions-{}", b.key.split(':').last().unwrap()), b.what, json!("name"));
	}
}
#[allow(non_upper_case_globals)]
const Relaxed64: std::sync::atomic::Ordering = Relaxed;
fn c21(r: &Run) {
	formats(r);
	histories(r);
}
fn c22(r: &Run) {
	names(r);
	histories(r);
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[("C20", histories), ("C21", c21), ("C22", c22)]);
}

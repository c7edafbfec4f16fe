// C40: governed actions need the approval they require.
use super::effects::paths;
use super::fees::{self, *};
use super::*;
use common_primitives::schema::{ModelType, PayloadLocation, SchemaSetting};
use sdk::frame_support::traits::EnsureOrigin;
use sdk::pallet_collective::{Instance1, Instance2, RawOrigin};
use sdk::sp_runtime::traits::Dispatchable;
use sdk::sp_runtime::DispatchError;
type Council = sdk::pallet_collective::Pallet<Runtime, Instance1>;
type CouncilCall = sdk::pallet_collective::Call<Runtime, Instance1>;
type TcCall = sdk::pallet_collective::Call<Runtime, Instance2>;
type MsaCall = pallet_msa::Call<Runtime>;
type SchemaCall = pallet_schemas::Call<Runtime>;

/// On whose authority a call is made.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum By {
	Root,
	Nobody,
	Signer(usize),
	/// so many of so many seats
	Council(u32, u32),
	CouncilMember(usize),
	Committee(u32, u32),
	CommitteeMember(usize),
}
use By::*;
impl By {
	fn origin(self) -> RuntimeOrigin {
		match self {
			Root => RuntimeOrigin::root(),
			Nobody => RuntimeOrigin::none(),
			Signer(n) => RuntimeOrigin::signed(account(n)),
			Council(n, m) => RawOrigin::<AccountId, Instance1>::Members(n, m).into(),
			CouncilMember(n) => RawOrigin::<AccountId, Instance1>::Member(account(n)).into(),
			Committee(n, m) => RawOrigin::<AccountId, Instance2>::Members(n, m).into(),
			CommitteeMember(n) => RawOrigin::<AccountId, Instance2>::Member(account(n)).into(),
		}
	}
	/// Root or this share of the council.
	fn council(self, share: impl Fn(u32, u32) -> bool) -> bool {
		match self {
			Root => true,
			Council(n, m) => share(n, m),
			_ => false,
		}
	}
	fn committee(self, share: impl Fn(u32, u32) -> bool) -> bool {
		match self {
			Root => true,
			Committee(n, m) => share(n, m),
			_ => false,
		}
	}
}
fn majority(n: u32, m: u32) -> bool {
	n > m / 2
}
fn half(n: u32, m: u32) -> bool {
	2 * n >= m
}
fn everyone() -> Vec<By> {
	let mut v = vec![Root, Nobody];
	for n in 0..8 {
		v.extend([Signer(n), CouncilMember(n), CommitteeMember(n)]);
	}
	for m in (1..=mc::pick(12u32, 40)).chain([50, 99, 100, 101, 1000]) {
		for n in (0..=m).filter(|n| m <= 50 || [0, 1, 2].contains(n) || m - n < 2 || (2 * n).abs_diff(m) < 4 || (3 * n).abs_diff(2 * m) < 4 || (5 * n).abs_diff(3 * m) < 6) {
			v.extend([Council(n, m), Committee(n, m)]);
		}
	}
	v
}
fn admits<O: EnsureOrigin<RuntimeOrigin>>(b: By) -> bool {
	O::try_origin(b.origin()).is_ok()
}
type Rule = (&'static str, fn(By) -> bool, fn(By) -> bool);
/// Every origin the runtime sets, and what the runtime's documentation says about it.
fn rules() -> Vec<Rule> {
	vec![
		("creating providers", admits::<<Runtime as pallet_msa::Config>::CreateProviderViaGovernanceOrigin>, |b| b.council(|n, _| n >= 1)),
		("creating schemas", admits::<<Runtime as pallet_schemas::Config>::CreateSchemaViaGovernanceOrigin>, |b| b.council(majority)),
		("scheduling calls", admits::<rt::PalletSchedulerScheduleOrigin>, |b| b.council(half)),
		("managing preimages", admits::<rt::PalletPreimageManagerOrigin>, |b| matches!(b, Root | CommitteeMember(_))),
		("external proposals carried unless voted down", admits::<rt::PalletDemocracyExternalDefaultOrigin>, |b| b.council(|n, m| n == m)),
		("external proposals by majority", admits::<rt::PalletDemocracyExternalMajorityOrigin>, |b| b.council(majority)),
		("external proposals", admits::<rt::PalletDemocracyExternalOrigin>, |b| b.council(half)),
		("public proposals", admits::<rt::PalletDemocracySubmitOrigin>, |b| matches!(b, Signer(_))),
		("tabling a vote at once", admits::<rt::PalletDemocracyFastTrackOrigin>, |b| b.committee(|n, m| 3 * n >= 2 * m)),
		("tabling a vote of any length", admits::<rt::PalletDemocracyInstantOrigin>, |b| b.committee(|n, m| n == m)),
		("cancelling a referendum", admits::<rt::PalletDemocracyCancellationOrigin>, |b| b.council(|n, m| 3 * n >= 2 * m)),
		("cancelling a proposal", admits::<rt::PalletDemocracyCancelProposalOrigin>, |b| b.committee(|n, m| n == m)),
		("blacklisting", admits::<rt::PalletDemocracyBlacklistOrigin>, |b| b == Root),
		("vetoing", admits::<rt::PalletDemocracyVetoOrigin>, |b| matches!(b, CommitteeMember(_))),
		("approving treasury proposals", admits::<rt::PalletTreasuryApproveOrigin>, |b| b.council(|n, m| 5 * n >= 3 * m)),
		("rejecting treasury proposals", admits::<rt::PalletTreasuryRejectOrigin>, |b| b.council(majority)),
		("spending from the treasury", admits::<rt::PalletTreasurySpendOrigin>, |_| false),
		("appointing collators", admits::<rt::PalletCollatorSelectionUpdateOrigin>, |b| b.council(|n, m| 5 * n >= 3 * m)),
		("appointing the council", admits::<<Runtime as sdk::pallet_collective::Config<Instance1>>::SetMembersOrigin>, |b| b == Root),
		("appointing the committee", admits::<<Runtime as sdk::pallet_collective::Config<Instance2>>::SetMembersOrigin>, |b| b == Root),
		("transferring with a schedule", admits::<<Runtime as pallet_time_release::Config>::TransferOrigin>, |b| matches!(b, Signer(_))),
	]
}

fn model(n: u8) -> sdk::frame_support::BoundedVec<u8, <Runtime as pallet_schemas::Config>::SchemaModelMaxBytesBoundedVecLimit> {
	format!("{{\"type\":\"record{n}\"}}").into_bytes().try_into().unwrap()
}
fn table(n: u8) -> sdk::frame_support::BoundedVec<u8, <Runtime as pallet_schemas::Config>::SchemaModelMaxBytesBoundedVecLimit> {
	format!("[{{\"name\":\"Column{n}\",\"column_type\":\"BOOLEAN\",\"compression\":\"UNCOMPRESSED\",\"bloom_filter\":true}}]").into_bytes().try_into().unwrap()
}
fn settings(s: &[SchemaSetting]) -> sdk::frame_support::BoundedVec<SchemaSetting, <Runtime as pallet_schemas::Config>::MaxSchemaSettingsPerSchema> {
	s.to_vec().try_into().unwrap()
}
fn text(s: &str) -> pallet_schemas::SchemaNamePayload {
	s.as_bytes().to_vec().try_into().unwrap()
}
/// What the governed calls are about.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct World {
	/// identity and name of each provider
	pub providers: Vec<(u64, Vec<u8>)>,
	/// id, model, kind, place, settings
	pub schemas: Vec<(u16, Vec<u8>, String)>,
	pub names: Vec<(String, Vec<u16>)>,
	pub council: Vec<AccountId>,
	pub committee: Vec<AccountId>,
	pub max_bytes: u32,
	pub epoch: u32,
}
pub fn world(io: &Io) -> World {
	peek(io, || {
		let mut providers: Vec<(u64, Vec<u8>)> = pallet_msa::ProviderToRegistryEntry::<Runtime>::iter().map(|(p, e)| { let p: common_primitives::msa::ProviderId = p; (p.0, e.provider_name.into_inner()) }).collect();
		providers.sort();
		let schemas = (0..30u16)
			.filter_map(|i| pallet_schemas::Pallet::<Runtime>::get_schema_by_id(i))
			.map(|s| (s.schema_id, s.model, format!("{:?} {:?} {:?}", s.model_type, s.payload_location, s.settings)))
			.collect();
		let mut names: Vec<(String, Vec<u16>)> = ["frequency.one", "frequency.two", "frequency.three"]
			.iter()
			.map(|n| (n.to_string(), pallet_schemas::Pallet::<Runtime>::get_schema_versions(n.as_bytes().to_vec()).unwrap_or_default().into_iter().map(|v| v.schema_id).collect::<Vec<u16>>()))
			.filter(|(_, v)| !v.is_empty())
			.collect();
		names.sort();
		World {
			providers,
			schemas,
			names,
			council: Council::members(),
			committee: sdk::pallet_collective::Pallet::<Runtime, Instance2>::members(),
			max_bytes: pallet_schemas::Pallet::<Runtime>::get_schema_model_max_bytes(),
			epoch: pallet_capacity::Pallet::<Runtime>::get_epoch_length(),
		}
	})
}
/// Identity 1 (OWNER, SECOND) is no provider; schema 1 has no name; the council sits.
fn before(seats: &[usize]) -> Io {
	on(&start(), || {
		pallet_msa::ProviderToRegistryEntry::<Runtime>::remove(common_primitives::msa::ProviderId(1));
		if !seats.is_empty() {
			seat(seats);
		}
		sdk::frame_system::Pallet::<Runtime>::reset_events();
	})
	.1
}
fn seat(seats: &[usize]) {
	let v: Vec<AccountId> = seats.iter().map(|n| account(*n)).collect();
	Council::set_members(RuntimeOrigin::root(), v, None, 0).expect("seats");
}
/// What a governed call does when it is admitted.
fn wanted(w: &World, k: usize) -> World {
	let mut w = w.clone();
	match k {
		0 => w.providers.insert(0, (1, b"name".to_vec())),
		1 => w.schemas.push((2, model(1).into_inner(), "AvroBinary Itemized [SignatureRequired]".into())),
		2 => {
			w.schemas.push((2, table(2).into_inner(), "Parquet IPFS []".into()));
			w.names.push(("frequency.two".into(), vec![2]));
		},
		3 => w.names.push(("frequency.three".into(), vec![1])),
		4 => w.max_bytes = 777,
		5 => w.epoch = 333,
		6 => w.council = vec![account(9)],
		7 => w.committee = vec![account(9)],
		_ => {},
	}
	w
}
/// A call by governance, and who may make it.
fn calls() -> Vec<(RuntimeCall, fn(By) -> bool)> {
	let council = |b: By| b.council(majority);
	let root = |b: By| b == Root;
	vec![
		(RuntimeCall::Msa(MsaCall::create_provider_via_governance { provider_key: account(OWNER), provider_name: b"name".to_vec() }), |b| b.council(|n, _| n >= 1)),
		(RuntimeCall::Schemas(SchemaCall::create_schema_via_governance { creator_key: account(PLAIN), model: model(1), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::Itemized, settings: settings(&[SchemaSetting::SignatureRequired]) }), council),
		(RuntimeCall::Schemas(SchemaCall::create_schema_via_governance_v2 { creator_key: account(PLAIN), model: table(2), model_type: ModelType::Parquet, payload_location: PayloadLocation::IPFS, settings: settings(&[]), schema_name: Some(text("frequency.two")) }), council),
		(RuntimeCall::Schemas(SchemaCall::create_schema_name_via_governance { schema_id: 1, schema_name: text("frequency.three") }), council),
		(RuntimeCall::Schemas(SchemaCall::set_max_schema_model_bytes { max_size: 777 }), root),
		(RuntimeCall::Capacity(pallet_capacity::Call::set_epoch_length { length: 333 }), root),
		(RuntimeCall::Council(CouncilCall::set_members { new_members: vec![account(9)], prime: None, old_count: 0 }), root),
		(RuntimeCall::TechnicalCommittee(TcCall::set_members { new_members: vec![account(9)], prime: None, old_count: 0 }), root),
		(RuntimeCall::TimeRelease(pallet_time_release::Call::update_release_schedules { who: MultiAddress::Id(account(OTHER)), release_schedules: vec![pallet_time_release::ReleaseSchedule { start: 10, period: 1, period_count: 2, per_period: 50 * ED }].try_into().unwrap() }), root),
		(RuntimeCall::Balances(sdk::pallet_balances::Call::force_set_balance { who: MultiAddress::Id(account(NOBODY)), new_free: 77 * ED }), root),
		(RuntimeCall::System(sdk::frame_system::Call::set_storage { items: vec![(b"a key".to_vec(), b"a value".to_vec())] }), root),
	]
}
/// Each origin and each governed call by itself.
fn authority(run: &Run) {
	let everyone = everyone();
	for (what, got, want) in rules() {
		for b in &everyone {
			run.eval(1);
			run.state(1);
			let (g, w) = (got(*b), want(*b));
			run.ok(g == w, &format!("origin {what}"), || format!("{NET}: {what} is {} {b:?}", if g { "open to" } else { "closed to" }));
		}
	}
	run.note(&format!("{NET}_authorities"), everyone.len());
	let base = before(&[10, 11, 12]);
	let was = world(&base);
	let mut done = 0;
	for (k, (call, may)) in calls().into_iter().enumerate() {
		for b in &everyone {
			run.eval(1);
			run.trans(1);
			let (r, after) = on(&base, || call.clone().dispatch(b.origin()));
			let what = || format!("{NET}: {} by {b:?} ended with {r:?}", name(&call));
			if !may(*b) {
				run.ok(matches!(&r, Err(e) if e.error == DispatchError::BadOrigin), "unauthorised", || format!("{} instead of being refused for want of authority", what()));
				run.ok(fr::key(&after) == fr::key(&base), "unauthorised-effect", || format!("{}, and the state changed", what()));
				continue
			}
			done += 1;
			run.ok(r.is_ok(), "authorised", || format!("{}, though it has the authority", what()));
			let now = world(&after);
			run.ok(now == wanted(&was, k), "governed-effect", || format!("{}, and what it is about became {now:?}", what()));
			if k >= 8 {
				run.ok(fr::key(&after) != fr::key(&base), "governed-effect", || format!("{}, and nothing changed", what()));
			}
		}
	}
	run.note(&format!("{NET}_authorised"), done);
}
/// No transaction, however it is wrapped, gets a governed call done.
fn wrapped(run: &Run) {
	let base = on(&before(&[OWNER, PLAIN, 12]), || {
		pallet_msa::Pallet::<Runtime>::create_account(account(PLAIN), |_| Ok(())).unwrap();
		give(EMPTY, 1000 * ED);
		give(NOBODY, 1000 * ED);
		set_capacity(1, 900_000 * ED, 900_000 * ED, 1);
		for (real, delegate) in [(PLAIN, OWNER), (OWNER, PLAIN)] {
			sdk::pallet_proxy::Pallet::<Runtime>::add_proxy(RuntimeOrigin::signed(account(real)), MultiAddress::Id(account(delegate)), common::proxy::ProxyType::Any, 0).unwrap();
		}
	})
	.1;
	let was = world(&base);
	let paths = paths(mc::pick(3, 4));
	let leaves = calls();
	let outside = |io: &Io| peek(io, || (pallet_time_release::ReleaseSchedules::<Runtime>::get(account(OTHER)).encode(), sdk::io::storage::get(b"a key"), total(NOBODY) > 2000 * ED));
	let out = outside(&base);
	mc::par(paths.len(), |i| {
		for (call, _) in &leaves {
			for (who, real) in [(OWNER, PLAIN), (PLAIN, OWNER)] {
				// a council member's own motion or execution may hold it, too
				for held in 0..3 {
					run.eval(1);
					run.state(1);
					let leaf = match held {
						0 => call.clone(),
						1 => RuntimeCall::Council(CouncilCall::execute { proposal: Box::new(call.clone()), length_bound: 1000 }),
						_ => RuntimeCall::Council(CouncilCall::propose { threshold: 2, proposal: Box::new(call.clone()), length_bound: 1000 }),
					};
					let leaf = super::effects::nested(&leaf, &paths[i], real);
					let x = peek(&base, || tx(who, nonce(who), 0, leaf.clone()));
					let (r, after) = on(&base, || rt::Executive::apply_extrinsic(x));
					let now = world(&after);
					run.ok(now == was && outside(&after) == out, "transaction", || format!("{NET}: {} (held {held}) in {:?} by account {who} ended with {r:?}, and {was:?} became {now:?}", name(call), paths[i]));
				}
			}
		}
	});
}

/// Motions: proposed through the pallets or by members themselves, voted on, and closed, while seats and keys change.
struct Motions {
	seats: Vec<Vec<usize>>,
	kinds: Vec<Kind>,
}
/// (by, what)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
	/// an account asks to become a provider
	Provider(usize),
	Schema(usize),
	NamedSchema(usize),
	Name(usize),
	/// a council member's own motion with a threshold
	OwnSchema(usize, u32),
	OwnProvider(usize, u32),
}
#[derive(Clone, Debug)]
enum Act {
	Propose(Kind),
	Vote(usize, usize, bool),
	Close(usize),
	Wait,
	Seats(usize),
	DropKey,
	Execute(usize, Kind),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Motion {
	kind: Kind,
	hash: Vec<u8>,
	index: u32,
	threshold: u32,
	ayes: Vec<usize>,
	nays: Vec<usize>,
	over: bool,
}
#[derive(Clone)]
struct St {
	io: Io,
	seats: Vec<usize>,
	motions: Vec<Motion>,
	count: u32,
	world: World,
	dropped: bool,
}
impl Kind {
	/// What the council is asked to do.
	fn call(self) -> RuntimeCall {
		match self {
			Kind::Provider(n) => RuntimeCall::Msa(MsaCall::create_provider_via_governance { provider_key: account(n), provider_name: format!("provider {n}").into_bytes() }),
			Kind::OwnProvider(..) => RuntimeCall::Msa(MsaCall::create_provider_via_governance { provider_key: account(OTHER), provider_name: b"own".to_vec() }),
			Kind::Schema(n) => RuntimeCall::Schemas(SchemaCall::create_schema_via_governance { creator_key: account(n), model: model(n as u8), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::Itemized, settings: settings(&[SchemaSetting::AppendOnly]) }),
			Kind::OwnSchema(..) => RuntimeCall::Schemas(SchemaCall::create_schema_via_governance { creator_key: account(9), model: table(99), model_type: ModelType::Parquet, payload_location: PayloadLocation::IPFS, settings: settings(&[]) }),
			Kind::NamedSchema(n) => RuntimeCall::Schemas(SchemaCall::create_schema_via_governance_v2 { creator_key: account(n), model: table(50 + n as u8), model_type: ModelType::Parquet, payload_location: PayloadLocation::Paginated, settings: settings(&[]), schema_name: Some(text("frequency.two")) }),
			Kind::Name(_) => RuntimeCall::Schemas(SchemaCall::create_schema_name_via_governance { schema_id: 1, schema_name: text("frequency.one") }),
		}
	}
	/// How it comes before the council.
	fn propose(self) -> (usize, RuntimeCall) {
		let own = |n: usize, threshold: u32| (n, RuntimeCall::Council(CouncilCall::propose { threshold, proposal: Box::new(self.call()), length_bound: 1000 }));
		match self {
			Kind::Provider(n) => (n, RuntimeCall::Msa(MsaCall::propose_to_be_provider { provider_name: format!("provider {n}").into_bytes() })),
			Kind::Schema(n) => (n, RuntimeCall::Schemas(SchemaCall::propose_to_create_schema { model: model(n as u8), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::Itemized, settings: settings(&[SchemaSetting::AppendOnly]) })),
			Kind::NamedSchema(n) => (n, RuntimeCall::Schemas(SchemaCall::propose_to_create_schema_v2 { model: table(50 + n as u8), model_type: ModelType::Parquet, payload_location: PayloadLocation::Paginated, settings: settings(&[]), schema_name: Some(text("frequency.two")) })),
			Kind::Name(n) => (n, RuntimeCall::Schemas(SchemaCall::propose_to_create_schema_name { schema_id: 1, schema_name: text("frequency.one") })),
			Kind::OwnSchema(n, t) | Kind::OwnProvider(n, t) => own(n, t),
		}
	}
	/// What carrying it by so many of so many leaves.
	fn carried(self, w: &World, yes: u32, seats: u32, dropped: bool) -> World {
		let mut w = w.clone();
		let majority = 2 * yes > seats;
		let next = w.schemas.len() as u16 + 1;
		let mut provider = |id: u64, n: Vec<u8>| {
			if yes >= 1 && !w.providers.iter().any(|p| p.0 == id) {
				w.providers.push((id, n));
				w.providers.sort();
			}
		};
		match self {
			Kind::Provider(n) => match (n, dropped) {
				(OWNER, _) | (SECOND, false) => provider(1, format!("provider {n}").into_bytes()),
				_ => {},
			},
			Kind::OwnProvider(..) => provider(3, b"own".to_vec()),
			Kind::Schema(n) if majority => w.schemas.push((next, model(n as u8).into_inner(), "AvroBinary Itemized [AppendOnly]".into())),
			Kind::OwnSchema(..) if majority => w.schemas.push((next, table(99).into_inner(), "Parquet IPFS []".into())),
			Kind::NamedSchema(n) if majority => {
				w.schemas.push((next, table(50 + n as u8).into_inner(), "Parquet Paginated []".into()));
				match w.names.iter_mut().find(|x| x.0 == "frequency.two") {
					Some(x) => x.1.push(next),
					None => w.names.push(("frequency.two".into(), vec![next])),
				}
			},
			Kind::Name(_) if majority && !w.names.iter().any(|x| x.0 == "frequency.one") => w.names.insert(0, ("frequency.one".into(), vec![1])),
			_ => {},
		}
		w
	}
}
const OFF: [(&str, &str); 5] = [("System", "Events"), ("System", "EventCount"), ("System", "BlockWeight"), ("System", "BlockHash"), ("System", "ExecutionPhase")];
impl mc::explore::System for Motions {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		self.seats
			.iter()
			.map(|s| {
				let io = on(&before(s), || {
					pallet_msa::ProviderToRegistryEntry::<Runtime>::remove(common_primitives::msa::ProviderId(3));
				})
				.1;
				St { world: world(&io), io, seats: s.clone(), motions: vec![], count: 0, dropped: false }
			})
			.collect()
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(rest(&s.io, &OFF), (&s.seats, &s.motions, s.dropped))
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		if s.motions.len() < 2 {
			v.extend(self.kinds.iter().map(|k| Act::Propose(*k)));
		}
		for m in 0..s.motions.len() {
			for who in [9, 10, 11, 12, PLAIN] {
				for yes in [true, false] {
					v.push(Act::Vote(who, m, yes));
				}
			}
			v.push(Act::Close(m));
		}
		if s.motions.iter().any(|m| !m.over) {
			v.push(Act::Wait);
		}
		v.extend((0..self.seats.len()).filter(|k| self.seats[*k] != s.seats).map(Act::Seats));
		if !s.dropped {
			v.push(Act::DropKey);
		}
		for k in [Kind::OwnSchema(9, 1), Kind::OwnProvider(9, 1), Kind::Name(9)] {
			v.push(Act::Execute(9, k));
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, mc::explore::Bad> {
		let mut n = s.clone();
		let (who, call) = match a {
			Act::Wait => {
				n.io = on(&s.io, || sdk::frame_system::Pallet::<Runtime>::set_block_number(sdk::frame_system::Pallet::<Runtime>::block_number() + <common::constants::CouncilMotionDuration as Get<u32>>::get())).1;
				n.motions.iter_mut().for_each(|m| m.over = true);
				return Ok(Some(n))
			},
			Act::Seats(k) => {
				n.io = on(&s.io, || seat(&self.seats[*k])).1;
				n.seats = self.seats[*k].clone();
				for m in n.motions.iter_mut() {
					m.ayes.retain(|w| n.seats.contains(w));
					m.nays.retain(|w| n.seats.contains(w));
				}
				n.world = world(&n.io);
				return Ok(Some(n))
			},
			Act::DropKey => {
				n.dropped = true;
				(OWNER, free(SECOND))
			},
			Act::Propose(k) => k.propose(),
			Act::Vote(w, m, yes) => (*w, RuntimeCall::Council(CouncilCall::vote { proposal: hash(&s.motions[*m]), index: s.motions[*m].index, approve: *yes })),
			Act::Close(m) => (PLAIN, RuntimeCall::Council(CouncilCall::close { proposal_hash: hash(&s.motions[*m]), index: s.motions[*m].index, proposal_weight_bound: Weight::MAX, length_bound: 10_000 })),
			Act::Execute(w, k) => (*w, RuntimeCall::Council(CouncilCall::execute { proposal: Box::new(k.call()), length_bound: 1000 })),
		};
		let (r, io) = on(&s.io, || sdk::io::with_transaction_result(|| call.clone().dispatch(RuntimeOrigin::signed(account(who)))));
		let what = || format!("{NET}: {a:?} (council {:?}, motions {:?}) ended with {:?}", s.seats, s.motions, r.as_ref().map(|_| ()).map_err(|e| e.error.clone()));
		let voting = |k: &Kind| {
			peek(&io, || {
				let h = <Runtime as sdk::frame_system::Config>::Hashing::hash_of(&k.call());
				(Council::voting(h), Council::proposal_of(h))
			})
		};
		let seats = s.seats.len() as u32;
		// 1: does it come before the council
		match a {
			Act::Propose(k) => {
				let known = s.motions.iter().any(|m| m.kind.call() == k.call());
				let may = match k {
					Kind::Provider(w) => matches!((*w, s.dropped), (OWNER, _) | (SECOND, false)),
					Kind::Name(_) => !s.world.names.iter().any(|x| x.0 == "frequency.one"),
					Kind::OwnSchema(w, _) | Kind::OwnProvider(w, _) => s.seats.contains(w),
					_ => true,
				};
				must!(r.is_ok() == (may && !known), "proposing", "{}, though {}", what(), if may { "it may be proposed" } else { "it may not be proposed" });
				if let (Ok(_), Kind::OwnSchema(_, 1) | Kind::OwnProvider(_, 1)) = (&r, k) {
					// one voice, that of the proposer
					n.world = k.carried(&s.world, 1, seats, s.dropped);
				} else if r.is_ok() {
					let threshold = match k {
						Kind::Provider(_) => 1,
						Kind::OwnSchema(_, t) | Kind::OwnProvider(_, t) => *t,
						_ => seats / 2 + 1,
					};
					let (Some(v), Some(p)) = voting(k) else { return mc::explore::bad("not-proposed", format!("{}, and the council has no such motion", what())) };
					must!(p == k.call(), "proposed", "{}, and the council is asked to {p:?}", what());
					must!(v.threshold == threshold, "threshold", "{}, and needs {} ayes instead of {threshold}", what(), v.threshold);
					must!(v.ayes.is_empty() && v.nays.is_empty() && v.index == s.count, "motion", "{}, and the motion is {v:?}", what());
					n.count += 1;
					n.motions.push(Motion { kind: *k, hash: hash_of(k).encode(), index: v.index, threshold, ayes: vec![], nays: vec![], over: false });
				}
			},
			Act::Vote(w, m, yes) => {
				let x = &mut n.motions[*m];
				let (to, from) = if *yes { (&mut x.ayes, &mut x.nays) } else { (&mut x.nays, &mut x.ayes) };
				must!(r.is_ok() == (s.seats.contains(w) && !to.contains(w)), "voting", "{}", what());
				if r.is_ok() {
					to.push(*w);
					from.retain(|y| y != w);
				}
			},
			Act::Close(m) => {
				let x = &s.motions[*m];
				let (yes, no) = (x.ayes.len() as u32, x.nays.len() as u32);
				let carried = yes >= x.threshold;
				let closes = carried || seats.saturating_sub(no) < x.threshold || x.over;
				must!(r.is_ok() == closes, "closing", "{}", what());
				if closes {
					if carried {
						n.world = x.kind.carried(&s.world, yes, seats, s.dropped);
					}
					n.motions.remove(*m);
				}
			},
			Act::DropKey => {
				must!(r.is_ok(), "key", "{}", what());
			},
			Act::Execute(..) => {
				must!(r.is_ok() == s.seats.contains(&9), "executing", "{}", what());
			},
			_ => {},
		}
		// 2: what became of it
		let now = world(&io);
		must!(now == n.world, "outcome", "{}: expected {:?}, found {now:?}", what(), n.world);
		if r.is_err() {
			must!(rest(&io, &OFF) == rest(&s.io, &OFF), "refused-with-effects", "{}, yet the state changed", what());
			return Ok(None)
		}
		n.io = io;
		n.world = now;
		Ok(Some(n))
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!({"seats": s.seats, "motions": s.motions.iter().map(|m| format!("{:?} {:?}/{:?} of {}", m.kind, m.ayes, m.nays, m.threshold)).collect::<Vec<_>>(), "schemas": s.world.schemas.len(), "providers": s.world.providers.iter().map(|p| p.0).collect::<Vec<_>>()})
	}
}
use sdk::frame_support::traits::Get;
use sdk::frame_support::weights::Weight;
use sdk::sp_runtime::traits::Hash as _;
type H = <Runtime as sdk::frame_system::Config>::Hash;
fn hash_of(k: &Kind) -> H {
	<Runtime as sdk::frame_system::Config>::Hashing::hash_of(&k.call())
}
fn hash(m: &Motion) -> H {
	H::decode(&mut &m.hash[..]).unwrap()
}
fn free(n: usize) -> RuntimeCall {
	RuntimeCall::Msa(MsaCall::delete_msa_public_key { public_key_to_delete: account(n) })
}
pub fn c40(run: &Run) {
	authority(run);
	wrapped(run);
	let kinds = |v: &[Kind]| v.to_vec();
	let all = [
		("small councils", vec![vec![9], vec![9, 10], vec![9, 10, 11]], kinds(&[Kind::Provider(SECOND), Kind::Schema(PLAIN), Kind::NamedSchema(PLAIN), Kind::Name(OTHER), Kind::Provider(PLAIN), Kind::OwnSchema(9, 1), Kind::OwnProvider(10, 2)])),
		("a council of four", vec![vec![9, 10, 11, 12], vec![10, 11, 12]], kinds(&[Kind::Schema(OWNER), Kind::Name(PLAIN), Kind::Provider(OWNER), Kind::OwnSchema(9, 2)])),
	];
	for (what, seats, kinds) in all {
		let b = mc::explore::Bounds { depth: mc::pick(6, 9), max_states: mc::pick(60_000, 1_000_000), secs: mc::pick(100, 1200) };
		mc::explore::explore(run, &format!("{NET} motions before {what}"), &Motions { seats, kinds }, b);
	}
}

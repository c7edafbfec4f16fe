// C42: what a transaction announces is what it did.
use super::fees::{self, *};
use super::*;
use sdk::frame_support::traits::fungible::InspectFreeze;
use sdk::pallet_collective::{Instance1, RawOrigin};
use sdk::sp_runtime::traits::Dispatchable;
use common_primitives::msa::{DelegatorId, ProviderId};
type MsaCall = pallet_msa::Call<Runtime>;
type CapCall = pallet_capacity::Call<Runtime>;
type RelCall = pallet_time_release::Call<Runtime>;
type MsaEvent = pallet_msa::Event<Runtime>;
type CapEvent = pallet_capacity::Event<Runtime>;
type RelEvent = pallet_time_release::Event<Runtime>;
type System = sdk::frame_system::Pallet<Runtime>;
type Schedule = pallet_time_release::ReleaseSchedule<u32, Balance>;

/// The pallets of this repository.
const OURS: [&str; 9] = ["Msa", "Messages", "Schemas", "StatefulStorage", "Capacity", "FrequencyTxPayment", "Handles", "Passkey", "TimeRelease"];
/// The events of this repository's pallets since there were `from` events.
pub fn since(io: &Io, from: usize) -> Vec<rt::RuntimeEvent> {
	peek(io, || System::events().into_iter().skip(from).map(|r| r.event).filter(|e| OURS.iter().any(|p| format!("{e:?}").contains(&format!("::{p}(")) || format!("{e:?}").starts_with(&format!("{p}(")))).collect())
}
pub fn count(io: &Io) -> usize {
	peek(io, || System::events().len())
}
/// Each once, whatever the order.
pub fn same(a: &[rt::RuntimeEvent], b: &[rt::RuntimeEvent]) -> bool {
	let sorted = |v: &[rt::RuntimeEvent]| {
		let mut v: Vec<Vec<u8>> = v.iter().map(|e| e.encode()).collect();
		v.sort();
		v
	};
	sorted(a) == sorted(b)
}
#[derive(Clone, Debug)]
enum Act {
	Create(usize),
	Sponsor(usize, usize),
	AddKey(usize, usize),
	DeleteKey(usize, usize),
	Retire(usize),
	Provide(usize),
	Stake(usize, u64, Balance),
	Unstake(usize, u64, Balance),
	Withdraw(usize),
	Epoch(u32),
	/// a message paid for with capacity
	Spend(usize),
	SpendTwice(usize),
	Schedule(usize, usize, u32, u32, Balance),
	Claim(usize),
	ClaimFor(usize, usize),
	Update(usize, Vec<(u32, u32, Balance)>),
	Block,
	Blocks(u32),
}
#[derive(Clone)]
struct St {
	io: Io,
	acts: u32,
	/// whether a message was stored in this block
	said: bool,
}
struct People {
	acts: Vec<Act>,
	base: Io,
}
const OFF: [(&str, &str); 6] = [("System", "Events"), ("System", "EventCount"), ("System", "BlockWeight"), ("System", "BlockHash"), ("System", "ExecutionPhase"), ("System", "ExtrinsicCount")];
fn identity_of(n: usize) -> u64 {
	pallet_msa::PublicKeyToMsaId::<Runtime>::get(account(n)).unwrap_or(0)
}
fn schedule(start: u32, period_count: u32, per_period: Balance) -> Schedule {
	Schedule { start, period: 2, period_count, per_period }
}
fn dest(n: usize) -> MultiAddress<AccountId, ()> {
	MultiAddress::Id(account(n))
}
/// What the events speak of.
fn active(n: usize) -> Balance {
	pallet_capacity::StakingAccountLedger::<Runtime>::get(account(n)).map_or(0, |s| s.active)
}
fn unlocking(n: usize) -> Balance {
	pallet_capacity::UnstakeUnlocks::<Runtime>::get(account(n)).map_or(0, |c| c.iter().map(|c| c.value).sum())
}
fn issued(id: u64) -> Balance {
	capacity(id).map_or(0, |c| c.2)
}
fn frozen(n: usize) -> Balance {
	let reason: rt::RuntimeFreezeReason = pallet_time_release::FreezeReason::TimeReleaseVesting.into();
	<sdk::pallet_balances::Pallet<Runtime> as InspectFreeze<AccountId>>::balance_frozen(&reason, &account(n))
}
impl People {
	fn call(&self, s: &St, a: &Act) -> (RuntimeOrigin, RuntimeCall) {
		let by = |n: usize| RuntimeOrigin::signed(account(n));
		let expiration = peek(&s.io, || System::block_number()) + 20 + s.acts % 16;
		let id = |n: usize| peek(&s.io, || identity_of(n));
		match a {
			Act::Create(n) => (by(*n), MsaCall::create {}.into()),
			Act::Sponsor(p, n) => {
				let add_provider_payload = pallet_msa::AddProvider::new(id(*p), Some(vec![1]), expiration);
				let proof = sign(*n, &wrapped(&add_provider_payload));
				(by(*p), MsaCall::create_sponsored_account_with_delegation { delegator_key: account(*n), proof, add_provider_payload }.into())
			},
			Act::AddKey(o, n) => {
				let add_key_payload = pallet_msa::types::AddKeyData::<Runtime> { msa_id: id(*o), expiration, new_public_key: account(*n) };
				let b = wrapped(&add_key_payload);
				(by(PLAIN), MsaCall::add_public_key_to_msa { msa_owner_public_key: account(*o), msa_owner_proof: sign(*o, &b), new_key_owner_proof: sign(*n, &b), add_key_payload }.into())
			},
			Act::DeleteKey(o, n) => (by(*o), MsaCall::delete_msa_public_key { public_key_to_delete: account(*n) }.into()),
			Act::Retire(n) => (by(*n), MsaCall::retire_msa {}.into()),
			Act::Provide(n) => (RawOrigin::<AccountId, Instance1>::Members(3, 3).into(), MsaCall::create_provider_via_governance { provider_key: account(*n), provider_name: b"a name".to_vec() }.into()),
			Act::Stake(n, target, amount) => (by(*n), CapCall::stake { target: *target, amount: *amount }.into()),
			Act::Unstake(n, target, amount) => (by(*n), CapCall::unstake { target: *target, requested_amount: *amount }.into()),
			Act::Withdraw(n) => (by(*n), CapCall::withdraw_unstaked {}.into()),
			Act::Epoch(length) => (RuntimeOrigin::root(), CapCall::set_epoch_length { length: *length }.into()),
			Act::Spend(n) => (by(*n), cap(RuntimeCall::Msa(MsaCall::add_public_key_to_msa { msa_owner_public_key: account(NOBODY), msa_owner_proof: sign(NOBODY, b"?"), new_key_owner_proof: sign(NOBODY, b"?"), add_key_payload: pallet_msa::types::AddKeyData::<Runtime> { msa_id: 9, expiration, new_public_key: account(NOBODY) } }))),
			Act::SpendTwice(n) => (by(*n), caps(vec![message(1, 3), message(1, 30)])),
			Act::Schedule(f, t, start, n, each) => (by(*f), RelCall::transfer { dest: MultiAddress::Id(account(*t)), schedule: schedule(*start, *n, *each) }.into()),
			Act::Claim(n) => (by(*n), RelCall::claim {}.into()),
			Act::ClaimFor(n, w) => (by(*n), RelCall::claim_for { dest: MultiAddress::Id(account(*w)) }.into()),
			Act::Update(n, v) => (RuntimeOrigin::root(), RelCall::update_release_schedules { who: MultiAddress::Id(account(*n)), release_schedules: v.iter().map(|(s, n, e)| schedule(*s, *n, *e)).collect() }.into()),
			Act::Block | Act::Blocks(_) => unreachable!(),
		}
	}
	/// What it has to announce, going by what it changed.
	fn want(&self, a: &Act, said: Option<bool>, pre: &Io, post: &Io) -> Vec<rt::RuntimeEvent> {
		let had = |f: &dyn Fn() -> Balance| peek(pre, || f());
		let has = |f: &dyn Fn() -> Balance| peek(post, || f());
		let now = |n: usize| peek(post, || identity_of(n));
		let was = |n: usize| peek(pre, || identity_of(n));
		match a {
			Act::Create(n) => vec![MsaEvent::MsaCreated { msa_id: now(*n), key: account(*n) }.into()],
			Act::Sponsor(p, n) => vec![MsaEvent::MsaCreated { msa_id: now(*n), key: account(*n) }.into(), MsaEvent::DelegationGranted { provider_id: ProviderId(was(*p)), delegator_id: DelegatorId(now(*n)) }.into()],
			Act::AddKey(o, n) => vec![MsaEvent::PublicKeyAdded { msa_id: was(*o), key: account(*n) }.into()],
			// for want of an identity, nothing happens
			Act::DeleteKey(n, _) | Act::Retire(n) if was(*n) == 0 => {
				assert!(rest(pre, &OFF) == rest(post, &OFF));
				vec![]
			},
			Act::DeleteKey(_, n) => vec![MsaEvent::PublicKeyDeleted { key: account(*n) }.into()],
			Act::Retire(n) => vec![MsaEvent::PublicKeyDeleted { key: account(*n) }.into(), MsaEvent::MsaRetired { msa_id: was(*n) }.into()],
			Act::Provide(n) => vec![MsaEvent::ProviderCreated { provider_id: ProviderId(was(*n)) }.into()],
			Act::Stake(n, target, _) => vec![CapEvent::Staked { account: account(*n), target: *target, amount: has(&|| active(*n)) - had(&|| active(*n)), capacity: has(&|| issued(*target)) - had(&|| issued(*target)) }.into()],
			Act::Unstake(n, target, _) => vec![CapEvent::UnStaked { account: account(*n), target: *target, amount: had(&|| active(*n)) - has(&|| active(*n)), capacity: had(&|| issued(*target)) - has(&|| issued(*target)) }.into()],
			Act::Withdraw(n) => vec![CapEvent::StakeWithdrawn { account: account(*n), amount: had(&|| unlocking(*n)) - has(&|| unlocking(*n)) }.into()],
			Act::Epoch(blocks) => vec![CapEvent::EpochLengthUpdated { blocks: *blocks }.into()],
			Act::Spend(n) | Act::SpendTwice(n) => {
				let msa_id = was(*n);
				let (before, after) = (peek(pre, || capacity(msa_id)).unwrap(), peek(post, || capacity(msa_id)).unwrap());
				// in a new epoch all of it is there again first
				let there = if before.3 < after.3 { before.2 } else { before.0 };
				let mut v = vec![CapEvent::CapacityWithdrawn { msa_id, amount: there - after.0 }.into()];
				if said == Some(false) {
					v.push(pallet_messages::Event::<Runtime>::MessagesInBlock.into());
				}
				v
			},
			Act::Schedule(f, t, start, n, each) => vec![RelEvent::ReleaseScheduleAdded { from: account(*f), to: account(*t), release_schedule: schedule(*start, *n, *each) }.into()],
			Act::Claim(n) | Act::ClaimFor(_, n) => vec![RelEvent::Claimed { who: account(*n), amount: had(&|| frozen(*n)) - has(&|| frozen(*n)) }.into()],
			Act::Update(n, _) => vec![RelEvent::ReleaseSchedulesUpdated { who: account(*n) }.into()],
			Act::Block | Act::Blocks(_) => vec![],
		}
	}
}
impl mc::explore::System for People {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		vec![St { io: self.base.clone(), acts: 0, said: false }]
	}
	fn key(&self, s: &St) -> u128 {
		rest(&s.io, &OFF)
	}
	fn actions(&self, _: &St) -> Vec<Act> {
		self.acts.clone()
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, mc::explore::Bad> {
		let blocks = match a {
			Act::Block => 1,
			Act::Blocks(n) => *n,
			_ => 0,
		};
		if blocks > 0 {
			let io = (0..blocks).fold(s.io.clone(), |io, _| fees::block(&io));
			let got = since(&io, 0);
			must!(got.is_empty(), "announced-by-nobody", "{NET}: a block without transactions announces {got:?}");
			return Ok(Some(St { io, acts: s.acts, said: false }))
		}
		let before = count(&s.io);
		let (origin, call) = self.call(s, a);
		let (ok, said, io) = match a {
			Act::Spend(n) | Act::SpendTwice(n) => {
				let x = peek(&s.io, || tx(*n, nonce(*n), 0, call.clone()));
				let (r, io) = on(&s.io, || rt::Executive::apply_extrinsic(x));
				// whether its messages were stored, if it was taken
				(r.is_ok(), matches!((a, &r), (Act::SpendTwice(_), Ok(Ok(_)))).then_some(s.said), io)
			},
			_ => {
				let (ok, io) = on(&s.io, || sdk::io::with_transaction_result(|| call.clone().dispatch(origin.clone())).is_ok());
				(ok, None, io)
			},
		};
		let got = since(&io, before);
		let want = if ok { self.want(a, said, &s.io, &io) } else { vec![] };
		must!(same(&got, &want), "announced", "{NET}: {a:?} ({}) announces {got:?} and not {want:?}", if ok { "accepted" } else { "refused" });
		Ok(ok.then(|| St { io, acts: s.acts + 1, said: s.said || said.is_some() }))
	}
	fn check(&self, _: &St) -> Result<(), mc::explore::Bad> {
		Ok(())
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!({"net": NET, "transactions": s.acts, "block": peek(&s.io, || System::block_number())})
	}
}
pub fn c42(run: &Run) {
	let started = start();
	let mut identities = vec![Act::Block, Act::Create(PLAIN), Act::Create(OWNER), Act::Create(NOBODY), Act::Sponsor(OWNER, PLAIN), Act::Sponsor(PLAIN, NOBODY), Act::Sponsor(OTHER, NOBODY), Act::Provide(PLAIN), Act::Provide(OWNER), Act::Retire(PLAIN), Act::Retire(OWNER), Act::Retire(NOBODY)];
	for (o, n) in [(PLAIN, NOBODY), (OWNER, PLAIN), (DRY, NOBODY), (NOBODY, PLAIN), (OWNER, SECOND)] {
		identities.extend([Act::AddKey(o, n), Act::DeleteKey(o, n)]);
	}
	// three targets, one of which is no provider
	let staking = on(&started, || {
		pallet_capacity::EpochLength::<Runtime>::put(3);
		for (id, p) in [(1u64, true), (2, true), (3, true)] {
			let _ = (id, p);
		}
	})
	.1;
	let mut stakes = vec![Act::Block, Act::Blocks(4), Act::Blocks(100), Act::Epoch(3), Act::Epoch(7), Act::Spend(OWNER), Act::SpendTwice(OWNER), Act::SpendTwice(OTHER)];
	for n in [PLAIN, OWNER] {
		for t in [1, 3] {
			stakes.extend([Act::Stake(n, t, 100_000_000 * 60), Act::Stake(n, t, 1), Act::Stake(n, t, u128::MAX / 4), Act::Unstake(n, t, 100_000_000 * 20), Act::Unstake(n, t, 100_000_000 * 60 - 10), Act::Unstake(n, t, u128::MAX)]);
		}
		stakes.push(Act::Withdraw(n));
	}
	stakes.push(Act::Stake(PLAIN, 9, 100_000_000 * 60));
	let mut releases = vec![Act::Block, Act::Blocks(3)];
	for (f, t) in [(PLAIN, OTHER), (PLAIN, NOBODY), (OTHER, OTHER)] {
		for (start, n, each) in [(0, 1, 50 * ED), (2, 2, 30 * ED + 1), (4, 0, 50 * ED)] {
			releases.push(Act::Schedule(f, t, start, n, each));
		}
	}
	for n in [OTHER, NOBODY] {
		releases.extend([Act::Claim(n), Act::ClaimFor(PLAIN, n), Act::Update(n, vec![]), Act::Update(n, vec![(0, 3, 20 * ED)]), Act::Update(n, vec![(3, 1, 20 * ED), (1, 2, 40 * ED)])]);
	}
	let _ = dest;
	for (what, acts, base, depth) in [("identities", identities, started.clone(), 4), ("capacity", stakes, staking, 4), ("releases", releases, started.clone(), 4)] {
		let b = mc::explore::Bounds { depth: mc::pick(depth, depth + 2), max_states: mc::pick(60_000, 400_000), secs: mc::pick(60, 600) };
		mc::explore::explore(run, &format!("{NET} {what}"), &People { acts, base }, b);
	}
}

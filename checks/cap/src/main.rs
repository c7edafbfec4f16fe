//! C13 C14 C15: pallet-capacity, explored state by state and compared with a staking ledger model.
use common_primitives::capacity::{Nontransferable, Replenishable, TargetValidator};
use common_primitives::msa::MessageSourceId;
use fr::{peek, run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_capacity as pc;
use sdk::frame_support::traits::{
	fungible::{Inspect, InspectFreeze},
	ConstU16, ConstU32, ConstU64, OnInitialize,
};
use sdk::frame_support::{construct_runtime, traits::UnfilteredDispatchable};
use sdk::frame_system;
use sdk::pallet_balances;
use sdk::sp_runtime::{BuildStorage, Perbill};
use std::collections::BTreeMap;

fr::base_runtime!(account = u64, balance = u64, ed = 1, freezes = 2);
const TARGETS: [MessageSourceId; 3] = [1, 2, 9];
pub struct Registered;
impl TargetValidator for Registered {
	fn validate(t: MessageSourceId) -> bool {
		t == 1 || t == 2
	}
}
const MIN_STAKE: u64 = 5;
const MIN_BAL: u64 = 2;
const CHUNKS: usize = 2;
const THAW: u32 = 2;
const MAX_LEN: u32 = 4;
sdk::frame_support::parameter_types! {
	pub const PerToken: Perbill = Perbill::from_percent(30);
}
impl pc::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type WeightInfo = ();
	type Currency = Balances;
	type TargetValidator = Registered;
	type MinimumStakingAmount = ConstU64<MIN_STAKE>;
	type MinimumTokenBalance = ConstU64<MIN_BAL>;
	type MaxUnlockingChunks = ConstU32<{ CHUNKS as u32 }>;
	type UnstakingThawPeriod = ConstU16<{ THAW as u16 }>;
	type MaxEpochLength = ConstU32<MAX_LEN>;
	type EpochNumber = u32;
	type CapacityPerToken = PerToken;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Capacity: pc::{Pallet, Call, Storage, Event<T>, FreezeReason},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);
const ACC: [u64; 2] = [1, 2];
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Acct {
	bal: u64,
	active: u64,
	frozen: u64,
	/// amount, epoch from which it can be withdrawn
	unlock: Vec<(u64, u32)>,
	/// amount and capacity per target
	on: BTreeMap<u64, (u64, u64)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Prov {
	staked: u64,
	issued: u64,
	remaining: u64,
	last: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
	now: u32,
	epoch: u32,
	start: u32,
	len: u32,
	acc: [Acct; 2],
	prov: BTreeMap<u64, Prov>,
}
fn observe() -> Model {
	Model {
		now: System::block_number(),
		epoch: Capacity::get_current_epoch(),
		start: Capacity::get_current_epoch_info().epoch_start,
		len: Capacity::get_epoch_length(),
		acc: ACC.map(|a| Acct {
			bal: <Balances as Inspect<u64>>::total_balance(&a),
			active: Capacity::get_staking_account_for(a).map_or(0, |s| s.active),
			frozen: Balances::balance_frozen(&pc::FreezeReason::CapacityStaking.into(), &a),
			unlock: Capacity::get_unstake_unlocking_for(a).map_or(vec![], |l| l.iter().map(|c| (c.value, c.thaw_at)).collect()),
			on: TARGETS.iter().filter_map(|t| Capacity::get_target_for(a, *t).map(|d| (*t, (d.amount, d.capacity)))).collect(),
		}),
		prov: TARGETS
			.iter()
			.filter_map(|t| Capacity::get_capacity_for(*t).map(|c| (*t, Prov { staked: c.total_tokens_staked, issued: c.total_capacity_issued, remaining: c.remaining_capacity, last: c.last_replenished_epoch })))
			.collect(),
	}
}
#[derive(Clone, Debug)]
enum Act {
	Stake(u64, u64, u64),
	Unstake(u64, u64, u64),
	Withdraw(u64),
	/// A transaction paying this much capacity: refill if due, then deduct.
	Spend(u64, u64),
	/// The bare deduction.
	Deduct(u64, u64),
	Transfer(u64, u64),
	/// None: root
	SetLength(Option<u64>, u32),
	NoOrigin(u8),
	Advance(u32),
}
fn generated(x: u64) -> u64 {
	// CapacityPerToken, rounded to the nearest (halves down)
	((x as u128 * 60 + 99) / 200) as u64
}
#[derive(Clone)]
struct St {
	io: Io,
	m: Model,
	/// capacity each provider could have spent, and has spent, in the current epoch
	budget: BTreeMap<u64, (u64, u64)>,
}
struct Sys {
	stakes: Vec<u64>,
	unstakes: Vec<u64>,
	targets: Vec<u64>,
	lengths: bool,
	spends: bool,
	transfers: bool,
	horizon: u32,
	init: [u64; 2],
	len: u32,
	first: u32,
}
impl Sys {
	/// None: must fail.
	fn model(&self, s: &Model, a: &Act) -> Option<(Model, Vec<pc::Event<Test>>)> {
		let mut m = s.clone();
		let mut ev = vec![];
		let fits = |a: &Acct| a.active + a.unlock.iter().map(|c| c.0).sum::<u64>();
		match a {
			Act::Advance(k) => {
				m.now += k;
				if m.now - m.start >= m.len {
					m.epoch += 1;
					m.start = m.now;
				}
			},
			Act::NoOrigin(_) => return None,
			Act::Stake(w, t, x) => {
				let a = &mut m.acc[*w as usize - 1];
				let can = a.bal.saturating_sub(MIN_BAL).saturating_sub(fits(a)).min(*x);
				if can == 0 || !Registered::validate(*t) || a.active + can < MIN_STAKE {
					return None
				}
				let cap = generated(can);
				a.active += can;
				a.frozen = fits(a);
				let on = a.on.entry(*t).or_default();
				on.0 += can;
				on.1 += cap;
				let p = m.prov.entry(*t).or_default();
				p.staked += can;
				p.issued += cap;
				p.remaining += cap;
				ev.push(pc::Event::Staked { account: *w, target: *t, amount: can, capacity: cap });
			},
			Act::Unstake(w, t, x) => {
				let a = &mut m.acc[*w as usize - 1];
				let on = a.on.get_mut(t)?;
				if *x == 0 || *x > on.0 || a.unlock.len() >= CHUNKS {
					return None
				}
				let got = if a.active - *x <= MIN_STAKE { on.0 } else { *x };
				let p = m.prov.get_mut(t).unwrap();
				let cap = if got == on.0 { on.1 } else { ((got as u128 * p.issued as u128).div_ceil(p.staked as u128)) as u64 };
				a.active -= got;
				a.unlock.push((got, s.epoch + THAW));
				on.0 -= got;
				on.1 = on.1.saturating_sub(cap);
				if on.0 == 0 {
					a.on.remove(t);
				}
				p.staked -= got;
				p.issued = p.issued.saturating_sub(cap);
				p.remaining = p.remaining.saturating_sub(cap);
				ev.push(pc::Event::UnStaked { account: *w, target: *t, amount: got, capacity: cap });
			},
			Act::Withdraw(w) => {
				let a = &mut m.acc[*w as usize - 1];
				let ripe: u64 = a.unlock.iter().filter(|c| c.1 <= s.epoch).map(|c| c.0).sum();
				if ripe == 0 {
					return None
				}
				a.unlock.retain(|c| c.1 > s.epoch);
				a.frozen = fits(a);
				ev.push(pc::Event::StakeWithdrawn { account: *w, amount: ripe });
			},
			Act::Spend(t, x) | Act::Deduct(t, x) => {
				let p = m.prov.get_mut(t)?;
				if matches!(a, Act::Spend(..)) && p.last < s.epoch {
					p.remaining = p.issued;
					p.last = s.epoch;
				}
				p.remaining = p.remaining.checked_sub(*x)?;
				ev.push(pc::Event::CapacityWithdrawn { msa_id: *t, amount: *x });
			},
			Act::Transfer(w, x) => {
				let o = 3 - *w;
				let a = &mut m.acc[*w as usize - 1];
				// keeps the account alive, and what is frozen in place
				if *x > a.bal.saturating_sub(a.frozen.max(1)) {
					return None
				}
				a.bal -= *x;
				m.acc[o as usize - 1].bal += *x;
			},
			Act::SetLength(o, l) => {
				if o.is_some() || *l > MAX_LEN {
					return None
				}
				m.len = *l;
				ev.push(pc::Event::EpochLengthUpdated { blocks: *l });
			},
		}
		Some((m, ev))
	}
}
fn props(a: &Act) -> &'static str {
	match a {
		Act::Stake(..) | Act::Unstake(..) => "C13,C14,C15",
		Act::Withdraw(_) => "C13,C15",
		Act::Spend(..) | Act::Deduct(..) => "C14",
		Act::Transfer(..) => "C13",
		Act::SetLength(..) | Act::Advance(_) => "C15",
		Act::NoOrigin(_) => "C13,C15",
	}
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		pallet_balances::GenesisConfig::<Test> { balances: ACC.iter().zip(self.init).map(|x| (*x.0, x.1)).collect() }.assimilate_storage(&mut t).unwrap();
		let mut x = sdk::io::TestExternalities::new(t);
		let m = x.execute_with(|| {
			System::set_block_number(self.first);
			pc::EpochLength::<Test>::set(self.len);
			pc::CurrentEpochInfo::<Test>::set(pc::EpochInfo { epoch_start: self.first });
			observe()
		});
		vec![St { io: x.into_state(), m, budget: Default::default() }]
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(fr::key(&s.io), &s.budget)
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		let m = &s.m;
		for w in ACC {
			let a = &m.acc[w as usize - 1];
			for t in &self.targets {
				for x in &self.stakes {
					v.push(Act::Stake(w, *t, *x));
				}
				let mut l = self.unstakes.clone();
				if let Some(on) = a.on.get(t) {
					l.extend([on.0, on.0 + 1, a.active, a.active + 1, a.active.saturating_sub(MIN_STAKE), a.active.saturating_sub(MIN_STAKE + 1)]);
				}
				l.sort();
				l.dedup();
				for x in l {
					v.push(Act::Unstake(w, *t, x));
				}
			}
			v.push(Act::Withdraw(w));
			if self.transfers {
				let free = a.bal.saturating_sub(a.frozen.max(1));
				for x in [free, free + 1] {
					if x > 0 {
						v.push(Act::Transfer(w, x));
					}
				}
			}
		}
		if self.spends {
			for t in &self.targets {
				let p = m.prov.get(t).cloned().unwrap_or_default();
				let mut l = vec![1, p.remaining, p.remaining + 1, p.issued, p.issued + 1];
				l.sort();
				l.dedup();
				for x in l {
					v.push(Act::Spend(*t, x));
					v.push(Act::Deduct(*t, x));
				}
			}
		}
		if self.lengths {
			for l in [0, 1, 3, MAX_LEN, MAX_LEN + 1] {
				v.push(Act::SetLength(None, l));
			}
			v.push(Act::SetLength(Some(1), 1));
			for i in 0..6 {
				v.push(Act::NoOrigin(i));
			}
			if m.now < self.horizon {
				v.push(Act::Advance(3));
			}
		}
		if m.now < self.horizon {
			v.push(Act::Advance(1));
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		let want = self.model(&s.m, a);
		let call = |o: RuntimeOrigin, c: pc::Call<Test>| RuntimeCall::Capacity(c).dispatch_bypass_filter(o).map(|_| ()).map_err(|e| format!("{:?}", e.error));
		let sg = |w: &u64| RuntimeOrigin::signed(*w);
		let ((r, ev, got), io) = run(&s.io, || {
			let r: Result<(), String> = match a {
				Act::Stake(w, t, x) => call(sg(w), pc::Call::stake { target: *t, amount: *x }),
				Act::Unstake(w, t, x) => call(sg(w), pc::Call::unstake { target: *t, requested_amount: *x }),
				Act::Withdraw(w) => call(sg(w), pc::Call::withdraw_unstaked {}),
				Act::SetLength(o, l) => call(o.as_ref().map_or(RuntimeOrigin::root(), sg), pc::Call::set_epoch_length { length: *l }),
				Act::NoOrigin(i) => {
					let o = if i % 2 == 0 { RuntimeOrigin::none() } else { RuntimeOrigin::root() };
					call(
						o,
						match i / 2 {
							0 => pc::Call::stake { target: 1, amount: 5 },
							1 => pc::Call::unstake { target: 1, requested_amount: 5 },
							_ => pc::Call::withdraw_unstaked {},
						},
					)
				},
				Act::Spend(t, x) => {
					if Capacity::can_replenish(*t) {
						Capacity::replenish_all_for(*t).unwrap();
					}
					Capacity::deduct(*t, *x).map_err(|e| format!("{e:?}"))
				},
				Act::Deduct(t, x) => Capacity::deduct(*t, *x).map_err(|e| format!("{e:?}")),
				Act::Transfer(w, x) => RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: 3 - *w, value: *x }).dispatch_bypass_filter(sg(w)).map(|_| ()).map_err(|e| format!("{:?}", e.error)),
				Act::Advance(k) => {
					// blocks k-1 of which skip the hook cannot happen: every block is initialised
					let _ = k;
					System::set_block_number(s.m.now + k);
					Capacity::on_initialize(s.m.now + k);
					Ok(())
				},
			};
			let ev: Vec<_> = System::events()
				.into_iter()
				.filter_map(|e| match e.event {
					RuntimeEvent::Capacity(x) => Some(x),
					_ => None,
				})
				.collect();
			System::reset_events();
			(r, ev, observe())
		});
		let (p, name) = (props(a), mc::action_name(a));
		must!(r.is_ok() == want.is_some(), format!("{p}:{name}-{}", if r.is_ok() { "accepted" } else { "refused" }), "{a:?} in {:?} returned {r:?}{}", s.m, if r.is_ok() { format!(" and led to {got:?}") } else { String::new() });
		let Some((m, want_ev)) = want else {
			// a payment that fails is undone as a whole by its caller
			if !matches!(a, Act::Spend(..)) {
				must!(fr::key(&io) == fr::key(&s.io) && ev.is_empty(), format!("{p}:{name}-failed-with-effect"), "{a:?} failed with {r:?} but turned {:?} into {got:?}", s.m);
			}
			return Ok(None)
		};
		// what belongs to which property
		let part = |g: &Model| (g.acc.clone().map(|a| (a.bal, a.active, a.frozen, a.unlock.iter().map(|c| c.0).sum::<u64>(), a.on.iter().map(|(t, x)| (*t, x.0)).collect::<Vec<_>>())), g.prov.iter().map(|(t, p)| (*t, p.staked)).collect::<Vec<_>>());
		must!(part(&got) == part(&m), format!("C13:{name}-result"), "{a:?} turned {:?} into {got:?}, expected {m:?}", s.m);
		must!(got.prov == m.prov && got.acc.clone().map(|a| a.on) == m.acc.clone().map(|a| a.on), format!("C14:{name}-result"), "{a:?} turned {:?} into {got:?}, expected {m:?}", s.m);
		must!(got == m, format!("C15:{name}-result"), "{a:?} turned {:?} into {got:?}, expected {m:?}", s.m);
		must!(ev == want_ev, format!("{p}:{name}-events"), "{a:?} in {:?} deposited {ev:?}, expected {want_ev:?}", s.m);
		// independent of the model: how much may be spent within one epoch
		let mut budget = s.budget.clone();
		if m.epoch != s.m.epoch {
			budget.clear();
		}
		match a {
			// `deduct` alone draws on what was left from the provider's last epoch
			Act::Spend(t, x) | Act::Deduct(t, x) if m.prov[t].last == m.epoch => {
				let before = &s.m.prov[t];
				let b = budget.entry(*t).or_insert((before.issued.max(before.remaining), 0));
				b.1 += x;
				must!(b.1 <= b.0, "C14:overspent", "{a:?} in {:?}: {} capacity spent in an epoch with at most {} issued", s.m, b.1, b.0);
			},
			Act::Stake(..) =>
				if let Some(pc::Event::Staked { target, capacity, .. }) = ev.first() {
					if let Some(b) = budget.get_mut(target) {
						b.0 += capacity;
					}
				},
			_ => {},
		}
		Ok(Some(St { io, m: got, budget }))
	}
	fn check(&self, s: &St) -> Result<(), Bad> {
		let m = &s.m;
		for (i, a) in m.acc.iter().enumerate() {
			let un: u64 = a.unlock.iter().map(|c| c.0).sum();
			must!(a.frozen == a.active + un, "C13:frozen", "account {} has {} frozen, {} staked and {un} unlocking: {m:?}", i + 1, a.frozen, a.active);
			must!(a.frozen <= a.bal, "C13:frozen-exceeds-balance", "account {} has {} frozen of {}: {m:?}", i + 1, a.frozen, a.bal);
			must!(a.active == a.on.values().map(|x| x.0).sum::<u64>(), "C13:active-sum", "account {} has {} staked, {:?} on its targets: {m:?}", i + 1, a.active, a.on);
			must!(a.unlock.len() <= CHUNKS, "C15:chunks", "account {} has {} unlocking amounts", i + 1, a.unlock.len());
		}
		for (t, p) in &m.prov {
			must!(p.staked == m.acc.iter().filter_map(|a| a.on.get(t)).map(|x| x.0).sum::<u64>(), "C13:target-sum", "provider {t} records {} staked: {m:?}", p.staked);
			must!(p.remaining <= p.issued, "C14:remaining-exceeds-issued", "provider {t} has {} of {} left: {m:?}", p.remaining, p.issued);
			must!(Registered::validate(*t), "C14:unregistered", "{t} received capacity: {m:?}");
			must!(p.staked > 0 || p.issued == 0, "C14:issued-without-stake", "provider {t} has {} issued with nothing staked: {m:?}", p.issued);
		}
		peek(&s.io, || {
			for t in TARGETS {
				let (b, c) = (Capacity::balance(t), Capacity::can_replenish(t));
				let p = m.prov.get(&t).cloned().unwrap_or_default();
				must!(b == p.remaining && c == (m.prov.contains_key(&t) && p.last < m.epoch), "C14:queries", "provider {t} reports {b} left, refill due {c}: {m:?}");
			}
			Ok(())
		})
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!(format!("{:?}", s.m))
	}
}
fn base() -> Sys {
	Sys { stakes: vec![4, 6, 10, 100], unstakes: vec![0, 1, 4, 6], targets: vec![1, 2], lengths: false, spends: false, transfers: false, horizon: 8, init: [30, 17], len: 2, first: 1 }
}
fn staking(r: &Run) {
	let (d, n, t) = (mc::pick(5, 7), mc::pick(300_000, 3_000_000), mc::pick(80, 300));
	mc::explore(r, "staking", &Sys { transfers: true, ..base() }, Bounds { depth: d, max_states: n, secs: t });
	mc::explore(r, "staking, one target", &Sys { targets: vec![1], len: 1, stakes: vec![6, 10], unstakes: vec![1, 3], ..base() }, Bounds { depth: d + 2, max_states: n, secs: t });
}
fn spending(r: &Run) {
	mc::explore(r, "spending", &Sys { spends: true, stakes: vec![6, 15], unstakes: vec![4], horizon: 6, ..base() }, Bounds { depth: mc::pick(5, 7), max_states: mc::pick(300_000, 3_000_000), secs: mc::pick(80, 300) });
	mc::explore(r, "spending, unregistered", &Sys { spends: true, targets: vec![1, 9], stakes: vec![6, 15], unstakes: vec![4], horizon: 6, len: 1, ..base() }, Bounds { depth: mc::pick(6, 8), max_states: mc::pick(300_000, 3_000_000), secs: mc::pick(80, 300) });
}
fn thawing(r: &Run) {
	mc::explore(r, "thawing", &Sys { lengths: true, targets: vec![1], stakes: vec![8, 15], unstakes: vec![1, 2], horizon: 12, ..base() }, Bounds { depth: mc::pick(7, 9), max_states: mc::pick(300_000, 3_000_000), secs: mc::pick(80, 300) });
	mc::explore(r, "thawing, end of the block range", &Sys { lengths: true, targets: vec![1], stakes: vec![15], unstakes: vec![2], first: u32::MAX - 6, horizon: u32::MAX - 3, ..base() }, Bounds { depth: mc::pick(5, 8), max_states: mc::pick(100_000, 1_000_000), secs: mc::pick(60, 200) });
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[
		("C13", staking),
		("C14", |r| {
			staking(r);
			spending(r)
		}),
		("C15", |r| {
			thawing(r);
			staking(r)
		}),
	]);
}

//! C30 C31 C32: pallet-time-release, explored state by state and compared with a ledger model.
use fr::{run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_time_release as ptr;
use ptr::ReleaseSchedule;
use sdk::frame_support::traits::{fungible::InspectFreeze, EnsureOrigin, Get};
use sdk::frame_support::{construct_runtime, traits::UnfilteredDispatchable};
use sdk::frame_system::{self, RawOrigin};
use sdk::pallet_balances;
use sdk::sp_runtime::traits::BlockNumberProvider;
use sdk::sp_runtime::BuildStorage;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fr::base_runtime!(account = u64, balance = u64, ed = 1, freezes = 2);
pub struct Payer;
impl EnsureOrigin<RuntimeOrigin> for Payer {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		Into::<Result<RawOrigin<u64>, RuntimeOrigin>>::into(o).and_then(|o| match o {
			RawOrigin::Signed(a) if a != C => Ok(a),
			r => Err(RuntimeOrigin::from(r)),
		})
	}
}
pub struct Now;
impl BlockNumberProvider for Now {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		frame_system::Pallet::<Test>::block_number()
	}
}
/// The limits, which some explorations vary.
static MAX: AtomicU64 = AtomicU64::new(2);
static MIN: AtomicU64 = AtomicU64::new(2);
fn most() -> usize {
	MAX.load(Relaxed) as usize
}
fn least() -> u64 {
	MIN.load(Relaxed)
}
pub struct Most;
impl Get<u32> for Most {
	fn get() -> u32 {
		most() as u32
	}
}
pub struct Least;
impl Get<u64> for Least {
	fn get() -> u64 {
		least()
	}
}
impl ptr::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Balances;
	type MinReleaseTransfer = Least;
	type TransferOrigin = Payer;
	type WeightInfo = ();
	type MaxReleaseSchedules = Most;
	type BlockNumberProvider = Now;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type Balance = u64;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		TimeRelease: ptr::{Pallet, Storage, Call, Event<T>, Config<T>, FreezeReason},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);
const A: u64 = 1;
const B: u64 = 2;
/// Not allowed to make scheduled transfers.
const C: u64 = 3;
const ACC: [u64; 3] = [A, B, C];
type Sch = (u32, u32, u32, u64);
fn real(s: &Sch) -> ReleaseSchedule<u32, u64> {
	ReleaseSchedule { start: s.0, period: s.1, period_count: s.2, per_period: s.3 }
}
/// What a schedule holds back at a block, from its definition.
fn held(s: &Sch, now: u32) -> u64 {
	let mut n = 0u64;
	for i in 1..=s.2 as u64 {
		// the i-th portion is released at start + i * period
		if (s.0 as u64) + i * (s.1 as u64) > now as u64 {
			n += s.3
		}
	}
	n
}
fn valid(s: &Sch) -> Option<u64> {
	let end = s.1 as u128 * s.2 as u128 + s.0 as u128;
	let tot = s.2 as u128 * s.3 as u128;
	(s.1 > 0 && s.2 > 0 && end <= u32::MAX as u128 && tot <= u64::MAX as u128 && tot >= least() as u128).then_some(tot as u64)
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Acct {
	bal: u64,
	frozen: u64,
	sch: Vec<Sch>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Model {
	now: u32,
	acc: [Acct; 3],
}
fn observe() -> Model {
	let acc = ACC.map(|a| {
		use sdk::frame_support::traits::fungible::Inspect;
		Acct {
			bal: <Balances as Inspect<u64>>::total_balance(&a),
			frozen: Balances::balance_frozen(&ptr::FreezeReason::TimeReleaseVesting.into(), &a),
			sch: TimeRelease::release_schedules(a).iter().map(|s| (s.start, s.period, s.period_count, s.per_period)).collect(),
		}
	});
	Model { now: System::block_number(), acc }
}
#[derive(Clone, Debug)]
enum Act {
	Transfer(u64, u64, Sch),
	Claim(u64),
	ClaimFor(u64, u64),
	/// None: root
	Update(Option<u64>, u64, Vec<Sch>),
	Spend(u64, u64),
	NoOrigin(u8),
	Advance(u32),
}
struct Sys {
	schedules: Vec<Sch>,
	updates: Vec<Vec<Sch>>,
	spends: Vec<u64>,
	horizon: u32,
	init: Vec<[u64; 3]>,
	lean: bool,
}
#[derive(Clone)]
struct St {
	io: Io,
	m: Model,
}
impl Sys {
	fn act(&self, m: &Model, a: &Act) -> (RuntimeOrigin, Option<RuntimeCall>) {
		let s = |x: u64| RuntimeOrigin::signed(x);
		match a {
			Act::Transfer(f, t, x) => (s(*f), Some(RuntimeCall::TimeRelease(ptr::Call::transfer { dest: *t, schedule: real(x) }))),
			Act::Claim(w) => (s(*w), Some(RuntimeCall::TimeRelease(ptr::Call::claim {}))),
			Act::ClaimFor(c, w) => (s(*c), Some(RuntimeCall::TimeRelease(ptr::Call::claim_for { dest: *w }))),
			Act::Update(c, w, v) => (c.map_or(RuntimeOrigin::root(), s), Some(RuntimeCall::TimeRelease(ptr::Call::update_release_schedules { who: *w, release_schedules: v.iter().map(real).collect() }))),
			Act::Spend(w, n) => (s(*w), Some(RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: if *w == A { B } else { A }, value: *n }))),
			Act::NoOrigin(n) => (
				if *n % 2 == 0 { RuntimeOrigin::none() } else { RuntimeOrigin::root() },
				Some(RuntimeCall::TimeRelease(match n / 2 {
					0 => ptr::Call::claim {},
					1 => ptr::Call::claim_for { dest: A },
					_ => ptr::Call::transfer { dest: B, schedule: real(&(m.now, 1, 1, 2)) },
				})),
			),
			Act::Advance(_) => (RuntimeOrigin::none(), None),
		}
	}
	/// The model: Some(Ok) must succeed with this result, Some(Err) must fail, None: either.
	fn model(&self, m: &Model, a: &Act) -> (Option<bool>, Model) {
		let mut n = m.clone();
		let ix = |w: u64| w as usize - 1;
		let prune = |x: &mut Acct, now: u32| {
			x.sch.retain(|s| held(s, now) > 0);
			x.sch.iter().map(|s| held(s, now)).sum::<u64>()
		};
		let ok = match a {
			Act::Advance(k) => {
				n.now += k;
				Some(true)
			},
			Act::NoOrigin(_) => Some(false),
			Act::Claim(w) | Act::ClaimFor(_, w) => {
				let x = &mut n.acc[ix(*w)];
				x.frozen = prune(x, m.now);
				Some(true)
			},
			Act::Update(c, w, v) => {
				let x = &mut n.acc[ix(*w)];
				let tot: Option<u64> = v.iter().try_fold(0u64, |t, s| t.checked_add(valid(s)?));
				if c.is_some() || v.len() > most() || tot.map_or(true, |t| t > x.bal) {
					Some(false)
				} else {
					x.sch = v.clone();
					x.frozen = tot.unwrap();
					Some(true)
				}
			},
			Act::Spend(w, v) => {
				let o = if *w == A { B } else { A };
				let free = m.acc[ix(*w)].bal.saturating_sub(m.acc[ix(*w)].frozen);
				n.acc[ix(*w)].bal = m.acc[ix(*w)].bal.saturating_sub(*v);
				n.acc[ix(o)].bal += v;
				if *v > free {
					Some(false)
				} else if *v < free {
					Some(true)
				} else {
					None
				}
			},
			Act::Transfer(f, t, s) => {
				let tot = valid(s);
				let free = m.acc[ix(*f)].bal.saturating_sub(m.acc[ix(*f)].frozen);
				match tot {
					None => Some(false),
					_ if *f == C => Some(false),
					Some(tot) => {
						let x = &mut n.acc[ix(*t)];
						let fz = prune(x, m.now);
						if x.sch.len() >= most() {
							Some(false)
						} else {
							x.sch.push(*s);
							x.frozen = fz.saturating_add(tot);
							if f != t {
								x.bal = x.bal.saturating_add(tot);
								n.acc[ix(*f)].bal = m.acc[ix(*f)].bal.saturating_sub(tot);
							}
							if tot > free {
								Some(false)
							} else if tot < free || f == t {
								Some(true)
							} else {
								None
							}
						}
					},
				}
			},
		};
		(ok, n)
	}
}
fn prop(a: &Act) -> &'static str {
	match a {
		Act::Claim(_) | Act::ClaimFor(..) => "C30,C31",
		Act::Spend(..) => "C30",
		_ => "C30,C32",
	}
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		self.init
			.iter()
			.map(|b| {
				let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
				pallet_balances::GenesisConfig::<Test> { balances: ACC.iter().zip(b).filter(|x| *x.1 > 0).map(|x| (*x.0, *x.1)).collect() }.assimilate_storage(&mut t).unwrap();
				ptr::GenesisConfig::<Test> { _config: Default::default(), schedules: if b[2] >= 4 { vec![(C, 0, 1, 2, 2)] } else { vec![] } }.assimilate_storage(&mut t).unwrap();
				let mut x = sdk::io::TestExternalities::new(t);
				let m = x.execute_with(|| {
					System::set_block_number(1);
					observe()
				});
				St { io: x.into_state(), m }
			})
			.collect()
	}
	fn key(&self, s: &St) -> u128 {
		fr::key(&s.io)
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		if self.lean {
			// one account that receives
			for x in &self.schedules {
				v.push(Act::Transfer(A, B, *x));
			}
			v.push(Act::Claim(B));
			v.push(Act::ClaimFor(C, B));
			for x in &self.updates {
				v.push(Act::Update(None, B, x.clone()));
			}
			let free = s.m.acc[1].bal.saturating_sub(s.m.acc[1].frozen);
			v.push(Act::Spend(B, free + 1));
			if free > 1 {
				v.push(Act::Spend(B, free - 1));
			}
			if s.m.now < self.horizon {
				v.push(Act::Advance(1));
			}
			return v
		}
		for f in ACC {
			for t in ACC {
				for x in &self.schedules {
					if f != C || *x == self.schedules[0] {
						v.push(Act::Transfer(f, t, *x));
					}
				}
			}
			v.push(Act::Claim(f));
			for x in &self.spends {
				v.push(Act::Spend(f, *x));
			}
			// exactly what is free, and one more
			let free = s.m.acc[f as usize - 1].bal.saturating_sub(s.m.acc[f as usize - 1].frozen);
			v.push(Act::Spend(f, free + 1));
			for x in &self.updates {
				v.push(Act::Update(None, f, x.clone()));
			}
			v.push(Act::Update(Some(A), f, self.updates[0].clone()));
			if f != A {
				v.push(Act::ClaimFor(A, f));
			}
		}
		v.push(Act::ClaimFor(C, A));
		for i in 0..6 {
			v.push(Act::NoOrigin(i));
		}
		if s.m.now < self.horizon {
			v.push(Act::Advance(1));
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		let (want, mut next) = self.model(&s.m, a);
		let (origin, call) = self.act(&s.m, a);
		let ((r, got, nev), io) = run(&s.io, || {
			let r = match call {
				None => {
					System::set_block_number(next.now);
					Ok(())
				},
				Some(c) => c.dispatch_bypass_filter(origin).map(|_| ()).map_err(|e| e.error),
			};
			let n = System::events().len();
			System::reset_events();
			(r, observe(), n)
		});
		let p = prop(a);
		if let Some(w) = want {
			must!(r.is_ok() == w, format!("{p}:{}-{}", mc::action_name(a), if w { "refused" } else { "accepted" }), "{a:?} at block {} in {:?} returned {r:?}", s.m.now, s.m.acc);
		}
		if r.is_err() {
			must!(got == s.m && fr::key(&io) == fr::key(&s.io) && nev == 0, format!("{p}:{}-failed-with-effect", mc::action_name(a)), "{a:?} failed with {r:?} but changed {:?} into {got:?}", s.m);
			return Ok(None)
		}
		// an account emptied completely: what it leaves is the ledger's business
		if let Act::Spend(..) | Act::Transfer(..) = a {
			let sum = |m: &Model| m.acc.iter().map(|x| x.bal).sum::<u64>();
			must!(sum(&got) == sum(&s.m), format!("{p}:{}-conservation", mc::action_name(a)), "{a:?} turned {:?} into {got:?}", s.m);
		}
		next.now = got.now;
		must!(got == next, format!("{p}:{}-result", mc::action_name(a)), "{a:?} turned {:?} into {got:?}, expected {next:?}", s.m);
		for (i, x) in got.acc.iter().enumerate() {
			let h: u64 = x.sch.iter().map(|s| held(s, got.now)).sum();
			must!(x.frozen >= h, "C30:frozen-too-little", "account {} has {} frozen but its schedules hold back {h} at block {} after {a:?}", i + 1, x.frozen, got.now);
			must!(x.bal >= x.frozen, "C30:frozen-spent", "account {} has {} tokens with {} frozen after {a:?}", i + 1, x.bal, x.frozen);
			must!(x.sch.len() <= most(), "C32:too-many-schedules", "account {} has {} schedules", i + 1, x.sch.len());
		}
		Ok(Some(St { io, m: got }))
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!(format!("{:?}", s.m))
	}
}
fn explore(r: &Run) {
	genesis(r);
	let ov = vec![(2u32, 0u32, 1u32, 3u64), (2, 1, 0, 3), (u32::MAX, 1, 1, 3), (0, u32::MAX, 2, 3), (0, 1, 3, u64::MAX / 2), (0, 1, 1, u64::MAX), (0, 1, 1, 1)];
	// every boundary argument, one action deep everywhere in a shallow space
	let mut all = vec![(1u32, 1u32, 2u32, 2u64), (0, 2, 1, 5), (3, 1, 1, 2)];
	let few = all.clone();
	all.extend(ov.clone());
	let two = vec![few[0], few[1]];
	let mut ups = vec![vec![], vec![few[0]], two.clone(), vec![few[0], few[0], few[2]], vec![(0, 1, 1, 100)], vec![(0, 1, 2, u64::MAX / 2), (0, 1, 2, u64::MAX / 2)]];
	ups.extend(ov.iter().map(|s| vec![few[0], *s]));
	let a = Sys { schedules: all, updates: ups, spends: vec![1, 4], horizon: 4, init: vec![[12, 5, 0], [6, 0, 4]], lean: false };
	mc::explore(r, "boundary arguments", &a, Bounds { depth: mc::pick(4, 5), max_states: 1_500_000, secs: mc::pick(60, 400) });
	// more schedules at once, ending at different times and not in the order they came; a higher minimum
	MAX.store(4, Relaxed);
	MIN.store(4, Relaxed);
	let many = vec![(1u32, 1u32, 4u32, 1u64), (0, 2, 1, 5), (1, 1, 1, 4), (0, 3, 2, 2), (2, 1, 3, 1), (0, 1, 3, 1)];
	let c = Sys { schedules: many.clone(), updates: vec![vec![], vec![many[2], many[0], many[3], many[1]], vec![many[0], many[1], many[2], many[3], many[0]]], spends: vec![], horizon: 7, init: vec![[60, 5, 1]], lean: true };
	mc::explore(r, "four schedules at once", &c, Bounds { depth: mc::pick(7, 10), max_states: mc::pick(150_000, 3_000_000), secs: mc::pick(60, 300) });
	MAX.store(2, Relaxed);
	MIN.store(2, Relaxed);
	let b = Sys { schedules: few, updates: vec![two, vec![]], spends: vec![4], horizon: mc::pick(5, 7), init: vec![[12, 5, 0], [6, 0, 4]], lean: false };
	mc::explore(r, "histories", &b, Bounds { depth: mc::pick(8, 10), max_states: mc::pick(400_000, 3_000_000), secs: mc::pick(60, 400) });
}
/// Every way to begin: lists of scheduled items for two accounts, whose balances suffice, just do not, or are ample.
fn genesis(r: &Run) {
	let some: Vec<Sch> = vec![(0, 2, 3, 1), (1, 1, 2, 2), (5, 1, 1, 7), (0, 1, 1, 1), (0, 0, 1, 3), (u32::MAX, 1, 1, 3), (0, 1, 3, u64::MAX / 2)];
	let mut one: Vec<(u64, Sch)> = [B, C].iter().flat_map(|a| some.iter().map(move |s| (*a, *s))).collect();
	one.push((B, (0, 1, 1, u64::MAX / 2 + 1)));
	let mut lists: Vec<Vec<(u64, Sch)>> = vec![vec![]];
	let mut from = 0;
	for _ in 0..mc::pick(3, 4) {
		let to = lists.len();
		for i in from..to {
			for x in &one {
				let mut v = lists[i].clone();
				v.push(*x);
				lists.push(v);
			}
		}
		from = to;
	}
	mc::par(lists.len(), |i| {
		let list = &lists[i];
		// what each account needs: nothing if its list is in order and not longer than allowed
		let need = |a: u64| {
			let l: Vec<&Sch> = list.iter().filter(|x| x.0 == a).map(|x| &x.1).collect();
			let tot = l.iter().try_fold(0u64, |t, s| t.checked_add(valid(s)?));
			(l.len(), if l.len() > most() { None } else { tot })
		};
		let (b, c) = (need(B), need(C));
		for slack in 0..4u64 {
			// 0, 1: one too few for B, for C; 2: just enough; 3: more than enough
			let bal = |n: u64, short: bool| match slack {
				3 => n.saturating_add(5),
				_ if short => n.saturating_sub(1).max(1),
				_ => n.max(1),
			};
			let bals = [(B, bal(b.1.unwrap_or(50), slack == 0)), (C, bal(c.1.unwrap_or(50), slack == 1))];
			let want = b.1.map_or(false, |n| n <= bals[0].1) && c.1.map_or(false, |n| n <= bals[1].1);
			r.eval(1);
			let got = mc::catch(|| {
				let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
				pallet_balances::GenesisConfig::<Test> { balances: bals.to_vec() }.assimilate_storage(&mut t).unwrap();
				ptr::GenesisConfig::<Test> { _config: Default::default(), schedules: list.iter().map(|(a, s)| (*a, s.0, s.1, s.2, s.3)).collect() }.assimilate_storage(&mut t).unwrap();
				let mut x = sdk::io::TestExternalities::new(t);
				x.execute_with(observe)
			});
			let at = || format!("genesis with {list:?} and balances {bals:?}");
			match (want, got) {
				(true, Err(e)) => r.fail("C30,C32:genesis-refused", format!("{} panicked: {e}", at()), serde_json::json!({ "what": at() })),
				(false, Ok(m)) => r.fail("C30,C32:genesis-accepted", format!("{} was accepted: {m:?}", at()), serde_json::json!({ "what": at() })),
				(false, Err(_)) => (),
				(true, Ok(m)) => {
					for (n, a) in [(b.1, B), (c.1, C)] {
						let x = &m.acc[a as usize - 1];
						let sch: Vec<Sch> = list.iter().filter(|x| x.0 == a).map(|x| x.1).collect();
						if x.sch != sch || x.frozen != n.unwrap() || !bals.contains(&(a, x.bal)) {
							r.fail("C30,C32:genesis", format!("{}: account {a} begins as {x:?}", at()), serde_json::json!({ "what": at() }));
						}
					}
				},
			}
		}
	});
	r.note("genesis", serde_json::json!({ "lists of scheduled items": lists.len(), "balances each": 4 }));
}
fn arithmetic(r: &Run) {
	let bad = |k: &str, w: String| r.fail(k, w.clone(), serde_json::json!({ "what": w }));
	let one = |s: &Sch, times: &mut dyn Iterator<Item = u32>| {
		let x = real(s);
		let end = s.1 as u128 * s.2 as u128 + s.0 as u128;
		let tot = s.2 as u128 * s.3 as u128;
		r.eval(1);
		match mc::catch(|| (x.end(), x.total_amount())) {
			Err(p) => return bad("panic", format!("end/total of {s:?} panicked: {p}")),
			Ok((e, t)) => {
				if e.map(|e| e as u128) != (end <= u32::MAX as u128).then_some(end) {
					bad("end", format!("end of {s:?} is {e:?}, should be {end}"));
				}
				if t.map(|e| e as u128) != (tot <= u64::MAX as u128).then_some(tot) {
					bad("total", format!("total of {s:?} is {t:?}, should be {tot}"));
				}
				if e.is_none() || t.is_none() || s.1 == 0 {
					return
				}
			},
		}
		let mut last: Option<(u32, u64)> = None;
		for now in times {
			r.eval(1);
			let done = ((now as u128).saturating_sub(s.0 as u128) / s.1 as u128).min(s.2 as u128);
			let want = (s.2 as u128 - done) * s.3 as u128;
			match mc::catch(|| x.frozen_amount(now)) {
				Err(p) => return bad("panic", format!("frozen_amount of {s:?} at {now} panicked: {p}")),
				Ok(g) if g as u128 != want => return bad("frozen", format!("{s:?} holds back {g} at block {now}, should be {want}")),
				Ok(g) => {
					if let Some((t0, g0)) = last {
						if t0 <= now && g > g0 {
							return bad("increases", format!("{s:?} holds back {g} at {now} after {g0} at {t0}"))
						}
					}
					if (now as u128 >= end) != (g == 0) && s.3 > 0 && s.2 > 0 {
						return bad("end-block", format!("{s:?} holds back {g} at {now}, ends at {end}"))
					}
					last = Some((now, g));
				},
			}
		}
	};
	let (d, e) = mc::pick((6u32, 24u32), (12, 60));
	mc::par((d + 1) as usize, |start| {
		for period in 0..=d {
			for count in 0..=d {
				for per in 0..=4u64 {
					one(&(start as u32, period, count, per), &mut (0..=e.max(d + d * d + 1)));
				}
			}
		}
	});
	let b32 = [0u32, 1, 2, 3, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, u32::MAX / 2, u32::MAX / 3, u32::MAX - 1, u32::MAX];
	let b64 = [0u64, 1, 2, 3, u32::MAX as u64, 1 << 32, u64::MAX / 3, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX - 1, u64::MAX];
	mc::par(b32.len(), |i| {
		let start = b32[i];
		for period in b32 {
			for count in b32 {
				for per in b64 {
					let mut t: Vec<u32> = b32.to_vec();
					for k in [0u128, 1, 2, count as u128 / 2, count as u128 - (count > 0) as u128, count as u128] {
						let x = start as u128 + k * period as u128;
						for y in [x.saturating_sub(1), x, x + 1] {
							if y <= u32::MAX as u128 {
								t.push(y as u32)
							}
						}
					}
					t.sort();
					one(&(start, period, count, per), &mut t.into_iter());
				}
			}
		}
	});
	r.note("space", serde_json::json!({"small schedules": format!("start, period, count 0..={d}, amount 0..=4, every block up to past the end"), "extreme": "all combinations of 13x13x13x11 boundary values at 13 boundary blocks and around period edges"}));
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[("C30", explore), ("C31", c31), ("C32", explore)]);
}
fn c31(r: &Run) {
	explore(r);
	arithmetic(r);
	r.state(r.evaluations.load(std::sync::atomic::Ordering::Relaxed));
}

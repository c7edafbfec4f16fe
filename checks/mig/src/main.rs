//! C39: every storage migration, run zero, one and two times over every small storage content, in the real runtime.
use common_primitives::node::{AccountId, Balance};
use fr::{prefix, run as on, Io};
use mc::Run;
use runtime_main::{Executive, Runtime, RuntimeFreezeReason, RuntimeOrigin};
use sdk::codec::{Decode, Encode};
use sdk::frame_support::traits::fungible::{Inspect, InspectFreeze, MutateFreeze};
use sdk::frame_support::traits::tokens::{Fortitude, Preservation};
use sdk::frame_support::traits::{LockableCurrency, OnRuntimeUpgrade, WithdrawReasons};
use sdk::sp_core::{twox_64, H256};
use sdk::sp_runtime::MultiAddress;
use serde_json::json;
use std::collections::BTreeMap;

type Balances = sdk::pallet_balances::Pallet<Runtime>;
fn account(n: usize) -> AccountId {
	AccountId::new([n as u8 + 1; 32])
}
fn genesis() -> Io {
	use sdk::frame_support::traits::BuildGenesisConfig;
	on(&Io::default(), || {
		<sdk::frame_system::GenesisConfig<Runtime> as BuildGenesisConfig>::build(&Default::default());
		Executive::initialize_block(1, Default::default());
	})
	.1
}
fn put(st: &mut Io, k: Vec<u8>, v: Vec<u8>) {
	st.top.insert(k, v);
}
fn version_key(pallet: &str) -> Vec<u8> {
	prefix(pallet, ":__STORAGE_VERSION__:")
}
fn version(st: &Io, pallet: &str) -> u16 {
	st.top.get(&version_key(pallet)).map_or(0, |b| u16::decode(&mut &b[..]).unwrap_or(u16::MAX))
}
fn t64<T: Encode>(x: T) -> Vec<u8> {
	let e = x.encode();
	[&twox_64(&e)[..], &e].concat()
}
/// What differs between two storages, by key.
fn diff(a: &Io, b: &Io) -> Vec<String> {
	let mut v = vec![];
	for k in a.top.keys().chain(b.top.keys().filter(|k| !a.top.contains_key(*k))) {
		if a.top.get(k) != b.top.get(k) {
			v.push(k.iter().map(|x| format!("{x:02x}")).collect::<String>());
		}
	}
	if a.child != b.child {
		v.push("child tries".into());
	}
	v
}
/// Runs the migration; what happens the second time is the same for each of them: nothing.
fn twice(run: &Run, who: &str, pallet: &str, to: u16, content: &dyn std::fmt::Debug, before: &Io, f: impl Fn()) -> Option<Io> {
	run.state(1);
	run.trans(2);
	run.trace(1);
	let from = version(before, pallet);
	let once = |st: &Io| mc::catch(|| on(st, &f).1);
	let after = match once(before) {
		Ok(a) => a,
		Err(e) => {
			run.fail(&format!("{who}-panics"), format!("migration {who} over {content:?} panics: {e}"), json!({ "content": format!("{content:?}") }));
			return None
		},
	};
	if from >= to {
		let d = diff(before, &after);
		run.ok(d.is_empty(), &format!("{who}-ran-on-migrated"), || format!("migration {who} from version {from} changed {d:?} of {content:?}"));
		return None
	}
	run.ok(version(&after, pallet) == to, &format!("{who}-version"), || format!("migration {who} over {content:?} left version {}", version(&after, pallet)));
	if let Ok(again) = once(&after) {
		let d = diff(&after, &again);
		run.ok(d.is_empty(), &format!("{who}-not-idempotent"), || format!("migration {who} over {content:?} changed {d:?} when run again"));
	} else {
		run.fail(&format!("{who}-panics-again"), format!("migration {who} over {content:?} panics when run again"), json!({}));
	}
	Some(after)
}
/// Everything outside these storage items is as it was.
fn elsewhere(run: &Run, who: &str, content: &dyn std::fmt::Debug, before: &Io, after: &Io, items: &[Vec<u8>]) {
	run.ok(fr::key_without(before, items) == fr::key_without(after, items), &format!("{who}-touched-others"), || format!("migration {who} over {content:?} changed storage that is none of its own: {:?}", diff(before, after)));
}

// ---- messages: the list of a block and schema becomes one entry per message
#[derive(Clone, Debug, Encode, Decode, PartialEq)]
struct OldMessage {
	payload: Vec<u8>,
	provider: u64,
	msa: Option<u64>,
	index: u16,
}
fn messages(run: &Run) {
	let base = genesis();
	let old_item = prefix("Messages", "Messages");
	let new_item = prefix("Messages", "MessagesV2");
	let old_key = |b: u32, s: u16| [old_item.clone(), t64(b), t64(s)].concat();
	let new_key = |b: u32, s: u16, i: u16| [new_item.clone(), t64(b), t64(s), t64(i)].concat();
	let max = 3072usize.min(<<Runtime as pallet_messages::Config>::MessagesMaxPayloadSizeBytes as sdk::frame_support::traits::Get<u32>>::get() as usize);
	let kinds: Vec<(Vec<u8>, u64, Option<u64>)> = vec![(vec![], 1, Some(1)), (vec![7], 1, Some(2)), (vec![0; max], u64::MAX, None), (b"ipfs".to_vec(), 2, Some(u64::MAX))];
	// the lists one (block, schema) may hold: any messages, at any places of the block's order
	let mut lists: Vec<Vec<OldMessage>> = vec![];
	let mk = |k: &(Vec<u8>, u64, Option<u64>), index: u16| OldMessage { payload: k.0.clone(), provider: k.1, msa: k.2, index };
	for a in &kinds {
		for i in [0u16, 1, 2, u16::MAX] {
			lists.push(vec![mk(a, i)]);
			for b in mc::pick(&kinds[..2], &kinds[..]) {
				for j in [0u16, 3, 2] {
					if i != j {
						lists.push(vec![mk(a, i), mk(b, j)]);
					}
				}
			}
		}
	}
	lists.push((0..200).map(|i| mk(&kinds[i as usize % 3], 199 - i)).collect());
	let few: Vec<usize> = (0..lists.len()).step_by(mc::pick(11, 3)).collect();
	let places = [(0u32, 1u16), (5, 1), (5, 2), (u32::MAX, u16::MAX)];
	// (place, list) pairs present together
	let mut contents: Vec<Vec<(usize, usize)>> = vec![vec![]];
	for p in 0..places.len() {
		contents.extend((0..lists.len()).map(|l| vec![(p, l)]));
		for q in p + 1..places.len() {
			for l in &few {
				contents.extend(few.iter().map(|m| vec![(p, *l), (q, *m)]));
			}
		}
	}
	contents.push((0..4).map(|p| (p, few[p])).collect());
	run.note("messages: storage contents", contents.len() as u64);
	mc::par(contents.len(), |n| {
		for v in 0..=3u16 {
			if v > 1 && n % 7 != 0 {
				continue
			}
			let mut st = base.clone();
			let mut want = BTreeMap::new();
			// the place (5, 2) shares its block's order with (5, 1)
			for (p, l) in &contents[n] {
				let (b, s) = places[*p];
				put(&mut st, old_key(b, s), lists[*l].encode());
				for m in &lists[*l] {
					want.insert(new_key(b, s, m.index), (m.payload.clone(), m.provider, m.msa).encode());
				}
			}
			put(&mut st, version_key("Messages"), v.encode());
			let content = (v, contents[n].iter().map(|(p, l)| (places[*p], lists[*l].iter().map(|m| (m.payload.len(), m.provider, m.msa, m.index)).take(3).collect::<Vec<_>>())).collect::<Vec<_>>());
			let Some(after) = twice(run, "messages-v2", "Messages", 2, &content, &st, || {
				pallet_messages::migration::v2::MigrateToV2::<Runtime>::on_runtime_upgrade();
			}) else { continue };
			let got: BTreeMap<Vec<u8>, Vec<u8>> = after.top.iter().filter(|(k, _)| k.starts_with(&new_item)).map(|(k, v)| (k.clone(), v.clone())).collect();
			run.ok(got == want, "messages-v2-content", || format!("migration messages-v2 over {content:?} left {} of {} messages as they were, {} in all", want.iter().filter(|(k, v)| got.get(*k) == Some(*v)).count(), want.len(), got.len()));
			run.ok(!after.top.keys().any(|k| k.starts_with(&old_item)), "messages-v2-leftovers", || format!("migration messages-v2 over {content:?} left old entries"));
			elsewhere(run, "messages-v2", &content, &st, &after, &[old_item.clone(), new_item.clone(), version_key("Messages")]);
		}
	});
}

// ---- schemas: six known schemas of the main net get their names
fn schemas(run: &Run) {
	let base = genesis();
	const MAINNET: [u8; 32] = [74, 88, 123, 241, 122, 64, 78, 53, 114, 116, 122, 221, 122, 171, 123, 190, 86, 232, 5, 165, 71, 156, 108, 67, 111, 7, 243, 111, 204, 141, 58, 225];
	let paseo: [u8; 32] = [0x20, 0x3c, 0x68, 0x38, 0xfc, 0x78, 0xea, 0x36, 0x60, 0xa2, 0xf2, 0x98, 0xa5, 0x8d, 0x85, 0x95, 0x19, 0xc7, 0x2a, 0x5e, 0xfd, 0xc0, 0xf1, 0x94, 0xab, 0xd6, 0xf0, 0xd5, 0xce, 0x18, 0x38, 0xe0];
	let chains = [("mainnet", MAINNET), ("paseo", paseo), ("other", [69; 32])];
	let names: [(u16, &str); 6] = [(5, "update"), (6, "profile"), (7, "public-key-key-agreement"), (8, "public-follows"), (9, "private-follows"), (10, "private-connections")];
	let info_item = prefix("Schemas", "SchemaInfos");
	let name_item = prefix("Schemas", "SchemaNameToIds");
	let info_key = |i: u16| [info_item.clone(), t64(i)].concat();
	let b128 = |x: Vec<u8>| [&sdk::sp_core::blake2_128(&x)[..], &x].concat();
	let name_key = |ns: &str, d: &str| [name_item.clone(), b128(ns.as_bytes().to_vec().encode()), b128(d.as_bytes().to_vec().encode())].concat();
	// (model type, location, settings, has a name)
	let info = |k: usize, named: bool| [(k % 2) as u8, (k % 4) as u8].iter().copied().chain(((k % 4) as u16).encode()).chain([named as u8]).collect::<Vec<u8>>();
	// which of the known schemas exist (all subsets), which wrong entries their names hold, which other names there are
	let wrongs: [&[u16]; 5] = [&[], &[11], &[5], &[3, 4], &[10, 9, 8, 7, 6]];
	let subsets: Vec<u32> = (0..64).collect();
	mc::par(subsets.len(), |n| {
		let sub = subsets[n];
		for (chain, hash) in &chains {
			for v in 0..=5u16 {
				if v >= 1 && v <= 2 && !mc::thorough() {
					continue
				}
				for (w, wrong) in wrongs.iter().enumerate() {
					for at in mc::pick(vec![0usize, 5], vec![0, 1, 2, 3, 4, 5]) {
						for named in [false, true] {
							let mut st = base.clone();
							on_block_hash(&mut st, 0, *hash);
							put(&mut st, version_key("Schemas"), v.encode());
							for i in 1..=12u16 {
								if (5..=10).contains(&i) && sub >> (i - 5) & 1 == 0 {
									continue
								}
								put(&mut st, info_key(i), info(i as usize + w, named && i % 2 == 0));
							}
							if !wrong.is_empty() {
								put(&mut st, name_key("dsnp", names[at].1), wrong.to_vec().encode());
							}
							put(&mut st, name_key("dsnp", "other"), vec![2u16, 11].encode());
							put(&mut st, name_key("other", names[at].1), vec![12u16].encode());
							let content = (chain, v, sub, wrong, names[at].1, named);
							let through_executive = named && w == 1;
							let Some(after) = twice(run, "schemas-v4", "Schemas", 4, &content, &st, || {
								if through_executive {
									Executive::execute_on_runtime_upgrade();
								} else {
									pallet_schemas::migration::v4::MigrateToV4::<Runtime>::on_runtime_upgrade();
								}
							}) else { continue };
							let mut want = st.clone();
							put(&mut want, version_key("Schemas"), 4u16.encode());
							if *chain == "mainnet" {
								for (i, d) in names {
									if sub >> (i - 5) & 1 == 1 {
										put(&mut want, info_key(i), info(i as usize + w, true));
										put(&mut want, name_key("dsnp", d), vec![i].encode());
									}
								}
							}
							let d = diff(&want, &after);
							run.ok(d.is_empty(), "schemas-v4-content", || format!("migration schemas-v4 over {content:?} leaves something else than the known names on the known schemas: {d:?}"));
						}
					}
				}
			}
		}
	});
}
fn on_block_hash(st: &mut Io, n: u32, h: [u8; 32]) {
	let ((), s) = on(st, || sdk::frame_system::BlockHash::<Runtime>::insert(n, H256(h)));
	*st = s;
}

// ---- time release: a balance lock becomes a freeze (pallets/capacity/src/migration/v3.rs is not part of the crate)
const RELEASE: [u8; 8] = *b"timeRels";
const OTHER: [u8; 8] = *b"otherlck";
#[derive(Debug, PartialEq, Clone)]
struct Seen {
	locks: BTreeMap<[u8; 8], Balance>,
	staking: Balance,
	release: Balance,
	total: Balance,
	spendable: Balance,
}
fn staking_reason() -> RuntimeFreezeReason {
	pallet_capacity::FreezeReason::CapacityStaking.into()
}
fn release_reason() -> RuntimeFreezeReason {
	pallet_time_release::FreezeReason::TimeReleaseVesting.into()
}
fn see(st: &Io, n: usize) -> Seen {
	fr::peek(st, || {
		let a = account(n);
		Seen {
			locks: sdk::pallet_balances::Locks::<Runtime>::get(&a).iter().map(|l| (l.id, l.amount)).collect(),
			staking: Balances::balance_frozen(&staking_reason(), &a),
			release: Balances::balance_frozen(&release_reason(), &a),
			total: Balances::total_balance(&a),
			spendable: Balances::reducible_balance(&a, Preservation::Expendable, Fortitude::Polite),
		}
	})
}
fn lock(id: [u8; 8], n: usize, amount: Balance) {
	<Balances as LockableCurrency<AccountId>>::set_lock(id, &account(n), amount, WithdrawReasons::all());
}
const ED: Balance = 1_000_000;
fn time_release(run: &Run) {
	let base = genesis();
	// schedules: (start, period, count, per period); `claimed_at`: when the lock was last brought up to date; `now`
	let scheds: [(u32, u32, u32, Balance); 5] = [(0, 10, 1, 5), (0, 10, 4, 5), (20, 5, 3, 100), (0, 1, 100, 1), (5, 1000, 2, u64::MAX as Balance / 8)];
	let due = |s: &(u32, u32, u32, Balance), at: u32| -> Balance {
		let done = at.saturating_sub(s.0) / s.1;
		s.3 * (s.2.saturating_sub(done)) as Balance
	};
	let mut lists: Vec<Vec<usize>> = mc::strings(&[0usize, 1, 2, 3, 4], 2).into_iter().filter(|l| !l.is_empty()).collect();
	lists.push(vec![0, 1, 2, 3, 4]);
	let mut contents = vec![];
	for l in &lists {
		for claimed in [0u32, 1, 10, 15, 30, 99] {
			for now in [0u32, 1, 10, 15, 25, 30, 40, 120] {
				if now >= claimed {
					for (other, frozen) in [(0 as Balance, 0 as Balance), (7, 4)] {
						contents.push((l.clone(), claimed, now, other, frozen));
					}
				}
			}
		}
	}
	let key = prefix("TimeRelease", "ReleaseSchedules");
	mc::par(contents.len(), |n| {
		let (l, claimed, now, other, frozen) = &contents[n];
		for v in [0u16, 1, 2, 3] {
			if v != 1 && n % 5 != 0 {
				continue
			}
			// the schedules left at the last claim
			let left: Vec<usize> = l.iter().copied().filter(|i| due(&scheds[*i], *claimed) > 0).collect();
			let locked: Balance = left.iter().map(|i| due(&scheds[*i], *claimed)).sum();
			let ((), mut st) = on(&base, || {
				use sdk::sp_runtime::traits::BlockNumberProvider;
				// relay chain time
				<Runtime as pallet_time_release::Config>::BlockNumberProvider::set_block_number(*now);
				Balances::force_set_balance(RuntimeOrigin::root(), MultiAddress::Id(account(0)), locked + 50 + ED).unwrap();
				if locked > 0 {
					lock(RELEASE, 0, locked);
				}
				if *other > 0 {
					lock(OTHER, 0, *other);
				}
				if *frozen > 0 {
					Balances::set_freeze(&staking_reason(), &account(0), *frozen).unwrap();
				}
				sdk::frame_system::Pallet::<Runtime>::reset_events();
			});
			if !left.is_empty() {
				let e = account(0).encode();
				let recs: Vec<_> = left.iter().map(|i| (scheds[*i].0, scheds[*i].1, scheds[*i].2, sdk::codec::Compact(scheds[*i].3))).collect();
				put(&mut st, [key.clone(), sdk::sp_core::blake2_128(&e).to_vec(), e].concat(), recs.encode());
			}
			put(&mut st, version_key("TimeRelease"), v.encode());
			let content = (v, left.iter().map(|i| scheds[*i]).collect::<Vec<_>>(), format!("last claimed at {claimed}, now {now}"), other, frozen);
			let Some(after) = twice(run, "time-release-v2", "TimeRelease", 2, &content, &st, || {
				pallet_time_release::migration::v2::MigrationToV2::<Runtime, Balances>::on_runtime_upgrade();
			}) else { continue };
			let (was, is) = (see(&st, 0), see(&after, 0));
			// not less than is still to be released, not more than was locked
			let low: Balance = left.iter().map(|i| due(&scheds[*i], *now)).sum();
			let mut want = was.clone();
			want.locks.remove(&RELEASE);
			want.release = is.release;
			want.spendable = is.spendable;
			run.ok(is == want, "time-release-v2-content", || format!("migration time-release-v2 over {content:?}: {was:?} became {is:?}, expected {want:?}"));
			run.ok(is.release >= low, "time-release-v2-frees", || format!("migration time-release-v2 over {content:?}: freezes {} of {low} not yet released", is.release));
			run.ok(is.release <= locked, "time-release-v2-freezes-released", || format!("migration time-release-v2 over {content:?}: only {locked} were still locked, {} are frozen", is.release));
			run.ok(is.spendable >= was.spendable, "time-release-v2-spendable", || format!("migration time-release-v2 over {content:?}: {} could be spent, now {}", was.spendable, is.spendable));
			// a claim finds what it would have found
			if !left.is_empty() {
				let (r, end) = on(&after, || pallet_time_release::Pallet::<Runtime>::claim(RuntimeOrigin::signed(account(0))));
				run.ok(r.is_ok() && see(&end, 0).release == low, "time-release-v2-claim", || format!("migration time-release-v2 over {content:?}: then a claim {r:?} leaves {} frozen, {low} are due", see(&end, 0).release));
			}
			let sys = |i: &str| prefix("System", i);
			elsewhere(run, "time-release-v2", &content, &st, &after, &[prefix("Balances", "Locks"), prefix("Balances", "Freezes"), sys("Account"), sys("Events"), sys("EventCount"), version_key("TimeRelease")]);
		}
	});
}
fn c39(run: &Run) {
	mc::quiet_panics();
	messages(run);
	schemas(run);
	time_release(run);
	run.sample(json!({"migration": "time-release-v2", "content": "schedule (0, 10, 4, 5) claimed at 15", "checked": "lock gone; frozen between what is due now and what was locked; run again: no change"}));
}
fn main() {
	mc::main_with(&[("C39", c39 as fn(&Run))])
}

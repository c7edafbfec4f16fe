// C16: what is paid for with capacity. C17: what is paid for with tokens, and what is free.
use super::*;
use sdk::frame_support::weights::{Weight, WeightToFee as _};
use sdk::sp_runtime::transaction_validity::TransactionSource;
use sdk::sp_runtime::traits::Dispatchable;
type Util = sdk::pallet_utility::Call<Runtime>;
type Ftp = pallet_frequency_tx_payment::Call<Runtime>;
type Bal = sdk::pallet_balances::Call<Runtime>;
type Msa = pallet_msa::Pallet<Runtime>;

pub const ED: Balance = 1_000_000;
/// The accounts of these checks.
pub const OWNER: usize = 0; // key of identity 1, holds a lot
pub const SECOND: usize = 1; // key of identity 1, holds exactly the existential deposit
pub const PLAIN: usize = 2; // holds a lot, no identity
pub const DRY: usize = 3; // key of identity 2, holds a lot, identity without capacity
pub const EMPTY: usize = 4; // key of identity 1, holds nothing
pub const NOBODY: usize = 5; // nothing
pub const LOCKED: usize = 6; // key of identity 1, holds twice the existential deposit, all locked
pub const OTHER: usize = 7; // key of identity 3, which has capacity of its own
pub const ALL: [usize; 8] = [OWNER, SECOND, PLAIN, DRY, EMPTY, NOBODY, LOCKED, OTHER];
/// The identity of each account at the start.
pub fn identity(n: usize) -> Option<u64> {
	match n {
		OWNER | SECOND | EMPTY | LOCKED => Some(1),
		DRY => Some(2),
		OTHER => Some(3),
		_ => None,
	}
}
pub fn set_capacity(msa: u64, remaining: Balance, issued: Balance, epoch: u32) {
	pallet_capacity::CapacityLedger::<Runtime>::insert(msa, pallet_capacity::types::CapacityDetails { remaining_capacity: remaining, total_tokens_staked: issued * 50, total_capacity_issued: issued, last_replenished_epoch: epoch });
}
pub fn start() -> Io {
	use sdk::frame_support::traits::{LockableCurrency, WithdrawReasons};
	on(&genesis(&[OWNER, PLAIN, DRY, OTHER]), || {
		give(SECOND, ED);
		give(LOCKED, 2 * ED);
		sdk::pallet_balances::Pallet::<Runtime>::set_lock(*b"a-lock!!", &account(LOCKED), 2 * ED, WithdrawReasons::all());
		for n in [OWNER, DRY, OTHER] {
			assert_eq!(Msa::create_account(account(n), |_| Ok(())).expect("identity").0, identity(n).unwrap());
		}
		for n in [SECOND, EMPTY, LOCKED] {
			Msa::add_key(1, &account(n), |_| Ok(())).expect("key");
		}
		pallet_schemas::Pallet::<Runtime>::set_max_schema_model_bytes(RuntimeOrigin::root(), 1000).expect("limit");
		pallet_schemas::Pallet::<Runtime>::create_schema_v3(
			RuntimeOrigin::signed(account(OWNER)),
			b"{\"type\":\"record\"}".to_vec().try_into().unwrap(),
			common_primitives::schema::ModelType::AvroBinary,
			common_primitives::schema::PayloadLocation::OnChain,
			Default::default(),
			None,
		)
		.expect("schema");
		for p in [2, 3] {
			Msa::create_registered_provider(common_primitives::msa::ProviderId(p), Default::default()).expect("provider");
		}
		Msa::create_registered_provider(common_primitives::msa::ProviderId(1), Default::default()).expect("provider");
		set_capacity(3, 10_000_000_000, 10_000_000_000, 1);
		pallet_capacity::CurrentEpoch::<Runtime>::put(1);
		sdk::frame_system::Pallet::<Runtime>::reset_events();
	})
	.1
}
pub fn message(schema: u16, len: usize) -> RuntimeCall {
	RuntimeCall::Messages(pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: schema, payload: vec![len as u8; len] })
}
pub fn cap(c: RuntimeCall) -> RuntimeCall {
	RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity { call: Box::new(c) })
}
pub fn caps(calls: Vec<RuntimeCall>) -> RuntimeCall {
	RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity_batch_all { calls })
}
pub fn remark() -> RuntimeCall {
	RuntimeCall::System(sdk::frame_system::Call::remark { remark: vec![1] })
}
pub fn pay(to: usize, value: Balance) -> RuntimeCall {
	RuntimeCall::Balances(Bal::transfer_keep_alive { dest: MultiAddress::Id(account(to)), value })
}
pub fn show(c: &RuntimeCall) -> String {
	match c {
		RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity { call }) => format!("pay_with_capacity({})", show(call)),
		RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity_batch_all { calls }) => format!("pay_with_capacity_batch_all[{}]", calls.iter().map(show).collect::<Vec<_>>().join(", ")),
		RuntimeCall::Utility(Util::batch_all { calls }) => format!("batch_all[{}]", calls.iter().map(show).collect::<Vec<_>>().join(", ")),
		RuntimeCall::Messages(pallet_messages::Call::add_onchain_message { schema_id, payload, .. }) => format!("message({schema_id}, {} bytes)", payload.len()),
		c => name(c),
	}
}
/// What was wrapped in a payment with capacity.
pub fn wrapped_calls(c: &RuntimeCall) -> Option<Vec<RuntimeCall>> {
	match c {
		RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity { call }) => Some(vec![(**call).clone()]),
		RuntimeCall::FrequencyTxPayment(Ftp::pay_with_capacity_batch_all { calls }) => Some(calls.clone()),
		_ => None,
	}
}
pub const BASE: u64 = 105_455_000;
pub const BYTE: Balance = 10_000;
pub fn weight_fee(w: u64) -> Balance {
	common::fee::WeightToFee::weight_to_fee(&Weight::from_parts(w, 0))
}
/// The capacity that calls of these stable weights cost in a transaction of `len` bytes.
pub fn capacity_fee(weights: &[Weight], len: usize) -> Balance {
	let sum = weights.iter().fold(0u64, |s, w| s + w.ref_time());
	// no more than a block is charged for
	let most = 500_000_000_000u64;
	weight_fee(BASE) + weight_fee(sum.min(most)) + BYTE * len as Balance
}
/// What the weight of an ordinary call costs, given how busy the chain is.
fn multiplied(io: &Io, w: Weight) -> Balance {
	use sdk::sp_runtime::FixedPointNumber;
	peek(io, || sdk::pallet_transaction_payment::NextFeeMultiplier::<Runtime>::get().saturating_mul_int(weight_fee(w.ref_time().min(500_000_000_000))))
}
pub fn set_multiplier(n: u32) {
	use sdk::sp_runtime::FixedU128;
	sdk::pallet_transaction_payment::NextFeeMultiplier::<Runtime>::put(FixedU128::from_u32(n));
}
/// Runs calls one after another with the signer's own rights, all or none; what does the last say?
pub fn together(who: usize, calls: &[RuntimeCall]) -> bool {
	sdk::io::with_transaction_result(|| {
		for c in calls {
			c.clone().dispatch(RuntimeOrigin::signed(account(who))).map_err(|_| ())?;
		}
		Ok::<(), ()>(())
	})
	.is_ok()
}
use std::sync::atomic::{AtomicU64, Ordering};
static TALLY: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
/// Refused, failed and successful transactions so far.
pub fn tally(run: &Run, what: &str) {
	let t: Vec<u64> = TALLY.iter().map(|a| a.swap(0, Ordering::Relaxed)).collect();
	run.note(&format!("{NET} {what}"), format!("{} refused, {} accepted and failed, {} accepted and successful", t[0], t[1], t[2]));
	assert!(t.iter().all(|n| *n > 0), "{what}: {t:?}");
}
pub const PAID: [(&str, &str); 3] = [("System", ""), ("Capacity", "CapacityLedger"), ("Balances", "TotalIssuance")];

/// What a transaction is to do, found from the state before it.
pub struct Expected {
	pub accepted: bool,
	/// how the call itself ends
	pub good: bool,
	/// what lies outside the system pallet and the capacity ledger afterwards
	pub rest: u128,
	pub totals: Vec<Balance>,
	pub ledgers: Vec<Option<(Balance, Balance, Balance, u32)>>,
	pub why: String,
}
pub fn totals() -> Vec<Balance> {
	ALL.iter().map(|n| total(*n)).collect()
}
pub fn ledgers() -> Vec<Option<(Balance, Balance, Balance, u32)>> {
	(1..=3).map(capacity).collect()
}
/// The verdict on a transaction with the right nonce.
pub fn expect(io: &Io, who: usize, tip: Balance, call: &RuntimeCall, len: usize) -> Expected {
	let (mut before, mut ledger) = peek(io, || (totals(), ledgers()));
	let refuse = |why: &str| Expected { accepted: false, good: false, rest: 0, totals: vec![], ledgers: vec![], why: why.into() };
	let run_all = |io: &Io, calls: &[RuntimeCall]| {
		let (good, after) = on(io, || together(who, calls));
		let t = peek(&after, totals);
		(good, rest(&after, &PAID), t)
	};
	if let Some(calls) = wrapped_calls(call) {
		let ws: Option<Vec<Weight>> = calls.iter().map(super::filters::weight).collect();
		let Some(ws) = ws else { return refuse("a call that may not be paid for with capacity") };
		if before[who] < ED {
			return refuse("less than the existential deposit")
		}
		let Some(id) = peek(io, || pallet_msa::PublicKeyToMsaId::<Runtime>::get(account(who))) else { return refuse("no identity") };
		let fee = capacity_fee(&ws, len);
		let epoch = peek(io, || pallet_capacity::CurrentEpoch::<Runtime>::get());
		let Some((remaining, staked, issued, last)) = ledger[id as usize - 1] else { return refuse("no capacity") };
		let (has, last) = if last < epoch { (issued, epoch) } else { (remaining, last) };
		if has < fee {
			return refuse(&format!("capacity {has} below the fee {fee}"))
		}
		ledger[id as usize - 1] = Some((has - fee, staked, issued, last));
		let (good, rest, totals) = if calls.len() > 10 { run_all(io, &[RuntimeCall::Balances(Bal::transfer_all { dest: MultiAddress::Id(account(NOBODY)), keep_alive: true }), message(99, 1)]) } else { run_all(io, &calls) };
		return Expected { accepted: true, good, rest, totals, ledgers: ledger, why: format!("capacity {has}, fee {fee}") }
	}
	let info = call.get_dispatch_info();
	let fee = if info.pays_fee == Pays::No {
		tip
	} else {
		let base = match info.class {
			sdk::frame_support::dispatch::DispatchClass::Mandatory => 0,
			_ => 59_307_000,
		};
		weight_fee(base) + multiplied(io, info.weight) + BYTE * len as Balance + tip
	};
	let usable = peek(io, || sdk::pallet_balances::Pallet::<Runtime>::usable_balance_for_fees(&account(who)));
	// an account is not emptied to pay a fee
	let can = fee == 0 || (usable >= fee && before[who] >= fee + ED);
	if !can {
		return refuse(&format!("balance {} below the fee {fee}", before[who]))
	}
	// the call finds the fee gone
	let (_, paid) = on(io, || {
		sdk::frame_system::Account::<Runtime>::mutate_exists(account(who), |a| {
			if let Some(a) = a {
				a.data.free -= fee
			}
		})
	});
	let (ended, after) = on(&paid, || sdk::io::with_transaction_result(|| call.clone().dispatch(RuntimeOrigin::signed(account(who)))));
	let (good, post) = match ended {
		Ok(p) => (true, p),
		Err(e) => (false, e.post_info),
	};
	// what was asked for too much comes back
	let actual = if post.pays_fee(&info) == Pays::No { tip.min(fee) } else if fee == tip { fee } else { fee - (multiplied(io, info.weight) - multiplied(io, post.calc_actual_weight(&info))) };
	before = peek(&after, totals);
	before[who] += fee - actual;
	let ledgers = peek(&after, self::ledgers);
	Expected { accepted: true, good, rest: rest(&after, &PAID), totals: before, ledgers, why: format!("fee {fee}, {actual} kept") }
}
/// The calls that cost nothing.
pub const FREE: [&str; 5] = ["Msa.revoke_delegation_by_delegator", "Msa.revoke_delegation_by_provider", "Msa.delete_msa_public_key", "Msa.retire_msa", "Handles.retire_handle"];
/// Applies a transaction with the right nonce and compares.
pub fn judge(io: &Io, who: usize, tip: Balance, call: &RuntimeCall) -> Result<Io, mc::explore::Bad> {
	let n = peek(io, || nonce(who));
	let x = peek(io, || tx(who, n, tip, call.clone()));
	let len = x.encoded_size();
	let mut e = expect(io, who, tip, call, len);
	let why = e.why.clone();
	let what = || format!("{NET}: {} signed by account {who} with a tip of {tip} ({why})", show(call));
	let (got, after) = on(io, || rt::Executive::apply_extrinsic(x.clone()));
	if FREE.contains(&&name(call)[..]) {
		// a free call is let in only if it will succeed; when it is, is said elsewhere
		must!(e.good || got.is_err(), "free-and-failing", "{}: let in although its call fails", what());
		e.accepted &= got.is_ok();
	}
	let (valid, untouched) = on(io, || rt::Executive::validate_transaction(TransactionSource::External, x));
	must!(rest(&untouched, &[]) == rest(io, &[]), "validation-writes", "{}: validation changed the state", what());
	must!(valid.is_ok() == e.accepted, "validation", "{}: validation says {valid:?}", what());
	must!(got.is_ok() == e.accepted, "acceptance", "{}: applying it says {got:?}", what());
	TALLY[if e.accepted { 1 + e.good as usize } else { 0 }].fetch_add(1, Ordering::Relaxed);
	let Ok(outcome) = got else {
		must!(rest(&after, &[]) == rest(io, &[]), "refused-with-effects", "{}: refused, yet the state changed", what());
		return Ok(after)
	};
	must!(outcome.is_ok() == e.good, "outcome", "{}: its call says {outcome:?}", what());
	must!(rest(&after, &PAID) == e.rest, "effects", "{}: the effects are not those of the calls made by the signer, all or none", what());
	let (t, l) = peek(&after, || (totals(), ledgers()));
	must!(l == e.ledgers, "ledger", "{}: capacity is now {l:?}, not {:?}", what(), e.ledgers);
	must!(t == e.totals, "tokens", "{}: balances are now {t:?}, not {:?}", what(), e.totals);
	for a in ALL {
		let (was, is) = (peek(io, || nonce(a)), peek(&after, || nonce(a)));
		// an emptied account is forgotten
		if was > 0 && is == 0 || a == who && peek(io, || total(a)) > 0 && peek(&after, || total(a)) == 0 {
			must!(peek(&after, || total(a)) == 0, "nonce", "{}: the nonce of account {a} starts again", what());
			continue
		}
		// a free call of an account that is not there leaves no account
		let up = a == who && (call.get_dispatch_info().pays_fee == Pays::Yes || peek(io, || total(a)) > 0);
		must!(is == was + up as u32, "nonce", "{}: the nonce of account {a} went from {was} to {is}", what());
	}
	Ok(after)
}
pub fn check(run: &Run, io: &Io, who: usize, tip: Balance, call: &RuntimeCall) -> Option<Io> {
	run.eval(1);
	run.trans(1);
	match judge(io, who, tip, call) {
		Ok(x) => Some(x),
		Err(b) => {
			run.fail(&b.key, b.what, serde_json::json!({"net": NET, "signer": who, "tip": tip.to_string(), "call": show(call)}));
			None
		},
	}
}
/// The calls wrapped in capacity payments.
pub fn shapes() -> Vec<RuntimeCall> {
	let (g, b) = (message(1, 3), message(99, 2));
	let leaves = [g.clone(), b.clone(), remark(), pay(NOBODY, ED), RuntimeCall::Msa(pallet_msa::Call::create {}), cap(g.clone()), caps(vec![g.clone()]), RuntimeCall::Utility(Util::batch_all { calls: vec![g.clone()] }), RuntimeCall::Handles(pallet_handles::Call::retire_handle {})];
	let mut v: Vec<RuntimeCall> = leaves.iter().map(|c| cap(c.clone())).collect();
	v.push(caps(vec![]));
	for a in &leaves {
		v.push(caps(vec![a.clone()]));
		for b in &leaves {
			v.push(caps(vec![a.clone(), b.clone()]));
		}
	}
	for a in &leaves[..3] {
		for b in &leaves[..3] {
			for c in &leaves[..3] {
				v.push(caps(vec![a.clone(), b.clone(), c.clone()]));
			}
		}
	}
	for n in [9, 10, 11, 12, 40] {
		v.push(caps(vec![g.clone(); n]));
		for at in [0, n - 1] {
			for l in [b.clone(), remark()] {
				let mut w = vec![g.clone(); n];
				w[at] = l;
				v.push(caps(w));
			}
		}
	}
	// every call that may be paid for with capacity, in two sizes
	for n in [1, 30] {
		for (c, _) in super::filters::sized(n, 2) {
			v.push(cap(c.clone()));
			v.push(caps(vec![g.clone(), c]));
		}
	}
	v
}
pub fn c16(run: &Run) {
	// a tenth of a cent for each 59307 ns, to within one part in a thousand
	for p in 0..=39 {
		for w in [1u64 << p, (1 << p) + 1, 3 << p] {
			let (got, want) = (weight_fee(w) as i128, w as i128 * 100_000 / 59_307_000);
			run.eval(1);
			run.ok((got - want).abs() <= 1 + want / 1000, "weight-value", || format!("{NET}: weight {w} is worth {got}, not {want}"));
		}
	}
	let base = start();
	let shapes = shapes();
	run.note(&format!("{NET}_shapes"), shapes.len());
	mc::par(shapes.len(), |i| {
		let call = &shapes[i];
		let calls = wrapped_calls(call).unwrap();
		let weights: Vec<Weight> = calls.iter().filter_map(super::filters::weight).collect();
		for who in ALL {
			for tip in [0, 7] {
				let len = peek(&base, || tx(who, 0, tip, call.clone()).encoded_size());
				let fee = capacity_fee(&weights, len);
				for epoch in [1u32, 2, 3] {
					for last in [1u32, 2] {
						// what counts is the remainder, or what was issued once the epoch is past
						for (remaining, issued) in [(0, fee), (0, fee - 1), (fee - 1, 2 * fee), (fee, fee), (fee, 3 * fee), (fee + 1, fee + 1), (fee - 1, fee - 1), (fee, fee - 1), (5 * fee, 9 * fee)] {
							run.state(1);
							let (_, io) = on(&base, || {
								set_capacity(1, remaining, issued, last);
								set_multiplier(1 + (epoch + last) % 3);
								pallet_capacity::CurrentEpoch::<Runtime>::put(epoch);
							});
							check(run, &io, who, tip, call);
						}
					}
				}
			}
		}
	});
	tally(run, "capacity payments");
	let b = mc::explore::Bounds { depth: mc::pick(5, 7), max_states: mc::pick(60_000, 2_000_000), secs: mc::pick(120, 1200) };
	let fee = peek(&base, || capacity_fee(&[super::filters::weight(&message(1, 3)).unwrap()], tx(OWNER, 0, 0, cap(message(1, 3))).encoded_size()));
	mc::explore::explore(run, &format!("{NET} histories of payments"), &Histories { budget: 2 * fee + fee / 2 }, b);
	tally(run, "histories");
	// the estimate given to users is never below what is charged
	for call in &shapes {
		let calls = wrapped_calls(call).unwrap();
		let ws: Option<Vec<Weight>> = calls.iter().map(super::filters::weight).collect();
		let Some(ws) = ws else { continue };
		if ws.is_empty() {
			continue
		}
		run.eval(1);
		let len = peek(&base, || tx(OWNER, 0, 0, call.clone()).encoded_size());
		let d = pallet_frequency_tx_payment::Pallet::<Runtime>::compute_capacity_fee_details(call, &call.get_dispatch_info().weight, len as u32);
		run.ok(d.final_fee() >= capacity_fee(&ws, len) && d.inclusion_fee.is_some(), "estimate", || format!("{NET}: the estimate for {} is {}, the charge {}", show(call), d.final_fee(), capacity_fee(&ws, len)));
	}
	run.sample(serde_json::json!({"net": NET, "call": show(&shapes[shapes.len() / 3])}));
}

/// Histories of payments by several keys over epochs of two blocks.
pub struct Histories {
	budget: Balance,
}
#[derive(Clone, Debug)]
pub enum Act {
	Tx(usize, usize),
	Block,
}
fn history_calls() -> Vec<(usize, RuntimeCall)> {
	let (g, b) = (message(1, 3), message(99, 3));
	let delete = |n: usize| RuntimeCall::Msa(pallet_msa::Call::delete_msa_public_key { public_key_to_delete: account(n) });
	vec![
		(OWNER, cap(g.clone())),
		(OWNER, cap(b.clone())),
		(OWNER, g.clone()),
		(OWNER, caps(vec![g.clone(), b])),
		(SECOND, caps(vec![g.clone()])),
		(SECOND, pay(NOBODY, 1)),
		(OTHER, cap(g.clone())),
		(OWNER, delete(SECOND)),
		(SECOND, delete(OWNER)),
		(OWNER, pay(EMPTY, ED)),
		(EMPTY, cap(g)),
	]
}
impl mc::explore::System for Histories {
	type State = Io;
	type Action = Act;
	fn init(&self) -> Vec<Io> {
		vec![on(&start(), || {
			set_capacity(1, self.budget, self.budget, 1);
			set_capacity(3, self.budget / 2, self.budget / 2, 1);
			pallet_capacity::Pallet::<Runtime>::set_epoch_length(RuntimeOrigin::root(), 2).unwrap();
		})
		.1]
	}
	fn key(&self, s: &Io) -> u128 {
		rest(s, &[("System", "Events"), ("System", "EventCount"), ("System", "BlockWeight"), ("System", "BlockHash"), ("System", "ExecutionPhase")])
	}
	fn actions(&self, _: &Io) -> Vec<Act> {
		let mut v: Vec<Act> = history_calls().iter().enumerate().map(|(i, (w, _))| Act::Tx(*w, i)).collect();
		v.push(Act::Block);
		v
	}
	fn step(&self, s: &Io, a: &Act) -> Result<Option<Io>, mc::explore::Bad> {
		match a {
			Act::Tx(w, i) => judge(s, *w, 0, &history_calls()[*i].1).map(Some),
			Act::Block => Ok(Some(block(s))),
		}
	}
}
/// Ends the block and begins the next.
pub fn block(s: &Io) -> Io {
	on(s, || {
		rt::Executive::finalize_block();
		let n = sdk::frame_system::Pallet::<Runtime>::block_number();
		rt::Executive::initialize_block(n + 1, sdk::sp_core::H256::repeat_byte(n as u8));
	})
	.1
}
/// Calls paid for with tokens, and free ones.
fn token_calls() -> Vec<RuntimeCall> {
	let g = message(1, 3);
	let wrap = |k: usize, calls: Vec<RuntimeCall>| {
		RuntimeCall::Utility(match k {
			0 => Util::batch { calls },
			1 => Util::batch_all { calls },
			_ => Util::force_batch { calls },
		})
	};
	let mut v = vec![g.clone(), message(99, 3), message(1, 300), remark(), pay(NOBODY, ED), pay(NOBODY, ED - 1), pay(OTHER, 1), pay(OTHER, u128::MAX / 2)];
	v.push(RuntimeCall::Balances(Bal::transfer_allow_death { dest: MultiAddress::Id(account(OTHER)), value: 5 }));
	v.push(RuntimeCall::Msa(pallet_msa::Call::create {}));
	v.push(RuntimeCall::Utility(Util::as_derivative { index: 1, call: Box::new(remark()) }));
	v.push(RuntimeCall::Utility(Util::as_derivative { index: 1, call: Box::new(cap(g.clone())) }));
	for k in 0..3 {
		v.push(wrap(k, vec![]));
		for (a, b) in [(remark(), pay(OTHER, 1)), (pay(OTHER, 1), message(99, 1)), (message(99, 1), pay(OTHER, 1)), (g.clone(), g.clone()), (cap(g.clone()), g.clone()), (g.clone(), cap(g.clone()))] {
			v.push(wrap(k, vec![a, b]));
		}
	}
	for n in [1usize, 30] {
		for (c, _) in super::filters::sized(n, 2) {
			v.push(c);
		}
	}
	let m = pallet_msa::Call::<Runtime>::retire_msa {};
	v.push(RuntimeCall::Msa(m));
	v.push(RuntimeCall::Handles(pallet_handles::Call::retire_handle {}));
	for n in ALL {
		v.push(RuntimeCall::Msa(pallet_msa::Call::delete_msa_public_key { public_key_to_delete: account(n) }));
	}
	for id in 0..=4 {
		v.push(RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_delegator { provider_msa_id: id }));
		v.push(RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_provider { delegator: id }));
	}
	// every call of this repository's pallets, with the smallest arguments
	for c in every_call() {
		if ["Msa", "Messages", "Schemas", "StatefulStorage", "Handles", "Capacity", "TimeRelease", "FrequencyTxPayment"].contains(&name(&c).split('.').next().unwrap()) && wrapped_calls(&c).is_none() {
			v.push(c)
		}
	}
	v
}
pub fn c17(run: &Run) {
	for c in every_call() {
		run.eval(1);
		let n = name(&c);
		let d = c.get_dispatch_info();
		if ["Msa", "Messages", "Schemas", "StatefulStorage", "Handles", "Capacity", "TimeRelease", "FrequencyTxPayment"].contains(&n.split('.').next().unwrap()) {
			run.ok((d.pays_fee == Pays::No) == FREE.contains(&&n[..]), "free-calls", || format!("{NET}: {n} is{} declared free", if d.pays_fee == Pays::No { "" } else { " not" }));
			run.ok(d.class == sdk::frame_support::dispatch::DispatchClass::Normal || n.ends_with("_via_governance") || n.starts_with("Schemas.set_max") || n.starts_with("Capacity.set_epoch") || n.starts_with("Passkey."), "class", || format!("{NET}: {n} is not an ordinary call ({:?})", d.class));
		}
	}
	// identity 1 delegates to provider 3 and has a handle; identity 2 delegates to provider 1
	let base = on(&start(), || {
		Msa::add_provider(common_primitives::msa::ProviderId(3), common_primitives::msa::DelegatorId(1), vec![1]).unwrap();
		Msa::add_provider(common_primitives::msa::ProviderId(1), common_primitives::msa::DelegatorId(2), vec![1]).unwrap();
		Msa::create_account(account(PLAIN), |_| Ok(())).unwrap();
		set_capacity(1, 77 * ED, 77 * ED, 1);
	})
	.1;
	let no_identity = on(&base, || Msa::delete_key_for_msa(4, &account(PLAIN)).unwrap()).1;
	let calls = token_calls();
	run.note(&format!("{NET}_token_calls"), calls.len());
	mc::par(calls.len(), |i| {
		let call = &calls[i];
		for io in [&base, &no_identity] {
			for tip in [0, 1, 3 * ED] {
				for m in [1, 3] {
					for who in ALL {
						run.state(1);
						let io = on(io, || set_multiplier(m)).1;
						check(run, &io, who, tip, call);
						// balances around the fee
						if ![OWNER, PLAIN].contains(&who) {
							continue
						}
						let len = peek(&io, || tx(who, 0, tip, call.clone()).encoded_size());
						let info = call.get_dispatch_info();
						let fee = if info.pays_fee == Pays::No { tip } else { weight_fee(59_307_000) + multiplied(&io, info.weight) + BYTE * len as Balance + tip };
						for b in [0, ED, fee.max(ED), fee + ED - 1, fee + ED, fee + ED + 1, fee + ED + 5, fee + 3 * ED] {
							if b < ED && b > 0 {
								continue
							}
							run.state(1);
							let (_, io) = on(&io, || give(who, b));
							check(run, &io, who, tip, call);
						}
					}
				}
			}
		}
	});
	tally(run, "token payments");
	run.sample(serde_json::json!({"net": NET, "call": show(&calls[5])}));
}

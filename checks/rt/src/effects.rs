// C18, continued: whatever calls are wrapped in, what the filters forbid does not happen.
use super::fees::{self, *};
use super::*;
use common::proxy::ProxyType;
type Util = sdk::pallet_utility::Call<Runtime>;
type Proxy = sdk::pallet_proxy::Call<Runtime>;
type Bal = sdk::pallet_balances::Call<Runtime>;

const SHAPES: usize = 10;
/// The `k`-th way to wrap a call; `real` is whom the signer may be a proxy of.
fn wrap(k: usize, c: RuntimeCall, real: usize) -> RuntimeCall {
	let quiet = || remark();
	match k {
		0 => RuntimeCall::Utility(Util::batch { calls: vec![c] }),
		1 => RuntimeCall::Utility(Util::batch_all { calls: vec![quiet(), c] }),
		2 => RuntimeCall::Utility(Util::force_batch { calls: vec![c, quiet()] }),
		3 => RuntimeCall::Utility(Util::as_derivative { index: 0, call: Box::new(c) }),
		4 => RuntimeCall::Proxy(Proxy::proxy { real: MultiAddress::Id(account(real)), force_proxy_type: None, call: Box::new(c) }),
		5 => cap(c),
		6 => caps(vec![message(1, 3), c]),
		7 => RuntimeCall::Utility(Util::batch { calls: vec![quiet(), c, quiet()] }),
		8 => RuntimeCall::Utility(Util::force_batch { calls: vec![quiet(), quiet(), c] }),
		_ => caps(vec![c]),
	}
}
pub fn nested(leaf: &RuntimeCall, path: &[usize], real: usize) -> RuntimeCall {
	path.iter().rev().fold(leaf.clone(), |c, k| wrap(*k, c, real))
}
pub fn paths(depth: usize) -> Vec<Vec<usize>> {
	let mut all: Vec<Vec<usize>> = vec![vec![]];
	let mut last = all.clone();
	for _ in 0..depth {
		last = last.iter().flat_map(|p| (0..SHAPES).map(move |k| [&p[..], &[k]].concat())).collect();
		all.extend(last.clone());
	}
	all
}
/// Registered providers and schemas.
fn registers(io: &Io) -> (Vec<u64>, u16) {
	peek(io, || {
		let mut p: Vec<u64> = pallet_msa::ProviderToRegistryEntry::<Runtime>::iter_keys().map(|p: common_primitives::msa::ProviderId| p.0).collect();
		p.sort();
		(p, (1..50u16).filter(|s| pallet_schemas::Pallet::<Runtime>::get_schema_by_id(*s).is_some()).count() as u16)
	})
}
pub fn creation(run: &Run) {
	use common_primitives::schema::{ModelType, PayloadLocation};
	let model = || sdk::frame_support::BoundedVec::try_from(b"{\"type\":\"record\"}".to_vec()).unwrap();
	let leaves = [
		RuntimeCall::Msa(pallet_msa::Call::create_provider { provider_name: Default::default() }),
		RuntimeCall::Schemas(pallet_schemas::Call::create_schema { model: model(), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::OnChain }),
		RuntimeCall::Schemas(pallet_schemas::Call::create_schema_v2 { model: model(), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::OnChain, settings: Default::default() }),
		RuntimeCall::Schemas(pallet_schemas::Call::create_schema_v3 { model: model(), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::OnChain, settings: Default::default(), schema_name: None }),
	];
	// PLAIN and NOBODY's derivative get identities too, so that only the filters stand in the way
	let base = on(&start(), || {
		pallet_msa::Pallet::<Runtime>::create_account(account(PLAIN), |_| Ok(())).unwrap();
		give(EMPTY, 1000 * ED);
		give(NOBODY, 1000 * ED);
		set_capacity(1, 900_000 * ED, 900_000 * ED, 1);
		set_capacity(4, 900_000 * ED, 900_000 * ED, 1);
		for who in [OWNER, PLAIN] {
			let d = sdk::sp_core::hashing::blake2_256(&(b"modlpy/utilisuba", account(who), 0u16).encode());
			pallet_msa::Pallet::<Runtime>::create_account(common_primitives::node::AccountId::from(d), |_| Ok(())).unwrap();
		}
		for (real, delegate) in [(PLAIN, OWNER), (OWNER, PLAIN)] {
			sdk::pallet_proxy::Pallet::<Runtime>::add_proxy(RuntimeOrigin::signed(account(real)), MultiAddress::Id(account(delegate)), ProxyType::Any, 0).unwrap();
		}
		for id in 1..=3 {
			pallet_msa::ProviderToRegistryEntry::<Runtime>::remove(common_primitives::msa::ProviderId(id));
		}
	})
	.1;
	let before = registers(&base);
	let paths = paths(mc::pick(4, 5));
	let made = std::sync::atomic::AtomicU64::new(0);
	mc::par(paths.len(), |i| {
		for leaf in &leaves {
			for (who, real) in [(OWNER, PLAIN), (PLAIN, OWNER)] {
				run.eval(1);
				run.state(1);
				let call = nested(leaf, &paths[i], real);
				let x = peek(&base, || tx(who, nonce(who), 0, call.clone()));
				let (r, after) = on(&base, || rt::Executive::apply_extrinsic(x));
				let now = registers(&after);
				if now != before {
					made.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
				}
				// on the public network nobody but governance creates providers or schemas
				let may = !MAINNET;
				let show = || format!("{} in {:?}", name(leaf), paths[i].iter().map(|k| name(&wrap(*k, remark(), real))).collect::<Vec<_>>());
				run.ok(may || now == before, "creation", || format!("{NET}: {} by account {who} ended with {r:?}, and providers and schemas went from {before:?} to {now:?}", show()));
				if may && (paths[i].is_empty() || paths[i] == [4]) {
					run.ok(now != before, "creation-refused", || format!("{NET}: {} by account {who} ended with {r:?}, and nothing was created", show()));
				}
			}
		}
	});
	run.note(&format!("{NET}_creations"), made.load(std::sync::atomic::Ordering::Relaxed));
	// the ways of governance remain
	let direct = |c: RuntimeCall, o: RuntimeOrigin| on(&base, || sdk::sp_runtime::traits::Dispatchable::dispatch(c, o).is_ok());
	for leaf in &leaves {
		let (ok, _) = direct(leaf.clone(), RuntimeOrigin::signed(account(OWNER)));
		run.ok(ok != MAINNET, "creation-direct", || format!("{NET}: {} dispatched by an account {}", name(leaf), if ok { "succeeds" } else { "fails" }));
	}
}
/// What a proxy of a given kind gets done.
pub fn proxies(run: &Run) {
	use sdk::sp_runtime::traits::Dispatchable;
	let to = MultiAddress::Id(account(OTHER));
	let schedule = common_primitives_schedule();
	let leaves: Vec<RuntimeCall> = vec![
		pay(OTHER, ED),
		RuntimeCall::Balances(Bal::transfer_allow_death { dest: to.clone(), value: ED }),
		RuntimeCall::Balances(Bal::transfer_all { dest: to.clone(), keep_alive: false }),
		RuntimeCall::TimeRelease(pallet_time_release::Call::transfer { dest: to.clone(), schedule }),
		RuntimeCall::Proxy(Proxy::add_proxy { delegate: to.clone(), proxy_type: ProxyType::Any, delay: 0 }),
		RuntimeCall::Proxy(Proxy::remove_proxies {}),
		remark(),
		message(1, 3),
		RuntimeCall::Msa(pallet_msa::Call::retire_msa {}),
	];
	let paths = paths(mc::pick(4, 5));
	for (tn, t) in [("Any", ProxyType::Any), ("NonTransfer", ProxyType::NonTransfer), ("Governance", ProxyType::Governance), ("Staking", ProxyType::Staking), ("CancelProxy", ProxyType::CancelProxy)] {
		// OWNER's proxy is PLAIN
		let base = on(&start(), || {
			pallet_msa::Pallet::<Runtime>::create_account(account(PLAIN), |_| Ok(())).unwrap();
			set_capacity(1, 900_000 * ED, 900_000 * ED, 1);
			set_capacity(4, 900_000 * ED, 900_000 * ED, 1);
			sdk::pallet_proxy::Pallet::<Runtime>::add_proxy(RuntimeOrigin::signed(account(OWNER)), MultiAddress::Id(account(PLAIN)), t, 0).unwrap();
		})
		.1;
		// what OWNER has and is
		let look = |io: &Io| {
			peek(io, || {
				(
					total(OWNER),
					sdk::pallet_balances::Pallet::<Runtime>::free_balance(account(OWNER)),
					sdk::pallet_proxy::Proxies::<Runtime>::get(account(OWNER)).encode(),
					pallet_msa::PublicKeyToMsaId::<Runtime>::get(account(OWNER)),
				)
			})
		};
		let was = look(&base);
		let moved = std::sync::atomic::AtomicU64::new(0);
		mc::par(paths.len(), |i| {
			// the outermost wrapping is the proxy, or something holding it
			let Some(at) = paths[i].iter().position(|k| *k == 4) else { return };
			for leaf in &leaves {
				run.eval(1);
				run.state(1);
				let call = nested(leaf, &paths[i], OWNER);
				let x = peek(&base, || tx(PLAIN, nonce(PLAIN), 0, call.clone()));
				let (r, after) = on(&base, || rt::Executive::apply_extrinsic(x));
				let now = look(&after);
				let show = || format!("{NET}: a {tn} proxy's {} in {:?} ended with {r:?}", name(leaf), paths[i].iter().map(|k| name(&wrap(*k, remark(), OWNER))).collect::<Vec<_>>());
				if tn != "Any" {
					run.ok(now.0 >= was.0 && now.1 >= was.1, "proxy-moves-tokens", || format!("{}, and the account's tokens went from {:?} to {:?}", show(), (was.0, was.1), (now.0, now.1)));
					run.ok(now.2 == was.2, "proxy-makes-proxies", || format!("{}, and the account's proxies changed", show()));
				}
				if !["Any", "NonTransfer"].contains(&tn) {
					run.ok(now == was && rest(&after, &PAID) == rest(&base, &PAID) || paths[i].iter().any(|k| *k == 6) || name(leaf) == "Messages.add_onchain_message", "proxy-acts", || format!("{}, and the account is now {now:?} instead of {was:?}", show()));
				}
				if now != was {
					moved.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
				}
				// a fully permissioned one can do it directly
				if tn == "Any" && at == 0 && paths[i].len() == 1 && name(leaf).starts_with("Balances.transfer") {
					run.ok(now.0 < was.0, "proxy-any", || format!("{}, and nothing moved", show()));
				}
			}
		});
		let n = moved.load(std::sync::atomic::Ordering::Relaxed);
		run.note(&format!("{NET}_{tn}_effective"), n);
		if tn == "Any" {
			assert!(n > 0);
		}
		let _ = |c: RuntimeCall| c.dispatch(RuntimeOrigin::root());
	}
}
fn common_primitives_schedule() -> pallet_time_release::ReleaseSchedule<u32, Balance> {
	pallet_time_release::ReleaseSchedule { start: 10, period: 1, period_count: 2, per_period: 50 * ED }
}

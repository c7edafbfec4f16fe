// C33: the transactions of an account, each once and in order.
use super::fees::*;
use super::*;
use sdk::frame_support::dispatch::DispatchInfo;
use sdk::frame_system::Account;
use sdk::sp_runtime::traits::SignedExtension;
use sdk::sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError};
type CheckNonce = common::extensions::check_nonce::CheckNonce<Runtime>;
fn stale() -> TransactionValidityError {
	InvalidTransaction::Stale.into()
}
fn future() -> TransactionValidityError {
	InvalidTransaction::Future.into()
}
/// The extension by itself: every kind of account record, nonce and call.
fn alone(run: &Run) {
	let base = genesis(&[]);
	let nonces = [0u32, 1, 2, 3, 7, 8, 9, 255, 256, 257, 65_535, 65_536, u32::MAX - 2, u32::MAX - 1];
	for flags in 0..8u32 {
		for free in [0u128, 5] {
			for has in nonces {
				let (_, io) = on(&base, || {
					let a = sdk::frame_system::AccountInfo { nonce: has, providers: flags & 1, consumers: flags >> 1 & 1, sufficients: flags >> 2 & 1, data: sdk::pallet_balances::AccountData { free, ..Default::default() } };
					if flags > 0 || free > 0 || has > 0 {
						Account::<Runtime>::insert(account(0), a);
					}
				});
				for n in nonces {
					for pays in [Pays::Yes, Pays::No] {
						run.eval(1);
						run.state(1);
						let info = DispatchInfo { pays_fee: pays, ..Default::default() };
						let what = || format!("{NET}: nonce {n} by an account at {has} (references {flags:03b}, balance {free}, {pays:?})");
						let (v, seen) = on(&io, || CheckNonce::from(n).validate(&account(0), &remark(), &info, 10));
						run.ok(rest(&seen, &[]) == rest(&io, &[]), "validation-writes", || format!("{}: validation changed the state", what()));
						let tag = |n: u32| (account(0), n).encode();
						match (&v, n < has) {
							(Err(e), true) => {
								run.ok(*e == stale(), "stale", || format!("{}: validation says {e:?}", what()));
							},
							(Ok(v), false) => {
								run.ok(v.provides == vec![tag(n)], "provides", || format!("{}: provides {:?}", what(), v.provides));
								let want = if n > has { vec![tag(n - 1)] } else { vec![] };
								run.ok(v.requires == want, "requires", || format!("{}: requires {:?}", what(), v.requires));
							},
							_ => {
								run.ok(false, "validity", || format!("{}: validation says {v:?}", what()));
							},
						}
						let (p, after) = on(&io, || CheckNonce::from(n).pre_dispatch(&account(0), &remark(), &info, 10));
						if n != has {
							run.ok(p == Err(if n < has { stale() } else { future() }), "order", || format!("{}: executing it says {p:?}", what()));
							run.ok(rest(&after, &[]) == rest(&io, &[]), "refused-with-effects", || format!("{}: refused, yet the state changed", what()));
							continue
						}
						run.ok(p.is_ok(), "order", || format!("{}: executing it says {p:?}", what()));
						let (_, want) = on(&io, || {
							if pays == Pays::Yes || flags > 0 {
								let mut a = Account::<Runtime>::get(account(0));
								a.nonce = has + 1;
								Account::<Runtime>::insert(account(0), a);
							}
						});
						let got = peek(&after, || Account::<Runtime>::get(account(0)));
						run.ok(rest(&after, &[]) == rest(&want, &[]), "increment", || format!("{}: the account is now {got:?}", what()));
					}
				}
			}
		}
	}
}
fn free(n: usize) -> RuntimeCall {
	RuntimeCall::Msa(pallet_msa::Call::delete_msa_public_key { public_key_to_delete: account(n) })
}
fn revoke() -> RuntimeCall {
	RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_provider { delegator: 2 })
}
/// Transactions made once at the start and sent at any time, any number of times.
struct Sent {
	pool: Vec<(usize, u32, RuntimeCall)>,
}
#[derive(Clone, Debug)]
enum Act {
	Send(usize),
	Regrant,
	Block,
}
#[derive(Clone)]
struct St {
	io: Io,
	/// how often each transaction was executed
	done: Vec<u8>,
}
fn pool() -> Vec<(usize, u32, RuntimeCall)> {
	let mut v = vec![];
	for n in 0..3 {
		v.push((OWNER, n, pay(NOBODY, ED)));
		v.push((OWNER, n, cap(message(1, 3))));
		v.push((SECOND, n, cap(message(99, 3))));
		v.push((OWNER, n, free(LOCKED)));
	}
	v.push((EMPTY, 0, revoke()));
	v.push((EMPTY, 1, revoke()));
	v.push((EMPTY, 0, cap(message(1, 3))));
	v.push((NOBODY, 0, pay(OWNER, 1)));
	v.push((NOBODY, 1, remark()));
	v
}
impl mc::explore::System for Sent {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let io = on(&start(), || {
			set_capacity(1, 900 * ED, 900 * ED, 1);
			pallet_msa::Pallet::<Runtime>::add_provider(common_primitives::msa::ProviderId(1), common_primitives::msa::DelegatorId(2), vec![1]).unwrap();
		})
		.1;
		vec![St { io, done: vec![0; self.pool.len()] }]
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(rest(&s.io, &[("System", "Events"), ("System", "EventCount"), ("System", "BlockWeight"), ("System", "BlockHash"), ("System", "ExecutionPhase")]), &s.done)
	}
	fn actions(&self, _: &St) -> Vec<Act> {
		let mut v: Vec<Act> = (0..self.pool.len()).map(Act::Send).collect();
		v.push(Act::Regrant);
		v.push(Act::Block);
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, mc::explore::Bad> {
		let i = match a {
			Act::Block => return Ok(Some(St { io: block(&s.io), done: s.done.clone() })),
			Act::Regrant => {
				// the delegator trusts the provider again
				let (_, io) = on(&block(&block(&s.io)), || {
					let _ = sdk::io::with_transaction_result(|| pallet_msa::Pallet::<Runtime>::upsert_schema_permissions(common_primitives::msa::ProviderId(1), common_primitives::msa::DelegatorId(2), vec![1]));
				});
				return Ok(Some(St { io, done: s.done.clone() }))
			},
			Act::Send(i) => *i,
		};
		let (who, n, call) = &self.pool[i];
		let has = peek(&s.io, || nonce(*who));
		let was = peek(&s.io, || Account::<Runtime>::contains_key(account(*who)));
		let what = || format!("{NET}: {} by account {who} (at nonce {has}) with nonce {n}", fees::show(call));
		let x = peek(&s.io, || tx(*who, *n, 0, call.clone()));
		let v = peek(&s.io, || rt::Executive::validate_transaction(TransactionSource::External, x.clone()));
		let (got, io) = on(&s.io, || rt::Executive::apply_extrinsic(x));
		must!(got.is_err() || *n == has, "order", "{}: executed", what());
		if *n < has {
			must!(v == Err(stale()) && got == Err(stale()), "stale", "{}: validation says {v:?}, execution {got:?}", what());
		}
		if *n > has {
			must!(got == Err(future()), "future", "{}: execution says {got:?}", what());
		}
		if let Ok(v) = &v {
			must!(v.provides.contains(&(account(*who), *n).encode()), "provides", "{}: provides {:?}", what(), v.provides);
			must!(v.propagate && v.longevity > 0, "propagate", "{}: valid, yet not to be passed on ({v:?})", what());
			must!(v.requires.is_empty() == (*n == has), "requires", "{}: requires {:?}", what(), v.requires);
		}
		if got.is_err() {
			must!(rest(&io, &[]) == rest(&s.io, &[]), "refused-with-effects", "{}: refused, yet the state changed", what());
			return Ok(None)
		}
		let (is, there) = peek(&io, || (nonce(*who), Account::<Runtime>::contains_key(account(*who))));
		let mut done = s.done.clone();
		done[i] += 1;
		if was {
			must!(is == has + 1, "increment", "{}: the nonce is now {is}", what());
			must!(done[i] == 1, "twice", "{}: executed a second time", what());
		} else {
			must!(FREE.contains(&&name(call)[..]), "from-nothing", "{}: a paying transaction of an account that is not there was executed", what());
			must!(!there, "brought-into-being", "{}: a free transaction brought the account into being", what());
			must!(done[i] == 1, "replay-without-account", "{}: the key holds no tokens, so no nonce is kept and the same signed free transaction was executed a second time", what());
		}
		Ok(Some(St { io, done }))
	}
}
pub fn c33(run: &Run) {
	alone(run);
	let b = mc::explore::Bounds { depth: mc::pick(7, 10), max_states: mc::pick(60_000, 1_500_000), secs: mc::pick(150, 1500) };
	mc::explore::explore(run, &format!("{NET} transactions sent at any time"), &Sent { pool: pool() }, b);
	run.sample(serde_json::json!({"net": NET, "pool": pool().iter().map(|(w, n, c)| format!("{w} {n} {}", fees::show(c))).collect::<Vec<_>>()}));
}

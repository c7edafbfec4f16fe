// C34: transactions of passkeys.
use crate::local::fees::{self, *};
use crate::local::*;
use crate::local::{Balance, Decode, Encode, GetDispatchInfo, Io, MultiAddress, MultiSignature, on, peek, Run, Runtime, RuntimeCall, RuntimeOrigin, UncheckedExtrinsic};
use pallet_passkey::types::{PasskeyCall, PasskeyPayload, VerifiablePasskeySignature};
use sdk::sp_runtime::traits::Dispatchable;
use sdk::sp_runtime::transaction_validity::TransactionSource;

type Bal = sdk::pallet_balances::Call<Runtime>;
/// Two passkeys.
pub fn passkey(n: usize) -> [u8; 33] {
	let mut k = [n as u8 + 1; 33];
	k[0] = 2 + (n as u8 & 1);
	k
}
/// What a binding says and who signed it.
#[derive(Clone, Debug, PartialEq)]
pub enum Proof {
	By(usize, usize),
	/// not in the form wallets sign
	Bare(usize, usize),
	Garbage,
	/// a valid signature with one bit changed
	Bent(usize, usize),
	Short(usize, usize),
}
fn proof(p: &Proof) -> MultiSignature {
	match p {
		Proof::By(who, k) => sign(*who, &[&b"<Bytes>"[..], &passkey(*k), b"</Bytes>"].concat()),
		Proof::Bare(who, k) => sign(*who, &passkey(*k)),
		Proof::Garbage => MultiSignature::Sr25519(sdk::codec::Decode::decode(&mut &[9u8; 64][..]).unwrap()),
		Proof::Bent(who, k) => {
			let mut b = sign(*who, &[&b"<Bytes>"[..], &passkey(*k), b"</Bytes>"].concat()).encode();
			b[20] ^= 1;
			MultiSignature::decode(&mut &b[..]).unwrap()
		},
		Proof::Short(who, k) => sign(*who, &[&b"<Bytes>"[..], &passkey(*k)[..32], b"</Bytes>"].concat()),
	}
}
fn request(who: usize, key: usize, p: &Proof, nonce: u32, call: &RuntimeCall, signature: u8) -> RuntimeCall {
	RuntimeCall::Passkey(pallet_passkey::Call::proxy {
		payload: PasskeyPayload {
			passkey_public_key: passkey(key),
			verifiable_passkey_signature: VerifiablePasskeySignature { signature: vec![signature; 64].try_into().unwrap(), authenticator_data: vec![1; 37].try_into().unwrap(), client_data_json: vec![b'{', b'}'].try_into().unwrap() },
			passkey_call: PasskeyCall { account_id: account(who), account_nonce: nonce, account_ownership_proof: proof(p), call: Box::new(call.clone()) },
		},
	})
}
fn calls() -> Vec<RuntimeCall> {
	let dest = MultiAddress::Id(account(OTHER));
	let mut v = vec![
		pay(NOBODY, ED),
		pay(OTHER, 1),
		pay(OTHER, u128::MAX / 2),
		RuntimeCall::Balances(Bal::transfer_allow_death { dest: dest.clone(), value: 7 }),
		RuntimeCall::Balances(Bal::transfer_all { dest: dest.clone(), keep_alive: true }),
		RuntimeCall::Balances(Bal::transfer_all { dest, keep_alive: false }),
		message(1, 3),
		cap(message(1, 3)),
		RuntimeCall::Utility(sdk::pallet_utility::Call::batch_all { calls: vec![pay(OTHER, 1)] }),
		RuntimeCall::Utility(sdk::pallet_utility::Call::as_derivative { index: 0, call: Box::new(pay(OTHER, 1)) }),
		request(OWNER, 0, &Proof::By(OWNER, 0), 0, &pay(OTHER, 1), 0),
	];
	for c in every_call() {
		if !matches!(&name(&c)[..], "Balances.transfer_keep_alive" | "Balances.transfer_allow_death" | "Balances.transfer_all") {
			v.push(c)
		}
	}
	v
}
fn permitted(c: &RuntimeCall) -> bool {
	["Balances.transfer_keep_alive", "Balances.transfer_allow_death", "Balances.transfer_all"].contains(&&name(c)[..])
}
fn apply(io: &Io, outer: &RuntimeCall) -> (sdk::sp_runtime::ApplyExtrinsicResult, Io, bool) {
	let x = UncheckedExtrinsic::new_unsigned(outer.clone());
	let v = peek(io, || rt::Executive::validate_transaction(TransactionSource::External, x.clone())).is_ok();
	let (r, after) = on(io, || rt::Executive::apply_extrinsic(x));
	(r, after, v)
}
/// What the account pays for a call: the difference it makes that a passkey asked for it.
fn fee(io: &Io, who: usize, outer: &RuntimeCall) -> Option<Balance> {
	// on an account rich enough, with a call that moves nothing
	let RuntimeCall::Passkey(pallet_passkey::Call::proxy { payload }) = outer else { unreachable!() };
	let mut p = payload.clone();
	if !permitted(&p.passkey_call.call) {
		return None
	}
	p.passkey_call.account_nonce = 0;
	let (_, rich) = on(io, || {
		give(who, 1_000 * 1_000 * ED);
		sdk::frame_system::Account::<Runtime>::mutate(account(who), |a| a.nonce = 0);
	});
	p.passkey_call.account_ownership_proof = proof(&Proof::By(who, if p.passkey_public_key == passkey(0) { 0 } else { 1 }));
	let call = (*p.passkey_call.call).clone();
	let (r, after, _) = apply(&rich, &RuntimeCall::Passkey(pallet_passkey::Call::proxy { payload: p }));
	r.ok()?;
	// all that left the account, less what the call itself moved
	let moved = |io: &Io| peek(io, || totals().iter().sum::<Balance>());
	let _ = call;
	Some(moved(&rich) - moved(&after))
}
pub fn c34(run: &Run) {
	let base = on(&start(), || give(NOBODY, 0)).1;
	let calls = calls();
	run.note(&format!("{NET}_calls"), calls.len());
	let proofs = [Proof::By(OWNER, 0), Proof::By(OWNER, 1), Proof::By(PLAIN, 0), Proof::By(PLAIN, 1), Proof::By(SECOND, 0), Proof::By(NOBODY, 0), Proof::By(OTHER, 0), Proof::Bare(OWNER, 0), Proof::Garbage, Proof::Bent(OWNER, 0), Proof::Short(OWNER, 0), Proof::Bent(PLAIN, 0), Proof::Bare(PLAIN, 0), Proof::Bare(SECOND, 0), Proof::Bent(SECOND, 0), Proof::Short(PLAIN, 0), Proof::Short(SECOND, 0)];
	let tally = [(); 3].map(|_| std::sync::atomic::AtomicU64::new(0));
	mc::par(calls.len(), |i| {
		let call = &calls[i];
		for who in [OWNER, PLAIN, SECOND, NOBODY] {
			for key in [0, 1] {
				let cost = fee(&base, who, &request(who, key, &Proof::By(who, key), 0, call, 1));
				if let Some(f) = cost {
					let least = weight_fee(59_307_000) + weight_fee(call.get_dispatch_info().weight.ref_time());
					run.ok(f >= least, "fee", || format!("{NET}: a passkey's {} costs {f}, less than its weight's {least}", name(call)));
				}
				for proof in &proofs {
					for (has, nonce) in [(0u32, 0u32), (0, 1), (3, 3), (3, 2), (3, 4), (3, 0)] {
						let mut balances = vec![None];
						if [OWNER, PLAIN].contains(&who) {
							if let Some(f) = cost {
								balances.extend([Some(0), Some(ED), Some(f + ED - 1), Some(f + ED), Some(f + ED + 1), Some(f + 2 * ED + 1)].into_iter())
							}
						}
						for b in balances {
							run.eval(1);
							run.state(1);
							let (_, io) = on(&base, || {
								if let Some(b) = b {
									give(who, b)
								}
								if has > 0 {
									sdk::frame_system::Account::<Runtime>::mutate(account(who), |a| a.nonce = has);
								}
							});
							let outer = request(who, key, proof, nonce, call, 1);
							let had = peek(&io, || total(who));
							let what = || format!("{NET}: {} for account {who} (balance {had}, nonce {has}) by passkey {key} with nonce {nonce}, binding {proof:?}", fees::show(call));
							let case = || serde_json::json!({"account": who, "passkey": key, "binding": format!("{proof:?}"), "nonce": [has, nonce], "balance": had.to_string(), "call": fees::show(call)});
							let fine = permitted(call) && *proof == Proof::By(who, key) && nonce == has && cost.map_or(false, |f| had >= f + ED);
							let (r, after, valid) = apply(&io, &outer);
							if r.is_ok() != fine {
								run.fail("acceptance", format!("{}: applying it says {r:?}", what()), case());
								continue
							}
							// the pool keeps what comes too early
							let soon = permitted(call) && *proof == Proof::By(who, key) && nonce >= has && cost.map_or(false, |f| had >= f + ED);
							if valid != soon {
								run.fail("validation", format!("{}: the pool {}", what(), if valid { "takes it" } else { "refuses it" }), case());
							}
							let Ok(outcome) = r else {
								tally[0].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
								run.ok(rest(&after, &[]) == rest(&io, &[]), "refused-with-effects", || format!("{}: refused, yet the state changed", what()));
								continue
							};
							tally[1 + outcome.is_ok() as usize].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
							// the account pays, then makes the call itself
							let f = cost.unwrap();
							let (_, paid) = on(&io, || sdk::frame_system::Account::<Runtime>::mutate(account(who), |a| a.data.free -= f));
							let (good, want) = on(&paid, || sdk::io::with_transaction_result(|| call.clone().dispatch(RuntimeOrigin::signed(account(who)))).is_ok());
							run.ok(good == outcome.is_ok(), "outcome", || format!("{}: its call says {outcome:?}", what()));
							let (t, w) = (peek(&after, totals), peek(&want, totals));
							run.ok(t == w, "tokens", || format!("{}: balances are now {t:?}, not {w:?}", what()));
							const OUT: [(&str, &str); 2] = [("System", ""), ("Balances", "TotalIssuance")];
							run.ok(rest(&after, &OUT) == rest(&want, &OUT), "effects", || format!("{}: it has effects that the account's own call would not have", what()));
							let is = peek(&after, || nonce_of(who));
							let gone = peek(&after, || total(who)) == 0;
							run.ok(gone || is == has + 1, "nonce", || format!("{}: the nonce is now {is}", what()));
							if !gone {
								// once only
								let (again, last, _) = apply(&after, &outer);
								run.ok(again.is_err() && rest(&last, &[]) == rest(&after, &[]), "replay", || format!("{}: a second time says {again:?}", what()));
							}
							// nobody but the passkey can have asked for it
							let forged = request(who, key, proof, nonce, call, 0);
							let (r, _, _) = apply(&io, &forged);
							if r.is_ok() {
								run.fail("passkey-signature-unverified", format!("{}: accepted with any bytes for the passkey's signature of the call", what()), case());
							}
							// signed by an account, it is not a passkey's transaction
							let x = peek(&io, || tx(OTHER, nonce_of(OTHER), 0, outer.clone()));
							let (r, _) = on(&io, || rt::Executive::apply_extrinsic(x));
							run.ok(!matches!(r, Ok(Ok(()))), "signed", || format!("{}: went through as another account's signed transaction", what()));
						}
					}
				}
			}
		}
	});
	let t: Vec<u64> = tally.iter().map(|a| a.load(std::sync::atomic::Ordering::Relaxed)).collect();
	run.note(&format!("{NET}_requests"), format!("{} refused, {} accepted and failed, {} accepted and successful", t[0], t[1], t[2]));
	assert!(t.iter().all(|n| *n > 0), "{t:?}");
	run.sample(serde_json::json!({"net": NET, "call": fees::show(&calls[1]), "binding": format!("{:?}", proofs[1])}));
}
/// A passkey's transaction announces its success, and nothing else does.
pub fn c42(run: &Run) {
	let base = on(&start(), || give(NOBODY, 0)).1;
	let done = std::sync::atomic::AtomicU64::new(0);
	for call in calls().iter().filter(|c| permitted(c)) {
		for who in [OWNER, PLAIN, OTHER, SECOND] {
			for (key, proof) in [(0, Proof::By(who, 0)), (1, Proof::By(who, 1)), (0, Proof::By(who, 1)), (0, Proof::Garbage)] {
				run.eval(1);
				run.state(1);
				let outer = request(who, key, &proof, 0, call, 1);
				let before = crate::local::announced::count(&base);
				let (r, after, _) = apply(&base, &outer);
				let got = crate::local::announced::since(&after, before);
				let want: Vec<rt::RuntimeEvent> = match r {
					Ok(Ok(())) => vec![pallet_passkey::Event::<Runtime>::TransactionExecutionSuccess { account_id: account(who) }.into()],
					_ => vec![],
				};
				done.fetch_add(want.len() as u64, std::sync::atomic::Ordering::Relaxed);
				run.ok(got == want, "announced-passkey", || format!("{NET}: a passkey's {} for account {who} ended with {r:?} and announces {got:?}", fees::show(call)));
			}
		}
	}
	assert!(done.load(std::sync::atomic::Ordering::Relaxed) > 4);
}
fn nonce_of(n: usize) -> u32 {
	nonce(n)
}

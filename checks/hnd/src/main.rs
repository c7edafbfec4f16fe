//! C05 C06 C07: pallet-handles, explored state by state and compared with a registry model.
use common_primitives::{
	handles::ClaimHandlePayload,
	msa::{MessageSourceId, MsaLookup, MsaValidator},
	utils::wrap_binary_data,
};
use fr::{peek, run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_handles as ph;
use sdk::frame_support::dispatch::GetDispatchInfo;
use sdk::frame_support::traits::{ConstU16, ConstU32};
use sdk::frame_support::{construct_runtime, traits::UnfilteredDispatchable};
use sdk::frame_system;
use sdk::pallet_balances;
use sdk::codec::Encode;
use sdk::sp_core::{crypto::AccountId32, sr25519, Pair};
use sdk::sp_runtime::traits::{ConvertInto, SignedExtension};
use sdk::sp_runtime::{BuildStorage, DispatchError, MultiSignature};
use std::collections::BTreeMap;
use std::sync::OnceLock;

fr::base_runtime!(account = AccountId32, balance = u64, ed = 1, freezes = 1);
/// Keys 0 and 1 control identity 1, key 2 identity 2, key 3 identity 3, key 4 none.
const OWNER: [Option<MessageSourceId>; 5] = [Some(1), Some(1), Some(2), Some(3), None];
fn pairs() -> &'static Vec<(sr25519::Pair, AccountId32)> {
	static P: OnceLock<Vec<(sr25519::Pair, AccountId32)>> = OnceLock::new();
	P.get_or_init(|| {
		(0..5u8)
			.map(|i| {
				let p = sr25519::Pair::from_seed(&[i + 1; 32]);
				let a = AccountId32::from(p.public());
				(p, a)
			})
			.collect()
	})
}
fn acc(k: usize) -> AccountId32 {
	pairs()[k].1.clone()
}
pub struct Ids;
impl MsaLookup for Ids {
	type AccountId = AccountId32;
	fn get_msa_id(key: &AccountId32) -> Option<MessageSourceId> {
		pairs().iter().position(|p| p.1 == *key).and_then(|i| OWNER[i])
	}
}
impl MsaValidator for Ids {
	type AccountId = AccountId32;
	fn ensure_valid_msa_key(key: &AccountId32) -> Result<MessageSourceId, DispatchError> {
		Self::get_msa_id(key).ok_or(DispatchError::Other("no identity"))
	}
}
const LO: u16 = 10;
const HI: u16 = 12;
const WINDOW: u32 = 3;
impl ph::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MsaInfoProvider = Ids;
	type HandleSuffixMin = ConstU16<LO>;
	type HandleSuffixMax = ConstU16<HI>;
	type MortalityWindowSize = ConstU32<WINDOW>;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Handles: ph::{Pallet, Call, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);
/// Base handles and the canonical form they must share (None: not an acceptable base).
struct Base {
	text: Vec<u8>,
	canon: Option<&'static str>,
}
fn b(t: &str, canon: Option<&'static str>) -> Base {
	Base { text: t.as_bytes().to_vec(), canon }
}
fn bases() -> &'static Vec<Base> {
	static P: OnceLock<Vec<Base>> = OnceLock::new();
	P.get_or_init(|| {
		let mut v = vec![b("abc", Some("abc")), b("\u{104}BC", Some("abc")), b("xyz", Some("xyz")), b("A-b-c", None)];
		v[3] = b("aBc", Some("abc"));
		// from here on: bases that must be refused
		v.push(b("ab", None));
		v.push(b("admin", None));
		v.push(b("abc@", None));
		v.push(b("abcdefghijabcdefghijk", None));
		v.push(Base { text: vec![b'a', b'b', 0xff, b'c'], canon: None });
		// more than 32 bytes when canonicalised
		v.push(b(&"\u{309f}".repeat(6), None));
		v.push(b(&"\u{309f}".repeat(7), None));
		v.push(b(&"\u{676}".repeat(10), None));
		// the longest that fits in characters and in bytes, and one more of each
		v.push(b("bcdxbcdxbcdxbcdxbcdx", Some("bcdxbcdxbcdxbcdxbcdx")));
		v.push(b("bcdxbcdxbcdxbcdxbcdxb", None));
		v.push(b(&"\u{104}".repeat(16), Some("aaaaaaaaaaaaaaaa")));
		v.push(b(&"\u{104}".repeat(17), None));
		v.push(b("\u{104}\u{104}", None));
		v
	})
}
const NORMAL: usize = 4;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Held {
	base: usize,
	suffix: u16,
	exp: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
	now: u32,
	held: [Option<Held>; 3],
	issued: BTreeMap<&'static str, Vec<u16>>,
}
#[derive(Clone)]
struct St {
	io: Io,
	m: Model,
	/// The suffixes the query announced for each canonical base at the very start.
	plan: std::sync::Arc<BTreeMap<&'static str, Vec<u16>>>,
}
#[derive(Clone, Debug)]
struct Req {
	key: usize,
	signer: usize,
	base: usize,
	signed_base: usize,
	exp: u32,
	signed_exp: u32,
}
#[derive(Clone, Debug)]
enum Act {
	Claim(Req),
	Change(Req),
	Retire(usize),
	Unsigned(u8),
	Advance,
}
fn sign(signer: usize, base: &[u8], exp: u32) -> MultiSignature {
	let p = ClaimHandlePayload::<u32>::new(base.to_vec(), exp);
	MultiSignature::Sr25519(pairs()[signer].0.sign(&wrap_binary_data(p.encode())))
}
fn call_of(r: &Req, change: bool) -> RuntimeCall {
	let bs = bases();
	let proof = sign(r.signer, &bs[r.signed_base].text, r.signed_exp);
	let payload = ClaimHandlePayload::new(bs[r.base].text.clone(), r.exp);
	RuntimeCall::Handles(if change { ph::Call::change_handle { msa_owner_key: acc(r.key), proof, payload } } else { ph::Call::claim_handle { msa_owner_key: acc(r.key), proof, payload } })
}
fn display(base: &[u8], suffix: u16) -> Vec<u8> {
	let mut v = base.to_vec();
	v.extend(format!(".{suffix}").bytes());
	v
}
fn handle_events() -> Vec<(bool, u64, Vec<u8>)> {
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Handles(ph::Event::HandleClaimed { msa_id, handle }) => Some((true, msa_id, handle)),
			RuntimeEvent::Handles(ph::Event::HandleRetired { msa_id, handle }) => Some((false, msa_id, handle)),
			_ => None,
		})
		.collect()
}
fn next(base: &[u8], n: u16) -> Vec<u16> {
	Handles::get_next_suffixes(base.to_vec().try_into().unwrap_or_default(), n).suffixes
}
struct Sys {
	wide: bool,
	horizon: u32,
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		let mut x = sdk::io::TestExternalities::new(t);
		let mut plan = BTreeMap::new();
		x.execute_with(|| {
			System::set_block_number(1);
			for b in bases().iter() {
				if let Some(c) = b.canon {
					plan.insert(c, next(&b.text, HI - LO + 1));
				}
			}
		});
		vec![St { io: x.into_state(), m: Model { now: 1, held: [None, None, None], issued: Default::default() }, plan: plan.into() }]
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(fr::key(&s.io), &s.m)
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		let now = s.m.now;
		let mut put = |r: Req| {
			v.push(Act::Claim(r.clone()));
			v.push(Act::Change(r));
		};
		if self.wide {
			for key in 0..5 {
				for signer in 0..5 {
					for base in [0, 2] {
						for signed_base in [base, 2 - base] {
							for exp in now.saturating_sub(1)..=now + WINDOW + 1 {
								for signed_exp in [exp, exp + 1, now + 1] {
									put(Req { key, signer, base, signed_base, exp, signed_exp });
								}
							}
						}
					}
				}
			}
			for base in 0..bases().len() {
				for key in [0, 2] {
					put(Req { key, signer: key, base, signed_base: base, exp: now + 1, signed_exp: now + 1 });
				}
			}
			for i in 0..6 {
				v.push(Act::Unsigned(i));
			}
		} else {
			for key in [0, 1, 2, 3] {
				for base in 0..NORMAL {
					for exp in if key == 0 { now + 1..=now + 2 } else { now + 1..=now + 1 } {
						put(Req { key, signer: key, base, signed_base: base, exp, signed_exp: exp });
					}
				}
			}
		}
		for k in 0..5 {
			v.push(Act::Retire(k));
		}
		if now < self.horizon {
			v.push(Act::Advance);
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		let mut m = s.m.clone();
		let mut want_ev: Vec<(bool, u64, Vec<u8>)> = vec![];
		let mut issue: Option<(u64, usize, u32)> = None;
		// what the property demands
		let want = match a {
			Act::Advance => {
				m.now += 1;
				true
			},
			Act::Unsigned(_) => false,
			Act::Retire(k) => match OWNER[*k].and_then(|o| s.m.held[o as usize - 1].clone().map(|h| (o, h))) {
				Some((o, h)) if s.m.now >= h.exp => {
					want_ev.push((false, o, display(&bases()[h.base].text, h.suffix)));
					m.held[o as usize - 1] = None;
					true
				},
				_ => false,
			},
			Act::Claim(r) | Act::Change(r) => {
				let change = matches!(a, Act::Change(_));
				let fresh = s.m.now < r.exp && r.exp < s.m.now + WINDOW;
				let signed = r.signer == r.key && r.base == r.signed_base && r.exp == r.signed_exp;
				match (OWNER[r.key], bases()[r.base].canon) {
					(Some(o), Some(c)) if fresh && signed && s.m.held[o as usize - 1].is_some() == change => {
						let used = s.m.issued.get(c).map_or(0, |v| v.len());
						if used > (HI - LO) as usize {
							false
						} else {
							if let Some(h) = &s.m.held[o as usize - 1] {
								want_ev.push((false, o, display(&bases()[h.base].text, h.suffix)));
							}
							issue = Some((o, r.base, r.exp));
							true
						}
					},
					_ => false,
				}
			},
		};
		let ((r, ev, shown), io) = run(&s.io, || {
			let r: Result<(), String> = match a {
				Act::Advance => {
					System::set_block_number(m.now);
					Ok(())
				},
				Act::Retire(k) => {
					let call = RuntimeCall::Handles(ph::Call::retire_handle {});
					let info = call.get_dispatch_info();
					let e = ph::handles_signed_extension::HandlesSignedExtension::<Test>::new();
					match e.clone().pre_dispatch(&acc(*k), &call, &info, 0) {
						Err(x) => Err(format!("refused by validation: {x:?}")),
						Ok(()) => call.dispatch_bypass_filter(RuntimeOrigin::signed(acc(*k))).map(|_| ()).map_err(|e| format!("failed when run: {:?}", e.error)),
					}
				},
				// the caller is anybody: here the key that controls nothing
				Act::Claim(q) => call_of(q, false).dispatch_bypass_filter(RuntimeOrigin::signed(acc(4))).map(|_| ()).map_err(|e| format!("{:?}", e.error)),
				Act::Change(q) => call_of(q, true).dispatch_bypass_filter(RuntimeOrigin::signed(acc(4))).map(|_| ()).map_err(|e| format!("{:?}", e.error)),
				Act::Unsigned(i) => {
					let q = Req { key: 0, signer: 0, base: 0, signed_base: 0, exp: s.m.now + 1, signed_exp: s.m.now + 1 };
					let c = match i / 2 {
						0 => call_of(&q, false),
						1 => call_of(&q, true),
						_ => RuntimeCall::Handles(ph::Call::retire_handle {}),
					};
					let o = if i % 2 == 0 { RuntimeOrigin::none() } else { RuntimeOrigin::root() };
					c.dispatch_bypass_filter(o).map(|_| ()).map_err(|e| format!("{:?}", e.error))
				},
			};
			let ev = handle_events();
			System::reset_events();
			let shown = issue.and_then(|(o, _, _)| Handles::get_handle_for_msa(o)).map(|h| h.suffix);
			(r, ev, shown)
		});
		let name = mc::action_name(a);
		if let (Act::Retire(k), false) = (a, want) {
			// A proxy, multisig or derivative account reaches the pallet without the checks of the transaction pool
			let (r2, io2) = run(&s.io, || ph::Pallet::<Test>::retire_handle(RuntimeOrigin::signed(acc(*k))));
			must!(r2.is_err() && fr::key(&io2) == fr::key(&s.io), "C07:Retire-wrapped", "{a:?} in {:?}, made through another call, returned {r2:?}", s.m);
		}
		if r.is_ok() != want {
			// an exhausted base that is served, or one that is refused before its suffixes ran out, is the suffix sequence's concern too
			let p = match a {
				Act::Claim(q) | Act::Change(q) if bases()[q.base].canon.is_none() => "C05,C06,C07",
				Act::Claim(q) | Act::Change(q) if q.signer == q.key && q.base == q.signed_base && q.exp == q.signed_exp && q.exp == s.m.now + 1 => "C05,C06,C07",
				_ => "C07",
			};
			return mc::bad(format!("{p}:{name}-{}", if want { "refused" } else { "accepted" }), format!("{a:?} in {:?} returned {r:?}", s.m));
		}
		if r.is_err() {
			must!(fr::key(&io) == fr::key(&s.io) && ev.is_empty(), format!("C07:{name}-failed-with-effect"), "{a:?} failed with {r:?} but changed the registry of {:?}, events {ev:?}", s.m);
			return Ok(None)
		}
		if let Some((o, base, exp)) = issue {
			let c = bases()[base].canon.unwrap();
			let list = m.issued.entry(c).or_default();
			let Some(suffix) = shown else { return mc::bad("C05:claimed-not-found", format!("{a:?} in {:?} succeeded but identity {o} has no handle", s.m)) };
			must!((LO..=HI).contains(&suffix), "C06:suffix-outside-range", "{a:?} issued suffix {suffix}");
			must!(!list.contains(&suffix), "C06:reissued", "{a:?} in {:?} issued suffix {suffix} of {c} again", s.m);
			must!(s.plan[c].get(list.len()) == Some(&suffix), "C06:not-as-predicted", "{a:?} in {:?} issued {suffix}; announced at the start: {:?}", s.m, s.plan[c]);
			list.push(suffix);
			want_ev.push((true, o, display(&bases()[base].text, suffix)));
			m.held[o as usize - 1] = Some(Held { base, suffix, exp });
		}
		must!(ev == want_ev, "C05:events", "{a:?} in {:?} deposited {ev:?}, expected {want_ev:?}", s.m);
		Ok(Some(St { io, m, plan: s.plan.clone() }))
	}
	fn check(&self, s: &St) -> Result<(), Bad> {
		peek(&s.io, || {
			let m = &s.m;
			for o in 1..=4u64 {
				let got = Handles::get_handle_for_msa(o).map(|h| (h.base_handle, h.suffix, h.canonical_base));
				let want = m.held.get(o as usize - 1).and_then(|h| h.as_ref()).map(|h| (bases()[h.base].text.clone(), h.suffix, bases()[h.base].canon.unwrap().as_bytes().to_vec()));
				must!(got == want, "C05:identity-to-handle", "identity {o} shows {got:?}, expected {want:?} in {m:?}");
			}
			for b in bases().iter() {
				for suffix in LO - 1..=HI + 1 {
					let d = display(&b.text, suffix);
					let Ok(d2) = d.clone().try_into() else { continue };
					let got = Handles::get_msa_id_for_handle(d2);
					let want = b.canon.and_then(|c| m.held.iter().position(|h| h.as_ref().map_or(false, |h| bases()[h.base].canon == Some(c) && h.suffix == suffix))).map(|i| i as u64 + 1);
					must!(got == want, "C05:handle-to-identity", "{:?} resolves to {got:?}, expected {want:?} in {m:?}", String::from_utf8_lossy(&d));
				}
				if let Some(c) = b.canon {
					let left = &s.plan[c][m.issued.get(c).map_or(0, |v| v.len())..];
					for n in 0..=(HI - LO + 2) {
						let got = next(&b.text, n);
						must!(got[..] == left[..left.len().min(n as usize)], "C06:prediction", "asked for {n} next suffixes of {:?}: {got:?}, left {left:?} in {m:?}", String::from_utf8_lossy(&b.text));
					}
				}
			}
			Ok(())
		})
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		serde_json::json!(format!("{:?}", s.m))
	}
}
/// The validity query must say exactly what a fully authorised claim would be told about the base.
fn agreement(r: &Run) {
	let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let st = sdk::io::TestExternalities::new(t).into_state();
	let st = run(&st, || System::set_block_number(1)).1;
	let al: Vec<&str> = vec!["a", "Z", "0", " ", ".", "@", "\u{309f}", "\u{676}", "\u{2167}", "\u{df}", "-", "_", "\u{e9}", "\u{4e2d}", "\u{1f600}", "\u{301}", "\u{3b1}", "l", "\u{200d}", "\t"];
	let mut all: Vec<Vec<u8>> = vec![];
	for s in mc::strings(&al, mc::pick(4, 5)) {
		all.push(s.concat().into_bytes());
	}
	for (i, x) in al.iter().enumerate() {
		for n in 0..=32 {
			all.push(x.repeat(n).into_bytes());
			for y in [al[(i + 1) % al.len()], "a", " ", "\u{309f}"] {
				all.push(format!("{}{y}", x.repeat(n)).into_bytes());
				all.push(format!("{y}{}", x.repeat(n)).into_bytes());
				all.push(format!("{y}{}{y}", x.repeat(n)).into_bytes());
				all.push(x.repeat(n).bytes().chain([0xff]).collect());
			}
		}
	}
	for w in ["admin", "Admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"] {
		for x in ["", "a", " ", "."] {
			all.push(format!("{w}{x}").into_bytes());
			all.push(format!("{x}{w}").into_bytes());
		}
	}
	all.retain(|x| x.len() <= 32);
	all.sort();
	all.dedup();
	let ok = std::sync::atomic::AtomicU64::new(0);
	mc::par(all.len(), |i| {
		let text = &all[i];
		let r2 = mc::catch(|| {
			peek(&st, || {
				let v = Handles::validate_handle(text.clone());
				let c = RuntimeCall::Handles(ph::Call::claim_handle { msa_owner_key: acc(2), proof: sign(2, text, 2), payload: ClaimHandlePayload::new(text.clone(), 2) }).dispatch_bypass_filter(RuntimeOrigin::signed(acc(4)));
				(v, c.map(|_| ()).map_err(|e| e.error))
			})
		});
		r.eval(2);
		match r2 {
			Err(p) => r.fail("C07:panic-validity", format!("validity query or claim of {text:?} panicked: {p}"), serde_json::json!(text)),
			Ok((v, c)) => {
				if v {
					ok.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
				}
				if v != c.is_ok() {
					r.fail("C07:validity-query", format!("validity query says {v} for {:?}, a claim of it returns {c:?}", String::from_utf8_lossy(text)), serde_json::json!(text));
				}
			},
		}
	});
	r.note("validity query", serde_json::json!({"bases compared with a claim": all.len(), "valid ones": ok.into_inner()}));
}
fn explore(r: &Run) {
	let a = Sys { wide: true, horizon: 5 };
	mc::explore(r, "every mismatch", &a, Bounds { depth: mc::pick(3, 4), max_states: mc::pick(30_000, 300_000), secs: mc::pick(60, 350) });
	let b = Sys { wide: false, horizon: mc::pick(3, 4) };
	mc::explore(r, "histories", &b, Bounds { depth: mc::pick(7, 10), max_states: mc::pick(300_000, 3_000_000), secs: mc::pick(90, 400) });
}
fn c07(r: &Run) {
	agreement(r);
	explore(r);
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[("C05", explore), ("C06", explore), ("C07", c07)]);
}

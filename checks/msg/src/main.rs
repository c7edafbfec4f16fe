//! C23 C24: pallet-messages, explored state by state and compared with a list of messages per block and schema.
use common_primitives::{
	messages::MessageResponse,
	msa::{DelegatorId, MessageSourceId, MsaLookup, MsaValidator, ProviderId, SchemaGrantValidator},
	schema::{ModelType, PayloadLocation, SchemaId, SchemaInfoResponse, SchemaProvider, SchemaResponse},
};
use fr::{peek, run, Io};
use mc::{must, Bad, Bounds, Run, System as Sm};
use pallet_messages as pm;
use sdk::codec::{Encode, MaxEncodedLen};
use sdk::frame_support::traits::{Get, Hooks};
use sdk::frame_support::{construct_runtime, storage::unhashed, traits::UnfilteredDispatchable};
use sdk::frame_system;
use sdk::multibase::{self, Base};
use sdk::pallet_balances;
use sdk::sp_runtime::{BuildStorage, DispatchError, DispatchResult};
use serde_json::json;
use std::collections::BTreeMap;

fr::base_runtime!(account = u64, balance = u64, ed = 1, freezes = 1);
const MAX: usize = 64;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Max;
impl Get<u32> for Max {
	fn get() -> u32 {
		MAX as u32
	}
}
impl MaxEncodedLen for Max {
	fn max_encoded_len() -> usize {
		4
	}
}
impl Encode for Max {}
/// Keys 10 and 11 control identity 1, 20 identity 2, 30 identity 3; key 40 none.
fn identity(key: u64) -> Option<MessageSourceId> {
	match key {
		10 | 11 => Some(1),
		20 => Some(2),
		30 => Some(3),
		_ => None,
	}
}
pub struct Env;
impl MsaLookup for Env {
	type AccountId = u64;
	fn get_msa_id(key: &u64) -> Option<MessageSourceId> {
		identity(*key)
	}
}
impl MsaValidator for Env {
	type AccountId = u64;
	fn ensure_valid_msa_key(key: &u64) -> Result<MessageSourceId, DispatchError> {
		identity(*key).ok_or(DispatchError::Other("no identity"))
	}
}
/// Identity 1 grants schema 1 to provider 2 until block 2, identity 2 grants schema 5 to provider 3 for ever, identity 3 grants schema 1 to provider 1 from block 2 on.
fn granted(provider: u64, delegator: u64, schema: u16, block: u32) -> bool {
	match (provider, delegator, schema) {
		(2, 1, 1) => block <= 2,
		(2, 1, 257) => block <= 3,
		(3, 2, 5) => true,
		(1, 3, 1) => block >= 2,
		_ => false,
	}
}
impl SchemaGrantValidator<u32> for Env {
	fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: SchemaId, b: u32) -> DispatchResult {
		if granted(p.0, d.0, s, b) {
			Ok(())
		} else {
			Err(DispatchError::Other("not granted"))
		}
	}
}
/// The schemas that exist, and their neighbours.
const SCHEMAS: [u16; 11] = [0, 1, 2, 3, 4, 5, 6, 7, 257, 0x1000, 0x0101 ^ 0x8000];
fn location(schema: u16) -> Option<PayloadLocation> {
	match schema {
		1 | 5 | 257 => Some(PayloadLocation::OnChain),
		2 | 6 | 0x1000 => Some(PayloadLocation::IPFS),
		3 => Some(PayloadLocation::Itemized),
		4 => Some(PayloadLocation::Paginated),
		_ => None,
	}
}
impl SchemaProvider<SchemaId> for Env {
	fn get_schema_by_id(schema_id: SchemaId) -> Option<SchemaResponse> {
		location(schema_id).map(|payload_location| SchemaResponse { schema_id, model: vec![], model_type: ModelType::AvroBinary, payload_location, settings: vec![] })
	}
	fn get_schema_info_by_id(schema_id: SchemaId) -> Option<SchemaInfoResponse> {
		location(schema_id).map(|payload_location| SchemaInfoResponse { schema_id, model_type: ModelType::AvroBinary, payload_location, settings: vec![] })
	}
}
impl pm::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Env;
	type SchemaGrantValidator = Env;
	type SchemaProvider = Env;
	type MessagesMaxPayloadSizeBytes = Max;
}
construct_runtime!(
	pub enum Test {
		System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
		Messages: pm::{Pallet, Call, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
	}
);

fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
fn base32(b: &[u8]) -> String {
	let bits: String = b.iter().map(|x| format!("{x:08b}")).collect();
	let mut o = String::from("b");
	for c in bits.as_bytes().chunks(5) {
		let mut n = 0;
		for i in 0..5 {
			n = n * 2 + (c.get(i) == Some(&b'1')) as usize;
		}
		o.push("abcdefghijklmnopqrstuvwxyz234567".as_bytes()[n] as char);
	}
	o
}
/// A version-1 content identifier: version, codec, hash function, length, digest, and nothing after it.
fn is_cid1(b: &[u8]) -> bool {
	fn number(b: &mut &[u8]) -> Option<u64> {
		let n = b.iter().position(|x| x & 0x80 == 0)?;
		if n >= 9 || n > 0 && b[n] == 0 {
			return None
		}
		let v = b[..=n].iter().rev().fold(0u64, |a, x| a << 7 | (x & 0x7f) as u64);
		*b = &b[n + 1..];
		Some(v)
	}
	let mut b = b;
	let r = (|| Some((number(&mut b)?, number(&mut b)?, number(&mut b)?, number(&mut b)?)))();
	matches!(r, Some((1, _, _, len)) if len <= 64 && b.len() as u64 == len)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Msg {
	index: u16,
	provider: u64,
	on_behalf: Option<u64>,
	/// the payload, or the identifier's bytes
	content: Vec<u8>,
	length: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
	now: u32,
	next: u32,
	msgs: BTreeMap<(u32, u16), Vec<Msg>>,
}
#[derive(Clone)]
struct St {
	io: Io,
	m: Model,
}
#[derive(Clone, Debug)]
enum Act {
	OnChain { who: Option<u64>, for_: Option<u64>, schema: u16, payload: usize },
	Ipfs { who: Option<u64>, schema: u16, cid: Vec<u8>, length: u32 },
	Next,
}
fn payload(i: usize) -> Vec<u8> {
	match i {
		0 => vec![],
		1 => vec![7],
		2 => b"ab".to_vec(),
		n => (0..n).map(|i| i as u8).collect(),
	}
}
fn cids() -> Vec<String> {
	let good: Vec<u8> = [&[1, 0x55, 0x12, 32][..], &[9; 32]].concat();
	let v0: Vec<u8> = [&[0x12, 0x20][..], &[9; 32]].concat();
	vec![
		base32(&good),
		format!("f{}", hex(&[1, 0x70, 0, 1, 5])),
		multibase::encode(Base::Base58Btc, &good),
		multibase::encode(Base::Base64, &good),
		multibase::encode(Base::Base58Btc, &v0)[1..].to_string(),
		multibase::encode(Base::Base58Btc, &v0),
		base32(&[&good[..], &[1]].concat()),
		base32(&good[..35]),
		String::new(),
		"b".into(),
		"fz".into(),
	]
}
fn origin(w: Option<u64>) -> RuntimeOrigin {
	w.map_or(RuntimeOrigin::none(), RuntimeOrigin::signed)
}
/// (block-level event, schema, block) of what was deposited
fn events() -> Vec<Option<(u16, u32)>> {
	System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::Messages(pm::Event::MessagesInBlock) => Some(None),
			RuntimeEvent::Messages(pm::Event::MessagesStored { schema_id, block_number }) => Some(Some((schema_id, block_number))),
			_ => None,
		})
		.collect()
}
/// The identifier's bytes, when the text is an identifier in one of the usual bases.
fn cid_of(t: &[u8]) -> Option<Vec<u8>> {
	let s = std::str::from_utf8(t).ok()?;
	let b = multibase::decode(s).ok()?.1;
	// `Qm...` is the text form of version 0, whatever its letters say as a multibase string
	(!s.starts_with("Qm") && s.len() > 2 && is_cid1(&b)).then_some(b)
}
struct Sys {
	wide: bool,
	horizon: u32,
	used: Vec<u32>,
}
fn start(used: u32) -> St {
	let t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut x = sdk::io::TestExternalities::new(t);
	x.execute_with(|| {
		System::set_block_number(1);
		<Messages as Hooks<u32>>::on_initialize(1);
		if used > 0 {
			unhashed::put_raw(&fr::prefix("Messages", "BlockMessageIndex"), &(used as u16).encode());
		}
	});
	St { io: x.into_state(), m: Model { now: 1, next: used, msgs: BTreeMap::new() } }
}
impl Sm for Sys {
	type State = St;
	type Action = Act;
	fn init(&self) -> Vec<St> {
		self.used.iter().map(|u| start(*u)).collect()
	}
	fn key(&self, s: &St) -> u128 {
		fr::mix(fr::key(&s.io), &s.m)
	}
	fn actions(&self, s: &St) -> Vec<Act> {
		let mut v = vec![];
		if self.wide {
			for who in [Some(10), Some(11), Some(20), Some(30), Some(40), None] {
				for schema in SCHEMAS {
					for for_ in [None, Some(1), Some(2), Some(3), Some(4), Some(0)] {
						for payload in [0, 1, MAX, MAX + 1] {
							v.push(Act::OnChain { who, for_, schema, payload });
						}
					}
					for c in cids() {
						for length in [0, u32::MAX] {
							v.push(Act::Ipfs { who, schema, cid: c.clone().into_bytes(), length });
						}
					}
					v.push(Act::Ipfs { who, schema, cid: vec![b'f', 0xff, b'0'], length: 1 });
				}
			}
		} else {
			let c = cids();
			for (who, for_, schema, payload) in [(10, None, 1, 1), (11, None, 5, 2), (20, Some(1), 1, 1), (30, Some(2), 5, 0), (10, Some(3), 1, 2), (20, Some(1), 5, 1), (20, Some(1), 257, 2), (40, None, 1, 1), (20, None, 1, MAX + 1)] {
				v.push(Act::OnChain { who: Some(who), for_, schema, payload });
			}
			for (who, schema, i, length) in [(10, 2, 0, 5), (20, 2, 1, 6), (30, 6, 2, 7), (20, 2, 7, 5), (20, 0x1000, 1, 70_000), (20, 1, 0, 5)] {
				v.push(Act::Ipfs { who: Some(who), schema, cid: c[i].clone().into_bytes(), length });
			}
		}
		if s.m.now < self.horizon {
			v.push(Act::Next);
		}
		v
	}
	fn step(&self, s: &St, a: &Act) -> Result<Option<St>, Bad> {
		let mut m = s.m.clone();
		let add: Option<(u16, Msg)> = match a {
			Act::Next => None,
			Act::OnChain { who, for_, schema, payload: p } => who.and_then(identity).and_then(|id| {
				let ok = payload(*p).len() <= MAX && location(*schema) == Some(PayloadLocation::OnChain) && for_.map_or(true, |d| granted(id, d, *schema, s.m.now)) && s.m.next < 65_535;
				ok.then(|| (*schema, Msg { index: s.m.next as u16, provider: id, on_behalf: Some(for_.unwrap_or(id)), content: payload(*p), length: 0 }))
			}),
			Act::Ipfs { who, schema, cid, length } => who.and_then(identity).and_then(|id| {
				let b = cid_of(cid)?;
				let ok = (b.clone(), *length).encode().len() <= MAX && location(*schema) == Some(PayloadLocation::IPFS) && s.m.next < 65_535;
				ok.then(|| (*schema, Msg { index: s.m.next as u16, provider: id, on_behalf: None, content: b, length: *length }))
			}),
		};
		let want = matches!(a, Act::Next) || add.is_some();
		let mut want_ev = vec![];
		if let Some((schema, x)) = &add {
			if x.index == 0 {
				want_ev.push(None);
			}
			m.msgs.entry((m.now, *schema)).or_default().push(x.clone());
			m.next += 1;
		} else if want {
			m.now += 1;
			m.next = 0;
		}
		let ((r, ev), io) = run(&s.io, || {
			let go = |w: &Option<u64>, c: pm::Call<Test>| RuntimeCall::Messages(c).dispatch_bypass_filter(origin(*w)).map(|_| ()).map_err(|e| format!("{:?}", e.error));
			let r = match a {
				Act::Next => {
					System::set_block_number(m.now);
					<Messages as Hooks<u32>>::on_initialize(m.now);
					Ok(())
				},
				Act::OnChain { who, for_, schema, payload: p } => go(who, pm::Call::add_onchain_message { on_behalf_of: *for_, schema_id: *schema, payload: payload(*p) }),
				Act::Ipfs { who, schema, cid, length } => go(who, pm::Call::add_ipfs_message { schema_id: *schema, cid: cid.clone(), payload_length: *length }),
			};
			let ev = events();
			System::reset_events();
			(r, ev)
		});
		let name = mc::action_name(a);
		// the last index of a block is the ordering property's business, who may send what the other's
		let p = if s.m.next >= 65_535 { "C23" } else { "C24" };
		must!(r.is_ok() == want, format!("{p}:{name}-{}", if want { "refused" } else { "accepted" }), "{a:?} in {:?} returned {r:?}", s.m);
		if r.is_err() || !want {
			must!(r.is_ok() || (fr::key(&io) == fr::key(&s.io) && ev.is_empty()), format!("C23,C24:{name}-failed-with-effect"), "{a:?} failed with {r:?} but changed the state of {:?}, events {ev:?}", s.m);
			return Ok(None)
		}
		must!(ev == want_ev, format!("C23:{name}-events"), "{a:?} in {:?} deposited {ev:?}, expected {want_ev:?}", s.m);
		Ok(Some(St { io, m }))
	}
	fn check(&self, s: &St) -> Result<(), Bad> {
		let m = &s.m;
		peek(&s.io, || {
			for block in 0..=self.horizon + 1 {
				for schema in SCHEMAS {
					let empty = vec![];
					let list = m.msgs.get(&(block, schema)).unwrap_or(&empty);
					for l in [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated] {
						if location(schema).map_or(false, |x| x != l) {
							continue
						}
						let got = Messages::get_messages_by_schema_and_block(schema, l, block);
						let want: Vec<MessageResponse> = list
							.iter()
							.map(|x| {
								let base = MessageResponse { provider_msa_id: x.provider, index: x.index, block_number: block, ..Default::default() };
								if l == PayloadLocation::IPFS {
									MessageResponse { cid: Some(base32(&x.content).into_bytes()), payload_length: Some(x.length), ..base }
								} else {
									MessageResponse { msa_id: x.on_behalf, payload: Some(x.content.clone()), ..base }
								}
							})
							.collect();
						must!(got == want, if l == PayloadLocation::IPFS { "C23,C24:read-back-ipfs" } else { "C23,C24:read-back" }, "block {block} schema {schema} reads {got:?}, expected {want:?} in {m:?}");
					}
				}
			}
			Ok(())
		})
	}
	fn describe(&self, s: &St) -> serde_json::Value {
		json!(format!("{:?}", s.m))
	}
}
fn histories(r: &Run) {
	mc::explore(r, "every request", &Sys { wide: true, horizon: 4, used: vec![0] }, Bounds { depth: mc::pick(2, 3), max_states: mc::pick(20_000, 100_000), secs: mc::pick(60, 300) });
	mc::explore(r, "indices running out", &Sys { wide: false, horizon: 2, used: vec![65_533, 65_534, 65_535] }, Bounds { depth: mc::pick(3, 5), max_states: 100_000, secs: 60 });
	mc::explore(r, "histories", &Sys { wide: false, horizon: 3, used: vec![0, 9, 254] }, Bounds { depth: mc::pick(5, 7), max_states: mc::pick(200_000, 2_000_000), secs: mc::pick(90, 400) });
}
/// Content identifiers of every shape, in several bases.
fn identifiers(r: &Run) {
	let st = start(0);
	let sys = Sys { wide: false, horizon: 1, used: vec![] };
	let mut all: Vec<Vec<u8>> = vec![vec![], b"b".to_vec(), b"Qm".to_vec(), "\u{e9}\u{e9}".as_bytes().to_vec(), vec![0xff; 5], "Qm\u{e9}".as_bytes().to_vec()];
	for head in mc::strings(&[0u8, 1, 2, 0x12, 0x20, 0x55, 0x80, 0xff, 32, 33, 64, 65], mc::pick(4, 5)) {
		if head.is_empty() {
			continue
		}
		let l = *head.last().unwrap() as usize;
		for tail in [0, 1, l.saturating_sub(1), l, l + 1, 32] {
			let b: Vec<u8> = head.iter().copied().chain((0..tail).map(|i| i as u8)).collect();
			if b.len() <= MAX + 8 {
				all.push(format!("f{}", hex(&b)).into_bytes());
				all.push(base32(&b).into_bytes());
				if head.len() == 4 && (head[..3] == [1, 0x55, 0x12] || head[..2] == [0x12, 0x20]) || head.len() < 3 {
					all.push(format!("F{}", hex(&b).to_uppercase()).into_bytes());
					all.push(format!("F{}", hex(&b)).into_bytes());
					all.push(format!("B{}", base32(&b)[1..].to_uppercase()).into_bytes());
					all.push(multibase::encode(Base::Base58Btc, &b).into_bytes());
					all.push(multibase::encode(Base::Base58Btc, &b)[1..].as_bytes().to_vec());
					all.push(multibase::encode(Base::Base64, &b).into_bytes());
					all.push(base32(&b)[1..].as_bytes().to_vec());
					all.push(format!(" {}", base32(&b)).into_bytes());
					all.push(format!("{} ", base32(&b)).into_bytes());
					all.push([base32(&b).as_bytes(), &[0xc3]].concat());
				}
			}
		}
	}
	all.sort();
	all.dedup();
	let good = all.iter().filter(|t| cid_of(t).is_some()).count();
	mc::par(all.len(), |i| {
		r.eval(1);
		let a = Act::Ipfs { who: Some(20), schema: 2, cid: all[i].clone(), length: 77 };
		let x = mc::catch(|| sys.step(&st, &a).and_then(|t| t.map_or(Ok(()), |t| sys.check(&t)))).unwrap_or_else(|p| mc::bad("panic", format!("{a:?} panicked: {p}")));
		if let Err(b) = x {
			r.fail(&b.key, b.what, json!(String::from_utf8_lossy(&all[i])));
		}
	});
	r.note("content identifiers", json!({"tried": all.len(), "acceptable": good}));
}
fn c24(r: &Run) {
	identifiers(r);
	histories(r);
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[("C23", histories), ("C24", c24)]);
}

//! C38: what is encoded for clients keeps its content.
use common_primitives::handles::{HandleResponse, PresumptiveSuffixesResponse};
use common_primitives::messages::{BlockPaginationRequest, BlockPaginationResponse, MessageResponse};
use common_primitives::msa::{DelegationResponse, DelegatorId, KeyInfoResponse, ProviderId, SchemaGrant};
use common_primitives::node::AccountId;
use common_primitives::rpc::RpcEvent;
use common_primitives::schema::{ModelType, PayloadLocation, SchemaResponse, SchemaSetting, SchemaVersionResponse};
use common_primitives::stateful_storage::{ItemizedStoragePageResponse, ItemizedStorageResponse, PaginatedStorageResponse};
use common_primitives::utils::{self, DetectedChainType};
use mc::Run;
use sdk::codec::{Decode, Encode};
use sdk::frame_system::{EventRecord, Phase};
use sdk::scale_info::TypeInfo;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;

/// The value read back from its text form, and the text form of one field.
fn round<T: Serialize + DeserializeOwned + PartialEq + Debug>(r: &Run, key: &str, v: &T) -> Option<Value> {
	r.eval(1);
	let got = mc::catch(|| {
		let text = serde_json::to_string(v).map_err(|e| e.to_string())?;
		let back: T = serde_json::from_str(&text).map_err(|e| e.to_string())?;
		Ok::<_, String>((back, serde_json::from_str::<Value>(&text).unwrap()))
	});
	match got {
		Ok(Ok((back, j))) if back == *v => Some(j),
		x => {
			r.fail(key, format!("{key}: {v:?} reads back as {x:?}"), json!(format!("{v:?}")));
			None
		},
	}
}
fn scale<T: Encode + Decode + PartialEq + Debug>(r: &Run, key: &str, v: &T) {
	r.eval(1);
	let e = v.encode();
	let got = mc::catch(|| T::decode(&mut &e[..]));
	r.ok(matches!(&got, Ok(Ok(x)) if x == v), key, || format!("{key}: {v:?} decodes as {got:?}"));
}
fn hex(b: &[u8]) -> String {
	format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Hex(#[serde(with = "utils::as_hex")] Vec<u8>);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct HexOption {
	#[serde(with = "utils::as_hex_option", skip_serializing_if = "Option::is_none", default)]
	a: Option<Vec<u8>>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Text(#[serde(with = "utils::as_string")] Vec<u8>);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct TextOption {
	#[serde(with = "utils::as_string_option", skip_serializing_if = "Option::is_none", default)]
	a: Option<Vec<u8>>,
}
fn bytes(r: &Run) {
	let mut all: Vec<Vec<u8>> = vec![vec![]];
	all.extend((0..=255u8).map(|b| vec![b]));
	all.extend((0..=65_535u16).map(|b| b.to_be_bytes().to_vec()));
	all.extend(mc::strings(&[0u8, 0x30, 0x7f, 0x80, 0xc3, 0xa9, 0xff], 5));
	all.extend([31, 32, 33, 255, 256, 1024].map(|n| (0..n).map(|i| (i * 7) as u8).collect()));
	mc::par(all.len(), |i| {
		let b = &all[i];
		if let Some(j) = round(r, "hex", &Hex(b.clone())) {
			r.ok(j == json!(hex(b)), "hex-form", || format!("{b:?} is written as {j}"));
		}
		if let Some(j) = round(r, "hex-option", &HexOption { a: Some(b.clone()) }) {
			r.ok(j == json!({ "a": hex(b) }), "hex-form", || format!("{b:?} is written as {j}"));
		}
		match std::str::from_utf8(b) {
			Ok(t) => {
				let j = round(r, "text", &Text(b.clone()));
				r.ok(j.map_or(true, |j| j == json!(t)), "text-form", || format!("{b:?} is not written as itself"));
				// an empty optional text is read as absent
				if !b.is_empty() {
					let j = round(r, "text-option", &TextOption { a: Some(b.clone()) });
					r.ok(j.map_or(true, |j| j == json!({ "a": t })), "text-form", || format!("{b:?} is not written as itself"));
				}
			},
			// bytes that are no text are an error, not something else
			Err(_) => {
				let got = mc::catch(|| (serde_json::to_string(&Text(b.clone())).ok(), serde_json::to_string(&TextOption { a: Some(b.clone()) }).ok()));
				r.ok(got == Ok((None, None)), "text-invalid", || format!("{b:?} is written as {got:?}"));
			},
		}
		let w = mc::catch(|| utils::wrap_binary_data(b.clone()));
		r.ok(w == Ok([b"<Bytes>", &b[..], b"</Bytes>"].concat()), "wrap", || format!("{b:?} is wrapped as {w:?}"));
		r.eval(4);
	});
	round(r, "hex-option", &HexOption { a: None });
	round(r, "text-option", &TextOption { a: None });
	for bad in ["\"0xzz\"", "\"0x1g\"", "7", "null", "[1]", "\"zz\""] {
		let got = mc::catch(|| serde_json::from_str::<Hex>(bad).ok());
		r.eval(1);
		r.ok(got == Ok(None), "hex-malformed", || format!("{bad} is read as {got:?}"));
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
enum Inner {
	#[codec(index = 0)]
	None,
	#[codec(index = 1)]
	Bytes(Vec<u8>),
	#[codec(index = 17)]
	Pair { a: u64, b: Option<u16> },
	#[codec(index = 255)]
	Deep(Box<Outer>),
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
enum Outer {
	#[codec(index = 0)]
	A(Inner),
	#[codec(index = 60)]
	B(Inner),
	#[codec(index = 255)]
	C(Inner),
}
fn events(r: &Run) {
	let data: Vec<Vec<u8>> = mc::strings(&[0u8, 1, 4, 255], 3).into_iter().chain([63usize, 64, 16_384].map(|n| vec![5; n])).collect();
	let mut inner = vec![(0u8, Inner::None)];
	inner.extend(data.iter().map(|d| (1, Inner::Bytes(d.clone()))));
	inner.extend([0u64, 1, u64::MAX].iter().flat_map(|a| [None, Some(0), Some(u16::MAX)].map(|b| (17, Inner::Pair { a: *a, b }))));
	inner.extend([Inner::None, Inner::Bytes(vec![9])].map(|i| (255, Inner::Deep(Box::new(Outer::B(i))))));
	for (n, i) in inner {
		for (p, o) in [(0u8, Outer::A(i.clone())), (60, Outer::B(i.clone())), (255, Outer::C(i.clone()))] {
			for (phase, want) in [(Phase::Initialization, None), (Phase::Finalization, None), (Phase::ApplyExtrinsic(0), Some(0)), (Phase::ApplyExtrinsic(1), Some(1)), (Phase::ApplyExtrinsic(u32::MAX), Some(u32::MAX))] {
				r.eval(1);
				let got = mc::catch(|| RpcEvent::from(EventRecord { phase, event: o.clone(), topics: vec![(); 2] }));
				let want = RpcEvent { phase: want, pallet: p, event: n, data: o.encode()[2..].to_vec() };
				r.ok(got.as_ref() == Ok(&want), "event", || format!("event {o:?} is reported as {got:?}"));
				if let Ok(e) = got {
					let j = round(r, "event-text", &e);
					r.ok(j.map_or(true, |j| j["data"] == json!(hex(&e.data)) && j["pallet"] == json!(p)), "event-text", || format!("the text form of {e:?} differs"));
					scale(r, "event-scale", &e);
				}
			}
		}
	}
}
fn responses(r: &Run) {
	let blobs = [vec![], vec![0], vec![255, 0, 1], vec![7; 300]];
	let texts = [vec![], b"a".to_vec(), "\u{e9}\"\\\n".as_bytes().to_vec()];
	let nums = [0u64, 1, u32::MAX as u64, (1 << 53) + 1, u64::MAX];
	for &n in &nums {
		for m in nums.iter().map(|m| Some(*m)).chain([None]) {
			for payload in blobs.iter().cloned().map(Some).chain([None]) {
				for cid in [None, Some(b"bafy".to_vec())] {
					let v = MessageResponse { provider_msa_id: n, index: n as u16, block_number: n as u32, msa_id: m, payload: payload.clone(), cid, payload_length: m.map(|m| m as u32) };
					round(r, "message", &v);
					scale(r, "message-scale", &v);
				}
			}
			for has_next in [false, true] {
				round(r, "page", &BlockPaginationResponse { content: vec![n], has_next, next_block: m.map(|m| m as u32), next_index: m.map(|m| m as u32) });
			}
		}
		round(r, "request", &BlockPaginationRequest { from_block: n as u32, from_index: 1, to_block: 2, page_size: n as u32 });
		for b in &blobs {
			round(r, "paginated", &PaginatedStorageResponse::new(n as u16, n, 3, n as u32, n as u16, b.clone()));
			let p = PaginatedStorageResponse::new(1, 2, 3, 4, 5, b.clone());
			r.ok((p.page_id, p.msa_id, p.schema_id, p.content_hash, p.nonce, &p.payload) == (1, 2, 3, 4, 5, b), "paginated-new", || format!("{p:?}"));
			let item = ItemizedStorageResponse { index: n as u16, payload: b.clone() };
			round(r, "item", &item);
			let p = ItemizedStoragePageResponse { msa_id: n, schema_id: 1, content_hash: n as u32, nonce: n as u16, items: vec![item.clone(), item] };
			round(r, "items", &p);
			scale(r, "items-scale", &p);
			let p = ItemizedStoragePageResponse::new(1, 2, 3, 4, p.items.clone());
			r.ok((p.msa_id, p.schema_id, p.content_hash, p.nonce, p.items.len()) == (1, 2, 3, 4, 2), "items-new", || format!("{p:?}"));
		}
		for t in &texts {
			round(r, "handle", &HandleResponse { base_handle: t.clone(), canonical_base: b"x".to_vec(), suffix: n as u16 });
			round(r, "suffixes", &PresumptiveSuffixesResponse { base_handle: t.clone(), suffixes: vec![n as u16, 1] });
			round(r, "version", &SchemaVersionResponse { schema_name: t.clone(), schema_version: n as u8, schema_id: n as u16 });
			for model_type in [ModelType::AvroBinary, ModelType::Parquet] {
				for payload_location in [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated] {
					let v = SchemaResponse { schema_id: n as u16, model: t.clone(), model_type, payload_location, settings: vec![SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired] };
					round(r, "schema-response", &v);
					scale(r, "schema-scale", &v);
				}
			}
		}
		let d = DelegationResponse { provider_id: ProviderId(n), permissions: vec![SchemaGrant::new(n as u16, n as u32)] };
		round(r, "delegation", &d);
		scale(r, "delegation-scale", &d);
		round(r, "key-info", &KeyInfoResponse { msa_id: n, msa_keys: vec![AccountId::new([n as u8; 32])] });
		// identities are encoded as plain numbers
		for (e, what) in [(DelegatorId(n).encode(), "delegator"), (ProviderId(n).encode(), "provider")] {
			r.eval(1);
			r.ok(e == n.to_le_bytes(), "id-encoding", || format!("{what} {n} is encoded as {e:?}"));
			for cut in 0..8 {
				let bad = (DelegatorId::decode(&mut &e[..cut]).is_err(), ProviderId::decode(&mut &e[..cut]).is_err());
				r.ok(bad == (true, true), "id-decoding", || format!("{cut} bytes of {what} {n} decode"));
			}
		}
		scale(r, "id-scale", &DelegatorId(n));
		scale(r, "id-scale", &ProviderId(n));
	}
}
/// The public chains are known by their genesis hash and by nothing else.
fn genesis(r: &Run) {
	let un = |s: &str| (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
	let main = un("4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1");
	let paseo = un("203c6838fc78ea3660a2f298a58d859519c72a5efdc0f194abd6f0d5ce1838e0");
	let mut all: Vec<(Vec<u8>, DetectedChainType)> = vec![(main.clone(), DetectedChainType::FrequencyMainNet), (paseo.clone(), DetectedChainType::FrequencyPaseoTestNet)];
	for h in [&main, &paseo] {
		for i in 0..=32 {
			if i < 32 {
				for bit in 0..8 {
					let mut x = h.clone();
					x[i] ^= 1 << bit;
					all.push((x, DetectedChainType::Unknown));
				}
				all.push((h[..i].to_vec(), DetectedChainType::Unknown));
				all.push((h[i + 1..].to_vec(), DetectedChainType::Unknown));
			}
			all.push(([&main[..i], &paseo[i..]].concat(), if i == 32 { DetectedChainType::FrequencyMainNet } else if i == 0 { DetectedChainType::FrequencyPaseoTestNet } else { DetectedChainType::Unknown }));
		}
		all.push(([&h[..], &[0]].concat(), DetectedChainType::Unknown));
	}
	for (h, want) in all {
		r.eval(1);
		let got = mc::catch(|| utils::get_chain_type_by_genesis_hash(&h));
		r.ok(got.as_ref() == Ok(&want), "genesis", || format!("genesis {h:02x?} is taken for {got:?}"));
	}
}
pub fn all(r: &Run) {
	bytes(r);
	events(r);
	responses(r);
	genesis(r);
}

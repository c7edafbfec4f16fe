//! C25: paging through the messages of a block range.
use crate::{best, node};
use common_primitives::messages::{BlockPaginationRequest, BlockPaginationResponse, MessageResponse};
use common_primitives::node::{Block, Hash};
use common_primitives::schema::{ModelType, PayloadLocation, SchemaId, SchemaResponse};
use mc::Run;
use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
use pallet_messages_runtime_api::MessagesRuntimeApi;
use sdk::sp_api::ApiError;
use serde_json::json;
use std::sync::Arc;

pub const SCHEMA: SchemaId = 9;
/// A chain with messages of one schema: `counts[i]` of them in block `first + i`; the query for block `broken` fails.
#[derive(Clone, Debug)]
pub struct Chain {
	pub first: u32,
	pub counts: Arc<Vec<u32>>,
	pub broken: Option<u32>,
	pub location: PayloadLocation,
}
std::thread_local! {
	static READ: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// One request: the node gives up (as an operator would) when it reads more blocks than any valid range has.
fn ask<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	READ.with(|c| c.set(0));
	mc::catch(f)
}
impl Chain {
	pub fn block(&self, n: u32) -> Vec<MessageResponse> {
		let k = n.checked_sub(self.first).and_then(|i| self.counts.get(i as usize)).copied().unwrap_or(0);
		(0..k).map(|i| MessageResponse { provider_msa_id: 5, index: (3 * i) as u16, block_number: n, msa_id: Some(i as u64), payload: Some(vec![n as u8, i as u8]), cid: None, payload_length: None }).collect()
	}
}
impl MessagesRuntimeApi<Block> for Chain {
	fn get_messages_by_schema_and_block(&self, at: Hash, schema: SchemaId, location: PayloadLocation, n: u32) -> Result<Vec<MessageResponse>, ApiError> {
		if at != best() || self.broken == Some(n) {
			return Err(ApiError::UnknownBlock("x".into()))
		}
		READ.with(|c| c.set(c.get() + 1));
		assert!(READ.with(|c| c.get()) <= 100_000, "one request reads more than 100 000 blocks");
		Ok(if schema == SCHEMA && location == self.location { self.block(n) } else { vec![] })
	}
	fn get_schema_by_id(&self, at: Hash, schema_id: SchemaId) -> Result<Option<SchemaResponse>, ApiError> {
		match schema_id {
			SCHEMA if at == best() => Ok(Some(SchemaResponse { schema_id, model: vec![], model_type: ModelType::AvroBinary, payload_location: self.location, settings: vec![] })),
			8 => Err(ApiError::UnknownBlock("x".into())),
			_ => Ok(None),
		}
	}
}
fn valid(q: &BlockPaginationRequest) -> bool {
	let (a, b) = (q.from_block as u64, q.to_block as u64);
	(1..=10_000).contains(&q.page_size) && a < b && b - a <= 50_000
}
/// Follows the pages from one request on.
fn walk(r: &Run, c: &Chain, first: &BlockPaginationRequest) {
	let api = MessagesHandler::<_, Block>::new(node(c.clone()));
	let end = (c.first as u64 + c.counts.len() as u64).min(first.to_block as u64) as u32;
	let want: Vec<MessageResponse> = (first.from_block.max(c.first)..end).flat_map(|n| c.block(n).into_iter().enumerate().skip(if n == first.from_block { first.from_index as usize } else { 0 }).map(|(_, m)| m)).collect();
	let mut got = vec![];
	let mut q = first.clone();
	let fail = |k: &str, what: String| r.fail(k, format!("{what}; first request {first:?}, {c:?}"), json!({"request": format!("{first:?}"), "chain": format!("{c:?}")}));
	r.trace(1);
	for page in 0.. {
		r.eval(1);
		let p: BlockPaginationResponse<MessageResponse> = match ask(|| api.get_messages_by_schema_id(SCHEMA, q.clone())) {
			Ok(Ok(p)) => p,
			Ok(Err(e)) => return fail("valid-refused", format!("request {q:?} was refused with {e:?}")),
			Err(e) => return fail("panic", format!("request {q:?} panicked: {e}")),
		};
		if p.content.len() > q.page_size as usize {
			return fail("page-too-long", format!("page {page} of {q:?} holds {} messages", p.content.len()));
		}
		if p.has_next && p.content.len() != q.page_size as usize {
			return fail("page-short", format!("page {page} of {q:?} holds {} messages though more follow", p.content.len()));
		}
		got.extend(p.content.clone());
		if !p.has_next {
			if p.next_block.is_some() || p.next_index.is_some() {
				return fail("cursor-at-end", format!("the last page carries a cursor: {p:?}"));
			}
			break
		}
		let (Some(b), Some(i)) = (p.next_block, p.next_index) else { return fail("no-cursor", format!("more is announced without a cursor: {p:?}")) };
		if (b, i) <= (q.from_block, q.from_index) || b >= q.to_block || got.len() > want.len() {
			return fail("cursor-stuck", format!("the cursor after {q:?} is {b}/{i}"));
		}
		q = BlockPaginationRequest { from_block: b, from_index: i, ..q };
	}
	if got != want {
		let show = |v: &[MessageResponse]| v.iter().map(|m| (m.block_number, m.index)).collect::<Vec<_>>();
		fail("wrong-messages", format!("paging visits {:?}, expected {:?}", show(&got), show(&want)));
	}
}
/// The assembly of one page, with the cursor, for a list of any length.
fn cursor(r: &Run) {
	let ends = [1u32, 2, 3, 50, u32::MAX - 1, u32::MAX];
	for &to_block in &ends {
		for block in [0, 1, 2, to_block.saturating_sub(2), to_block - 1] {
			if block >= to_block {
				continue
			}
			for len in 0..5u32 {
				for page_size in 1..6u32 {
					for size in [1u32, 2, 3, 65_535, u32::MAX] {
						for i in [0, 1, size.saturating_sub(2), size - 1] {
							if i >= size {
								continue
							}
							r.eval(1);
							let q = BlockPaginationRequest { from_block: 0, from_index: 0, to_block, page_size };
							let mut p = BlockPaginationResponse::<u8> { content: vec![0; len as usize], has_next: false, next_block: None, next_index: None };
							let full = p.check_end_condition_and_set_next_pagination(block, i, size, &q);
							let next = if i + 1 == size { (block + 1, 0) } else { (block, i + 1) };
							let want = if len != page_size { (false, false, None) } else if next.0 < to_block { (true, true, Some(next)) } else { (true, false, None) };
							let got = (full, p.has_next, p.next_block.zip(p.next_index));
							r.ok(got == want && p.next_block.is_some() == p.next_index.is_some(), "cursor", || format!("after message {i} of {size} in block {block} with {len} of {page_size} collected up to {to_block}: {got:?}, expected {want:?}"));
						}
					}
				}
			}
		}
	}
}
fn validation(r: &Run) {
	let blocks = [0u32, 1, 2, 49_999, 50_000, 50_001, 50_002, 100_000, u32::MAX - 50_001, u32::MAX - 50_000, u32::MAX - 1, u32::MAX];
	let api = MessagesHandler::<_, Block>::new(node(Chain { first: 1, counts: Arc::new(vec![1]), broken: None, location: PayloadLocation::OnChain }));
	for &from_block in &blocks {
		for &to_block in &blocks {
			for page_size in [0, 1, 2, 9_999, 10_000, 10_001, 65_536, u32::MAX] {
				for from_index in [0, 1, u32::MAX] {
					let q = BlockPaginationRequest { from_block, from_index, to_block, page_size };
					r.eval(1);
					let got = mc::catch(|| q.validate());
					r.ok(got == Ok(valid(&q)), "validate", || format!("{q:?} validates as {got:?}"));
					// walking 50 000 blocks for every request would say nothing more
					if !valid(&q) || to_block - from_block < 10 || page_size == 1 && from_index == 0 {
						let got = ask(|| api.get_messages_by_schema_id(SCHEMA, q.clone()).is_ok());
						r.ok(got == Ok(valid(&q)), if valid(&q) { "valid-refused" } else { "invalid-answered" }, || format!("{q:?} answered: {got:?}"));
					}
				}
			}
		}
	}
	for schema in [0, 8, 10, u16::MAX] {
		let got = ask(|| api.get_messages_by_schema_id(schema, BlockPaginationRequest { from_block: 1, from_index: 0, to_block: 3, page_size: 5 }).is_err());
		r.ok(got == Ok(true), "unknown-schema-answered", || format!("schema {schema} is not there but the query returned {got:?}"));
	}
}
/// Every distribution of up to `most` messages a block over `blocks` blocks.
fn distributions(blocks: usize, most: u32) -> Vec<Vec<u32>> {
	let mut v = vec![vec![]];
	for _ in 0..blocks {
		v = v.into_iter().flat_map(|x: Vec<u32>| (0..=most).map(move |k| x.iter().copied().chain([k]).collect())).collect();
	}
	v
}
pub fn c25(r: &Run) {
	cursor(r);
	validation(r);
	let mut all = distributions(mc::pick(4, 5), 3);
	all.extend(distributions(2, 8));
	all.extend([vec![0, 0, 7, 0, 0], vec![300], vec![1, 299, 1], vec![0, 260]]);
	mc::par(all.len(), |k| {
		let d = Arc::new(all[k].clone());
		let total: u32 = d.iter().sum();
		for (first, location) in [(0, PayloadLocation::OnChain), (11, PayloadLocation::IPFS), (u32::MAX - d.len() as u32, PayloadLocation::OnChain)] {
			let c = Chain { first, counts: d.clone(), broken: None, location };
			r.state(1);
			let sizes: Vec<u32> = if total > 100 { vec![1, 2, 99, 100, 150, total - 1, total, total + 1, 10_000] } else { (1..=total + 1).chain([10_000]).collect() };
			for page_size in sizes {
				// block ranges around and inside the messages
				let ends: Vec<u32> = (first..=first + d.len() as u32).flat_map(|b| [Some(b), (b == first + d.len() as u32).then(|| b.checked_add(3)).flatten()]).flatten().collect();
				for &to_block in &ends {
					for from_block in (first.saturating_sub(2)..to_block).filter(|b| *b == first.saturating_sub(2) || *b >= first) {
						let n = c.block(from_block).len() as u32;
						let starts: Vec<u32> = if n > 10 { vec![0, 1, n - 1, n, n + 1] } else { (0..=n + 1).chain([u32::MAX]).collect() };
						for from_index in starts {
							walk(r, &c, &BlockPaginationRequest { from_block, from_index, to_block, page_size });
						}
					}
				}
			}
			// a block that cannot be read is not passed over in silence
			for broken in first..first + d.len() as u32 {
				let api = MessagesHandler::<_, Block>::new(node(Chain { broken: Some(broken), ..c.clone() }));
				r.eval(1);
				let q = BlockPaginationRequest { from_block: first, from_index: 0, to_block: first + d.len() as u32, page_size: 10_000 };
				if d[(broken - first) as usize] > 0 {
					let got = ask(|| api.get_messages_by_schema_id(SCHEMA, q.clone()).map(|p| p.content.len()).map_err(|e| e.to_string()));
					r.ok(matches!(got, Ok(Err(_))), "block-dropped", || format!("block {broken} of {c:?} cannot be read, but {q:?} is answered with {got:?} of {total} messages"));
				}
			}
		}
	});
	r.note("bounds", json!({"distributions": all.len(), "start blocks": [0, 11, "the last ones"], "page sizes": "1 to one more than all messages, and the limit", "ranges": "every range and start index around the messages"}));
}

//! C25 C38: the node's query handlers over a scripted runtime, and the encodings of what they return.
use common_primitives::node::{Block, Hash};
use sdk::sp_api::{ApiRef, ProvideRuntimeApi};
use sdk::sp_blockchain::{self, BlockStatus, HeaderBackend, Info};
use sdk::sp_runtime::traits::{Block as BlockT, Header as _};
use std::sync::Arc;

mod encode;
mod paging;
mod queries;

/// The block every query has to be answered from.
pub fn best() -> Hash {
	Hash::repeat_byte(0xbe)
}
/// A node whose runtime is `A`.
pub struct Node<A>(pub A);
impl<A: Clone + Send + Sync> ProvideRuntimeApi<Block> for Node<A> {
	type Api = A;
	fn runtime_api(&self) -> ApiRef<Self::Api> {
		self.0.clone().into()
	}
}
impl<A: Send + Sync> HeaderBackend<Block> for Node<A> {
	fn header(&self, _: Hash) -> sp_blockchain::Result<Option<<Block as BlockT>::Header>> {
		Ok(None)
	}
	fn info(&self) -> Info<Block> {
		Info { best_hash: best(), best_number: 77, genesis_hash: Hash::repeat_byte(1), finalized_hash: Hash::repeat_byte(2), finalized_number: 70, finalized_state: None, number_leaves: 1, block_gap: None }
	}
	fn status(&self, _: Hash) -> sp_blockchain::Result<BlockStatus> {
		Ok(BlockStatus::Unknown)
	}
	fn number(&self, _: Hash) -> sp_blockchain::Result<Option<<<Block as BlockT>::Header as sdk::sp_runtime::traits::Header>::Number>> {
		Ok(None)
	}
	fn hash(&self, _: u32) -> sp_blockchain::Result<Option<Hash>> {
		Ok(None)
	}
}
pub fn node<A>(a: A) -> Arc<Node<A>> {
	Arc::new(Node(a))
}
fn main() {
	mc::quiet_panics();
	mc::main_with(&[("C25", paging::c25), ("C38", queries::c38)]);
}

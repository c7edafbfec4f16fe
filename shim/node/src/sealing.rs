//! The manual-seal engine and the traits around block making.
use crate::world::{with, Ev};
use real_futures::channel::oneshot;
use std::{future::Future, marker::PhantomData, sync::Arc, task::Poll};

pub mod sp_consensus {
	pub use sdk::sp_runtime::traits::Block as BlockT;
	#[derive(Debug, Clone, PartialEq)]
	pub enum Error {
		Other(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	impl std::error::Error for Error {}
	pub trait Proposer<B: BlockT> {
		type Proof;
	}
	pub trait Environment<B: BlockT> {
		type Proposer: Proposer<B> + Send + 'static;
	}
	pub trait SelectChain<B: BlockT>: Sync + Send + Clone {}
}
pub mod sc_consensus {
	pub mod block_import {
		pub trait BlockImport<B> {
			type Error: std::error::Error + Send + 'static;
		}
	}
	pub use block_import::BlockImport;
}
pub mod sc_client_api {
	pub use sdk::sc_client_api::*;
	pub mod backend {
		pub trait Backend<B>: Send + Sync {}
		pub trait Finalizer<B, CB> {}
	}
	pub use backend::{Backend, Finalizer};
}
pub mod sp_inherents {
	pub trait CreateInherentDataProviders<B, Extra>: Send + Sync {
		type InherentDataProviders;
	}
	impl<F, Fut, B: sdk::sp_runtime::traits::Block, Extra, IDP> CreateInherentDataProviders<B, Extra> for F
	where
		F: Fn(B::Hash, Extra) -> Fut + Sync + Send,
		Fut: std::future::Future<Output = Result<IDP, Box<dyn std::error::Error + Send + Sync>>> + Send + 'static,
	{
		type InherentDataProviders = IDP;
	}
}
pub mod sp_timestamp {
	pub struct InherentDataProvider;
	impl InherentDataProvider {
		pub fn from_system_time() -> Self {
			InherentDataProvider
		}
	}
}
pub mod sc_basic_authorship {
	use super::sp_consensus;
	pub struct ProposerFactory;
	pub struct AnyProposer;
	impl ProposerFactory {
		pub fn new<S, C, P, R, T>(_: S, _: C, _: P, _: R, _: T) -> Self {
			ProposerFactory
		}
	}
	impl<B: sdk::sp_runtime::traits::Block> sp_consensus::Proposer<B> for AnyProposer {
		type Proof = ();
	}
	impl<B: sdk::sp_runtime::traits::Block> sp_consensus::Environment<B> for ProposerFactory {
		type Proposer = AnyProposer;
	}
}
pub mod sc_consensus_manual_seal {
	use super::*;
	pub const MANUAL_SEAL_ENGINE_ID: [u8; 4] = *b"manl";
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct CreatedBlock<H> {
		pub hash: H,
		pub tag: u32,
	}
	#[derive(Debug, Clone, PartialEq)]
	pub enum Error {
		EmptyTransactionPool,
		Canceled,
	}
	/// Carries the explorer's mark, so that the record tells which command an action belongs to.
	#[derive(Debug)]
	pub struct Tagged<T> {
		pub tag: u32,
		pub tx: oneshot::Sender<Result<T, Error>>,
	}
	pub type Sender<T> = Option<Tagged<T>>;
	fn mark(h: &impl AsRef<[u8]>) -> u32 {
		h.as_ref().iter().rev().take(4).rev().fold(0, |a, b| a << 8 | *b as u32)
	}
	#[derive(Debug)]
	pub enum EngineCommand<Hash> {
		SealNewBlock { create_empty: bool, finalize: bool, parent_hash: Option<Hash>, sender: Sender<CreatedBlock<Hash>> },
		FinalizeBlock { hash: Hash, sender: Sender<()>, justification: Option<Vec<u8>> },
	}
	pub trait ConsensusDataProvider<B>: Send + Sync {
		type Proof;
	}
	pub struct ManualSealParams<B, BI, E, C: ?Sized, TP, SC, CS, CIDP, P> {
		pub block_import: BI,
		pub env: E,
		pub client: Arc<C>,
		pub pool: Arc<TP>,
		pub commands_stream: CS,
		pub select_chain: SC,
		pub consensus_data_provider: Option<Box<dyn ConsensusDataProvider<B, Proof = P>>>,
		pub create_inherent_data_providers: CIDP,
	}
	pub struct SealBlockParams<'a, B: sdk::sp_runtime::traits::Block, BI, SC, C: ?Sized, E, TP, CIDP, P> {
		pub create_empty: bool,
		pub finalize: bool,
		pub parent_hash: Option<B::Hash>,
		pub sender: Sender<CreatedBlock<B::Hash>>,
		pub pool: Arc<TP>,
		pub client: Arc<C>,
		pub env: &'a mut E,
		pub block_import: &'a mut BI,
		pub select_chain: &'a SC,
		pub consensus_data_provider: Option<&'a dyn ConsensusDataProvider<B, Proof = P>>,
		pub create_inherent_data_providers: &'a CIDP,
	}
	pub async fn seal_block<B, BI, SC, C, E, TP, CIDP, P>(p: SealBlockParams<'_, B, BI, SC, C, E, TP, CIDP, P>)
	where
		B: sdk::sp_runtime::traits::Block,
		BI: super::sc_consensus::BlockImport<B>,
		E: super::sp_consensus::Environment<B>,
		CIDP: super::sp_inherents::CreateInherentDataProviders<B, ()>,
	{
		let taken = with(|w| {
			let taken = w.ready;
			w.building = w.slow && (p.create_empty || taken > 0);
			w.log.push(Ev::Seal {
				tag: p.sender.as_ref().map(|s| s.tag),
				parent: p.parent_hash.map(|h| mark(&h)),
				create_empty: p.create_empty,
				finalize: p.finalize,
				ready: w.ready,
			});
			taken
		});
		std::future::poll_fn(|cx| {
			with(|w| {
				if w.building {
					w.build_waker = Some(cx.waker().clone());
					Poll::Pending
				} else {
					Poll::Ready(())
				}
			})
		})
		.await;
		let r = with(|w| {
			if taken == 0 && !p.create_empty {
				return Err(Error::EmptyTransactionPool)
			}
			w.ready = w.ready.saturating_sub(taken);
			Ok(())
		});
		if let Some(s) = p.sender {
			let tag = s.tag;
			let _ = s.tx.send(r.map(|()| CreatedBlock { hash: Default::default(), tag }));
		}
	}
	pub struct FinalizeBlockParams<B: sdk::sp_runtime::traits::Block, F, CB> {
		pub hash: B::Hash,
		pub sender: Sender<()>,
		pub justification: Option<([u8; 4], Vec<u8>)>,
		pub finalizer: Arc<F>,
		pub _phantom: PhantomData<CB>,
	}
	pub async fn finalize_block<B, F, CB>(p: FinalizeBlockParams<B, F, CB>)
	where
		B: sdk::sp_runtime::traits::Block,
		F: super::sc_client_api::Finalizer<B, CB>,
	{
		with(|w| w.log.push(Ev::Finalize { tag: p.sender.as_ref().map(|s| s.tag), hash: mark(&p.hash), justification: p.justification.clone() }));
		if let Some(s) = p.sender {
			let _ = s.tx.send(Ok(()));
		}
	}
}
pub mod sc_offchain {
	use super::*;
	pub struct OffchainWorkerOptions<RA, K, D, P, N, E: Fn(u32) -> Vec<()>> {
		pub runtime_api_provider: RA,
		pub is_validator: bool,
		pub keystore: K,
		pub offchain_db: D,
		pub transaction_pool: Option<P>,
		pub network_provider: N,
		pub enable_http_requests: bool,
		pub custom_extensions: E,
	}
	pub struct OffchainWorkers;
	impl OffchainWorkers {
		pub fn new<RA, K, D, P, N, E: Fn(u32) -> Vec<()>>(_: OffchainWorkerOptions<RA, K, D, P, N, E>) -> Self {
			OffchainWorkers
		}
		pub fn run<C, S>(self, _: C, _: S) -> impl Future<Output = ()> + Send {
			async {}
		}
	}
}

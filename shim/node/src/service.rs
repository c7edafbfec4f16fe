//! `sc_service`, the network and the transaction pool: whatever the sealing code hands over is kept in the world.
use crate::world::with;
use sdk::sp_runtime::traits::Block as BlockT;
use std::{future::Future, pin::Pin, sync::Arc};

pub mod error {
	#[derive(Debug)]
	pub enum Error {
		Other(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	impl std::error::Error for Error {}
	pub type Result<T, E = Error> = std::result::Result<T, E>;
}
pub use error::{Error, Result};
#[derive(Clone, Debug)]
pub enum Role {
	Full,
	Authority,
}
impl Role {
	pub fn is_authority(&self) -> bool {
		matches!(self, Role::Authority)
	}
}
#[derive(Clone, Debug)]
pub struct OffchainWorkerConfig {
	pub enabled: bool,
}
pub struct BasePath(std::path::PathBuf);
impl BasePath {
	pub fn path(&self) -> &std::path::Path {
		&self.0
	}
}
pub trait ChainSpec {}
pub struct Configuration {
	pub role: Role,
	pub offchain_worker: OffchainWorkerConfig,
	pub network: (),
	pub base_path: BasePath,
	pub chain_spec: Box<dyn ChainSpec>,
}
impl Configuration {
	pub fn prometheus_registry(&self) -> Option<&()> {
		None
	}
	pub fn of_world() -> Self {
		struct Any;
		impl ChainSpec for Any {}
		let (authority, offchain) = with(|w| (w.authority, w.offchain));
		Configuration {
			role: if authority { Role::Authority } else { Role::Full },
			offchain_worker: OffchainWorkerConfig { enabled: offchain },
			network: (),
			base_path: BasePath("/nonexistent".into()),
			chain_spec: Box::new(Any),
		}
	}
}
#[derive(Clone, Debug, Default)]
pub struct SpawnTaskHandle;
pub type SpawnEssentialTaskHandle = SpawnTaskHandle;
impl SpawnTaskHandle {
	pub fn spawn<G>(&self, name: &'static str, _group: G, f: impl Future<Output = ()> + Send + 'static) {
		with(|w| w.tasks.push((name.into(), Box::pin(f) as Pin<Box<dyn Future<Output = ()> + Send>>)))
	}
	pub fn spawn_blocking<G>(&self, name: &'static str, group: G, f: impl Future<Output = ()> + Send + 'static) {
		self.spawn(name, group, f)
	}
}
#[derive(Debug, Default)]
pub struct TaskManager;
impl TaskManager {
	pub fn spawn_handle(&self) -> SpawnTaskHandle {
		SpawnTaskHandle
	}
	pub fn spawn_essential_handle(&self) -> SpawnEssentialTaskHandle {
		SpawnTaskHandle
	}
}
pub struct Keystore;
impl Keystore {
	pub fn keystore(&self) -> Arc<()> {
		Arc::new(())
	}
}
pub struct PartialComponents<Client, Backend, SelectChain, ImportQueue, TransactionPool, Other> {
	pub client: Arc<Client>,
	pub backend: Arc<Backend>,
	pub task_manager: TaskManager,
	pub keystore_container: Keystore,
	pub import_queue: ImportQueue,
	pub select_chain: SelectChain,
	pub transaction_pool: Arc<TransactionPool>,
	pub other: Other,
}
pub struct BuildNetworkParams<'a, N, C, P, Q> {
	pub config: &'a Configuration,
	pub net_config: N,
	pub client: C,
	pub transaction_pool: P,
	pub spawn_handle: SpawnTaskHandle,
	pub import_queue: Q,
	pub block_announce_validator_builder: Option<()>,
	pub warp_sync_params: Option<()>,
	pub block_relay: Option<()>,
}
pub struct NetworkStarter;
impl NetworkStarter {
	pub fn start_network(self) {
		with(|w| w.network_started = true)
	}
}
pub fn build_network<N, C, P, Q>(_: BuildNetworkParams<N, C, P, Q>) -> Result<(Arc<()>, (), (), NetworkStarter, Arc<()>)> {
	Ok((Arc::new(()), (), (), NetworkStarter, Arc::new(())))
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DenyUnsafe {
	Yes,
	No,
}
pub struct SpawnTasksParams<'a, C, P, K, B, N, S, T, RT, Rpc> {
	pub config: Configuration,
	pub client: Arc<C>,
	pub transaction_pool: Arc<P>,
	pub task_manager: &'a mut TaskManager,
	pub keystore: K,
	pub backend: Arc<B>,
	pub rpc_builder: Box<dyn Fn(DenyUnsafe, Arc<()>) -> Result<Rpc>>,
	pub network: N,
	pub sync_service: S,
	pub system_rpc_tx: (),
	pub tx_handler_controller: RT,
	pub telemetry: Option<&'a mut T>,
}
pub fn spawn_tasks<C, P, K, B, N, S, T, RT, Rpc: 'static>(p: SpawnTasksParams<C, P, K, B, N, S, T, RT, Rpc>) -> Result<()> {
	for d in [DenyUnsafe::Yes, DenyUnsafe::No] {
		let r = (p.rpc_builder)(d, Arc::new(()))?;
		with(|w| w.rpc_built.push(Box::new(r)));
	}
	Ok(())
}
pub mod sc_network {
	pub mod config {
		pub struct FullNetworkConfiguration;
		impl FullNetworkConfiguration {
			pub fn new(_: &()) -> Self {
				FullNetworkConfiguration
			}
		}
	}
}
pub mod sc_transaction_pool_api {
	pub use sdk::sc_transaction_pool_api::*;
	pub struct OffchainTransactionPoolFactory;
	impl OffchainTransactionPoolFactory {
		pub fn new<P>(_: P) -> Self {
			OffchainTransactionPoolFactory
		}
	}
}

/// What `new_partial` of the service makes.
pub type Block = sdk::sp_runtime::generic::Block<
	sdk::sp_runtime::generic::Header<u32, sdk::sp_runtime::traits::BlakeTwo256>,
	sdk::sp_runtime::OpaqueExtrinsic,
>;
pub type Hash = <Block as BlockT>::Hash;
pub struct Client;
pub struct BackendDb;
impl BackendDb {
	pub fn offchain_storage(&self) -> Option<()> {
		Some(())
	}
}
#[derive(Clone)]
pub struct LongestChain;
pub struct Telemetry;
impl Telemetry {
	pub fn handle(&self) {}
}
impl crate::sealing::sp_consensus::SelectChain<Block> for LongestChain {}
impl crate::sealing::sc_consensus::BlockImport<Block> for Arc<Client> {
	type Error = crate::sealing::sp_consensus::Error;
}
impl crate::sealing::sc_client_api::Finalizer<Block, BackendDb> for Client {}
impl crate::sealing::sc_client_api::Backend<Block> for BackendDb {}
impl sdk::sp_api::ProvideRuntimeApi<Block> for Client {
	type Api = ();
	fn runtime_api(&self) -> sdk::sp_api::ApiRef<()> {
		unimplemented!()
	}
}
impl sdk::sp_blockchain::HeaderBackend<Block> for Client {
	fn header(&self, _: Hash) -> sdk::sp_blockchain::Result<Option<<Block as BlockT>::Header>> {
		unimplemented!()
	}
	fn info(&self) -> sdk::sp_blockchain::Info<Block> {
		unimplemented!()
	}
	fn status(&self, _: Hash) -> sdk::sp_blockchain::Result<sdk::sp_blockchain::BlockStatus> {
		unimplemented!()
	}
	fn number(&self, _: Hash) -> sdk::sp_blockchain::Result<Option<u32>> {
		unimplemented!()
	}
	fn hash(&self, _: u32) -> sdk::sp_blockchain::Result<Option<Hash>> {
		unimplemented!()
	}
}
pub struct Pool {
	inner: Arc<InnerPool>,
}
pub struct InnerPool {
	validated: Arc<ValidatedPool>,
}
pub struct ValidatedPool;
impl Pool {
	pub fn pool(&self) -> &Arc<InnerPool> {
		&self.inner
	}
}
impl InnerPool {
	pub fn validated_pool(&self) -> &ValidatedPool {
		&self.validated
	}
}
impl ValidatedPool {
	pub fn import_notification_stream(&self) -> real_futures::channel::mpsc::UnboundedReceiver<u32> {
		let (tx, rx) = real_futures::channel::mpsc::unbounded();
		with(|w| w.import.push(tx));
		rx
	}
	pub fn status(&self) -> sdk::sc_transaction_pool_api::PoolStatus {
		sdk::sc_transaction_pool_api::PoolStatus { ready: with(|w| w.ready), future: 0 }
	}
}
pub struct Tx;
impl sdk::sc_transaction_pool_api::InPoolTransaction for Tx {
	fn provides(&self) -> &[Vec<u8>] {
		&[]
	}
}
impl sdk::sc_transaction_pool_api::TransactionPool for Pool {
	type Block = Block;
	type InPoolTransaction = Tx;
	fn ready(&self) -> Box<dyn sdk::sc_transaction_pool_api::ReadyTransactions<Item = Arc<Tx>> + Send> {
		let n = with(|w| w.ready);
		Box::new((0..n).map(|_| Arc::new(Tx)).collect::<Vec<_>>().into_iter())
	}
	fn futures(&self) -> Vec<Tx> {
		vec![]
	}
}
pub fn new_partial(_: &Configuration, dev: bool) -> Result<PartialComponents<Client, BackendDb, Option<LongestChain>, (), Pool, ((), Option<Telemetry>, Option<()>)>> {
	with(|w| w.new_partial_dev.push(dev));
	Ok(PartialComponents {
		client: Arc::new(Client),
		backend: Arc::new(BackendDb),
		task_manager: TaskManager,
		keystore_container: Keystore,
		import_queue: (),
		select_chain: dev.then(|| LongestChain),
		transaction_pool: Arc::new(Pool { inner: Arc::new(InnerPool { validated: Arc::new(ValidatedPool) }) }),
		other: ((), None, None),
	})
}

//! `sc_cli` and its relatives, as far as the command line of the local chain needs them.
use crate::service::{error, Configuration, TaskManager};
use std::future::Future;

macro_rules! cmds { ($($n:ident)*) => { $( #[derive(Debug, Clone, clap::Parser)] pub struct $n {} )* } }
pub mod sc_cli {
	use super::*;
	cmds! { BuildSpecCmd CheckBlockCmd ExportBlocksCmd ExportStateCmd ImportBlocksCmd RevertCmd }
	#[derive(Debug)]
	pub enum Error {
		Service(error::Error),
		Input(String),
	}
	impl From<error::Error> for Error {
		fn from(e: error::Error) -> Self {
			Error::Service(e)
		}
	}
	impl From<String> for Error {
		fn from(e: String) -> Self {
			Error::Input(e)
		}
	}
	pub type Result<T> = std::result::Result<T, Error>;
	pub trait CliConfiguration {}
	pub struct Runner;
	impl Runner {
		/// Runs the node's start-up; the tasks it spawned stay with the world.
		pub fn run_node_until_exit<F: Future<Output = std::result::Result<TaskManager, E>>, E>(self, init: impl FnOnce(Configuration) -> F) -> std::result::Result<(), E> {
			let f = init(Configuration::of_world());
			sdk::tokio::block_on(f).map(drop)
		}
	}
	pub trait SubstrateCli: Sized {
		fn create_runner<T: CliConfiguration>(&self, _: &T) -> Result<Runner> {
			Ok(Runner)
		}
	}
}
pub mod cumulus_client_cli {
	use super::*;
	cmds! { PurgeChainCmd ExportGenesisHeadCommand ExportGenesisWasmCommand }
	#[derive(Debug, Clone, clap::Parser)]
	pub struct RunCmd {
		#[arg(long)]
		pub dev: bool,
	}
	pub struct NormalizedRunCmd;
	impl super::sc_cli::CliConfiguration for NormalizedRunCmd {}
	impl RunCmd {
		pub fn normalize(&self) -> NormalizedRunCmd {
			NormalizedRunCmd
		}
	}
}
pub mod polkadot_cli {
	cmds! { RunCmd }
}
pub mod frame_benchmarking_cli {
	#[derive(Debug, Clone, clap::Subcommand)]
	pub enum BenchmarkCmd {
		Pallet,
	}
}
cmds! { ExportMetadataCmd ExportRuntimeVersionCmd }

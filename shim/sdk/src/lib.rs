//! A mini FRAME: the parts of polkadot-sdk that the crates of /repo use, written so that those crates compile and run
//! unmodified, natively and offline. Storage is an in-memory key-value store with transactional layers.
#![allow(clippy::all)]
#![recursion_limit = "512"]
extern crate self as sdk;
pub mod arith;
pub mod codec;
pub mod enumflags2;
pub mod frame_support;
pub mod frame_system;
pub mod hashing;
pub mod io;
pub mod misc;
pub mod offchain;
pub mod pallet_balances;
pub mod pallet_collective;
pub mod pallet_transaction_payment;
pub mod pallet_utility;
pub mod scale_info;
pub mod sp_api;
pub mod sp_core;
pub mod sp_runtime;
pub mod weightinfos;
pub mod standins;
pub mod pallet_proxy;
pub mod executive;
pub use executive as frame_executive;
pub use standins::*;
pub use misc::*;
pub use sdk_macros::{CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
pub use {arith as sp_arithmetic, sp_runtime as sp_runtime_};
pub use {log, serde, serde_json};

pub fn serial_lock() -> std::sync::MutexGuard<'static, ()> {
	static L: std::sync::Mutex<()> = std::sync::Mutex::new(());
	L.lock().unwrap_or_else(|e| e.into_inner())
}
#[cfg(test)]
mod api_tests;
pub use misc::nonce_api as frame_system_rpc_runtime_api;

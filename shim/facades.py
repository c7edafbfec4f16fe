"""The crates the mini FRAME stands in for: name -> lib.rs."""
FACADES = {}
EXTRA_LOCK = []


def mod(name, extra=""):
    FACADES[name] = f"pub use sdk::{name.replace('-', '_')}::*;\n{extra}"


for n in """sp-std sp-runtime sp-core sp-io sp-api sp-weights sp-keystore sp-keyring sp-arithmetic sp-blockchain sc-client-api sp-rpc
sp-offchain sp-version sp-session sp-inherents frame-support frame-system numtoa enumflags2 impl-serde hex hex-literal cid multibase
jsonrpsee tokio sc-transaction-pool-api substrate-frame-rpc-system serial_test env_logger pretty_assertions chrono rayon p256 pallet-balances pallet-collective pallet-utility pallet-transaction-payment
pallet-treasury pallet-timestamp pallet-sudo pallet-session pallet-scheduler pallet-proxy pallet-preimage pallet-multisig
pallet-democracy pallet-collator-selection cumulus-primitives-core polkadot-runtime-common cumulus-pallet-session-benchmarking
frame-executive pallet-aura pallet-authorship cumulus-pallet-aura-ext cumulus-pallet-parachain-system sp-consensus-aura frame-system-rpc-runtime-api""".split():
    mod(n)
mod("parity-scale-codec")
FACADES["parity-scale-codec"] = "pub use sdk::codec::*;\n"
FACADES["scale-info"] = "pub use sdk::scale_info::*;\n"

#: seen only by the crates of the node: name -> lib.rs (package nk-<name>)
NODE_FACADES = {n: f"pub use nodekit::{m}::*;\n" for n, m in {
    "futures": "futures", "sc-service": "service", "sc-network": "service::sc_network", "sc-consensus": "sealing::sc_consensus",
    "sc-consensus-manual-seal": "sealing::sc_consensus_manual_seal", "sc-offchain": "sealing::sc_offchain",
    "sc-basic-authorship": "sealing::sc_basic_authorship", "sp-consensus": "sealing::sp_consensus", "sp-inherents": "sealing::sp_inherents",
    "sp-timestamp": "sealing::sp_timestamp", "sc-client-api": "sealing::sc_client_api", "sc-transaction-pool-api": "service::sc_transaction_pool_api",
    "sc-cli": "cli::sc_cli", "cumulus-client-cli": "cli::cumulus_client_cli", "polkadot-cli": "cli::polkadot_cli",
    "frame-benchmarking-cli": "cli::frame_benchmarking_cli"}.items()}
NODE_FACADES["futures"] += "pub use nodekit::stream_select;\n"
NODE_FACADES["tokio"] = "pub use nodekit::time;\npub use sdk::tokio::*;\n"
FACADES["staging-parachain-info"] = "pub use sdk::parachain_info::*;\n"

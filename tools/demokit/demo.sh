#!/bin/bash
# Builds the runtime of the current directory (/repo) against the small FRAME stand-in of kit/ and runs main.rs on it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export REPO_DIR=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$S" -delete' EXIT
cp -r "$HERE/kit/." "$S/"
cp "$HERE/main.rs" "$S/checks/demo/src/main.rs"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR=$S/target
python3 "$S/sync.py"
cd "$S/build/ws"
cargo build -q --offline -p demo
"$S/target/debug/demo"

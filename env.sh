export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$VERIF_DIR/build/target
export RUSTFLAGS="--cap-lints allow"

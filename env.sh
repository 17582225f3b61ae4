# Sourced by every script of /verif: the offline toolchain the repository itself uses.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export RUSTC_WRAPPER= RUST_BACKTRACE=0 RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR=/verif/build/target

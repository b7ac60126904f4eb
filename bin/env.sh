export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_DIR=$V
export CARGO_TARGET_DIR=$V/target/main
export RUSTC_WRAPPER=$V/bin/rustc-wrap.sh

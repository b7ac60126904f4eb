#!/bin/bash
# Runs main.rs against the Rust client of the repository in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
d=$(mktemp -d /tmp/xdemo.XXXXXX); trap 'rm -r "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
features=; deps=
if grep -q 'fetch_' "$here/main.rs"; then
  features=', features = ["fetch"]'
  deps='solana-client = "~2.3"
async-trait = "0.1"
base64 = "0.22"
serde_json = "1"'
fi
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
xorca = { path = "$repo/rust-client"$features }
solana-pubkey = "~2.4"
solana-instruction = "~2.3"
borsh = "0.10"
$deps
[profile.dev]
debug = false
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build -q --offline >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 99; }
"$d/target/debug/demo"

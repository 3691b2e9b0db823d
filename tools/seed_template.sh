#!/bin/bash
# Builds demo.rs against the http-types in the current directory and runs it: exit 0 if it holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUST_BACKTRACE RUSTFLAGS RUSTDOCFLAGS
d=$(mktemp -d)
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
http-types = { path = "$repo", features = ["hyperium_http", "unstable"] }
http = "0.2.0"
serde = "1"
serde_json = "1"
futures-lite = "1"
async-std = { version = "1.6.0", features = ["attributes"] }
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$repo/target/demo" timeout 280 cargo run -q --offline 2>&1
rc=$?
cd / && find "$d" -depth -delete
exit $rc

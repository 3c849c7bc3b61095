#!/bin/bash
# Builds demo.rs (beside this file) against the rustfst of the current directory and runs it.
# Exit 0: the property holds on the demonstration; non-zero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/oi/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/oi/src/lib.rs" <<'T'
//! Stand-in for the one crate that cannot be fetched offline: marker traits only, unused by rustfst.
pub trait OrderedMapIterator { type Key; type Val; }
pub trait OrderedSetIterator {}
T
printf '[package]\nname = "ordered_iter"\nversion = "0.1.2"\nedition = "2018"\n[workspace]\n' > "$d/oi/Cargo.toml"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rustfst = { path = "$repo/rustfst" }
anyhow = "1"
[patch.crates-io]
ordered_iter = { path = "oi" }
[profile.dev]
debug = 0
[workspace]
T
cp "$here/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"

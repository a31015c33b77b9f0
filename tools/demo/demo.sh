#!/bin/bash
# Exit 0: the property holds for what main.rs tries. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTC_WRAPPER
export RUSTFLAGS=-Awarnings
w=$(mktemp -d /tmp/demoXXXXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/scratch"
cp "$here/main.rs" "$here/util.rs" "$w/src/"
[ -f "$repo/mbqc_scheduling/Cargo.lock" ] && cp "$repo/mbqc_scheduling/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/main.rs"
[[bin]]
name = "program"
path = "$repo/mbqc_scheduling/src/main.rs"
[dependencies]
mbqc_scheduling = { path = "$repo/mbqc_scheduling" }
serde_json = "1"
bincode = "1"
hashbrown = "0.14"
clap = "4"
tracing = { version = "0.1.40", default-features = false }
tracing-subscriber = { version = "0.3", default-features = false, features = ["ansi", "fmt"] }
[profile.dev]
debug = false
opt-level = 1
[profile.release]
debug = false
[workspace]
T
prof=PROFILE
cd "$w" || exit 3
if [ $prof = release ]; then cargo build -q --offline --release || exit 3; else cargo build -q --offline || exit 3; fi
cd "$w/scratch" || exit 3
DEMO_PROGRAM=$w/target/$prof/program timeout 200 "$w/target/$prof/demo"

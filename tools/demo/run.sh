#!/bin/bash
# Builds main.rs beside this script against the liso in the current directory, in a scratch
# directory, and lets drive.py (if there is one) drive it in a pseudo terminal.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat >"$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
liso = { path = "$repo", features = ["serde"] }
tokio = { version = "1", default-features = false, features = ["rt", "sync", "time"] }
[workspace]
T
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
cd "$s" || exit 2
if ! cargo build --offline >"$s/log" 2>&1; then
    cat "$s/log"
    exit 2
fi
mkdir "$s/work"
cd "$s/work" || exit 2
if [ -e "$here/drive.py" ]; then
    PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$here/drive.py" "$s/target/debug/demo"
else
    timeout 200 "$s/target/debug/demo"
fi

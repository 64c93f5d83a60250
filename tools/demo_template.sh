#!/bin/bash
# Runs demo.rs as a unit test of a scratch copy of the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp Cargo.toml Cargo.lock "$w"/ || exit 2
for c in iris-mpc mpc-net plain-reference; do cp -r $c "$w"/; done
cp -r .cargo rust-toolchain* "$w"/ 2>/dev/null
cp "$here/demo.rs" "$w/iris-mpc/src/tests/vdemo.rs" && echo 'pub mod vdemo;' >> "$w/iris-mpc/src/tests/mod.rs"
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 280 cargo test --offline --locked -p iris-mpc --lib vdemo -- --test-threads 1

#!/bin/bash
# Runs main.rs against the library of the repository in the current directory.
# Exit status 0: the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/pack/." "$work/" && cp "$here/main.rs" "$work/" || exit 2
sed -i "s|@REPO@|$repo|" "$work/rstat/Cargo.toml"
export CARGO_NET_OFFLINE=true OPENBLAS_NUM_THREADS=1
[ -z "$RUSTUP_TOOLCHAIN" ] && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$work/target}
cd "$work" && cargo build --offline --locked --quiet 2> "$work/build.log" || { grep -m5 -A8 '^error' "$work/build.log"; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"

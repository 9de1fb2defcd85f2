#!/bin/bash
# Exit 0: the property holds here; anything else: it does not. Works in a scratch directory only.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= RUSTFLAGS= CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'find "$work" -delete' EXIT
export CARGO_TARGET_DIR="$work/target"
tar -xzf "$here/kit.tgz" -C "$work" || exit 2
cp "$here/demo.rs" "$work/demo/src/main.rs" || exit 2
cd "$work" || exit 2
features=$(sed -n 's,^// features: *,,p' "$here/demo.rs")
cargo build --offline -q -p demo --features "$features" 2>"$work/log" || { tail -30 "$work/log"; exit 2; }
timeout 200 "$work/target/debug/demo"

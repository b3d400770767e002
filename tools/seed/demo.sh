#!/bin/bash
# Runs demo.rs beside this file against the crate in the current directory: exit 0 when it passes.
H=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.97.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTFLAGS=-Awarnings
export CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUNNER=/opt/wasm-bindgen/bin/wasm-bindgen-test-runner
D=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a Cargo.toml src examples "$D/" || exit 3
cp -a Cargo.lock "$D/" 2>/dev/null || cp -a /opt/vp/Cargo.lock "$D/"
mkdir "$D/tests"
cp "$H/demo.rs" "$D/tests/demo.rs"
F=$(sed -n 's,^// features: ,,p' "$H/demo.rs")
cd "$D" || exit 3
CARGO_TARGET_DIR="${DEMO_TARGET:-$D/target}" timeout -k 5 280 cargo test -p wasmtimer --target wasm32-unknown-unknown ${F:+--features $F} --test demo --offline > "$D/log" 2>&1
rc=$?
tail -40 "$D/log"
exit $rc

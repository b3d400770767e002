#!/bin/bash
# Compiles demo.rs beside this file into a copy of the crate, as a test module, and runs it: exit 0 when it passes.
H=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.97.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTFLAGS=-Awarnings
export CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUNNER=/opt/wasm-bindgen/bin/wasm-bindgen-test-runner
D=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a Cargo.toml src examples "$D/" || exit 3
cp -a Cargo.lock "$D/" 2>/dev/null || cp -a /opt/vp/Cargo.lock "$D/"
cp "$H/demo.rs" "$D/src/zz_demo.rs"
printf '\n#[cfg(test)]\nmod zz_demo;\n' >> "$D/src/lib.rs"
F=$(sed -n 's,^// features: ,,p' "$H/demo.rs")
cd "$D" || exit 3
CARGO_TARGET_DIR="${DEMO_TARGET:-$D/target}" timeout -k 5 280 cargo test -p wasmtimer --target wasm32-unknown-unknown ${F:+--features $F} --lib --offline zz_demo > "$D/log" 2>&1
rc=$?
tail -40 "$D/log"
grep -q "[1-9][0-9]* passed" "$D/log" || rc=1
exit $rc

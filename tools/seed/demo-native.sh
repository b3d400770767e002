#!/bin/bash
# Compiles demo.rs beside this file, which includes sources of the crate in the current directory, for the host and runs it.
H=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.97.0
D=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a src "$D/" || exit 3
cp "$H/demo.rs" "$D/src/zz_demo.rs"
cd "$D" || exit 3
rustc --edition 2021 -O -Awarnings src/zz_demo.rs -o demo || exit 3
timeout -k 5 240 ./demo

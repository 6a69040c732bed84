#!/bin/bash
# Build the simulator and, through its path dependency, amqp-codec from /repo's working tree. Offline.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$here/target"
# never trust a fingerprint of the code under test: always compile the tree as it is now
rm -rf "$here"/target/release/.fingerprint/amqp-codec-*
log="$here/target/build.log"
mkdir -p "$here/target"
if ! (cd "$here/sim" && cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    echo "build failed" >&2
    exit 2
fi

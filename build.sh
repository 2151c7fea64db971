#!/bin/bash
# Builds the shim, the simulator and the programs under test from /repo's current working tree.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
mkdir -p target
exec 9>target/.lock
flock 9
if [ ! -e target/shim.so ] || [ shim/shim.c -nt target/shim.so ]; then
  gcc -O2 -w -shared -fPIC -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -o target/shim.so.tmp shim/shim.c -ldl -lpthread
  mv target/shim.so.tmp target/shim.so
fi
cd sim
# cargo decides by modification times; make sure that no change of the repository is overlooked
h=$(cd /repo && { find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat ../target/.repo-hash 2>/dev/null)" != "$h" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/hddl_analyzer-* "$CARGO_TARGET_DIR"/debug/.fingerprint/dst-*
fi
cargo build --offline --locked --quiet
echo "$h" > ../target/.repo-hash

#!/bin/bash
# Builds all checks once, so that each check only rebuilds the crate under test and its own binary.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$HERE/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-A warnings"
mkdir -p "$HERE/evidence" "$HERE/replays"
cd "$HERE/mc" && cargo build --quiet --offline --locked --bins

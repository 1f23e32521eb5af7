#!/bin/bash
# check.sh PROPERTY [args]: builds the harness against /repo's working tree and runs one check.
# Output of the build goes to stderr; exit codes are the check's own (a build failure is 4).
ID="$1"; shift
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$HERE"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$HERE/target" CARGO_TERM_COLOR=never RUST_BACKTRACE=0 RUSTC_WRAPPER=
export RUSTFLAGS="-A warnings"
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
mkdir -p "$HERE/evidence" "$HERE/replays"
# cargo decides by mtime what to rebuild: forget the crate under test so that it is always rebuilt
rm -rf "$HERE"/target/debug/.fingerprint/lc3-ensemble-* 
( cd "$HERE/mc" && cargo build --quiet --offline --locked --bin "$BIN" ) 1>&2 || exit 4
ulimit -c 0
ulimit -v 30000000 2>/dev/null
exec "$HERE/target/debug/$BIN" "$@"

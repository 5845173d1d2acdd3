#!/bin/bash
# Builds the harness from /repo's current working tree.  Prints the path of the binary.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$here/target"
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
# for the victor program, which has no work meter
stub="$CARGO_TARGET_DIR/cov_stub.o"
mkdir -p "$CARGO_TARGET_DIR"
[ "$stub" -nt "$here/harness/shim/cov_stub.c" ] || cc -c -O1 -o "$stub" "$here/harness/shim/cov_stub.c" || exit 4
RUSTFLAGS="$RUSTFLAGS -Clink-arg=$stub"
triple=x86_64-unknown-linux-gnu
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
# Cargo decides freshness by modification times; decide by content instead, so that a changed
# source file with an old date is never missed.
stamp="$(cd /repo && find Cargo.toml victor lester proc-macros -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.repo-stamp" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$CARGO_TARGET_DIR/.repo-stamp"
    find "$CARGO_TARGET_DIR" -maxdepth 4 -path '*/.fingerprint/*' \( -name 'victor-*' -o -name 'lester-*' -o -name 'vh-*' \) -exec rm -rf {} + 2>/dev/null
fi
cd "$here/harness" || exit 4
if ! cargo build --offline --target $triple --bin vh "$@" >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    grep -E '^error' -A7 "$CARGO_TARGET_DIR/build.log" | head -120 >&2
    tail -5 "$CARGO_TARGET_DIR/build.log" >&2
    exit 4
fi
# only C27 needs it
program="$CARGO_TARGET_DIR/$triple/debug/victor-program"
if ! cargo build --offline --target $triple --bin victor-program "$@" >"$CARGO_TARGET_DIR/program.log" 2>&1; then
    grep -E '^error' -A7 "$CARGO_TARGET_DIR/program.log" | head -40 >&2
    rm -f "$program"
fi
echo "$stamp" > "$CARGO_TARGET_DIR/.repo-stamp"

#!/bin/bash
# run.sh setup | run.sh <property> quick|thorough | run.sh replay <file> | run.sh case <property> <seed> <index>
# Builds the monitors against /repo's working tree and runs one of them.
# Exit 0: held, 1: violation, anything else: the check itself could not decide.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS RUST_LOG
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$HERE"
LOG="$HERE/out/build.log"
mkdir -p "$HERE/out"

fail() { echo "ERROR of the check: $1"; tail -n 40 "$LOG"; exit 2; }

# cargo compares time stamps; make sure that a tree with other content is rebuilt whatever its time stamps
state() { (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum; }

build() { # directory-with-manifest target-dir extra-args...
    local manifest="$1" target="$2"; shift 2
    local now; now="$(state)"
    if [ "$now" != "$(cat "$target/repo-state" 2>/dev/null)" ]; then
        rm -f "$target/repo-state"
        cargo clean --offline --manifest-path "$manifest" --target-dir "$target" -p kicad_parse_gen >>"$LOG" 2>&1
    fi
    cargo build --offline --manifest-path "$manifest" --target-dir "$target" "$@" >>"$LOG" 2>&1 || return 1
    echo "$now" >"$target/repo-state"
}

: >"$LOG"
build "$HERE/harness/Cargo.toml" "$HERE/harness/target" || fail "the monitors do not build against /repo"
case "$1" in
    setup | C25 | replay | case)
        build /repo/Cargo.toml "$HERE/target-bins" --bins || fail "the command line tools do not build"
        ;;
esac
BIN="$HERE/harness/target/debug/harness"
case "$1" in
    setup) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    case) exec "$BIN" case "$2" "$3" "$4" "$5" ;;
    *) exec "$BIN" check "$1" "${2:-quick}" ;;
esac

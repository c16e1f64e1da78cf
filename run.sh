#!/bin/bash
# run.sh build | run.sh <property> [quick|thorough] | run.sh replay <file>
# Rebuilds the explorer against the current working tree of /repo, then runs one check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/evidence" "$CARGO_TARGET_DIR"
ulimit -v 28000000 2>/dev/null

build() {
    exec 9>"$CARGO_TARGET_DIR/.lock"
    flock 9
    # cargo notices changes by time stamps only; a content stamp also covers restored or copied trees
    local now log
    now="$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum
             cd "$here/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" ] || [ ! -x "$CARGO_TARGET_DIR/release/mc" ]; then
        rm -f "$CARGO_TARGET_DIR/.stamp"
        cargo clean --release --offline -p kdbx-rs -p kdbx-mc --manifest-path "$here/harness/Cargo.toml" >/dev/null 2>&1
        log="$CARGO_TARGET_DIR/build.log"
        if ! cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
            grep -E '^error' -A12 "$log" | head -60 >&2
            echo "run.sh: the explorer does not build against /repo" >&2
            exit 2
        fi
        echo "$now" >"$CARGO_TARGET_DIR/.stamp"
    fi
    [ "${1:-}" = tools ] && tools
    flock -u 9
    exec 9>&-
}

# the command-line tools of /repo, built outside of it
tools() {
    local now log
    now="$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/cli/.stamp" 2>/dev/null)" ]; then
        mkdir -p "$CARGO_TARGET_DIR/cli"
        rm -f "$CARGO_TARGET_DIR/cli/.stamp"
        log="$CARGO_TARGET_DIR/cli/build.log"
        export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
        cargo clean --release --offline -p kdbx-rs --manifest-path /repo/Cargo.toml --target-dir "$CARGO_TARGET_DIR/cli" >/dev/null 2>&1
        if ! cargo build --release --offline --locked --bins --manifest-path /repo/Cargo.toml --target-dir "$CARGO_TARGET_DIR/cli" >"$log" 2>&1; then
            grep -E '^error' -A12 "$log" | head -60 >&2
            echo "run.sh: the command-line tools of /repo do not build" >&2
            exit 2
        fi
        echo "$now" >"$CARGO_TARGET_DIR/cli/.stamp"
    fi
}

case "${1:-}" in
    "") echo "usage: run.sh build | <property> [quick|thorough] | replay <file>" >&2; exit 2 ;;
    build) build tools ;;
    C22) build tools; exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
    replay) build tools; exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
    *) build; exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
esac

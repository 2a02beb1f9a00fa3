#!/bin/bash
# usage: check.sh build | check.sh <property> [quick|thorough]
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/mc/target"
export MC_VERIF="$PWD"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

build() {
    mkdir -p "$CARGO_TARGET_DIR" || return 2
    # cargo looks at modification times; what counts here is the content of the tree
    local now old stamp="$CARGO_TARGET_DIR/repo.sha"
    now=$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$stamp" 2>/dev/null)
    if [ "$now" != "$old" ]; then
        rm -f "$stamp"
        (cd mc && cargo clean --release --offline -p amqp-codec) >/dev/null 2>&1
    fi
    local log="$CARGO_TARGET_DIR/build.log"
    if ! (cd mc && cargo build --release --offline) >"$log" 2>&1; then
        tail -n 60 "$log" >&2
        return 2
    fi
    echo "$now" >"$stamp"
}

build || { echo "the harness does not build against /repo" >&2; exit 2; }
[ "$1" = build ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
[ "$1" = C22 ] && exec python3 tools/c22.py "$tier"
exec mc/target/release/mc check "$1" --tier "$tier"

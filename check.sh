#!/bin/bash
# usage: check.sh <property> <quick|thorough>     (seed from VERIF_SEED, default 1)
#        check.sh replay <file>                   re-executes one recorded violation
# Builds the simulator against /repo's working tree and runs one property's seeded search.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="${SIM_TARGET_DIR:-$here/target}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUST_LOG LD_PRELOAD
id="$1"
if [ "$id" = replay ]; then
    id="$(sed -n 's/^ *"prop": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
fi
# properties that depend on thread schedules: every basic block of the code under test is a
# scheduling point (a build of its own)
case "$id" in
C09 | C10 | C11)
    export RUSTC_WRAPPER="$here/tools/rustc-cov.sh" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/cov"
    ;;
esac
mkdir -p "$CARGO_TARGET_DIR/release"
log="$CARGO_TARGET_DIR/build-$id.log"
if ! { (cd "$here/sim" && cargo build --release --offline --locked) &&
       gcc -O1 -Wno-format-truncation -shared -fPIC -o "$CARGO_TARGET_DIR/release/shim.so" "$here/shim/shim.c"; } >"$log" 2>&1; then
    tail -40 "$log"
    echo "BUILD-FAILED property=$id"
    exit 2
fi
if [ "$1" = replay ]; then
    exec "$CARGO_TARGET_DIR/release/sim" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/sim" check "$1" "$2"

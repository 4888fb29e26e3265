#!/bin/bash
# Builds the framework and validates the explorer and the channel replacement.
export VERIF_DIR="${VERIF_DIR:-/verif}"
. "$VERIF_DIR/tools/env.sh"
cd "$VERIF_DIR/mc" || exit 2
python3 "$VERIF_DIR/tools/mpgen.py" || exit 2
cargo build --offline --locked -q -p selftest -p props --bins 2>/dev/null || cargo build --offline --locked -p selftest || exit 2
for i in 0 1 2 3; do "$CARGO_TARGET_DIR/debug/selftest" 1 $i 4 & p[$i]=$!; done
for i in 0 1 2 3; do wait ${p[$i]} || exit 2; done
# the replacement of the channels behaves as the real crate
cd "$VERIF_DIR/mc/conform" && cargo build --offline --locked -q 2>/dev/null || exit 2
"$CARGO_TARGET_DIR/debug/conform" seq 2 && "$CARGO_TARGET_DIR/debug/conform" par 1 || exit 2

#!/bin/bash
# Builds every check from the committed files against /repo's working tree.
. "$(dirname "$0")/env.sh"
set -e
fresh
cd "$VERIF_ROOT/harness"
cargo build --release --offline --locked

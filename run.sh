#!/bin/bash
# run.sh <property> [--replay FILE]: rebuild the check of one property against /repo's
# working tree and run it. Exit 0 held, 1 violation, 2 error of the check.
. "$(dirname "$0")/env.sh"
id="$1"; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
cd "$VERIF_ROOT/harness" || exit 2
fresh
log="$CARGO_TARGET_DIR/build-$bin.log"
if ! cargo build --release --offline --locked --bin "$bin" >"$log" 2>&1; then
  tail -40 "$log"
  echo "ERROR: the check of $id does not build against /repo"
  exit 2
fi
cd "$VERIF_ROOT" || exit 2
"$CARGO_TARGET_DIR/release/$bin" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "ERROR: check ended with $rc"; exit 2;; esac

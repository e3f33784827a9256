#!/bin/bash
# check.sh PROP [quick|thorough]: rebuild the simulator against /repo's working tree, then decide PROP.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_TARGET_DIR="$here/target"
tier="${2:-quick}"
log="$(mktemp)"
if ! (cd "$here/sim" && cargo build --offline --release) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "BUILD-FAILED: the simulator does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
"$here/target/release/sim" check "$1" --tier "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # no answer: the simulator itself was killed or could not start its workers; ask once more
  "$here/target/release/sim" check "$1" --tier "$tier"
  rc=$?
fi
exit $rc

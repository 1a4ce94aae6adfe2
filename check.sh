#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, then decide the property.
here="$(cd "$(dirname "$0")" && pwd)"
log="$(mktemp)"
if ! (cd "$here/symx" && CARGO_TARGET_DIR="$here/target" cargo build --release --offline --quiet) >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "ERROR: the checker does not build against /repo"
  exit 2
fi
rm -f "$log"
exec "$here/target/release/symx" check "$1" --tier="${2:-quick}" --root="$here" 2>/dev/null

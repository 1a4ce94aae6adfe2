#!/bin/bash
# Builds the checker from /verif/symx against /repo's working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/symx"
CARGO_TARGET_DIR="$here/target" cargo build --release --offline --quiet

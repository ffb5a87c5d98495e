#!/bin/bash
# run.sh <property id> [--replay FILE]
# Rebuilds the check of one property against /repo's current working tree and runs it.
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 the check itself could not be built or run.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$(printf %s "$id" | tr A-Z a-z)"
export CARGO_NET_OFFLINE=true VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/harness/target"
"$here/build.sh" "$bin" || exit 2
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"

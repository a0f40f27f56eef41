#!/usr/bin/env bash
# Usage: run.sh <PROPERTY> [--section NAME]    rebuilds the harness against /repo's working tree and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
. "$here/tools/env.sh"
mkdir -p "$here/evidence"
cd "$here/harness"
log="$here/target/build-$id.log"
mkdir -p "$here/target"
if ! cargo build --offline >"$log" 2>&1; then
  echo "BUILD-FAILED: the harness does not build against /repo"
  tail -40 "$log"
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/harness" "$id" --root "$here" "$@"

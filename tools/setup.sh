#!/usr/bin/env bash
# Builds the harness once (the checks then rebuild incrementally).
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/env.sh"
cd "$here/harness" && cargo build --offline

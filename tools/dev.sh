#!/usr/bin/env bash
# dev.sh ID [seed...]: build once (short errors), run over several seeds
here="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift
python3 "$here/tools/genmod.py"; . "$here/tools/env.sh"; cd "$here/harness"
cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${LINES_MAX:-70}; [ "${PIPESTATUS[0]}" = 0 ] || exit 2
cd "$here"
for s in ${@:-1 2 3}; do VERIF_SEED=$s target/debug/harness $id --root "$here" | cut -c1-${W:-1200}; echo "seed $s exit ${PIPESTATUS[0]}"; done
python3 -c "
import json;e=json.load(open('$here/evidence/$id.json'));print(e['coverage']['observed'],[(s['name'],s['wall_s']) for s in e['coverage']['sections']])"

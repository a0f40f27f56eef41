#!/usr/bin/env bash
# Usage: asan.sh <PROPERTY>   Runs a check's quick workload in a harness built with AddressSanitizer.
# A sanitizer report is a violation; the numbers go to coverage.asan of the evidence file.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"
. "$here/tools/env.sh"
export CARGO_TARGET_DIR="$here/target/asan" RUSTC_BOOTSTRAP=1 CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg verif_hooks -Zsanitizer=address -Zshare-generics=no"
t=x86_64-unknown-linux-gnu
mkdir -p "$here/target/asan/root/$id" "$here/replays"
cd "$here/harness"
if ! cargo build --offline --target $t >"$here/target/asan/build.log" 2>&1; then
  echo "BUILD-FAILED: the harness does not build with AddressSanitizer"; tail -20 "$here/target/asan/build.log"; exit 2
fi
root="$here/target/asan/root/$id"
cp "$here/known_findings.txt" "$root/"
for f in "$root"/asan.log.*; do [ -e "$f" ] && rm -f "$f"; done
start=$(date +%s)
ASAN_OPTIONS="detect_leaks=0:log_path=$root/asan.log:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99" \
  VERIF_TIER=quick "$CARGO_TARGET_DIR/$t/debug/harness" "$id" --root "$root" >"$root/out.txt" 2>&1
rc=$?
reports=$(ls "$root"/asan.log.* 2>/dev/null | wc -l)
python3 - "$here/evidence/$id.json" "$root/evidence/$id.json" "$reports" "$rc" $(( $(date +%s) - start )) <<'P'
import json,sys
main,asan,reports,rc,wall=sys.argv[1:]
try: d=json.load(open(main)); a=json.load(open(asan))['coverage']
except OSError: sys.exit()
d['coverage']['asan']=dict(evaluations=a['evaluations'],distinct_nontrivial=a['distinct_nontrivial'],reports=int(reports),exit_code=int(rc),wall_s=int(wall))
json.dump(d,open(main,'w'),indent=1)
P
if [ "$reports" -gt 0 ]; then
  cp "$root"/asan.log.* "$here/replays/" 2>/dev/null
  f=$(ls "$root"/asan.log.* | head -1); cp "$f" "$here/replays/$id-asan.log"
  head -30 "$f"
  echo "VIOLATION property=$id replay=$here/replays/$id-asan.log [asan] memory error reported by AddressSanitizer"
  exit 1
fi
# what the monitors themselves say was decided by the ordinary run; a crash without a report is a violation too
if [ $rc -ge 128 ]; then
  cp "$root/out.txt" "$here/replays/$id-asan.log"
  echo "VIOLATION property=$id replay=$here/replays/$id-asan.log [asan:crash] the process was killed by a signal"
  exit 1
fi
echo "$id: no AddressSanitizer reports"
exit 0

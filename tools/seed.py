#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a planted-bug description and confirms it.

  seed.py SPEC.py [...]      make the folder, then: build + stable tests with the
                             patch, demo without and with it, the property's check
  seed.py --check ID [...]   only run the property's check against the planted bug

A SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)],
APPEND (file the demo module is appended to, default src/core/mod.rs), DEMO (rust),
PKG (package, default tailcall). Changes in /repo are undone straight afterwards."""
import json, os, subprocess, sys
V = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# Compiles demo.rs as a test module inside the crate, in the build's own layout of /repo, and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/mkws.py >/dev/null || exit 2
trap 'python3 /opt/vp/mkws.py >/dev/null' EXIT
f="$WS/@APPEND@"
p=$WS
IFS=/ read -ra parts <<< "@APPEND@"
for part in "${parts[@]}"; do
    p="$p/$part"
    if [ -L "$p" ]; then real=$(readlink -f "$p"); rm -f "$p"; cp -rp "$real" "$p"; fi
done
text=$(cat "$f"; echo x) || exit 2
rm -f "$f"
{ printf '%s' "${text%x}"; printf '\\n#[cfg(test)]\\n#[path = "%s/demo.rs"]\\nmod verif_demo;\\n' "$here"; } > "$f"
cd "$WS" || exit 2
timeout 280 cargo test --offline -p @PKG@ --lib verif_demo > "/tmp/demo.$$.log" 2>&1
code=$?
tail -40 "/tmp/demo.$$.log"
grep -q "^test result: ok. [1-9]" "/tmp/demo.$$.log" || code=1
rm -f "/tmp/demo.$$.log"
exit $code
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def clean():
    assert sh("git -C /repo checkout -- . ").returncode == 0

def make(spec):
    d = f"{V}/{spec['ID']}"
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    for f, old, new in spec["EDITS"]:
        p = f"/repo/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    clean()
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(spec["DEMO"])
    s = DEMO_SH.replace("@APPEND@", spec.get("APPEND", "src/core/mod.rs")).replace("@PKG@", spec.get("PKG", "tailcall"))
    open(f"{d}/demo.sh", "w").write(s)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)

def check(i):
    meta = json.load(open(f"{V}/{i}/meta.json"))
    assert sh(f"git -C /repo apply {V}/{i}/patch.diff").returncode == 0, "apply"
    try:
        r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash run.sh {meta['property']}")
    finally:
        clean()
    v = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("VIOLATION")]
    print(f"  {i}: check {meta['property']} rc={r.returncode} {v[:1]}", flush=True)
    if r.returncode != 1:
        print((r.stdout + r.stderr)[-600:])
    return r.returncode == 1

def confirm(i):
    d = f"{V}/{i}"
    a = sh(f"cd /repo && bash {d}/demo.sh")
    if a.returncode != 0:
        print(i, "DEMO FAILS ON CLEAN TREE\n", a.stdout[-2500:], a.stderr[-500:]); return
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0, "apply"
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        m = sh(f"cd /repo && bash {d}/demo.sh")
    finally:
        clean()
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    got = set(json.load(open("/tmp/seed_t.json"))["passed"])
    missing = [x for x in stable if x not in got] if isinstance(stable, list) else "?"
    print(f"{i}: build rc={b.returncode} missing stable={len(missing)} {missing[:3]} demo with patch rc={m.returncode}", flush=True)
    if b.returncode: print(b.stderr[-300:])
    if m.returncode == 0: print(m.stdout[-300:])
    if "panicked" not in m.stdout: print("  NOTE demo failure without panic:", m.stdout[-300:])

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(V))
        bad = [i for i in ids if not check(i)]
        print("missed:", bad)
    else:
        for p in a:
            spec = {}
            exec(open(p).read(), spec)
            try:
                make(spec); confirm(spec["ID"]); check(spec["ID"])
            except AssertionError as e:
                clean(); print(p, "ASSERT", e)

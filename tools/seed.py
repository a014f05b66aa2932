#!/usr/bin/env python3
"""Make and confirm planted bugs from a spec: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<python>)].

Applies each to /repo, runs build, the stable tests and the demo with and without it, runs the
property's check, undoes it, and writes seeded/<id>/.
usage: seed.py SPEC.py [id ...]     (SEED_NOTEST=1 skips the test suite)
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is not. Run with cwd /repo.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD"
WORK="$(mktemp -d)"; trap 'rm -rf "$WORK"' EXIT
export WORK MPLCONFIGDIR="$WORK"
timeout 250 /opt/venv/bin/python "$HERE/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    return sh("git -C /repo status --porcelain").stdout.strip() == ""


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    assert clean(), "/repo not clean"
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(ns.get("PRELUDE", "") + s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd=R)
    ok = True
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, "meshiphi", f)
            t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, old)
            i = t.index(old)
            for _ in range(s.get("nth", 0)):
                i = t.index(old, i + 1)
            open(p, "w").write(t[:i] + new + t[i + len(old):])
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        chk = sh(f"SA_NOEV=1 python3 run.py {s['property']} quick", cwd=V)
        tests = "skipped"
        if not os.environ.get("SEED_NOTEST"):
            b = sh("bash /opt/vp/build.sh")
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            tests = f"build={b.returncode} " + sh("python3 /tmp/cmp.py /tmp/seed_t.json").stdout.strip()
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in chk.stdout.splitlines() if "VIOLATION" in l or l.strip().startswith("violated")]
    print(f"{s['id']} demo {r0.returncode}->{r1.returncode} check={chk.returncode} tests: {tests}")
    if r0.returncode:
        print("   DEMO FAILS ON CLEAN:", r0.stderr[-600:])
    print("   ", (v[-1][:200] if v else chk.stdout[-200:]), "|", r1.stderr.strip()[-150:].replace("\n", " "))

#!/usr/bin/env python3
"""Try textual edits of the package against checks, in a scratch copy.

usage: mut.py SPEC.py   where SPEC.py defines MUTS = [(checks, file, old, new[, nth])]
An edit list [(file, old, new), ...] may stand in place of file/old/new.
"""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for n, m in enumerate(ns["MUTS"]):
    if only and str(n) not in only:
        continue
    checks, edits = m[0], m[1:]
    if isinstance(edits[0], str):
        edits = [edits]
    else:
        edits = edits[0]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/meshiphi", d + "/meshiphi", ignore=shutil.ignore_patterns("__pycache__"))
        bad = None
        for f, old, new in edits:
            p = os.path.join(d, "meshiphi", f)
            s = open(p).read()
            if s.count(old) == 0:
                bad = f"{f}: text not found: {old[:60]!r}"
                break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if bad:
            print(n, "BAD SPEC", bad)
            continue
        for c in checks.split():
            r = subprocess.run([sys.executable, "run.py", c, "quick"], cwd=V, env=dict(os.environ, SA_REPO=d, SA_NOEV="1"), capture_output=True, text=True)
            out = [l for l in r.stdout.splitlines() if l.strip().startswith(("violated", "undecided", "ANALYSIS")) or "left undecided" in l]
            print(n, c, "exit", r.returncode, "|", edits[0][2].strip()[:50].replace("\n", " "), "|", (out[0].strip()[:220] if out else ""), r.stderr[-200:])
    finally:
        shutil.rmtree(d)

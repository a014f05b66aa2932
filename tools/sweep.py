#!/usr/bin/env python3
"""Generated single edits of analysed functions against all checks that analyse them, in scratch copies.

usage: sweep.py OUT.json [SEED [COUNT]]   (reads the functions of each check from evidence/)
Prints the edits no check reports; those are looked at by hand.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
COST = ["P02", "P16", "P14", "P08", "P17", "P18", "P10", "P19", "P20", "P07", "P12", "P11", "P13", "P22", "P21", "P23", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31", "P05", "P09", "P01", "P06", "P04", "P03", "P15"]
SWAP = {"get_lat_min": "get_lat_max", "get_lat_max": "get_lat_min", "get_long_min": "get_long_max", "get_long_max": "get_long_min", "getcx": "getcy", "getcy": "getcx", "getdcx": "getdcy", "getdcy": "getdcx",
        "get_width": "get_height", "get_height": "get_width", "min": "max", "max": "min", "any": "all", "all": "any", "lat": "long", "long": "lat", "lat_range": "long_range", "long_range": "lat_range", "floor": "ceil",
        "append": "remove", "north": "south", "south": "north", "east": "west", "west": "east", "argmin": "argmax", "argmax": "argmin", "idxmin": "idxmax", "idxmax": "idxmin", "nanmax": "nanmin"}


def edits(src, fn):
    """(start, end, new text) over the source"""
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def put(n, t, what):
        s, e = span(n)
        out.append((s, e, t, f"{what}: {txt(n)!r} -> {t!r}"))
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            skip.add(id(n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logging", "warnings"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(fn):
        if id(n) in skip or n is fn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o, l, r = n.ops[0], txt(n.left), txt(n.comparators[0])
            alt = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}[type(o)]
            for a in alt:
                put(n, f"({l} {a} {r})", "compare")
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "+", ast.FloorDiv: "/"}.get(type(n.op))
            if alt and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, f"({txt(n.left)} {alt} {txt(n.right)})", "arith")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + j.join(f"({txt(v)})" for v in n.values) + ")", "bool")
            if len(n.values) > 1:
                for i in range(len(n.values)):
                    j2 = " and " if isinstance(n.op, ast.And) else " or "
                    put(n, "(" + j2.join(f"({txt(v)})" for k, v in enumerate(n.values) if k != i) + ")", "drop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            put(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in SWAP:
            put(n, repr(SWAP[n.value]), "name")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, txt(n.operand), "unary")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            put(n, txt(n.value) + "." + SWAP[n.attr], "getter")
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all") and isinstance(n.ctx, ast.Load):
            put(n, SWAP[n.id], "builtin")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and txt(n.args[0]) != txt(n.args[1]) and not any(isinstance(a, ast.Starred) for a in n.args):
            put(n, f"{txt(n.func)}({txt(n.args[1])}, {txt(n.args[0])})", "args")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "delete")
        elif isinstance(n, ast.AugAssign):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.If) and not n.orelse and len(n.body) <= 3:
            put(n.test, "False", "never")
        elif isinstance(n, ast.Break) or isinstance(n, ast.Continue):
            put(n, "pass", "delete")
    return out


def functions():
    """{(file, qual): node, checks}"""
    cover = {}
    for p in COST:
        f = os.path.join(V, "evidence", p + ".json")
        if os.path.exists(f):
            for q in json.load(open(f))["coverage"]["functions"]:
                cover.setdefault(q, []).append(p)
    out = []
    for root, _, files in os.walk(R + "/meshiphi"):
        for f in files:
            if not f.endswith(".py"):
                continue
            path = os.path.join(root, f)
            src = open(path).read()
            mod = os.path.relpath(path, R)[:-3].replace("/", ".")
            for n in ast.parse(src).body:
                for fn, q in ([(n, n.name)] if isinstance(n, ast.FunctionDef) else [(m, f"{n.name}.{m.name}") for m in n.body if isinstance(m, ast.FunctionDef)] if isinstance(n, ast.ClassDef) else []):
                    names = {f"{mod}.{q}"} | {f"{mod}.{x.name}" for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
                    cs = sorted({c for nm in names for c in cover.get(nm, [])}, key=COST.index)
                    if cs:
                        out.append((path, src, q, fn, cs))
    return out


def trial(job):
    path, src, q, e, checks = job
    d = tempfile.mkdtemp(prefix="sweep_")
    try:
        shutil.copytree(R + "/meshiphi", d + "/meshiphi", ignore=shutil.ignore_patterns("__pycache__"))
        b = src.encode()
        new = (b[:e[0]] + e[2].encode() + b[e[1]:]).decode()
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            return None
        with open(os.path.join(d, os.path.relpath(path, R)), "w") as f:
            f.write(new)
        odd = []
        for c in checks:
            try:
                r = subprocess.run([sys.executable, "run.py", c, "quick"], cwd=V, env=dict(os.environ, SA_REPO=d, SA_NOEV="1", SA_STOP="40", OMP_NUM_THREADS="1"), capture_output=True, text=True, timeout=150)
            except subprocess.TimeoutExpired:
                odd.append(c + " timeout")
                continue
            if r.returncode == 1:
                return {"file": os.path.relpath(path, R), "fn": q, "edit": e[3], "line": src.encode()[:e[0]].count(b"\n") + 1, "killed": c}
            if r.returncode == 2:
                odd.append(c + " " + " ".join(l.strip() for l in r.stdout.splitlines() if "undecided" in l or "ANALYSIS" in l or "only" in l)[:160])
        return {"file": os.path.relpath(path, R), "fn": q, "edit": e[3], "line": src.encode()[:e[0]].count(b"\n") + 1, "killed": None, "odd": odd, "checks": checks}
    finally:
        shutil.rmtree(d)


def main():
    out = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    count = int(sys.argv[3]) if len(sys.argv) > 3 else 200
    pat = sys.argv[4] if len(sys.argv) > 4 else ""
    jobs = [(p, s, q, e, cs) for p, s, q, fn, cs in functions() if pat in f"{p}:{q}" for e in edits(s, fn)]
    print(len(jobs), "edits in all")
    random.Random(seed).shuffle(jobs)
    res = []
    with ThreadPoolExecutor(int(os.environ.get("PROCS", "8"))) as ex:
        for r in ex.map(trial, jobs[:count]):
            if r is None:
                continue
            res.append(r)
            if r["killed"] is None:
                print("SURVIVES", r["file"].split("/")[-1], r["line"], r["fn"], r["edit"].replace("\n", " ")[:160], r["odd"], flush=True)
            json.dump(res, open(out, "w"), indent=1)
    print(len(res), "edits,", sum(r["killed"] is not None for r in res), "reported")


main()

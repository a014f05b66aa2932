#!/usr/bin/env python3
"""Behaviour-keeping rewrites of the whole package against all checks, in scratch copies.

usage: refactor.py OUT.json [KIND ...]     (TESTS=1: also run the repository's tests on each rewritten copy; CHECKS="P01 P02")
Every check has to stay at exit 0 with the obligations it has on the unchanged tree; differences are printed.
"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def bodies(n):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b


def stmts(tree, fn):
    """rewrite every statement list: fn(stmt) -> list of statements"""
    for n in ast.walk(tree):
        for f, b in list(bodies(n)):
            setattr(n, f, [y for x in b for y in fn(x)])
        for h in getattr(n, "handlers", []):
            h.body = [y for x in h.body for y in fn(x)]
    return tree


def expr(tree, cls, fn):
    class T(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            return fn(n) if isinstance(n, cls) else n
    return T().visit(tree)


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


COUNT = [0]


def fresh(p):
    COUNT[0] += 1
    return f"{p}_{COUNT[0]}"


def pure(n):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)) for x in ast.walk(n))


def k_rename(tree):
    for f in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
            continue
        params = {a.arg for g in ast.walk(f) if isinstance(g, FN + (ast.Lambda,)) for a in g.args.args + g.args.kwonlyargs + [x for x in (g.args.vararg, g.args.kwarg) if x]}
        sub = {g.name for g in ast.walk(f) if isinstance(g, FN + (ast.ClassDef,))}
        imp = {(a.asname or a.name).split(".")[0] for g in ast.walk(f) if isinstance(g, (ast.Import, ast.ImportFrom)) for a in g.names}
        mine = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - sub - imp
        mine = {x for x in mine if not x.startswith("loc_")}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in mine:
                x.id = "loc_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in mine:
                x.name = "loc_" + x.name
    return tree


def k_invert(tree):
    def f(s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]
    return stmts(tree, f)


def k_return(tree):
    def f(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            r = fresh("answer")
            return [ast.Assign([name(r, ast.Store())], s.value), ast.Return(name(r))]
        return [s]
    return stmts(tree, f)


def k_comp(tree):
    def f(s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.value.generators[0].target, ast.Name):
            c, g = s.value, s.value.generators[0]
            t, out = fresh("item"), fresh("found")
            for x in [c.elt] + g.ifs:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id == g.target.id:
                        y.id = t
            body = [ast.Expr(ast.Call(ast.Attribute(name(out), "append", ast.Load()), [c.elt], []))]
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            return [ast.Assign([name(out, ast.Store())], ast.List([], ast.Load())), ast.For(name(t, ast.Store()), g.iter, body, []), type(s)(**{**{k: getattr(s, k) for k in s._fields}, "value": name(out)})]
        return [s]
    return stmts(tree, f)


def k_flip(tree):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def f(n):
        if len(n.ops) == 1 and type(n.ops[0]) in M:
            return ast.Compare(n.comparators[0], [M[type(n.ops[0])]()], [n.left])
        return n
    return expr(tree, ast.Compare, f)


def k_in(tree):
    def f(n):
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and n.comparators[0].elts and pure(n.left) and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts]) if len(n.comparators[0].elts) > 1 else ast.Compare(n.left, [ast.Eq()], n.comparators[0].elts)
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n
    return expr(tree, ast.Compare, f)


def k_extract(tree):
    def put(owner, method):
        out = []
        for f in owner.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.args.posonlyargs or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                continue
            if method and (f.name.startswith("__") and f.name != "__init__" or not f.args.args):
                continue
            g = copy.deepcopy(f)
            g.name = "_do_" + f.name.strip("_") + "_of_" + getattr(owner, "name", "module")
            g.args.defaults = []
            ps = [a.arg for a in f.args.args]
            call = ast.Call(ast.Attribute(name(ps[0]), g.name, ast.Load()) if method else name(g.name), [name(p) for p in ps[1 if method else 0:]], [])
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            f.body = doc + [ast.Return(call)]
            out.append(g)
        owner.body = out
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        put(c, True)
    put(tree, False)
    return tree


def k_ternary(tree):
    def f(s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            v = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            return [ast.If(v.test, [a], [b])]
        return [s]
    return stmts(tree, f)


def k_enumerate(tree):
    def f(s):
        if isinstance(s, ast.For):
            s.target = ast.Tuple([name(fresh("count"), ast.Store()), s.target], ast.Store())
            s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return [s]
    return stmts(tree, f)


def k_guard(tree):
    def f(s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return [ast.If(s.test, s.body, [])] + s.orelse
        return [s]
    return stmts(tree, f)


def k_nest(tree):
    def f(s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b
        return [s]
    return stmts(tree, f)


def k_dict(tree):
    def f(s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Dict) and s.value.keys and all(k is not None for k in s.value.keys):
            d = fresh("mapping")
            return [ast.Assign([name(d, ast.Store())], ast.Dict([], []))] + [ast.Assign([ast.Subscript(name(d), k, ast.Store())], v) for k, v in zip(s.value.keys, s.value.values)] + [type(s)(**{**{k: getattr(s, k) for k in s._fields}, "value": name(d)})]
        return [s]
    return stmts(tree, f)


def k_temps(tree):
    """arguments of the outermost call of a statement first put into variables"""
    def f(s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and not s.value.keywords and s.value.func.id[0].isupper() and not any(isinstance(a, ast.Starred) for a in s.value.args):
            out = []
            for i, a in enumerate(s.value.args):
                if not isinstance(a, (ast.Name, ast.Constant)):
                    t = fresh("part")
                    out.append(ast.Assign([name(t, ast.Store())], a))
                    s.value.args[i] = name(t)
            return out + [s]
        return [s]
    return stmts(tree, f)


def k_swap(tree):
    """neighbouring independent assignments change places"""
    def lists(n):
        for _, b in bodies(n):
            yield b

    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value)
    for n in ast.walk(tree):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            continue
        for b in lists(n):
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if simple(x) and simple(y) and x.targets[0].id != y.targets[0].id:
                    use = lambda s: {z.id for z in ast.walk(s.value) if isinstance(z, ast.Name)}
                    if x.targets[0].id not in use(y) and y.targets[0].id not in use(x):
                        b[i], b[i + 1] = y, x
                        i += 1
                i += 1
    return tree


def k_aug(tree):
    def f(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.BinOp)) and not (isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) is None):
            return [ast.Assign([name(s.target.id, ast.Store())], ast.BinOp(name(s.target.id), s.op, s.value))]
        return [s]
    return stmts(tree, f)


def k_format(tree):
    def f(n):
        t, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace("{", "{{").replace("}", "}}")
            elif v.format_spec is None and v.conversion == -1:
                t += "{}"
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])
    return expr(tree, ast.JoinedStr, f)


def k_append(tree):
    """lists filled in a loop become comprehensions"""
    def run(b):
        out, i = [], 0
        while i < len(b):
            x, y = b[i], b[i + 1] if i + 1 < len(b) else None
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.List) and not x.value.elts and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(y, ast.For) and not y.orelse and len(y.body) == 1:
                L, z, cond = x.targets[0].id, y.body[0], []
                if isinstance(z, ast.If) and not z.orelse and len(z.body) == 1:
                    cond, z = [z.test], z.body[0]
                if isinstance(z, ast.Expr) and isinstance(z.value, ast.Call) and isinstance(z.value.func, ast.Attribute) and z.value.func.attr == "append" and isinstance(z.value.func.value, ast.Name) and z.value.func.value.id == L and \
                        not any(isinstance(w, ast.Name) and w.id == L for e in [z.value.args[0], y.iter] + cond for w in ast.walk(e)):
                    out.append(ast.Assign(x.targets, ast.ListComp(z.value.args[0], [ast.comprehension(y.target, y.iter, cond, 0)])))
                    i += 2
                    continue
            out.append(x)
            i += 1
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            continue
        for f, b in list(bodies(n)):
            setattr(n, f, run(b))
    return tree


def k_const(tree):
    """text and number constants of functions become module constants"""
    seen = {}

    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            return n

        def visit_Constant(self, n):
            if isinstance(n.value, (str, int, float)) and not isinstance(n.value, bool) and n.value not in ("",):
                k = (type(n.value).__name__, n.value)
                seen.setdefault(k, f"CONST_{len(seen)}")
                return name(seen[k])
            return n

        def visit_FunctionDef(self, n):
            doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            n.body = doc + [self.visit(s) if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) else s for s in n.body[len(doc):]]
            return n
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            n.body = [T().visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
    at = 1 if isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant) else 0
    while at < len(tree.body) and isinstance(tree.body[at], ast.ImportFrom) and tree.body[at].module == "__future__":
        at += 1
    tree.body[at:at] = [ast.Assign([name(c, ast.Store())], ast.Constant(v)) for (_, v), c in seen.items()]
    return tree


def k_while(tree):
    """loops over len() ranges as while loops"""
    def f(s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and \
                not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
            i, m = s.target.id, fresh("stop")
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == i for b in s.body for x in ast.walk(b)):
                return [s]
            j = fresh("step")
            return [ast.Assign([name(m, ast.Store())], s.iter.args[0]), ast.Assign([name(j, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(j), [ast.Lt()], [name(m)]), [ast.Assign([name(i, ast.Store())], name(j))] + s.body + [ast.AugAssign(name(j, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]
    return stmts(tree, f)


def k_notcmp(tree):
    M = {ast.Lt: ast.GtE, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def f(s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and type(s.test.ops[0]) in (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot):
            s.test = ast.UnaryOp(ast.Not(), ast.Compare(s.test.left, [M[type(s.test.ops[0])]()], s.test.comparators))
        return [s]
    return stmts(tree, f)


def k_lambda(tree):
    """single-return nested functions as lambdas"""
    def f(s):
        return [s]
    for n in ast.walk(tree):
        if not isinstance(n, FN):
            continue
        for fl, b in list(bodies(n)):
            out = []
            for s in b:
                if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                    bb = [x for x in s.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                    if len(bb) == 1 and isinstance(bb[0], ast.Return) and bb[0].value is not None:
                        out.append(ast.Assign([name(s.name, ast.Store())], ast.Lambda(s.args, bb[0].value)))
                        continue
                out.append(s)
            setattr(n, fl, out)
    return tree


def k_nothing(tree):
    return tree


KINDS = {k[2:]: v for k, v in globals().items() if k.startswith("k_")}


def rewrite(base, kind):
    n = 0
    for d, _, fs in os.walk(os.path.join(base, "meshiphi")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                src = open(p).read()
                tree = ast.parse(src)
                if not tree.body:
                    continue
                for k in kind.split("+"):
                    tree = KINDS[k](tree)
                new = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
                n += new != ast.unparse(ast.parse(src)) + "\n"
                open(p, "w").write(new)
    return n


def main():
    out = sys.argv[1]
    kinds = sys.argv[2:] or list(KINDS)
    ids = os.environ.get("CHECKS", "").split() or [c["property"] if "property" in c else c["id"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    base = {}
    res = {}

    def run(p, repo):
        r = subprocess.run([sys.executable, os.path.join(V, "run.py"), p, "quick"], env={**os.environ, "SA_REPO": repo, "SA_NOEV": "1"}, capture_output=True, text=True, cwd=V)
        m = re.search(r"obligations=(\d+)", r.stdout)
        return r.returncode, int(m.group(1)) if m else None, [l for l in r.stdout.split("\n")[1:] + r.stdout.split("\n")[:0] if l.strip()][:3]
    for p in ids:
        base[p] = run(p, R)
    for kind in kinds:
        tmp = tempfile.mkdtemp(prefix="refactor_")
        try:
            shutil.copytree(R, tmp + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
            n = rewrite(tmp + "/r", kind)
            print(f"== {kind}: {n} files", flush=True)
            if os.environ.get("TESTS"):
                r = subprocess.run("cd tests/unit_tests && PYTHONPATH=%s/r PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider . 2>&1 | tail -3" % tmp, shell=True, cwd=tmp + "/r", capture_output=True, text=True)
                print("   tests:", r.stdout.strip().replace("\n", " | ")[-200:], flush=True)
            for p in ids:
                got = run(p, tmp + "/r")
                res[f"{kind} {p}"] = got
                if got[0] != 0 or got[1] != base[p][1]:
                    print(f"   {p} exit {got[0]} obligations {base[p][1]} -> {got[1]} {' / '.join(x.strip()[:300] for x in got[2])}", flush=True)
        finally:
            shutil.rmtree(tmp)
    json.dump(res, open(out, "w"), indent=1)


if __name__ == "__main__":
    main()

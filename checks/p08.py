"""Aggregation gives the named statistic of the valid datapoints inside the cell."""
import itertools
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .p07 import LOADERS, loader, snapshot

RULE = ("get_value of the scalar and vector loader base classes on symbolic tables: for every order of the values (ties "
        "included) and every placement of missing values, the result maps each data name to the named statistic (as a "
        "normal form over the symbols) of the non-missing points inside the bounds, to NaN when there is none, and an "
        "unknown statistic is rejected")

OPS = {"val", "mag", "out", "other", "nan", "sqrt"}
BOUNDS = ([-10, 10], [20, 40])
INSIDE = [(-5, 25), (0, 30), (5, 35), (10, 40), (-1, 39)]
OUTSIDE = [(-20, 30), (-10, 30), (0, 20), (15, 30), (0, 45)]


def patterns(n):
    """value patterns of n points: ranks (None: missing)"""
    out = []
    for mask in itertools.product((0, 1), repeat=n):
        k = n - sum(mask)
        ranks = set(itertools.permutations(range(k)))
        if k >= 2:
            ranks |= {(0,) * k, (0,) * (k - 1) + (1,), (1,) + (0,) * (k - 1)}
        if k >= 3:
            ranks |= {(0, 1, 1) + tuple(range(2, k - 1))}
        for r in sorted(ranks):
            it = iter(r)
            out.append(tuple(None if m else next(it) for m in mask))
    return out


def check(tier):
    chk = Check("P08", RULE, tier, minimum=1500, assumptions=[
        "statistics are exact (no rounding); pandas, numpy and xarray reductions mean what their documentation says"])
    jobs = []
    top = 4 if chk.thorough() else 3
    for n in range(top + 1):
        for pat in patterns(n):
            for agg in ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT"):
                for fmt in ("frame", "grid"):
                    jobs.append(("scalar", pat, agg, fmt, None))
                    if agg != "MEDIAN":
                        jobs.append(("vector", pat, agg, fmt, None))
    for pat in [(3, 0, 2, 1), (0, 1, 2, 3), (0, None, 1, 1), (4, 1, 3, 0, 2), (0, 0, 0, None, 1)]:
        for agg in ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT"):
            for fmt in ("frame", "grid"):
                for how in (None, "default", "subset"):
                    jobs.append(("scalar", pat, agg, fmt, how))
                    if how == "subset":
                        jobs.append(("scalar", pat, agg, fmt, "wide"))
                    if agg != "MEDIAN":
                        jobs.append(("vector", pat, agg, fmt, how))
    for pat in [(0, None, 1), (None, 1, 0), (1, 0, 2), (0, 1, None, None), (None, None)]:
        for agg in ("MIN", "MAX", "MEAN", "MEDIAN", "STD"):
            for fmt in ("frame", "grid"):
                jobs.append(("scalar", pat, agg, fmt, "propagate"))
                if agg != "MEDIAN":
                    jobs.append(("vector", pat, agg, fmt, "propagate"))
    for fmt in ("frame", "grid"):
        for agg in ("MEDIAN", "TOTAL", "mean ", "SUM"):
            jobs.append(("vector", (0, 1, 2), agg, fmt, None))
            if agg != "MEDIAN":
                jobs.append(("scalar", (0, 1, 2), agg, fmt, None))
    chk.parallel(jobs, one)
    return chk


def table(fmt, cols, pts, outs):
    """table of points; cols: {name: cells at pts}, other cells elsewhere"""
    if fmt == "frame":
        rows = []
        for i in range(max(len(pts), len(outs))):
            if i < len(outs):
                rows.append((outs[i], None, i))
            if i < len(pts):
                rows.append((pts[i], i, None))
        c = {"lat": [r[0][0] for r in rows], "long": [r[0][1] for r in rows]}
        for n, cells in cols.items():
            c[n] = [cells[r[1]] if r[1] is not None else Sym("out", n, r[2]) for r in rows]
        return FrameV(c, [7 + 3 * i for i in range(len(rows))])
    k = len(pts)
    nl, no = (2, k // 2) if k % 2 == 0 and k else (k, 1) if k < 5 else (1, k)
    lats = ([-20, -10] if outs else []) + [-5, 0, 3, 7, 10][:nl] + ([15] if outs else [])
    longs = ([15, 20] if outs else []) + [25, 30, 33, 37, 40][:no] + ([45] if outs else [])
    co = {"lat": lats, "long": longs}
    vs = {}
    for n, cells in cols.items():
        src = iter(cells)
        grid = []
        for i, la in enumerate(lats):
            for j, lo in enumerate(longs):
                if -10 < la <= 10 and 20 < lo <= 40:
                    grid.append(next(src))
                else:
                    grid.append(Sym("out", n, i * 10 + j))
        vs[n] = DataV(grid, ["lat", "long"], co, n)
    return DatasetV(vs, co)


def median(s):
    n = len(s)
    return s[n // 2] if n % 2 else mknum({k: v / 2 for k, v in padd(poly(s[n // 2 - 1]), poly(s[n // 2])).items()})


def mean(s):
    t = {}
    for x in s:
        t = padd(t, poly(x))
    return mknum({k: v / len(s) for k, v in t.items()})


def std(s, ddof):
    if len(s) - ddof <= 0:
        return NAN
    m = poly(mean(s))
    t = {}
    for x in s:
        d = padd(poly(x), m, -1)
        t = padd(t, pmul(d, d))
    return sqrt_term(mknum({k: v / (len(s) - ddof) for k, v in t.items()}))


def sqrt_term(v):
    if isnum(v) and v == 0:
        return 0
    return Sym("sqrt", freeze(v))


def expected(agg, cells, fmt, size):
    good = [c for c in cells if c is not NAN]
    if agg == "COUNT":
        return len(good)
    if not good:
        return NAN
    rank = sorted(good, key=lambda c: c.args[-1])
    return {"MIN": lambda: rank[0], "MAX": lambda: rank[-1], "MEAN": lambda: mean(good),
            "MEDIAN": lambda: median(rank), "STD": lambda: std(good, 1 if fmt == "frame" else 0)}[agg]()


def same_val(a, b):
    if isinstance(a, ArrV) and len(a.cells) == 1:
        a = a.cells[0]
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    return eqv(a, b)


def one(chk, job):
    kind, pat, agg, fmt, how = job
    _, cls, names = next(L for L in LOADERS if L[0] == kind)
    C = f"{cls.split('.')[-1]}.get_value"
    rule = f"{kind} {fmt} {agg or 'empty name'}"
    n = len(pat)
    ranks = sorted({p for p in pat if p is not None})
    known = agg in ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT") and not (kind == "vector" and agg == "MEDIAN")
    if kind == "scalar":
        cols = {"v": [NAN if p is None else Sym("val", "v", p) for p in pat]}
        chains = [Chain([Sym("val", "v", r) for r in ranks])]
    else:
        cols = {nm: [NAN if p is None else Sym("val", nm, i) for i, p in enumerate(pat)] for nm in names}
        cols["_magnitude"] = [NAN if p is None else Sym("mag", p) for p in pat]
        chains = [Chain([Sym("mag", r) for r in ranks])]
    case = f"{fmt}, values of ranks {['missing' if p is None else p for p in pat]}"
    outs = OUTSIDE if how != "subset" else []

    def setup(it):
        bd = boundary(it, *BOUNDS)
        data = table(fmt, cols, INSIDE[:n], outs)
        if how in ("subset", "wide"):
            L = loader(it, cls, names, table(fmt, {c: [Sym("other", c, i) for i in range(len(v))] for c, v in cols.items()}, INSIDE[:n], OUTSIDE))
        else:
            L = loader(it, cls, names, data)
        L.attrs["aggregate_type"] = agg if how in ("default", "subset", "wide") else "MAX" if agg != "MAX" else "MIN"
        kw = {} if how in ("default", "subset", "wide") else {"agg_type": agg}
        if how in ("subset", "wide"):
            kw["data"] = data
        if how == "propagate":
            kw["skipna"] = False
        return it.getattr(L, "get_value"), [bd], kw, (data, snapshot(data))

    for t in decided(chk, rule, setup, lambda: OrderDomain(*chains), ops=OPS):
        if not known:
            chk.require(t.exc == "ValueError", rule, C, f"{case}: the aggregation type {agg!r} is not rejected with ValueError" + (f" but raises {t.exc}" if t.exc else ""))
            continue
        if t.exc is not None:
            chk.bad(rule, C, f"{case}: raises {t.exc}")
            continue
        r = t.value
        f = foreign(r, OPS)
        if f is not None or isinstance(r, Sym):
            chk.undec(rule, f"the result depends on the uninterpreted term {show(f)}")
            continue
        if not isinstance(r, DictV) or sorted(map(str, dict(r.pairs()))) != sorted(names):
            chk.bad(rule, C, f"{case}: the result is not a mapping of {', '.join(names)}: {show(r)}")
            continue
        got = dict(r.pairs())
        good = True
        if kind == "vector" and agg in ("MIN", "MAX") and how != "propagate":
            rows = [i for i in range(n) if all(same_val(got[nm], cols[nm][i]) for nm in names)]
            if not rows and not all(nan(got[nm]) for nm in names):
                good = False
                chk.bad(rule, C, f"{case}: the {agg} vector {[show(got[nm]) for nm in names]} is not one of the datapoints")
        for nm in names:
            vals = want_values(kind, agg, fmt, cols, nm, pat)
            if how == "propagate" and None in pat:
                vals = [NAN]
            if vals is None:
                continue
            if not any(same_val(got[nm], v) for v in vals):
                good = False
                chk.bad(rule, C, f"{case}: the {agg} of {nm} is {show(got[nm])}, expected {show(vals[0])}")
        if good:
            chk.ok(rule, 1, case)
        data, before = t.inputs
        chk.require(snapshot(data) == before, f"{kind} {fmt} input", C, f"{case}: the data is modified")


def want_values(kind, agg, fmt, cols, nm, pat):
    """acceptable results (several when a tie leaves the choice open)"""
    if agg == "COUNT" and None in pat:
        if kind == "scalar" and fmt == "frame":
            return [len([p for p in pat if p is not None])]
        return None                     # whether missing points count is left open
    if kind == "scalar":
        return [expected(agg, cols[nm], fmt, len(pat))]
    good = [i for i, p in enumerate(pat) if p is not None]
    if agg == "COUNT":
        return [len(pat)] if pat else None
    if not good:
        return [NAN]
    if agg in ("MIN", "MAX"):
        b = (min if agg == "MIN" else max)(pat[i] for i in good)
        return [cols[nm][i] for i in good if pat[i] == b]
    if agg == "MEAN":
        return [mean([cols[nm][i] for i in good])]
    return [std([cols[nm][i] for i in good], 1 if fmt == "frame" else 0)]

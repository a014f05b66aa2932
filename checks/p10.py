"""Derived vector measures: magnitude, direction, curl and deviation from the mean."""
from collections import Counter
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .p07 import LOADERS, loader
from .p08 import BOUNDS, same_val, mean
from .p09 import FIELDS, field, vtable

RULE = ("VectorDataLoader on symbolic fields: the magnitude column is sqrt(u^2+w^2) and the direction column atan2(w, u) of the "
        "same row, other columns unchanged; the curl field is dw/dx - du/dy by central differences (one-sided at the rim) at every "
        "point of the grid; the deviation field is |vector - mean vector| per point; collapsing gives the value of largest size (curl), "
        "the maximum (deviation) or the mean, NaN when nothing can be computed, and an unknown way of collapsing is rejected")

OPS = {"val", "nan", "sqrt", "atan2"}
CLS, NAMES = LOADERS[1][1], LOADERS[1][2]


def check(tier):
    chk = Check("P10", RULE, tier, minimum=100, assumptions=["grid points are complete (a rectangle of latitudes and longitudes) for the curl"])
    for fmt in ("frame", "grid"):
        for holes in ([], [1], [0, 2]):
            for how in ("own", "given", "named"):
                mag_dir(chk, fmt, holes, how)
        for r, c in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 3) if chk.thorough() else (3, 4)):
            for given in (True, False):
                sym_field(chk, fmt, r, c, given)
        for mode in ("curl", "dmag"):
            for rows, _ in FIELDS[mode]:
                collapse(chk, fmt, mode, rows)
    return chk


def mag_dir(chk, fmt, holes, how):
    C = "VectorDataLoader.add_mag_dir"
    rule = f"magnitude and direction, {fmt}"
    n = 4
    u = [NAN if i in holes else Sym("val", "u", i) for i in range(n)]
    w = [NAN if i in holes else Sym("val", "w", i) for i in range(n)]
    nm = ["p", "q"] if how == "named" else NAMES

    def setup(it):
        if fmt == "frame":
            d = FrameV({"lat": [1, 2, 3, 4], "long": [9, 8, 7, 6], nm[0]: u, nm[1]: w}, [3, 5, 9, 4])
        else:
            co = {"lat": [1, 2], "long": [5, 6]}
            d = DatasetV({nm[0]: DataV(u, ["lat", "long"], co, nm[0]), nm[1]: DataV(w, ["lat", "long"], co, nm[1])}, co)
        other = FrameV({"lat": [1], "long": [1], NAMES[0]: [7], NAMES[1]: [8]})
        L = loader(it, CLS, NAMES, d if how == "own" else other)
        kw = {} if how == "own" else {"data": d}
        if how == "named":
            kw["data_names"] = ListV(["p", "q"])
        return it.getattr(L, "add_mag_dir"), [], kw, None

    for t in decided(chk, rule, setup, lambda: OrderDomain(), ops=OPS):
        case = f"{fmt}, missing rows {holes}"
        if t.exc is not None:
            chk.bad(rule, C, f"{case}: raises {t.exc}")
            continue
        r = t.value
        cols = r.cols if isinstance(r, FrameV) else {k: v.cells for k, v in r.vars.items()} if isinstance(r, DatasetV) else None
        if cols is None:
            chk.undec(rule, f"result {show(r)}")
            continue
        for want, name, src in ((None, nm[0], u), (None, nm[1], w)):
            chk.require(cols.get(name) == src, rule, C, f"{case}: the component {name} changes")
        for name, f in (("_magnitude", lambda a, b: Sym("sqrt", freeze(mknum(padd(pmul(poly(a), poly(a)), pmul(poly(b), poly(b))))))),
                        ("_direction", lambda a, b: Sym("atan2", freeze(b), freeze(a)))):
            got = cols.get(name)
            if got is None:
                chk.bad(rule, C, f"{case}: no {name} is added")
                continue
            if foreign(list(got), OPS) is not None:
                chk.undec(rule, f"{name} is {show(got)}")
                continue
            for i in range(n):
                exp = NAN if i in holes else f(u[i], w[i])
                chk.require(same_val(got[i], exp), rule, C, f"{case}: the {name} of row {i} is {show(got[i])}, expected {show(exp)}", sample=case)


def cells_of(v):
    if isinstance(v, ArrV):
        return list(v.cells)
    if isinstance(v, ListV):
        return [x for i in v.items for x in (cells_of(i) if isinstance(i, (ListV, ArrV)) else [i])]
    return None


def sym_field(chk, fmt, r, c, given):
    rows = [[(Sym("val", "u", i, j), Sym("val", "w", i, j)) for j in range(c)] for i in range(r)]
    for mode in ("curl", "dmag"):
        C = f"VectorDataLoader.calc_{mode}"
        rule = f"{mode} field, {fmt}"
        case = f"{fmt} of {r} latitudes by {c} longitudes"

        def setup(it):
            bd = boundary(it, *BOUNDS)
            own = [[(Sym("val", "own", i, j), Sym("val", "own2", i, j)) for j in range(c)] for i in range(r)] if given else rows
            L = loader(it, CLS, NAMES, vtable(fmt, own, NAMES, not given))
            kw = {"collapse": False}
            if given:
                kw["data"] = vtable(fmt, rows, NAMES, False)
            return it.getattr(L, f"calc_{mode}"), [bd], kw, None

        want = sym_expected(mode, rows)
        for t in decided(chk, rule, setup, lambda: OrderDomain(), ops=OPS):
            if t.exc is not None:
                chk.bad(rule, C, f"{case}: raises {t.exc}")
                continue
            got = cells_of(t.value)
            if got is None or foreign(got, OPS) is not None:
                chk.undec(rule, f"result {show(t.value)}")
                continue
            a, b = Counter(map(freeze, got)), Counter(map(freeze, want))
            miss = [w for w in want if b[freeze(w)] > a[freeze(w)]]
            chk.require(not miss and len(got) == len(want), rule, C,
                        f"{case}: no point has the value {show(miss[0]) if miss else ''}; the field is {[show(x) for x in got][:2]}...", sample=case)


def sym_expected(mode, rows):
    sub = lambda a, b: mknum(padd(poly(a), poly(b), -1))
    if mode == "dmag":
        pts = [p for r in rows for p in r]
        m = [mean([p[k] for p in pts]) for k in (0, 1)]
        out = []
        for p in pts:
            d = [padd(poly(p[k]), poly(m[k]), -1) for k in (0, 1)]
            out.append(Sym("sqrt", freeze(mknum(padd(pmul(d[0], d[0]), pmul(d[1], d[1]))))))
        return out
    R, Cn = len(rows), len(rows[0])

    def diff(get, n, i):
        if i == 0:
            return sub(get(1), get(0))
        if i == n - 1:
            return sub(get(n - 1), get(n - 2))
        return mknum({k: v / 2 for k, v in poly(sub(get(i + 1), get(i - 1))).items()})
    return [sub(diff(lambda k: rows[i][k][1], Cn, j), diff(lambda k: rows[k][j][0], R, i)) for i in range(R) for j in range(Cn)]


def collapse(chk, fmt, mode, rows):
    C = f"VectorDataLoader.calc_{mode}"
    fl = field(mode, rows)
    good = [x for x in fl or [] if x is not None]
    for agg in (None, "MAX", "MEAN", "SUM"):
        rule = f"collapsed {mode}, {fmt}"
        case = f"{fmt}, {mode} of {rows} collapsed by {agg or 'default'}"

        def setup(it):
            bd = boundary(it, *BOUNDS)
            L = loader(it, CLS, NAMES, vtable(fmt, rows, NAMES, True))
            return it.getattr(L, f"calc_{mode}"), [bd], ({"agg_type": agg} if agg else {}), None

        for t in decided(chk, rule, setup, lambda: OrderDomain(), ops=OPS):
            if agg == "SUM" and good:
                chk.require(t.exc == "ValueError", rule, C, f"{case}: not rejected with ValueError")
                continue
            if t.exc is not None:
                chk.bad(rule, C, f"{case}: raises {t.exc}")
                continue
            if foreign(t.value, OPS) is not None:
                chk.undec(rule, f"result {show(t.value)}")
                continue
            a = agg or ("MAX" if mode == "curl" else "MEAN")
            if not good:
                want = [NAN]
            elif a == "MEAN":
                want = [sum(good) / len(good)]
            elif mode == "dmag":
                want = [max(good)]
            else:
                big = max(abs(x) for x in good)
                want = [x for x in good if abs(x) == big]
            chk.require(any(same_val(t.value, mknum(poly(w)) if not nan(w) else w) for w in want), rule, C,
                        f"{case}: the result is {show(t.value)}, expected {show(want[0])}", sample=case)

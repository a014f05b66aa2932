"""The splitting verdict of a cell follows the share of its datapoints over the threshold."""
import itertools
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .p07 import LOADERS, loader, snapshot
from .p08 import table, BOUNDS, INSIDE, OUTSIDE

RULE = ("get_hom_condition of the scalar and vector loader base classes: with fewer points than the minimum 'CLR'; otherwise "
        "with f = (points strictly over the threshold)/(non-missing points), 0 if there is none, the verdict is 'CLR' if f <= lower "
        "bound, else 'HOM' (split lock) or 'CLR' (no lock) if f >= upper bound, else 'HET'; every number of points over, at, "
        "under the threshold and missing, and every position of f relative to the two bounds, is one obligation; for vectors "
        "the measure is the curl or the distance to the mean vector at each point")

OPS = {"val", "T", "lb", "ub", "nan", "sqrt", "out", "other"}
T, LB, UB = Sym("T"), Sym("lb"), Sym("ub")

PLACES = ["f < lower", "f = lower", "lower < f < upper", "f = upper", "f > upper"]


def bounds_chain(place, f):
    """(lower, upper, chain)"""
    if place == "f < lower":
        return LB, UB, Chain([f, LB, UB])
    if place == "f = lower":
        return f, UB, Chain([f, UB])
    if place == "lower < f < upper":
        return LB, UB, Chain([LB, f, UB])
    if place == "f = upper":
        return LB, f, Chain([LB, f])
    return LB, UB, Chain([LB, UB, f])


def verdict(place, lock):
    if place in ("f < lower", "f = lower"):
        return "CLR"
    if place == "lower < f < upper":
        return "HET"
    return "HOM" if lock is True else "CLR"


def check(tier):
    chk = Check("P09", RULE, tier, minimum=2000, assumptions=["lower bound < upper bound"])
    jobs = []
    top = 5 if chk.thorough() else 4
    for n in range(top + 1):
        for pat in itertools.combinations_with_replacement("oeum", n):      # over, equal, under, missing
            if not chk.thorough() and n == 4 and pat.count("e") > 1 and pat.count("m") > 1:
                continue
            for fmt in ("frame", "grid"):
                jobs.append(("scalar", pat, fmt))
    for mode in ("dmag", "curl"):
        for fmt in ("frame", "grid"):
            for i in range(len(FIELDS[mode])):
                jobs.append(("vector", mode, i, fmt))
    chk.parallel(jobs, lambda c, j: (scalar if j[0] == "scalar" else vector)(c, *j[1:]))
    return chk


def run(chk, rule, C, cls, names, case, mk, chains, conds, min_dp, given, want):
    def setup(it):
        bd = boundary(it, *BOUNDS)
        data, sub = mk()
        L = loader(it, cls, names, data)
        L.attrs["min_dp"] = min_dp
        sc = conds()
        kw = {"data": sub} if given else {}
        return it.getattr(L, "get_hom_condition"), [bd, sc], kw, (data, snapshot(data))

    for t in decided(chk, rule, setup, lambda: OrderDomain(*chains), ops=OPS):
        if t.exc is not None:
            chk.bad(rule, C, f"{case}: raises {t.exc}")
            continue
        f = foreign(t.value, OPS)
        if f is not None:
            chk.undec(rule, f"verdict {show(t.value)}")
            continue
        chk.require(t.value == want, rule, C, f"{case}: the verdict is {show(t.value)}, expected {want}", sample=case)
        chk.require(snapshot(t.inputs[0]) == t.inputs[1], rule + " input", C, f"{case}: the data is modified")


def scalar(chk, pat, fmt):
    cls, names = LOADERS[0][1], LOADERS[0][2]
    C = f"{cls.split('.')[-1]}.get_hom_condition"
    rule = f"scalar {fmt}"
    n = len(pat)
    # unordered mix of kinds along the rows
    pat = tuple(pat[i] for i in (list(range(1, n, 2)) + list(range(0, n, 2))))
    over = [Sym("val", "o", i) for i, p in enumerate(pat) if p == "o"]
    under = [Sym("val", "u", i) for i, p in enumerate(pat) if p == "u"]
    cells = [Sym("val", p, i) if p in "ou" else T if p == "e" else NAN for i, p in enumerate(pat)]
    vch = Chain(under + [T] + over)
    valid = n - pat.count("m")
    f = F(len(over), valid) if valid else F(0)
    f = int(f) if f.denominator == 1 else f

    def mk():
        return table(fmt, {"v": cells}, INSIDE[:n], OUTSIDE), table(fmt, {"v": cells}, INSIDE[:n], [])

    for place in PLACES:
        lb, ub, bch = bounds_chain(place, f)
        for lock in (True, False, None):
            for given in (True, False):
                if given and n == 0 and fmt == "grid":
                    continue
                # minimum number of points: reached, reached exactly, not reached
                for min_dp in sorted({0, 1, valid, n + 1}):
                    if min_dp not in (0, valid, n + 1) and (n > 2 or place != PLACES[2]):
                        continue
                    if valid < min_dp <= n:
                        continue        # whether missing points count towards the minimum is left open
                    want = "CLR" if min_dp > n else verdict(place, lock)
                    case = f"{fmt}, points {''.join(pat)} (over, equal, under, missing), {place}, minimum {min_dp}, split lock {lock}"

                    def conds():
                        d = [("threshold", T), ("lower_bound", lb), ("upper_bound", ub)]
                        return DictV(d + ([("split_lock", lock)] if lock is not None else []))
                    run(chk, rule, C, cls, names, case, mk, [vch, bch], conds, min_dp, given, want)


# concrete vector fields: (rows of (u, w) or None) on a lat x long grid
N_ = None
FIELDS = {
    "dmag": [
        ([[(6, 8), (-6, -8)]], None), ([[(6, 8), (-6, -8)], [(3, 4), (-3, -4)]], None),
        ([[(3, 4), (-3, -4)], [N_, (0, 0)]], None), ([[N_, N_]], None), ([], None),
        ([[(1, 1)]], None), ([[(6, 8), (-6, -8), (0, 0)], [(3, 4), (-3, -4), (0, 0)]], None),
    ],
    "curl": [
        ([[(0, 0), (0, 3)], [(-2, 0), (-2, 3)]], None), ([[(0, 0), (0, 1), (0, 4)], [(1, 0), (3, 1), (5, 4)]], None),
        ([[(0, 1), (2, 5), (1, 0)], [(7, 0), (3, 1), (5, 4)], [(2, 2), (2, 9), (0, 0)]], None),
        ([[(1, 2), (3, 4)]], None), ([[(1, 2)], [(3, 4)]], None), ([[(1, 2), N_], [N_, (3, 4)]], None), ([[N_, N_], [N_, N_]], None),
        ([[(0, 1), (2, 5), (1, 0)], [(7, 0), N_, (5, 4)], [(2, 2), (2, 9), (0, 0)]], None),
    ],
}


def gradient(xs):
    n = len(xs)
    d = lambda a, b, k: None if a is None or b is None else F(b - a, k)
    return [d(xs[0], xs[1], 1)] + [d(xs[i - 1], xs[i + 1], 2) for i in range(1, n - 1)] + [d(xs[-2], xs[-1], 1)]


def field(mode, rows):
    """measure per point (None: missing), or None when it cannot be computed"""
    if mode == "dmag":
        pts = [p for r in rows for p in r]
        good = [p for p in pts if p is not None]
        if not good:
            return None
        m = [F(sum(p[i] for p in good), len(good)) for i in (0, 1)]
        out = []
        for p in pts:
            if p is None:
                out.append(None)
                continue
            s = (p[0] - m[0]) ** 2 + (p[1] - m[1]) ** 2
            r = F(int(s.numerator ** 0.5 + 0.5), int(s.denominator ** 0.5 + 0.5))
            assert r * r == s, (rows, s)
            out.append(r)
        return out
    if not rows or len(rows) < 2 or len(rows[0]) < 2:
        return None
    comp = lambda k: [[None if p is None else p[k] for p in r] for r in rows]
    u, w = comp(0), comp(1)
    dw_dx = [gradient(r) for r in w]
    du_dy = list(zip(*[gradient(c) for c in zip(*u)]))
    out = [None if a is None or b is None else a - b for ra, rb in zip(dw_dx, du_dy) for a, b in zip(ra, rb)]
    return None if all(x is None for x in out) else out


def vtable(fmt, rows, names, outs):
    lats = [-5, 0, 3, 7][:len(rows)] if rows else []
    longs = [25, 30, 33, 37][:len(rows[0])] if rows else []
    al = ([-20, -10] if outs else []) + lats + ([15] if outs else [])
    ao = ([15, 20] if outs else []) + longs + ([45] if outs else [])

    def at(la, lo, k):
        if la in lats and lo in longs:
            p = rows[lats.index(la)][longs.index(lo)]
            return NAN if p is None else p[k]
        return 100 * k + la + 2 * lo
    cols = {n: [at(la, lo, k) for la in al for lo in ao] for k, n in enumerate(names)}
    cols["_magnitude"] = [NAN if nan(c) else 1 for c in cols[names[0]]]
    if fmt == "grid":
        co = {"lat": al, "long": ao}
        return DatasetV({n: DataV(c, ["lat", "long"], co, n) for n, c in cols.items()}, co)
    pts = [(la, lo) for la in al for lo in ao]
    order = list(range(1, len(pts), 2)) + list(range(0, len(pts), 2))
    c = {"lat": [pts[i][0] for i in order], "long": [pts[i][1] for i in order]}
    for n, v in cols.items():
        c[n] = [v[i] for i in order]
    return FrameV(c, [5 + 2 * i for i in range(len(order))])


def vector(chk, mode, i, fmt):
    cls, names = LOADERS[1][1], LOADERS[1][2]
    C = f"{cls.split('.')[-1]}.get_hom_condition"
    rule = f"vector {fmt} {mode}"
    rows, _ = FIELDS[mode][i]
    n = sum(len(r) for r in rows)
    valid = len([p for r in rows for p in r if p is not None])
    fl = field(mode, rows)
    good = [x for x in fl or [] if x is not None]
    marks = sorted(set(good))
    thresholds = marks + [(a + b) / 2 for a, b in zip(marks, marks[1:])] + ([marks[0] - 1, marks[-1] + 1] if marks else [0])

    def mk():
        return vtable(fmt, rows, names, True), vtable(fmt, rows, names, False)

    for th in thresholds:
        f = F(len([x for x in good if x > th]), len(good)) if good else F(0)
        for place in PLACES if good else PLACES + [(0, F(1, 2)), (0, 1), (F(1, 4), F(3, 4))]:
            if isinstance(place, tuple):
                (lb, ub), bch = place, Chain(list(place))
            else:
                if valid and not good and place not in PLACES[:2]:
                    continue        # a share of none below zero bounds
                lb, ub, bch = bounds_chain(place, int(f) if f.denominator == 1 else f)
            for lock in (True, False, None):
                if lock is None and th != thresholds[0]:
                    continue
                for min_dp in sorted({0, valid, n + 1}):
                    if min_dp and th != thresholds[0] and not chk.thorough():
                        continue
                    if valid < min_dp <= n or (min_dp > n and place != PLACES[2]):
                        continue
                    want = verdict(place, lock) if good and min_dp <= n else "CLR"
                    case = f"{fmt}, {mode} of the field {rows} with threshold {th}, {place}, minimum {min_dp}, split lock {lock}"
                    tv = int(th) if F(th).denominator == 1 else th

                    def conds():
                        d = [("threshold", tv), ("lower_bound", lb), ("upper_bound", ub)]
                        return DictV([(mode, DictV(d + ([("split_lock", lock)] if lock is not None else [])))])
                    for given in (True, False):
                        if given and not rows or given and lock is False:
                            continue
                        run(chk, rule, C, cls, names, case, mk, [bch], conds, min_dp, given, want)

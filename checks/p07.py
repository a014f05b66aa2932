"""Trimming returns exactly the datapoints inside the bounds."""
import itertools
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *

RULE = ("trim_datapoints of the scalar and vector loader base classes, on data frames and gridded datasets whose "
        "coordinates take every position relative to the bounds (below, on and above each limit, at the date line), keeps "
        "exactly the points with min < lat <= max, min < long <= max (or long > min or long <= max over the date line) and "
        "min <= time <= max, with unchanged values, and leaves its input untouched")

DL = "meshiphi.dataloaders."
LOADERS = [("scalar", DL + "scalar.abstract_scalar.ScalarDataLoader", ["v"]),
           ("vector", DL + "vector.abstract_vector.VectorDataLoader", ["u", "w"])]

A, Bm = Sym("lat_min"), Sym("lat_max")
LO, HI = Sym("long_min"), Sym("long_max")


def y(i):
    return Sym("y", i)


def x(i):
    return Sym("x", i)


# kind -> (chain, lower, upper, inside predicate on chain position)
def lat_kinds():
    pts = [-90, y(0), A, y(1), y(2), Bm, y(3), 90]
    yield "inside the globe", Chain(pts), pts, A, Bm
    pts = [-90, y(1), Bm, y(2), 90]
    yield "from the south pole", Chain(pts), pts, -90, Bm
    pts = [-90, y(1), A, y(2), 90]
    yield "to the north pole", Chain(pts), pts, A, 90


def long_kinds():
    pts = [-180, x(0), LO, x(1), x(2), HI, x(3), 180]
    yield "inside", Chain(pts), pts, LO, HI
    pts = [-180, x(0), HI, x(1), 180]
    yield "from -180", Chain(pts), pts, -180, HI
    pts = [-180, x(0), LO, x(1), 180]
    yield "to 180", Chain(pts), pts, LO, 180
    pts = [-180, x(0), 180]
    yield "whole globe", Chain(pts), pts, -180, 180
    pts = [-180, x(0), HI, x(1), x(2), LO, x(3), 180]
    yield "over the date line", Chain(pts), pts, LO, HI
    pts = [-180, x(0), HI, x(1), 180]
    yield "from 180 over the date line", Chain(pts), pts, 180, HI
    pts = [-180, x(0), LO, x(1), 180]
    yield "to -180 over the date line", Chain(pts), pts, LO, -180


TIMES = ["2012-12-31", "2013-01-01", "2013-01-02", "2013-03-01", "2013-03-02", "2014-02-01"]
T0, T1 = "2013-01-01", "2013-03-01"


def drop_min(pts, lo):
    return [p for p in pts if p != lo]


def check(tier):
    chk = Check("P07", RULE, tier, minimum=250, assumptions=[
        "gridded data is sorted by ascending latitude, longitude and time"])
    jobs = []
    for L in LOADERS:
        for la in list(lat_kinds()):
            for lo in list(long_kinds()):
                for fmt in ("frame", "grid"):
                    for timed in (False, True):
                        for atmin in (True, False):
                            for given in (True, False):
                                if la[0] != "inside the globe" and lo[0] not in ("inside", "over the date line") and not chk.thorough():
                                    continue
                                jobs.append((L, la, lo, fmt, timed, atmin, given, None))
        la, los = next(lat_kinds()), [l for l in long_kinds() if l[0] in ("inside", "over the date line")]
        for lo in los:
            for fmt in ("frame", "grid"):
                for miss in ("lat", "long"):
                    jobs.append((L, la, lo, fmt, False, True, True, miss))
    chk.parallel(jobs, one)
    for job in concrete():
        one(chk, job)
    return chk


def concrete():
    """fully concrete placements: decided whatever arithmetic the code does"""
    for L in LOADERS:
        for lo, hi, pts in ((-20, 10, [-180, -30, -20, -19, -10, 0, 10, 11, 180]), (170, -170, [-180, -175, -170, -169, 0, 169, 170, 175, 180]),
                            (0, 20, [-1, 0, 1, 10, 20, 21]), (-180, 180, [-180, -179, 0, 179, 180]), (-10, 0, [-11, -10, -5, 0, 5])):
            for a, b, ys in ((-60, -50, [-61, -60, -55, -50, -49]), (-5, 0, [-6, -5, -1, 0, 1]), (0, 5, [-1, 0, 1, 5, 6])):
                for fmt in ("frame", "grid"):
                    yield (L, ("lat %s:%s" % (a, b), Chain([-90, 90]), ys, a, b), ("long %s:%s" % (lo, hi), Chain([-180, 180]), pts, lo, hi),
                           fmt, True, True, True, None)


def inside(pts, p, lo, hi, half=True):
    i, l, h = pts.index(p), pts.index(lo), pts.index(hi)
    if l < h:
        return l < i <= h if half else l <= i <= h
    return i > l or i <= h


def make(fmt, names, lats, longs, times, tag="val", gaps=False):
    """(abstract table, {(lat, long, time): cells})"""
    pts = list(itertools.product(lats, longs, times or [None]))
    val = {p: [NAN if gaps and i % 5 == 3 and (i // 5 + j) % 2 else Sym(tag, n, i) for j, n in enumerate(names)] for i, p in enumerate(pts)}
    if fmt == "frame":
        rows = pts[1::2] + pts[::2]
        cols = {"lat": [r[0] for r in rows], "long": [r[1] for r in rows]}
        if times:
            cols["time"] = [r[2] for r in rows]
        for j, n in enumerate(names):
            cols[n] = [val[r][j] for r in rows]
        return FrameV(cols), val
    dims = ["lat", "long"] + (["time"] if times else [])
    co = {"lat": list(lats), "long": list(longs)}
    if times:
        co["time"] = list(times)
    return DatasetV({n: DataV([val[p][j] for p in pts], dims, co, n) for j, n in enumerate(names)}, co), val


def points(t, names, timed):
    """{(lat, long, time): cells} of a table, or a reason it is none"""
    out = {}
    if isinstance(t, FrameV):
        for n in ["lat", "long"] + names + (["time"] if timed else []):
            if n not in t.cols:
                return f"the column {n} is lost"
        for i in range(len(t.cols["lat"])):
            k = (t.cols["lat"][i], t.cols["long"][i], t.cols["time"][i] if timed else None)
            if k in out:
                return f"the point {show_pt(k)} appears twice"
            out[k] = [t.cols[n][i] for n in names]
        return out
    if isinstance(t, DatasetV):
        for n in names:
            if n not in t.vars:
                return f"the variable {n} is lost"
            v = t.vars[n]
            want = ["lat", "long"] + (["time"] if timed else [])
            if sorted(v.dims) != sorted(want):
                return f"the dimensions are {v.dims}"
            for d in want:
                if len(set(map(str, v.coords[d]))) != len(v.coords[d]):
                    return f"a {d} appears twice"
            for idx in itertools.product(*[range(len(v.coords[d])) for d in want]):
                k = tuple(v.coords[d][i] for d, i in zip(want, idx)) + (() if timed else (None,))
                out.setdefault(k, []).append(v.at(dict(zip(want, idx))))
        return out
    return f"not a table: {show(t)}"


def show_pt(k):
    return "(" + ", ".join(show(c) for c in k if c is not None) + ")"


def loader(it, cls, names, data):
    L = ObjV(it.prog.cls(cls))
    L.attrs.update({"data": data, "data_name": ",".join(names), "aggregate_type": "MEAN", "min_dp": 5})
    if len(names) > 1:
        L.attrs["data_name_list"] = ListV(list(names))
    return L


def snapshot(t):
    if isinstance(t, FrameV):
        return {c: list(v) for c, v in t.cols.items()}
    return ({n: list(v.cells) for n, v in t.vars.items()}, {d: list(c) for d, c in t.coords.items()})


def one(chk, job):
    (kind, cls, names), (ln, lch, lpts, a, b), (on, och, opts, lo, hi), fmt, timed, atmin, given, miss = job
    C = f"{cls.split('.')[-1]}.trim_datapoints"
    rule = f"{kind} {fmt}"
    lats = list(lpts) if atmin else drop_min(lpts, a)
    longs = list(opts) if atmin else drop_min(opts, lo)
    if miss == "lat":
        lats = [p for p in lats if not inside(lpts, p, a, b)]
    if miss == "long":
        longs = [p for p in longs if not inside(opts, p, lo, hi)]
    times = TIMES if timed else None
    case = f"{fmt}, latitudes {ln}, longitudes {on}{', with time' if timed else ''}"

    def setup(it):
        bd = boundary(it, [a, b], [lo, hi], ListV([T0, T1]))
        data, val = make(fmt, names, lats, longs, times, gaps=True)
        other, _ = make(fmt, names, lats[:1], longs[:1], times, "other")
        before = snapshot(data)
        L = loader(it, cls, names, other if given else data)
        f = it.getattr(L, "trim_datapoints")
        return f, [bd], ({"data": data} if given else {}), (val, before, data)

    for t in decided(chk, rule, setup, lambda: OrderDomain(lch, och)):
        if t.exc is not None:
            chk.bad(rule, C, f"{case}: raises {t.exc}")
            continue
        val, before, data = t.inputs
        got = points(t.value, names, timed)
        if isinstance(got, str):
            chk.bad(rule, C, f"{case}: {got}")
            continue
        want = {k: v for k, v in val.items() if inside(lpts, k[0], a, b) and inside(opts, k[1], lo, hi)
                and (not timed or T0 <= k[2] <= T1)}
        lost = [k for k in want if k not in got]
        extra = [k for k in got if k not in want]
        wrong = [k for k in want if k in got and got[k] != want[k]]
        if lost:
            chk.bad(rule, C, f"{case}: the point {show_pt(lost[0])} lies inside but is dropped")
        elif extra:
            chk.bad(rule, C, f"{case}: the point {show_pt(extra[0])} lies outside (or on the lower limit) but is kept")
        elif wrong:
            chk.bad(rule, C, f"{case}: the value at {show_pt(wrong[0])} changes to {[show(v) for v in got[wrong[0]]]}")
        else:
            chk.ok(rule, len(val), f"{case}: {len(want)} of {len(val)} points kept")
        chk.require(snapshot(data) == before, rule + " input", C, f"{case}: the data given is modified")

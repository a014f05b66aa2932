"""Loading a source: what the loader holds after construction."""
import itertools
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .p07 import LOADERS, points, show_pt
from .p18 import absv

RULE = ("the constructor of the scalar and vector loader base classes, with the data its import step gives (table or grid, with or without times, "
        "any extent relative to the region): the stored data is exactly the imported points inside the region with their values, under the configured "
        "or the imported names, each at its reprojected position when the projections differ, in blocks of the configured size when downsampled, and "
        "the data is imported once and for the region given")

T0, T1 = "2013-01-01", "2013-03-01"
TIMES = ["2012-12-31", "2013-01-01", "2013-02-01", "2013-03-01", "2013-03-02"]
REGIONS = {"inside": ([-60, -50], [10, 30]), "over the date line": ([-60, -50], [170, -160]), "whole globe": ([-90, 90], [-180, 180]),
           "east of 0": ([0, 20], [0, 40]), "up to the date line": ([40, 60], [150, 180])}
LATS = [-80, -60, -57, F(-105, 2), -50, -10, 0, 5, 20, 45, 60, 75]
LONGS = [-180, -170, -160, -100, 0, 10, 12, 20, 30, 40, 155, 170, 175, 180]


def num(tag, *ix):
    """a fixed, irregular value"""
    h = 7
    for c in str(tag) + str(ix):
        h = (h * 31 + ord(c)) % 10007
    return F(h, 8) - 500


def inside(p, reg):
    (a, b), (lo, hi) = reg
    ok = lo < p[1] <= hi if lo < hi else p[1] > lo or p[1] <= hi
    return a < p[0] <= b and ok and (p[2] is None or T0 <= p[2] <= T1)


def build(fmt, raw, lats, longs, times, xn="lat", yn="long", hole=None):
    """(table, {point: values}) with coordinate columns xn, yn"""
    pts = list(itertools.product(lats, longs, times or [None]))
    val = {p: [NAN if hole and hole(p, j) else num(n, *p) for j, n in enumerate(raw)] for p in pts}
    if fmt == "frame":
        rows = pts[1::2] + pts[::2]
        cols = {xn: [r[0] for r in rows], yn: [r[1] for r in rows]}
        if times:
            cols["time"] = [r[2] for r in rows]
        for j, n in enumerate(raw):
            cols[n] = [val[r][j] for r in rows]
        return FrameV(cols, [5 + 2 * i for i in range(len(rows))]), val
    dims = [xn, yn] + (["time"] if times else [])
    co = {xn: list(lats), yn: list(longs)}
    if times:
        co["time"] = list(times)
    return DatasetV({n: DataV([val[p][j] for p in pts], dims, co, n) for j, n in enumerate(raw)}, co), val


class Crs(NativeV):
    tname = "pyproj.CRS"

    def __init__(self, name):
        self.name = name


class Trans(NativeV):
    """an abstract projection: injective, not symmetric in its arguments; direction by name"""
    tname = "pyproj.Transformer"

    def __init__(self, a, b, xy):
        self.a, self.b, self.xy = a, b, xy

    def attr(self, it, name, node):
        if name != "transform":
            it.undecided(f"Transformer.{name}", node)

        def tr(it, a, k, n):
            if len(a) != 2 or k or not all(isinstance(x, ArrV) for x in a):
                it.undecided("transform arguments", n)
            out = [project(self.a, self.b, p, q, self.xy) for p, q in zip(a[0].cells, a[1].cells)]
            return TupleV([NDArr([o[0] for o in out]), NDArr([o[1] for o in out])])
        return self.meth(name, tr)


def project(src, dst, p, q, xy=True):
    """(first, second) output of the transform from src to dst of the pair (p, q)"""
    if (src, dst) == ("EPSG:3031", "EPSG:4326"):
        x, y = (p, q)
        lon, lat = F(x) / 10 + F(y) / 100, F(y) / 7 - F(x) / 200 - 3
        return (lon, lat) if xy else (lat, lon)
    if (src, dst) == ("EPSG:4326", "EPSG:3031"):       # the wrong way round
        return F(p) * 3 + 1000, F(q) * 5 + 1000
    return F(p) + 2000, F(q) + 2000


def crs(it, a, k, node=None):
    if len(a) == 1 and isinstance(a[0], str) and not k:
        return Crs(a[0])
    it.undecided("CRS", node)


def from_crs(it, a, k, node=None):
    n = [x.name if isinstance(x, Crs) else x for x in (list(a) + [k.get("crs_from"), k.get("crs_to")])[:2] if x is not None]
    if "crs_to" in k and len(a) == 1:
        n = [n[0], k["crs_to"].name if isinstance(k["crs_to"], Crs) else k["crs_to"]]
    if len(n) != 2 or not all(isinstance(x, str) for x in n) or set(k) - {"always_xy", "crs_from", "crs_to"}:
        it.undecided("Transformer.from_crs", node)
    return Trans(n[0], n[1], k.get("always_xy", False) is True)


MODELS = {"pyproj.CRS": crs, "pyproj.Transformer.from_crs": from_crs, "pyproj.CRS.from_user_input": crs, "pyproj.CRS.from_string": crs}
RAW = {"scalar": ["raw"], "vector": ["ru", "rv"]}
NAMES = {"scalar": [None, "raw", "mine"], "vector": [None, "ru,rv", "v_mine,u_mine"]}


def check(tier):
    chk = Check("P20", RULE, tier, minimum=400, assumptions=["gridded data is sorted by ascending coordinates", "a projection is a function of the two coordinates of a point"])
    jobs = []
    for L in LOADERS:
        kind = L[0]
        for rn in REGIONS:
            for fmt in ("frame", "grid"):
                for timed in (False, True):
                    jobs.append((L, "region", dict(region=rn, fmt=fmt, timed=timed, lats=LATS, longs=LONGS, name=NAMES[kind][2])))
                for name in NAMES[kind]:
                    jobs.append((L, "names", dict(region=rn, fmt=fmt, timed=False, lats=LATS[1:6], longs=LONGS[5:9] + LONGS[11:13], name=name)))
                for what, la, lo in (("only inside", [-57, -55], [12, 20]), ("around", [-80, -40], [0, 90]), ("elsewhere", [30, 35], [-100, -90]),
                                     ("one point", [-57], [20]), ("one row", [-57], [12, 20, 40]), ("one column", [-57, -55, -40], [20]), ("touching", [-50, -45], [5, 10]),
                                     ("equator", [-5, 0, 5], [-5, 0, 5]), ("date line", [-57, -55], [-175, -170, 172, 180]), ("barely touching", [F(-1001, 20), F(-49)], [F(599, 20), 35]), ("all south", [-59, -51], [-179, 179])):
                    jobs.append((L, "extent", dict(region=rn, fmt=fmt, timed=False, lats=la, longs=lo, name=NAMES[kind][2], what=what)))
        for rn in ("inside", "over the date line"):
            for fmt in ("frame", "grid"):
                for hole in ("some", "all", "first", "inside"):
                    jobs.append((L, "missing", dict(region=rn, fmt=fmt, timed=False, lats=LATS, longs=LONGS, name=NAMES[kind][2], hole=hole)))
        for rn in ("inside", "east of 0"):
            for fmt in ("frame", "grid"):
                for xy in (("x", "y"), ("lon", "lat"), ("long", "lat"), ("x", "lat"), ("long", "y"), ("lat", "long")):
                    for name in NAMES[kind]:
                        for timed in (False, True):
                            if timed and xy not in (("x", "y"), ("long", "lat")):
                                continue
                            jobs.append((L, "projection", dict(region=rn, fmt=fmt, timed=timed, xy=xy, name=name)))
                    jobs.append((L, "projection", dict(region=rn, fmt=fmt, timed=False, xy=xy, name=NAMES[kind][2], hole="some")))
        for rn in REGIONS:
            for fmt in ("frame", "grid"):
                for given in (False, True):
                    for what, la, lo in (("all", LATS, LONGS), ("only inside", [-57, -55], [12, 20]), ("around", [-80, -40], [0, 90]), ("elsewhere", [30, 35], [-100, -90]), ("touching", [-50, -45], [5, 10]), ("equator", [-5, 0, 5], [-5, 0, 5]),
                                         ("date line", [-57, -55], [-175, -170, 172, 180]), ("partly", [-58, -54, 10, 15, 50, 52], [-170, -165, 15, 20, 25, 160, 165]), ("all missing", [-57, -55], [12, 20])):
                        for hole in (None, "some", "first") if what != "all missing" else ("all",):
                            jobs.append((L, "coverage", dict(region=rn, fmt=fmt, lats=la, longs=lo, what=what, hole=hole, given=given)))
        for ds in ([2, 1], [1, 2], [2, 3], [3, 2], [4, 5]):
            for agg in ("MIN", "MAX", "MEAN", "COUNT"):
                for fmt in ("grid", "frame"):
                    for timed in (False, True):
                        jobs.append((L, "blocks", dict(region="whole globe", fmt=fmt, timed=timed, lats=[-60, -58, -55, -50, -49, 10, 20], longs=[-170, -100, 0, 10, 30, 70], name=NAMES[kind][2], ds=ds, agg=agg)))
        for ds in ([1, 1], ):
            for agg in ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT"):
                jobs.append((L, "blocks", dict(region="inside", fmt="grid", timed=False, lats=LATS, longs=LONGS, name=NAMES[kind][2], ds=ds, agg=agg)))
    chk.parallel(jobs, lambda c, j: coverage(c, j) if j[1] == 'coverage' else one(c, j))
    return chk


HOLES = {"some": lambda p, j: (int(p[0]) + int(p[1])) % 3 == 0, "all": lambda p, j: True, "first": lambda p, j: p[0] == LATS[0] or p[1] == LONGS[0],
         "inside": lambda p, j: -60 < p[0] <= -50}


def blocks(pts, val, lats, longs, times, ds, agg, nv):
    """expected downsampled points: ds[0] along longitude, ds[1] along latitude"""
    out = {}
    for la in [lats[i:i + ds[1]] for i in range(0, len(lats), ds[1])]:
        for lo in [longs[i:i + ds[0]] for i in range(0, len(longs), ds[0])]:
            for t in times or [None]:
                if agg == "COUNT":
                    out[(F(la[0]), F(lo[0]), t)] = val[(la[0], lo[0], t)]
                    continue
                vs = [[val[(a, o, t)][j] for a in la for o in lo] for j in range(nv)]
                f = {"MIN": min, "MAX": max, "MEAN": lambda x: sum(x) / len(x)}[agg]
                out[(F(sum(map(F, la))) / len(la), F(sum(map(F, lo))) / len(lo), t)] = [f(v) for v in vs]
    return out


def norm(c):
    f = as_fraction(c) if not isinstance(c, (Sym, Num, str)) and c is not None else None
    return f if f is not None else c


def one(chk, job):
    (kind, cls, _), rule, o = job
    reg = REGIONS[o["region"]]
    fmt, timed, raw = o["fmt"], o["timed"], RAW[kind]
    times = TIMES if timed else None
    xy = o.get("xy")
    C = cls.split(".")[-1]
    case = f"{kind} {fmt}, region {o['region']}" + (", with times" if timed else "") + "".join(f", {k} {v}" for k, v in o.items() if k in ("what", "hole", "xy", "ds", "agg", "name") and v is not None)
    # the two coordinate columns in the table, in the order (first, second)
    if xy:
        first, second = [-100, 0, 40, 150, 210, 390], [-390, -360, -350, -200, 35, 100]
        data_axes = (first, second)
        names = xy
    else:
        data_axes = (o["lats"], o["longs"])
        names = ("lat", "long")
    asked = []

    def setup(it):
        asked.clear()
        bd = boundary(it, reg[0], reg[1], ListV([T0, T1]))
        data, val = build(fmt, raw, *data_axes, times, *names, hole=HOLES.get(o.get("hole")))
        L = ObjV(it.prog.cls(cls), "loader")

        def imp(it, a, k, node=None):
            asked.append(k.get("bounds", a[0] if a else None))
            return data
        L.attrs["import_data"] = PyFn("import_data", imp)
        ps = {"dataloader_name": "mine", "min_dp": 3}
        if o["name"] is not None:
            ps["data_name"] = o["name"]
        if xy:
            ps.update(in_proj="EPSG:3031", x_col=xy[0], y_col=xy[1])
        if "ds" in o:
            ps.update(downsample_factors=list(o["ds"]), aggregate_type=o["agg"])
        return it.getattr(L, "__init__"), [bd, absv(ps)], {}, (bd, val, L)

    for t in decided(chk, rule, setup, lambda: OrderDomain(Chain([-90, 90]), Chain([-180, 180])), models=MODELS):
        bd, val, L = t.inputs
        if not chk.require(t.exc is None, rule, C + ".__init__", f"{case}: raises {t.exc}", t.where):
            continue
        chk.require(len(asked) == 1 and asked[0] is bd, "import", C + ".__init__", f"{case}: the data is imported {len(asked)} times" + (" for another region" if asked and asked[0] is not bd else ""))
        want_names = o["name"].split(",") if o["name"] else raw
        got_name = L.attrs.get("data_name")
        chk.require(got_name == ",".join(want_names), "names", C + ".__init__", f"{case}: the data is known as {show(got_name)}", sample=f"{case}: {got_name}")
        if kind == "vector":
            nl = L.attrs.get("data_name_list")
            chk.require(isinstance(nl, (ListV, TupleV)) and list(nl.items) == want_names, "names", C + ".__init__", f"{case}: the components are known as {show(nl)}")
        if xy:
            full = {}
            for p, v in val.items():
                lon, lat = project("EPSG:3031", "EPSG:4326", p[0], p[1])
                full[(lat, lon, p[2])] = v
        elif "ds" in o and fmt == "grid" and o["ds"] != [1, 1]:
            full = blocks(None, val, o["lats"], o["longs"], times, o["ds"], o["agg"], len(raw))
        else:
            full = {(F(p[0]), F(p[1]), p[2]): v for p, v in val.items()}
        want = {p: v for p, v in full.items() if inside(p, reg)}
        got = points(L.attrs.get("data"), want_names, timed)
        if isinstance(got, str):
            chk.bad(rule, C + ".__init__", f"{case}: {got}")
            continue
        bad = foreign([list(k) + v for k, v in got.items()], NOT_OPAQUE)
        if bad is not None:
            chk.undec(rule, f"{case}: depends on {show(bad)}")
            continue
        got = {(norm(k[0]), norm(k[1]), k[2]): [norm(c) for c in v] for k, v in got.items()}
        live = lambda d: {k: v for k, v in d.items() if not all(nan(c) for c in v)}
        lost = [k for k in live(want) if k not in got]
        wrong = [k for k in want if k in got and [("nan" if nan(c) else norm(c)) for c in want[k]] != [("nan" if nan(c) else norm(c)) for c in got[k]]]
        alien = [k for k in got if k not in full]
        extra = [k for k in live(got) if k in full and k not in want]
        if lost:
            chk.bad(rule, C + ".__init__", f"{case}: the point {show_pt(lost[0])} of the data lies in the region and is lost")
        elif wrong:
            chk.bad(rule, C + ".__init__", f"{case}: the value at {show_pt(wrong[0])} is {[show(c) for c in got[wrong[0]]]} rather than {[show(c) for c in want[wrong[0]]]}")
        elif alien:
            chk.bad(rule, C + ".__init__", f"{case}: the point {show_pt(alien[0])} is not in the data")
        elif extra and want:
            # with nothing (or nothing with an area) in the region the data may be kept whole
            if rule in ("extent", "missing") and degenerate(want, full, reg):
                chk.ok(rule, 1, case)
            else:
                chk.bad(rule, C + ".__init__", f"{case}: the point {show_pt(extra[0])} lies outside the region and is kept")
        else:
            chk.ok(rule, len(full), f"{case}: {len(want)} of {len(full)} points")


def coverage(chk, job):
    (kind, cls, _), rule, o = job
    reg, raw, fmt = REGIONS[o["region"]], RAW[kind], o["fmt"]
    C = cls.split(".")[-1] + ".calculate_coverage"
    case = f"{kind} {fmt}, region {o['region']}, data {o['what']}, missing {o['hole']}" + (", data passed in" if o["given"] else "")

    def setup(it):
        bd = boundary(it, reg[0], reg[1], ListV([T0, T1]))
        data, val = build(fmt, raw, o["lats"], o["longs"], None, hole=HOLES.get(o["hole"]))
        L = ObjV(it.prog.cls(cls), "loader")
        other, _ = build(fmt, raw, [-89, 89], [-179, 179], None)
        L.attrs.update(data=other if o["given"] else data, data_name=",".join(raw))
        if kind == "vector":
            L.attrs["data_name_list"] = ListV(list(raw))
        return it.getattr(L, "calculate_coverage"), [bd] + ([data] if o["given"] else []), {}, val
    for t in decided(chk, rule, setup, lambda: OrderDomain(Chain([-90, 90]), Chain([-180, 180]))):
        if not chk.require(t.exc is None, rule, C, f"{case}: raises {t.exc}", t.where):
            continue
        ps = [k for k, v in t.inputs.items() if not any(nan(c) for c in v)]
        la, lo = [p[0] for p in ps], [p[1] for p in ps]
        if ps and (min(la) == max(la) or min(lo) == max(lo)):
            continue
        (a, b), (w, e) = reg
        spans = [(w, e)] if w < e else [(w, 180), (-180, e)]
        want = F(0)
        if ps:
            want = F(max(0, min(max(la), b) - max(min(la), a))) * sum(max(0, min(max(lo), y) - max(min(lo), x)) for x, y in spans) / (F(b - a) * sum(y - x for x, y in spans))
        got = as_fraction(t.value)
        if got is None:
            chk.undec(rule, f"{case}: {show(t.value)}")
            continue
        chk.require(abs(got - want) < F(1, 10 ** 9), rule, C, f"{case}: the coverage is {float(got)} rather than {float(want)}", sample=f"{case}: {want}")


def degenerate(want, full, reg):
    """the extent of the valid data has no area in common with the region"""
    ps = [k for k, v in full.items() if not any(nan(c) for c in v)]
    if not ps:
        return True
    la0, la1, lo0, lo1 = min(p[0] for p in ps), max(p[0] for p in ps), min(p[1] for p in ps), max(p[1] for p in ps)
    (a, b), (lo, hi) = reg
    h = min(la1, b) - max(la0, a)
    w = max(min(lo1, e) - max(lo0, s) for s, e in ([(lo, hi)] if lo < hi else [(lo, 180), (-180, hi)]))
    return h <= 0 or w <= 0

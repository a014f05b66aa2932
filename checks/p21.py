"""Look-up table sources: the polygons held, the value of a cell, the splitting verdict and the coverage."""
import itertools
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.shapes import ShapeV, ring, within
from sa.tables import *
from sa.values import *
from .common import *
from .p18 import absv

CLS = "meshiphi.dataloaders.lut.abstract_lut.LutDataLoader"
RULE = ("the look-up table loader base class over tables of polygons with rectangular parts (tilings, overlaps, multi-part, far, touching, dated): after construction exactly the "
        "parts meeting the region and its time range are held under the configured or imported name; the value of a cell is the minimum, maximum, number, or area-weighted mean, "
        "median or standard deviation of the polygons in it; the verdict is by outline and lock; coverage is the shared fraction of area")

T0, T1 = "2013-01-05", "2013-02-05"
OPS = {"val", "nan", "sqrt"}

# polygons as lists of boxes (x0, y0, x1, y1), one list entry per part
LAYOUTS = {
    "tiling": [[(0, 0, 3, 10)], [(3, 0, 10, 4)], [(3, 4, 10, 10)]],
    "uneven bands": [[(0, 0, 10, 1)], [(0, 1, 10, 3)], [(0, 3, 10, 6)], [(0, 6, 10, 10)]],
    "overlapping": [[(0, 0, 6, 6)], [(2, 2, 9, 9)], [(4, 0, 10, 3)]],
    "islands": [[(1, 1, 2, 2)], [(6, 6, 8, 9)]],
    "one": [[(2, 3, 7, 9)]],
    "several parts": [[(0, 0, 3, 10), (7, 0, 10, 10)], [(4, 0, 6, 10)]],
    "beyond the region": [[(-20, -20, 4, 5)], [(4, -20, 30, 30)], [(20, 20, 30, 30)], [(-9, 5, 4, 40)]],
    "many": [[(i, j, i + 5, j + 2)] for i in (0, 5) for j in (0, 2, 4, 6, 8)],
}
REGION = ((0, 10), (0, 10))
CELLS = [((0, 10), (0, 10)), ((0, 5), (0, 5)), ((5, 10), (0, 5)), ((F(5, 2), 5), (F(5, 2), 5)), ((0, 2), (8, 10)), ((F(13, 2), F(15, 2)), (F(7, 2), F(13, 2))), ((F(1, 2), F(3, 4)), (F(1, 2), F(3, 4))),
         ((F(1, 2), 4), (F(17, 2), F(19, 2))), ((4, 5), (2, 4)), ((9, 10), (F(5, 2), F(7, 2)))]
# regions over the antimeridian: the same layouts moved east
SHIFT = 175
VALUES = [F(7, 2), -2, 11, F(1, 4), 30, 8, -2, F(33, 8), 5, F(7, 2)]


def wrapx(x):
    return x - 360 if x > 180 else x


def moved(b, d):
    """parts of the box moved east by d, cut at the antimeridian"""
    x0, y0, x1, y1 = b[0] + d, b[1], b[2] + d, b[3]
    if x1 <= 180:
        return [(x0, y0, x1, y1)]
    if x0 >= 180:
        return [(x0 - 360, y0, x1 - 360, y1)]
    return [(x0, y0, 180, y1), (-180, y0, x1 - 360, y1)]


def boxes_of(lay, d):
    return [[q for b in poly_ for q in moved(b, d)] for poly_ in LAYOUTS[lay]]


def area_in(parts, cells):
    """area of the union of parts inside the boxes"""
    bs = [tuple(max(p[i], c[i]) if i < 2 else min(p[i], c[i]) for i in range(4)) for p in parts for c in cells]
    bs = [b for b in bs if b[0] < b[2] and b[1] < b[3]]
    xs, ys = sorted({x for b in bs for x in (b[0], b[2])}), sorted({y for b in bs for y in (b[1], b[3])})
    return sum(F(x1 - x0) * (y1 - y0) for x0, x1 in zip(xs, xs[1:]) for y0, y1 in zip(ys, ys[1:]) if any(b[0] <= x0 and x1 <= b[2] and b[1] <= y0 and y1 <= b[3] for b in bs))


def meets(parts, cells):
    return any(p[0] <= c[2] and c[0] <= p[2] and p[1] <= c[3] and c[1] <= p[3] for p in parts for c in cells)


def cell_boxes(cell, d):
    (a, b), (lo, hi) = cell
    return moved((lo, a, hi, b), d)


def shape(parts):
    return ShapeV("Polygon" if len(parts) == 1 else "MultiPolygon", [ring(*p) for p in parts])


def bnd(it, cell, d, times=None):
    (a, b), (lo, hi) = cell
    return boundary(it, [a, b], [wrapx(lo + d), wrapx(hi + d)], ListV(list(times)) if times else ListV([T0, T1]))


def check(tier):
    chk = Check("P21", RULE, tier, minimum=50, assumptions=["polygons are made of rectangles with known corners", "regions and areas are those of the longitude-latitude plane"])
    jobs = []
    for d in (0, SHIFT):
        for lay in LAYOUTS:
            for name in (None, "mine"):
                jobs.append(("load", lay, d, name, None))
            jobs.append(("load", lay, d, "raw", "dates"))
            for ci in range(len(CELLS)):
                for agg in ("MIN", "MAX", "COUNT", "MEAN", "MEDIAN", "STD"):
                    for miss in (None, "first", "last", "all"):
                        jobs.append(("value", lay, d, ci, agg, miss))
                jobs.append(("verdict", lay, d, ci))
                jobs.append(("coverage", lay, d, ci))
    for what in ("elsewhere", "touching", "line", "point", "two columns"):
        jobs.append(("refused", what))
    for agg in ("TOTAL", "median ", "SUM"):
        jobs.append(("unknown", agg))
    for lay in ("tiling", "one"):
        for agg in ("MIN", "MAX", "MEAN", "COUNT"):
            jobs.append(("truth", lay, agg))
    for ci in range(len(CELLS)):
        jobs.append(("dated", ci))
    chk.parallel(jobs, lambda c, j: DO[j[0]](c, *j[1:]))
    return chk


def mk_loader(it, data, name="raw", agg="MEAN"):
    L = ObjV(it.prog.cls(CLS), "loader")
    L.attrs.update(data=data, data_name=name, aggregate_type=agg, dataloader_name="lut", value=1)
    return L


class Reals(OrderDomain):
    reals = ("val", "sqrt")


DOM = lambda: Reals(Chain([-90, 90]), Chain([-180, 180]))


def rows_of(d, name):
    """[(boxes of the geometry, value, label)] of a table, or a text"""
    if not isinstance(d, FrameV) or set(d.cols) != {"geometry", name}:
        return f"the data is {show(d) if not isinstance(d, FrameV) else 'a table with columns ' + ', '.join(d.cols)}"
    out = []
    for g, v, l in zip(d.cols["geometry"], d.cols[name], d.index):
        if not isinstance(g, ShapeV):
            return "a geometry is not a polygon"
        out.append((tuple(sorted(bx(r) for r in g.polys)), v, l))
    return out


def bx(r):
    xs, ys = [F(p[0]) for p in r], [F(p[1]) for p in r]
    return (min(xs), min(ys), max(xs), max(ys))


def load(chk, lay, d, name, dates):
    polys = boxes_of(lay, d)
    case = f"{lay}{' over the antimeridian' if d else ''}, data name {name}{', with dates' if dates else ''}"
    C = "LutDataLoader.__init__"
    reg = cell_boxes(REGION, d)
    days = ["2013-01-04", "2013-01-05", "2013-01-20", "2013-02-05", "2013-02-06"] if dates else [None]
    rows = [(p, VALUES[i], t) for t in days for i, p in enumerate(polys)]
    asked = []

    def setup(it):
        asked.clear()
        bd = bnd(it, REGION, d)
        data = FrameV({"geometry": [shape(p) for p, _, _ in rows], "raw": [v for _, v, _ in rows]}, [t for _, _, t in rows] if dates else None, None, "time" if dates else None)
        L = ObjV(it.prog.cls(CLS), "loader")

        def imp(it, a, k, node=None):
            asked.append(k.get("bounds", a[0] if a else None))
            return data
        L.attrs["import_data"] = PyFn("import_data", imp)
        ps = {"dataloader_name": "lut"}
        if name:
            ps["data_name"] = name
        return it.getattr(L, "__init__"), [bd, absv(ps)], {}, (bd, L)
    for t in decided(chk, "load", setup, DOM):
        if not chk.require(t.exc is None, "load", C, f"{case}: raises {t.exc}", t.where):
            continue
        bd, L = t.inputs
        chk.require(len(asked) == 1 and asked[0] is bd, "import", C, f"{case}: the data is imported {len(asked)} times" + (" for another region" if asked and asked[0] is not bd else ""))
        nm = name or "raw"
        chk.require(L.attrs.get("data_name") == nm, "names", C, f"{case}: the data is known as {show(L.attrs.get('data_name'))}")
        got = rows_of(L.attrs.get("data"), nm)
        if isinstance(got, str):
            chk.bad("load", C, f"{case}: {got}")
            continue
        got = [(b, v, l if dates else None) for b, v, l in got]
        must, may = [], []
        for p, v, day in rows:
            for q in p:
                e = (((F(q[0]), F(q[1]), F(q[2]), F(q[3])),), v, day)
                if day is not None and not T0 <= day <= T1:
                    continue
                may.append(e)
                if area_in([q], reg) > 0:
                    must.append(e)
                elif not meets([q], reg):
                    may.remove(e)
        lost = [e for e in must if got.count(e) < must.count(e)]
        extra = [e for e in got if got.count(e) > may.count(e)]
        if lost:
            chk.bad("load", C, f"{case}: the polygon over {lost[0][0]} (value {lost[0][1]}{', date ' + lost[0][2] if lost[0][2] else ''}) is lost")
        elif extra:
            chk.bad("load", C, f"{case}: the polygon over {extra[0][0]} with value {show(extra[0][1])}{' and label ' + show(extra[0][2]) if dates else ''} is there {got.count(extra[0])} times")
        else:
            chk.ok("load", len(rows), f"{case}: {len(got)} polygons")


def frame_of(polys, vals):
    """one row per part, as the loader holds them"""
    g, v = [], []
    for p, x in zip(polys, vals):
        for q in p:
            g.append(shape([q]))
            v.append(x)
    return FrameV({"geometry": g, "raw": v}), [[q] for p in polys for q in p], v


def stat(agg, ws, vs):
    """weighted statistic of (weight, value); None: open"""
    t = sum(ws)
    if agg == "MEAN":
        s = {}
        for w, v in zip(ws, vs):
            s = padd(s, poly(v), F(w) / t)
        return mknum(s)
    if agg == "STD":
        m = sum(F(w) * v for w, v in zip(ws, vs)) / t
        return ("var", sum(F(w) * (v - m) ** 2 for w, v in zip(ws, vs)) / t)
    acc = 0
    for w, v in sorted(zip(ws, vs), key=lambda x: x[1]):
        acc += w
        if acc * 2 == t:
            return None
        if acc * 2 > t:
            return v


def value(chk, lay, d, ci, agg, miss):
    polys = boxes_of(lay, d)
    C = "LutDataLoader.get_value"
    n = len(polys)
    base = [Sym("val", i) if agg == "MEAN" else VALUES[i] for i in range(n)]
    base = [NAN if miss == "all" or miss == "first" and i == 0 or miss == "last" and i == n - 1 else v for i, v in enumerate(base)]
    cell = CELLS[ci]
    cb = cell_boxes(cell, d)
    for skip in (True, False) if miss else (True, False, None):
        for how in ("agg", "own", "given") if not miss and skip is not False else ("agg",):
            case = f"{lay}{' over the antimeridian' if d else ''}, cell {tuple(map(str, cell[0] + cell[1]))}, {agg}{' with missing values' if miss else ''}{', skipping them' if miss and skip else ''}{', data given' if how == 'given' else ''}"

            def setup(it):
                bd = bnd(it, cell, d)
                data, _, _ = frame_of(polys, base)
                L = mk_loader(it, data if how != "given" else FrameV({"geometry": [shape([(0, 0, 1, 1)])], "raw": [999]}), agg=agg if how == "own" else "MAX")
                k = {}
                if how != "own":
                    k["agg_type"] = agg
                if skip is not None:
                    k["skipna"] = skip
                if how == "given":
                    k["data"] = data
                return it.getattr(L, "get_value"), [bd], k, data
            _, parts, vals = frame_of(polys, base)
            ws = [area_in(p, cb) for p in parts]
            inn = [(w, v) for w, v in zip(ws, vals) if w > 0]
            touch = [v for p, w, v in zip(parts, ws, vals) if w == 0 and meets(p, cb)]
            want = []
            if agg in ("MIN", "MAX", "COUNT"):
                for vs in ([v for _, v in inn], [v for _, v in inn] + touch):
                    good = [v for v in vs if not nan(v)]
                    if agg == "COUNT":
                        if len(good) != len(vs):
                            want = None
                            break
                        want.append(len(vs))
                    elif not good or (len(good) != len(vs) and skip is not True):
                        want.append(NAN)
                    else:
                        want.append((min if agg == "MIN" else max)(good))
            else:
                good = [(w, v) for w, v in inn if not nan(v)]
                if not good:
                    want = [NAN]
                elif len(good) != len(inn) and skip is not True:
                    want = [NAN] if agg != "MEDIAN" else None
                else:
                    s = stat(agg, [w for w, _ in good], [v for _, v in good])
                    want = None if s is None else [s]
            if want is None:
                continue
            for t in decided(chk, "value " + agg, setup, DOM, ops=OPS):
                if not chk.require(t.exc is None, "value " + agg, C, f"{case}: raises {t.exc}", t.where):
                    continue
                v = t.value
                if not (isinstance(v, DictV) and len(v.keys) == 1 and v.keys[0] == "raw"):
                    chk.bad("value " + agg, C, f"{case}: the answer is {show(v)}")
                    continue
                g = v.vals[0]
                f = foreign(g, OPS)
                if f is not None:
                    chk.undec("value " + agg, f"{case}: depends on {show(f)}")
                    continue
                chk.require(any(same(g, w) for w in want), "value " + agg, C, f"{case}: the value is {show(g)} rather than {show(want[0]) if not isinstance(want[0], tuple) else 'the root of ' + str(want[0][1])}", sample=case)


def same(g, w):
    if isinstance(w, tuple):
        if w[1] == 0:
            return eqv(g, 0)
        if isinstance(g, Sym) and g.op == "sqrt":
            return eqv(g.args[0], w[1])
        return isnum(g) and as_fraction(g) is not None and as_fraction(g) ** 2 == w[1]
    if nan(w) or nan(g):
        return nan(w) and nan(g)
    return isinstance(g, (int, float, F, Num, Sym)) and not isinstance(g, bool) and eqv(g, w)


def verdict(chk, lay, d, ci):
    polys = boxes_of(lay, d)
    C = "LutDataLoader.get_hom_condition"
    cell = CELLS[ci]
    cb = cell_boxes(cell, d)
    parts = [[q] for p in polys for q in p]
    # the outline passes through the inside of the cell
    through = any(area_in(p, cb) > 0 and any(area_in(p, [c]) not in (0, F(c[2] - c[0]) * (c[3] - c[1])) for c in cb) for p in parts)
    through = through or any(0 < area_in(p, cb) < area_in([tuple(c) for c in cb], cb) for p in parts) and len(cb) == 1
    clear = not any(meets(p, cb) for p in parts)                              # no polygon in or at the cell
    inner = any(p[0][0] < c[0] and c[2] < p[0][2] and p[0][1] < c[1] and c[3] < p[0][3] for p in parts for c in cb)
    edge = any(meets(p, cb) and not any(p[0][0] < c[0] and c[2] < p[0][2] and p[0][1] < c[1] and c[3] < p[0][3] for c in cb) for p in parts)
    for lock in (True, False, None):
        for bound in (True, False):
            if clear:
                want = "HOM" if lock else "CLR"
            elif not any(area_in(p, cb) > 0 for p in parts):
                continue                # touching only
            elif not bound:
                want = "CLR"
            elif through:
                want = "HET"
            elif inner and not edge:
                want = "CLR"
            else:
                continue                # an outline along the edge of the cell
            case = f"{lay}{' over the antimeridian' if d else ''}, cell {tuple(map(str, cell[0] + cell[1]))}, split on outlines {bound}, lock {lock}"
            for given in (False, True):
                def setup(it):
                    data, _, _ = frame_of(polys, VALUES)
                    L = mk_loader(it, data if not given else FrameV({"geometry": [shape([(50, 50, 51, 51)])], "raw": [999]}))
                    sc = [("boundary", bound)] + ([("split_lock", lock)] if lock is not None else [])
                    return it.getattr(L, "get_hom_condition"), [bnd(it, cell, d), DictV(sc)], {"data": data} if given else {}, None
                for t in decided(chk, "verdict", setup, DOM):
                    chk.require(t.exc is None and t.value == want, "verdict", C, f"{case}: {'raises ' + str(t.exc) if t.exc else 'the verdict is ' + show(t.value)}, expected {want}", t.where, sample=f"{case}: {want}")


def coverage(chk, lay, d, ci):
    polys = boxes_of(lay, d)
    C = "LutDataLoader.calculate_coverage"
    cell = CELLS[ci]
    cb = cell_boxes(cell, d)
    want = area_in([q for p in polys for q in p], cb) / area_in(cb, cb)
    for how in ("own", "table", "column", "none"):
        case = f"{lay}{' over the antimeridian' if d else ''}, cell {tuple(map(str, cell[0] + cell[1]))}, {how}"

        def setup(it):
            data, _, _ = frame_of(polys, VALUES)
            own = data if how == "own" else FrameV({"geometry": [shape([(0, 0, 1, 1)])], "raw": [999]})
            k = {} if how == "own" else {"data": FrameV({"geometry": [], "raw": []}) if how == "none" else data if how == "table" else data.col("geometry")}
            return it.getattr(mk_loader(it, own), "calculate_coverage"), [bnd(it, cell, d)], k, None
        w = 0 if how == "none" else want
        for t in decided(chk, "coverage", setup, DOM):
            chk.require(t.exc is None and eqv(t.value, w), "coverage", C, f"{case}: {'raises ' + str(t.exc) if t.exc else 'the coverage is ' + show(t.value)}, expected {w}", t.where, sample=f"{case}: {w}")


def refused(chk, what):
    C = "LutDataLoader.__init__"
    good = [shape([(0, 0, 5, 5)]), shape([(5, 0, 10, 5)])]
    g = {"elsewhere": [shape([(50, 50, 60, 60)])], "touching": [shape([(10, 0, 20, 10)])], "line": good + [LineV()], "point": good + [ShapeV("Point", [[(5, 5)]])], "two columns": good}[what]

    def setup(it):
        cols = {"geometry": g, "raw": VALUES[:len(g)]}
        if what == "two columns":
            cols["other"] = VALUES[:len(g)]
        L = ObjV(it.prog.cls(CLS), "loader")
        L.attrs["import_data"] = PyFn("import_data", lambda it, a, k, node=None: FrameV(cols))
        return it.getattr(L, "__init__"), [bnd(it, REGION, 0), absv({"dataloader_name": "lut"})], {}, None
    for t in decided(chk, "refused", setup, DOM):
        chk.require(t.exc is not None, "refused", C, f"a table with polygons {what} is accepted" if what in ("elsewhere", "touching") else f"a table with a {what} is accepted" if what != "two columns" else "a table with two data columns and no configured name is accepted", t.where, sample=what)


class LineV(ShapeV):
    def __init__(self):
        super().__init__("LineString", [])


def unknown(chk, agg):
    def setup(it):
        data, _, _ = frame_of(boxes_of("tiling", 0), VALUES)
        return it.getattr(mk_loader(it, data), "get_value"), [bnd(it, CELLS[1], 0)], {"agg_type": agg}, None
    for t in decided(chk, "unknown aggregation", setup, DOM):
        chk.require(t.exc is not None, "unknown aggregation", "LutDataLoader.get_value", f"aggregation {agg!r} is accepted", t.where, sample=repr(agg))


def truth(chk, lay, agg):
    """truth values (zones to keep out of)"""
    polys = boxes_of(lay, 0)
    for ci, cell in enumerate(CELLS):
        cb = cell_boxes(cell, 0)
        for flip in (False, True):
            vals = [(i % 2 == 0) != flip for i in range(len(polys))]
            ws = [area_in(p, cb) for p in polys]
            inn = [(w, v) for w, v in zip(ws, vals) if w > 0]
            if not inn or any(w == 0 and meets(p, cb) for p, w in zip(polys, ws)):
                continue
            want = {"MIN": all(v for _, v in inn), "MAX": any(v for _, v in inn), "COUNT": len(inn), "MEAN": sum(w for w, v in inn if v) / sum(w for w, _ in inn)}[agg]

            def setup(it):
                data, _, _ = frame_of(polys, vals)
                return it.getattr(mk_loader(it, data), "get_value"), [bnd(it, cell, 0)], {"agg_type": agg}, None
            for t in decided(chk, "truth values", setup, DOM):
                ok = t.exc is None and isinstance(t.value, DictV) and len(t.value.vals) == 1
                g = t.value.vals[0] if ok else None
                chk.require(ok and (g is want if agg in ("MIN", "MAX") else eqv(int(g) if isinstance(g, bool) else g, want)), "truth values", "LutDataLoader.get_value",
                            f"{lay} of truth values, cell {tuple(map(str, cell[0] + cell[1]))}, {agg}: {show(g) if ok else 'raises ' + str(t.exc)} rather than {want}", t.where)


def dated(chk, ci):
    """a table with dates: only those of the cell's time range count"""
    cell = CELLS[ci]
    cb = cell_boxes(cell, 0)
    polys = boxes_of("tiling", 0)
    days = ["2013-01-04", "2013-01-05", "2013-01-20", "2013-02-05", "2013-02-06"]
    for lo, hi in ((T0, T1), ("2013-01-20", "2013-01-31"), ("2013-02-06", "2013-03-01"), ("2012-01-01", "2013-12-31"), ("2014-01-01", "2014-02-01")):
        for q in ("MEAN", "trim"):
            def setup(it):
                data = FrameV({"geometry": [shape(p) for _ in days for p in polys], "raw": [Sym("val", i, j) for i in range(len(days)) for j in range(len(polys))]}, [x for x in days for _ in polys], None, "time")
                L = mk_loader(it, data)
                bd = bnd(it, cell, 0, (lo, hi))
                return (it.getattr(L, "get_value"), [bd], {"agg_type": "MEAN"}, None) if q == "MEAN" else (it.getattr(L, "trim_datapoints"), [bd], {}, None)
            keep = [(i, j, w) for i, x in enumerate(days) for j, p in enumerate(polys) if lo <= x <= hi and (w := area_in(p, cb)) > 0]
            case = f"table with dates, {lo} to {hi}, cell {tuple(map(str, cell[0] + cell[1]))}"
            for t in decided(chk, "dates", setup, DOM, ops=OPS):
                if not chk.require(t.exc is None, "dates", "LutDataLoader.get_value", f"{case}: raises {t.exc}", t.where):
                    continue
                if q == "MEAN":
                    want = stat("MEAN", [w for _, _, w in keep], [Sym("val", i, j) for i, j, _ in keep]) if keep else NAN
                    g = t.value.vals[0] if isinstance(t.value, DictV) and len(t.value.vals) == 1 else None
                    f = foreign(g, OPS)
                    if f is not None:
                        chk.undec("dates", f"{case}: {show(f)}")
                        continue
                    chk.require(g is not None and same(g, want), "dates", "LutDataLoader.get_value", f"{case}: the mean is {show(g)} rather than {show(want)}", sample=case)
                else:
                    got = t.value.cols.get("raw") if isinstance(t.value, FrameV) else None
                    must = [Sym("val", i, j) for i, j, _ in keep]
                    may = [Sym("val", i, j) for i, x in enumerate(days) for j, p in enumerate(polys) if lo <= x <= hi and meets(p, cb)]
                    chk.require(got is not None and all(v in got for v in must) and all(v in may for v in got) and len(set(got)) == len(got), "dates", "LutDataLoader.trim_datapoints", f"{case}: the polygons selected are {[show(v) for v in got or []]}", sample=case)


DO = {"load": load, "value": value, "verdict": verdict, "coverage": coverage, "refused": refused, "unknown": unknown, "truth": truth, "dated": dated}

"""The tables of the look-up table loaders: ice density and thickness, polygons read from files."""
import datetime
import itertools
from fractions import Fraction as F
from sa.dates import DateV
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.shapes import ShapeV, ring
from sa.tables import *
from sa.values import *
from .common import *
from .p18 import absv

LUT = "meshiphi.dataloaders.lut."
RULE = ("import_data of every look-up table loader: for the built-in tables every place in the region has exactly one value on each date of the time range, that of its zone in the season of its hemisphere; "
        "for tables read from files every place has the value of each polygon around it, and places outside all polygons the missing or opposite value")

SOUTH = {1: "su", 2: "su", 12: "su", 3: "au", 4: "au", 5: "au", 6: "wi", 7: "wi", 8: "wi", 9: "sp", 10: "sp", 11: "sp"}
FLIP = {"su": "wi", "wi": "su", "au": "sp", "sp": "au"}
DENSITY = {"su": 875, "sp": 900, "au": 900, "wi": 920}
NONE = {"wi": F(72, 100), "sp": F(67, 100), "su": F(132, 100), "au": F(82, 100)}
# western limit, values (Worby et al.) of the southern zones
ZONES = [(-180, NONE), (-130, {"wi": F(65, 100), "sp": F(79, 100), "su": F(214, 100), "au": F(79, 100)}), (-60, {"wi": F(133, 100), "sp": F(133, 100), "su": F(120, 100), "au": F(138, 100)}),
         (-45, {"wi": F(54, 100), "sp": F(89, 100), "su": F(87, 100), "au": F(44, 100)}), (20, {"wi": F(59, 100), "sp": F(78, 100), "su": F(105, 100), "au": F(45, 100)}),
         (90, {"wi": F(72, 100), "sp": F(68, 100), "su": F(117, 100), "au": F(75, 100)}), (160, NONE)]


def density(x, y, month):
    s = SOUTH[month]
    return DENSITY[s if y < 0 else FLIP[s]]


def thickness(x, y, month):
    s = SOUTH[month]
    if y < 0:
        return [z for w, z in ZONES if x > w][-1][s]
    if 54 < y < 66 and 12 < x < 32:
        return F(3, 10)
    return NONE[FLIP[s]]


REGIONS = {"south": ((-80, -40), (-100, 40)), "north": ((20, 70), (-10, 50)), "over the equator": ((-20, 30), (-70, 30)), "over the antimeridian": ((-70, -50), (150, -120)),
           "over both": ((-10, 10), (170, -170)), "whole globe": ((-90, 90), (-180, 180)), "up to the equator": ((-30, 0), (0, 100)), "from the equator": ((0, 60), (0, 40)), "small": ((-65, -60), (-62, -58)),
           "baltic": ((55, 60), (14, 20)), "up to the antimeridian": ((-60, -50), (80, 180))}
SPANS = [("2013-01-30", "2013-02-02"), ("2013-02-27", "2013-03-02"), ("2013-05-31", "2013-06-01"), ("2013-08-30", "2013-09-02"), ("2013-11-29", "2013-12-02"), ("2013-12-31", "2014-01-01"), ("2013-04-10", "2013-04-10"),
         ("2013-06-30", "2013-08-01"), ("2013-09-30", "2013-11-02")]


def pts(reg):
    """places strictly inside the region, off the lines of the zones"""
    (a, b), (lo, hi) = reg
    w = hi - lo if lo < hi else hi + 360 - lo
    out = []
    for i, j in itertools.product((1, 3, 7, 12, 17, 21), (1, 4, 7, 10, 13, 16, 19, 22)):
        y = a + F(b - a) * i / 23 + F(1, 97)
        x = lo + F(w) * j / 23 + F(1, 89)
        x = x - 360 if x > 180 else x
        out.append((x, y))
    e = F(1, 50)                                    # either side of every line between zones
    for x, y in itertools.product([l + s * e for l in (-180, -130, -60, -45, 12, 20, 32, 90, 160, 180) for s in (-1, 1)], [l + s * e for l in (-90, 0, 54, 66, 90) for s in (-1, 1)]):
        if a < y < b and (lo < x < hi if lo < hi else lo < x < 180 or -180 < x < hi):
            out.append((x, y))
    mid = (F(a + b) / 2 + F(1, 97), lo + F(w) / 2 + F(1, 89))
    for l in (-130, -60, -45, 12, 20, 32, 90, 160):
        out += [(l + s * e, mid[0]) for s in (-1, 1) if (lo < l + s * e < hi if lo < hi else l + s * e > lo or l + s * e < hi)]
    x = mid[1] if mid[1] < 180 else mid[1] - 360
    out += [(x, l + s * e) for l in (0, 54, 66) for s in (-1, 1) if a < l + s * e < b]
    return out


class Reals(OrderDomain):
    text = True
    reals = ("val",)


DOM = lambda: Reals(Chain([-90, 90]), Chain([-180, 180]))


def check(tier):
    chk = Check("P22", RULE, tier, minimum=50, assumptions=["areas are those of the longitude-latitude plane", "polygons in files are made of rectangles"])
    jobs = []
    for rn in REGIONS:
        for span in SPANS:
            jobs.append(("built-in", "density", rn, span))
            jobs.append(("built-in", "thickness", rn, span))
    for kind in ("csv", "geojson", "shapefile", "ncmpa"):
        for rn in ("files", "files over the antimeridian", "files whole globe"):
            for value in (None,) if kind in ("csv", "ncmpa") else (F(5, 2), True, False, 0, 1):
                for split in ("one file", "two files", "covering", "several parts"):
                    for name in (None, "mine"):
                        jobs.append(("file", kind, rn, value, split, name))
    for what in ("no geometry", "points", "three columns"):
        jobs.append(("bad csv", what))
    chk.parallel(jobs, lambda c, j: DO[j[0]](c, *j[1:]))
    return chk


CLASS = {"density": "density.DensityDataLoader", "thickness": "thickness.ThicknessDataLoader", "csv": "lut_csv.LutCSV", "geojson": "lut_geojson.LutGeoJSON", "shapefile": "lut_shapefile.LutShapefile", "ncmpa": "scotland_ncmpa.ScotlandNCMPA"}


def day(l):
    if isinstance(l, DateV):
        return l.v.strftime("%Y-%m-%d")
    return l if isinstance(l, str) else None


def around(g, p):
    """the place is strictly inside one of the boxes, or on a line between two of one shape"""
    return any(min(F(c[0]) for c in r) <= p[0] <= max(F(c[0]) for c in r) and min(F(c[1]) for c in r) <= p[1] <= max(F(c[1]) for c in r) for r in g.polys)


def builtin(chk, kind, rn, span):
    reg = REGIONS[rn]
    cls = LUT + CLASS[kind]
    C = cls.split(".")[-1] + ".import_data"
    f = density if kind == "density" else thickness
    days = [(datetime.date.fromisoformat(span[0]) + datetime.timedelta(days=i)).isoformat() for i in range((datetime.date.fromisoformat(span[1]) - datetime.date.fromisoformat(span[0])).days + 1)]
    case = f"{kind} {rn}, {span[0]} to {span[1]}"

    def setup(it):
        bd = boundary(it, *reg, ListV(list(span)))
        L = ObjV(it.prog.cls(cls), "loader")
        L.attrs.update(data_name=None, dataloader_name=kind)
        return it.getattr(L, "import_data"), [bd], {}, None
    for t in decided(chk, kind, setup, DOM):
        if not chk.require(t.exc is None, kind, C, f"{case}: raises {t.exc}", t.where):
            continue
        d = t.value
        if not isinstance(d, FrameV) or "geometry" not in d.cols or not all(isinstance(g, ShapeV) for g in d.cols["geometry"]):
            chk.bad(kind, C, f"{case}: the table is {show(d)}")
            continue
        lab = [day(l) for l in (d.cols["time"] if "time" in d.cols else d.index)]
        rest = [c for c in d.cols if c not in ("geometry", "time")]
        if not chk.require(rest == [kind], kind, C, f"{case}: the data columns are {', '.join(rest)}"):
            continue
        chk.require(d.iname == "time" or "time" in d.cols, kind, C, f"{case}: the table has no dates")
        if "time" not in d.cols:
            chk.require(all(x <= y for x, y in zip(lab, lab[1:])), kind, C, f"{case}: the dates of the table are not in order")
        chk.require(sorted(set(lab), key=str) == days, kind, C, f"{case}: the dates in the table are {sorted(set(lab), key=str)[:3]}… rather than {days[0]} to {days[-1]}")
        bad = None
        for x in days:
            for p in pts(reg):
                got = [v for g, v, l in zip(d.cols["geometry"], d.cols[kind], lab) if l == x and around(g, p)]
                want = f(p[0], p[1], int(x[5:7]))
                if len(got) != 1 or as_fraction(got[0]) is None or abs(as_fraction(got[0]) - want) > F(1, 10 ** 9):
                    bad = bad or f"at longitude {float(p[0]):.1f}, latitude {float(p[1]):.1f} on {x} the table has {', '.join(show(v) for v in got) or 'no value'} rather than {float(want)}"
        if bad:
            chk.bad(kind, C, f"{case}: {bad}")
        else:
            chk.ok(kind, len(days) * len(pts(reg)), case)


FREG = {"files": ((0, 20), (0, 40)), "files over the antimeridian": ((0, 20), (170, -160)), "files whole globe": ((-90, 90), (-180, 180))}
POLYS = {"files": [[(2, 3, 10, 9)], [(12, 1, 30, 15)], [(35, 5, 60, 12)], [(70, 30, 80, 40)]],
         "files over the antimeridian": [[(165, 3, 178, 9)], [(-179, 1, -170, 15)], [(-165, 5, -150, 12)], [(0, 0, 10, 10)]],
         "files whole globe": [[(-180, -90, -100, 0)], [(0, -40, 60, 40)], [(100, 20, 180, 90)], [(-50, 60, -10, 70)]]}
VALS = [F(7, 2), -4, 10, F(1, 8)]


def shape(parts):
    return ShapeV("Polygon" if len(parts) == 1 else "MultiPolygon", [ring(*p) for p in parts])


def wkt(parts):
    rs = ["((" + ", ".join(f"{x} {y}" for x, y in ring(*p)) + "))" for p in parts]
    return "POLYGON " + rs[0] if len(parts) == 1 else "MULTIPOLYGON (" + ", ".join(rs) + ")"


def table_files(rn, split):
    """(list of polygons per file) as lists of boxes"""
    ps = POLYS[rn]
    if split == "one file":
        return [ps]
    if split == "two files":
        return [ps[:1], ps[1:]]
    if split == "covering":
        return [[[(-180, -90, 180, 10)], [(-180, 10, 180, 90)]]]
    return [[ps[0] + ps[1]], [ps[2]]]


def file_models(kind, files):
    def read(it, a, k, node=None):
        path = a[0] if a else k.get("filename", k.get("filepath_or_buffer"))
        if path not in files:
            raise_missing(it, node)
        ps, vals = files[path]
        if kind == "csv":
            if set(k) - {"index_col"} or k.get("index_col") not in (None, False):
                it.undecided("read_csv with options", node)
            return FrameV({"geometry": [wkt(p) for p in ps], "depth": list(vals)})
        return FrameV({"name": [f"area {i}" for i in range(len(ps))], "geometry": [shape(p) for p in ps], "other": list(range(len(ps)))})

    def gdf(it, a, k, node=None):
        if len(a) == 1 and isinstance(a[0], FrameV) and not k:
            return FrameV(a[0].cols, a[0].index, a[0].nrows, a[0].iname)
        it.undecided("GeoDataFrame", node)
    return {"pandas.read_csv": read, "geopandas.read_file": read, "geopandas.GeoDataFrame": gdf}


def raise_missing(it, node):
    from sa.interp import RaiseSig
    raise RaiseSig(ExcV("FileNotFoundError"), it.where(node))


def file(chk, kind, rn, value, split, name):
    reg = FREG[rn]
    cls = LUT + CLASS[kind]
    C = cls.split(".")[-1] + ".import_data"
    groups = table_files(rn, split)
    it_v = iter(VALS * 3)
    files = {f"f{i}.x": (g, [next(it_v) for _ in g]) for i, g in enumerate(groups)}
    case = f"{kind}, {split}, region {rn[6:] or 'of plain extent'}, value {value}, data name {name}"
    col = {"csv": "depth", "ncmpa": "exclusion_zone"}.get(kind)

    def setup(it):
        bd = boundary(it, *reg, ListV(["2013-01-01", "2013-02-01"]))
        L = ObjV(it.prog.cls(cls), "loader")
        ps = {"dataloader_name": kind, "files": sorted(files)}
        if name:
            ps["data_name"] = name
        if value is not None:
            ps["value"] = value
        return it.getattr(L, "__init__"), [bd, absv(ps)], {}, L
    for t in decided(chk, kind, setup, DOM, models=file_models(kind, files)):
        if not chk.require(t.exc is None, kind, C, f"{case}: raises {t.exc}", t.where):
            continue
        L = t.inputs
        d, nm = L.attrs.get("data"), L.attrs.get("data_name")
        if not isinstance(d, FrameV) or sorted(d.cols) != sorted(["geometry", str(nm)]) or not all(isinstance(g, ShapeV) for g in d.cols["geometry"]):
            chk.bad(kind, C, f"{case}: the data is {show(d) if not isinstance(d, FrameV) else 'a table with columns ' + ', '.join(d.cols) + ', known as ' + show(nm)}")
            continue
        if name or col:
            chk.require(nm == (name or col), kind, C, f"{case}: the data is known as {show(nm)}")
        bad = None
        places = pts(reg) + [(F(x) + F(1, 7), F(y) + F(1, 7)) for p in POLYS[rn] for b in p for x, y in ((b[0], b[1]), (b[2] - 1, b[3] - 1), (b[0] - 1, b[1]), (b[2], b[1]))]
        n = 0
        for p in places:
            (a, b), (lo, hi) = reg
            if not (a < p[1] < b and (lo < p[0] < hi if lo < hi else p[0] > lo or p[0] < hi)):
                continue
            n += 1
            got = [v for g, v in zip(d.cols["geometry"], d.cols[nm]) if around(g, p)]
            inn = [v for ps, vs in files.values() for q, v in zip(ps, vs) if any(b_[0] < p[0] < b_[2] and b_[1] < p[1] < b_[3] for b_ in q)]
            if kind == "csv":
                want = inn or [NAN]
            elif kind == "ncmpa":
                want = [True] * len(inn) or [False]
            else:
                want = [value] * len(inn) or [not value if isinstance(value, bool) else NAN]
            if len(got) != len(want) or not all(nan(x) and nan(y) or not nan(x) and not nan(y) and isinstance(x, bool) == isinstance(y, bool) and x == y for x, y in zip(sorted(got, key=show), sorted(want, key=show))):
                bad = bad or f"at longitude {float(p[0]):.1f}, latitude {float(p[1]):.1f} the table has {', '.join(show(v) for v in got) or 'no value'} rather than {', '.join(show(v) for v in want)}"
        if bad:
            chk.bad(kind, C, f"{case}: {bad}")
        else:
            chk.ok(kind, n, case)


def bad_csv(chk, what):
    cls = LUT + CLASS["csv"]

    def read(it, a, k, node=None):
        g = [wkt(p) for p in POLYS["files"]]
        return FrameV({"no geometry": {"shape": g, "depth": VALS}, "points": {"geometry": g[:2] + ["POINT (1 2)"], "depth": VALS[:3]}, "three columns": {"geometry": g, "depth": VALS, "other": VALS}}[what])

    def setup(it):
        bd = boundary(it, *FREG["files"], ListV(["2013-01-01", "2013-02-01"]))
        return it.getattr(ObjV(it.prog.cls(cls), "loader"), "__init__"), [bd, absv({"dataloader_name": "csv", "files": ["f.x"]})], {}, None
    for t in decided(chk, "bad csv", setup, DOM, models={"pandas.read_csv": read}):
        chk.require(t.exc is not None, "bad csv", "LutCSV.import_data", f"a CSV with {what} is accepted", t.where, sample=what)


DO = {"built-in": builtin, "file": file, "bad csv": bad_csv}

"""Exports show every cell with its values."""
import itertools
from fractions import Fraction as F
from sa.order import HullDomain
from sa.report import Check
from sa.geo import geodataframe
from sa.shapes import FileV, JsonText, ShapeV, jsonable, parse
from sa.tables import *
from sa.values import *
from sa.values import as_fraction
from .common import *

RULE = ("to_geojson on meshes of every mixture of kinds of values: one feature per cell in order, its polygon the cell's, its properties the id and each value of the cell (true 1, false, infinite and absent ones missing, lists their mean), "
        "only the layer named when parameters are given; to_tif: the raster handed to the writer has, north-west pixel first, the value of the cell holding the pixel's centre (lists their mean, without a value or outside the cells missing), "
        "with the transform and projection of the mesh's region; save writes the document of the format asked for and no other")

E_ = MG + "environment_mesh.EnvironmentMesh"
INF = float("inf")
MODELS = {"geopandas.GeoDataFrame": geodataframe}
HOLDER = "/scratch/params.json"


class Dom(HullDomain):
    text = True
    ndarrays = True
    ninf = True


NANV = NAN
# name -> values per cell (absent: no entry)
ABSENT = object()


def cellset(kind):
    if kind == "row":
        return [([0, 5], [10 * i, 10 * i + 10]) for i in range(3)]
    if kind == "dateline":
        return [([-70, -60], [160, 175]), ([-70, -60], [175, -175]), ([-70, -60], [-175, -160])]
    return [([-10, 0], [0, 10]), ([0, 5], [0, 5]), ([0, 5], [5, 10])]


def columns():
    B1, B2 = (1, F(5, 2), -3), (0, 0, 7)
    return {
        "numbers": B1, "zeros": B2, "missing": (1, NANV, 4), "all_missing": (NANV, NANV, NANV), "flag": (True, False, True), "flags_off": (False, False, False), "flags_on": (True, True, True),
        "pair": (ListV([1, 4]), ListV([2]), ListV([0, 0, 9])), "SIC": (10, 20, 30), "cx_like": (4, 5, 6), "SIC_next": (7, 8, 9), "SI": (1, 2, 1),
        "infinite": (2, INF, -INF), "pair_inf": (ListV([1, 3]), ListV([INF]), ListV([INF, 2])),
        "partly": (5, ABSENT, ABSENT), "late": (ABSENT, ABSENT, 8), "partly_flag": (ABSENT, True, False),
    }


def mesh(it, kind, names):
    cells = []
    cs = cellset(kind)
    A = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    cols = columns()
    for i, (la, lo) in enumerate(cs):
        d = DictV([(n, cols[n][i]) for n in names if cols[n][i] is not ABSENT])
        cells.append(it.call(A, [boundary(it, la, lo), d, str(3 * i + 1)], {}))
    lats = [x for la, _ in cs for x in la]
    b = boundary(it, [min(lats), max(lats)], [cs[0][1][0], cs[-1][1][1]], ListV(["2017-02-01", "2017-02-04"]))
    G = it.call(it.prog.cls(MG + "neighbour_graph.NeighbourGraph"), [], {})
    cfg = DictV([("region", DictV([("lat_min", min(lats)), ("lat_max", max(lats)), ("long_min", cs[0][1][0]), ("long_max", cs[-1][1][1]), ("start_time", "2017-02-01"), ("end_time", "2017-02-04"), ("cell_width", 5), ("cell_height", 5)]))])
    return it.call(it.prog.cls(E_), [b, ListV(cells), G, cfg], {}), cells


MIXES = [[], ["numbers"], ["missing"], ["all_missing"], ["flag"], ["flags_off"], ["flags_on"], ["pair"], ["infinite"], ["pair_inf"], ["infinite", "SIC", "pair_inf", "flag"], ["partly"], ["late"], ["partly_flag"],
         ["numbers", "zeros", "missing", "flag", "pair", "SIC", "cx_like", "partly", "late"], ["partly_flag", "SIC", "numbers"], ["SIC", "flag", "missing"], ["SIC", "SIC_next", "SI"], ["pair", "flags_off", "all_missing", "late"]]


def check(tier):
    chk = Check("P27", RULE, tier, minimum=50)
    jobs = []
    for kind in ("row", "dateline", "unequal"):
        for mix in MIXES:
            jobs.append(("geojson", kind, mix, None))
            for layer in mix:
                jobs.append(("geojson", kind, mix, layer))
    for grid in range(len(GRIDS)):
        for res in RES:
            for name in ("v", "pair", None, "other"):
                for proj in (None, "4326", "3031") if name == "v" else (None,):
                    jobs.append(("tif", grid, res, name, proj))
    for fmt in ("GEOJSON", "geojson", "GeoJson", "TIF", "tif", "CSV", "shp"):
        jobs.append(("save", fmt, None))
        jobs.append(("save", fmt, "numbers"))
    chk.parallel(jobs, lambda c, j: {"geojson": geo, "tif": tif, "save": save}[j[0]](c, *j[1:]))
    return chk


# (cells with their value of v; the region is their hull)
GRIDS = [
    [([0, 10], [0, 10], 1), ([0, 10], [10, 20], 2), ([10, 20], [0, 10], 3), ([10, 20], [10, 20], 4)],
    [([-70, -60], [-30, -20], 5), ([-70, -60], [-20, -10], -2), ([-60, -50], [-30, -20], F(1, 2)), ([-60, -55], [-20, -15], 7), ([-60, -55], [-15, -10], 8), ([-55, -50], [-20, -10], NANV)],
    [([-20, 40], [-180, 0], 0), ([-20, 40], [0, 180], 9)],
    [([0, 10], [0, 10], 1), ([0, 10], [20, 30], 2), ([10, 20], [10, 20], 3)],        # with holes
    [([-90, -60], [100, 110], 6)],
    [([y, y + 4], [x, x + 5], y + F(x, 16)) for y in (40, 44, 48) for x in (-15, -10, -5, 0)],
    [([-y - 1, -y], [2 * x, 2 * x + 2], 3 * y - F(x, 16)) for y in range(5) for x in range(7)],       # fine: pixels larger than cells
]
RES = [(2, 2), (3, 3), (4, 2), (2, 4), (3, 5), (1, 3), (6, 1)]


class Rec(NativeV):
    """an object of the raster library: every call is noted"""
    tname = "raster object"

    def __init__(self, kind, log):
        self.kind, self.log = kind, log

    def attr(self, it, name, node):
        def f(it, a, k, n):
            it.gdal.append((self.kind + "." + name, self, list(a), dict(k)))
            r = {"Create": "dataset", "CreateCopy": "copy", "GetRasterBand": "band"}.get(name)
            if name == "ExportToWkt":
                last = [x for x in it.gdal if x[1] is self and x[0].endswith("ImportFromEPSG")]
                return f"EPSG {show(last[-1][2][0])}" if last else ""
            o = Rec(r, None) if r else None
            if r == "band":
                o.of = self
            return o
        if name in ("Create", "CreateCopy", "GetRasterBand", "SetGeoTransform", "SetProjection", "WriteArray", "ImportFromEPSG", "ExportToWkt", "FlushCache", "SetNoDataValue"):
            return self.meth(name, f)
        it.undecided(f"raster library: {name}", node)


def gdal_models():
    def note(name, value=None):
        def f(it, a, k, node=None):
            it.gdal.append((name, None, list(a), dict(k)))
            return value(it, a) if value else None
        return f

    def none(it, a, k, node=None):
        return None
    return {"osgeo.gdal.GetDriverByName": lambda it, a, k, node=None: Rec("driver", None), "osgeo.osr.SpatialReference": lambda it, a, k, node=None: Rec("srs", None),
            "osgeo.gdal.Warp": note("Warp"), "osgeo.gdal.UseExceptions": none, "subprocess.check_call": note("run"), "subprocess.run": note("run"), "subprocess.call": note("run"), "tempfile.mkstemp": lambda it, a, k, node=None: TupleV([3, "/scratch/colours.txt"]),
            "os.close": none, "os.remove": none, "os.path.abspath": lambda it, a, k, node=None: a[0], "os.path.isfile": lambda it, a, k, node=None: False,
            "os.path.split": lambda it, a, k, node=None: TupleV(a[0].rsplit("/", 1)) if isinstance(a[0], str) and "/" in a[0] else it.undecided("path", node),
            "pathlib.Path": lambda it, a, k, node=None: a[0], **MODELS}


def gridmesh(it, grid):
    A = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    cells = []
    for i, (la, lo, v) in enumerate(GRIDS[grid]):
        cells.append(it.call(A, [boundary(it, la, lo), DictV([("v", v), ("SIC", i + F(1, 2)), ("pair", ListV([v, 3, 9] if i % 2 else [v]))]), str(i)], {}))
    las, los = [x for la, _, _ in GRIDS[grid] for x in la], [x for _, lo, _ in GRIDS[grid] for x in lo]
    b = boundary(it, [min(las), max(las)], [min(los), max(los)])
    G = it.call(it.prog.cls(MG + "neighbour_graph.NeighbourGraph"), [], {})
    return it.call(it.prog.cls(E_), [b, ListV(cells), G, DictV()], {}), (min(las), max(las), min(los), max(los))


def value(grid, name, i):
    if name is None:
        return i + F(1, 2)
    v = GRIDS[grid][i][2]
    if name == "v":
        return v
    if name == "pair":
        return v if nan(v) or not i % 2 else F(v + 12) / 3
    return NAN


def tif(chk, grid, res, name, proj):
    C = "EnvironmentMesh.to_tif"
    las, los = [x for la, _, _ in GRIDS[grid] for x in la], [x for _, lo, _ in GRIDS[grid] for x in lo]
    S, N, W, E = min(las), max(las), min(los), max(los)
    R, K = res
    want = []
    for r in range(R):
        for c in range(K):
            y, x = N - F(N - S) * (2 * r + 1) / (2 * R), W + F(E - W) * (2 * c + 1) / (2 * K)
            w = NAN
            for i, (la, lo, _) in enumerate(GRIDS[grid]):
                if y in la and lo[0] <= x <= lo[1] or x in lo and la[0] <= y <= la[1]:
                    w = None                    # a centre on an edge
                    break
                if la[0] < y < la[1] and lo[0] < x < lo[1]:
                    w = value(grid, name, i)
            want.append(w)
    if all(w is None or nan(w) for w in want):
        return                                  # nothing to colour
    d = f"mesh of {[(x[0], x[1]) for x in GRIDS[grid]]}, {R} lines by {K} columns of {name or 'the default layer'}" + (f", projection {proj}" if proj else "")
    OUT = "/scratch/mesh.tif"

    def setup(it):
        it.gdal = []

        def run(i, a, k, node=None):
            m, _ = gridmesh(i, grid)
            p = [("sampling_resolution", ListV([R, K]))] + ([("data_name", name)] if name else []) + ([("projection", proj)] if proj else [])
            i.files[HOLDER] = [JsonText(DictV(p))]
            i.call(i.getattr(m, "to_tif"), [HOLDER, OUT], {})
            return None
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "tif", setup, Dom, models=gdal_models()):
        log = t.interp.gdal
        if t.exc is not None:
            chk.bad("tif", C, f"{d}: raises {t.exc}", t.where)
            continue
        ar = [x for x in log if x[0] == "band.WriteArray"]
        if not chk.require(len(ar) == 1, "raster", C, f"{d}: the raster is written {len(ar)} times"):
            continue
        got = ar[0][2][0]
        if not isinstance(got, ArrV):
            chk.undec("tif", f"raster {show(got)}")
            continue
        if not chk.require(tuple(got.shape) == (R, K), "raster", C, f"{d}: the raster has the shape {got.shape}", sample=d):
            continue
        for p, (g, w) in enumerate(zip(got.cells, want)):
            if w is not None:
                chk.require(nan(g) and nan(w) or not nan(w) and not nan(g) and eqv(g, w), "pixel", C, f"{d}: line {p // K}, column {p % K} is {show(g)}, expected {show(w)}", sample=f"{d}, line {p // K}, column {p % K}: {show(g)}")
        ds = ar[0][1].of
        tr = [x[2][0] for x in log if x[0].endswith("SetGeoTransform") and x[1] is ds]
        ok = len(tr) == 1 and len(it_ := t.interp.items_of(tr[0], None)) == 6 and all(eqv(x, y) for x, y in zip(it_, [W, F(E - W) / K, 0, N, 0, -F(N - S) / R]))
        chk.require(ok, "transform", C, f"{d}: the raster is placed by {[show(x) for x in tr]}")
        mk = [x for x in log if x[0] == "driver.Create"]
        chk.require(len(mk) == 1 and [as_fraction(x) for x in mk[0][2][1:4]] == [K, R, 1], "size", C, f"{d}: the raster is created with {[show(x) for m in mk for x in m[2][1:4]]}")
        cp = [x for x in log if x[0] == "driver.CreateCopy"]
        chk.require(len(cp) == 1 and cp[0][2][0] == OUT and cp[0][2][1] is ds, "file", C, f"{d}: the raster is copied to {[show(x[2][0]) for x in cp]}")
        pj = [x[2][0] for x in log if x[0].endswith("SetProjection") and x[1] is ds]
        chk.require(pj == ["EPSG 4326"], "projection", C, f"{d}: the raster has the projection {pj}")
        wp = [x for x in log if x[0] == "Warp"]
        if proj == "3031":
            chk.require(len(wp) == 1 and wp[0][2][:2] == [OUT, OUT] and wp[0][3].get("dstSRS") == "EPSG 3031", "projection", C, f"{d}: reprojected by {[(show(x[2]), show(x[3])) for x in wp]}")
        else:
            chk.require(not wp, "projection", C, f"{d}: reprojected without being asked to")


def save(chk, fmt, layer):
    C = "EnvironmentMesh.save"
    d = f"saving as {fmt}" + (f", layer {layer}" if layer else "")
    OUT = "/scratch/out"
    mix = ["numbers", "SIC"]
    up = fmt.upper()
    if up == "TIF" and layer is None:
        return                              # default resolution of 100 by 100

    def setup(it):
        it.gdal = []

        def run(i, a, k, node=None):
            m, cells = mesh(i, "row", mix)
            args = [OUT, fmt]
            if layer:
                i.files[HOLDER] = [JsonText(DictV([("data_name", layer), ("sampling_resolution", ListV([1, 3]))]))]
                args.append(HOLDER)
            i.call(i.getattr(m, "save"), args, {})
            return ListV([i.call(i.getattr(c, "to_json"), [], {}) for c in cells])
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "save", setup, Dom, models=gdal_models()):
        if t.exc is not None:
            chk.bad("save", C, f"{d}: raises {t.exc}", t.where)
            continue
        files = {f: v for f, v in t.interp.files.items() if f not in (HOLDER, "/scratch/colours.txt")}
        cp = [x for x in t.interp.gdal if x[0] == "driver.CreateCopy"]
        if up == "GEOJSON":
            ok = list(files) == [OUT] and len(files[OUT]) == 1 and isinstance(files[OUT][0], JsonText) and not cp
            if chk.require(ok, "save", C, f"{d}: writes {sorted(files)}", sample=d):
                judge(chk, t.interp, files[OUT][0].v, t.value.items, mix, layer, C, d)
        elif up == "TIF":
            ar = [x for x in t.interp.gdal if x[0] == "band.WriteArray"]
            ok = not files and len(cp) == 1 and cp[0][2][0] == OUT and len(ar) == 1 and isinstance(ar[0][2][0], ArrV) and [as_fraction(x) for x in ar[0][2][0].cells] == [1, F(5, 2), -3]
            chk.require(ok, "save", C, f"{d}: writes {sorted(files)} and the raster {[show(x[2][0]) for x in ar]}", sample=d)
        else:
            chk.require(not files and not cp, "save", C, f"{d}: writes {sorted(files)}", sample=d)


def params_file(it, layer):
    it.files[HOLDER] = [JsonText(DictV([("data_name", layer)]))]
    return HOLDER


def geo(chk, kind, mix, layer):
    C = "EnvironmentMesh.to_geojson"
    d = f"{kind} mesh with values {mix}" + (f", layer {layer}" if layer else "")

    def setup(it):
        def run(i, a, k, node=None):
            m, cells = mesh(i, kind, mix)
            r = i.call(i.getattr(m, "to_geojson"), [params_file(i, layer)] if layer else [], {})
            return TupleV([r, ListV([i.call(i.getattr(c, "to_json"), [], {}) for c in cells])])
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "geojson", setup, Dom, models=MODELS):
        if t.exc is not None:
            chk.bad("geojson", C, f"{d}: raises {t.exc}", t.where)
            continue
        judge(chk, t.interp, t.value.items[0], t.value.items[1].items, mix, layer, C, d)


def judge(chk, it, r, docs, mix, layer, C, d):
    fs = r.get("features") if isinstance(r, DictV) else None
    if not chk.require(isinstance(fs, ListV) and r.get("type") == "FeatureCollection", "collection", C, f"{d}: {show(r)[:200]} is not a feature collection"):
        return
    if not chk.require(len(fs.items) == len(docs), "collection", C, f"{d}: {len(fs.items)} features for {len(docs)} cells", sample=d):
        return
    cols = columns()
    for i, (f, doc) in enumerate(zip(fs.items, docs)):
        g = f.get("geometry")
        want = parse(it, doc.get("geometry"), None)
        rings = []
        co = g.get("coordinates") if isinstance(g, DictV) else None
        if isinstance(co, ListV):
            for p in [co] if g.get("type") == "Polygon" else co.items:
                rings.append([tuple(as_fraction(x) for x in q.items) for q in p.items[0].items])
        same = lambda a, b: len(a) == len(b) and set(a) == set(b)
        ok = len(rings) == len(want.polys) and all(any(same(r_, [tuple(as_fraction(x) for x in q) for q in w]) for r_ in rings) for w in want.polys)
        chk.require(ok, "geometry", C, f"{d}: cell {i} of geometry {doc.get('geometry')} has the feature geometry {show(g)[:200]}", sample=f"{d}, cell {i}")
        pr = f.get("properties")
        if not chk.require(isinstance(pr, DictV), "properties", C, f"{d}: feature {i} has no properties"):
            continue
        chk.require(pr.get("id") == doc.get("id"), "id", C, f"{d}: feature {i} has the id {show(pr.get('id'))}, the cell {doc.get('id')}")
        names = [layer] if layer else mix
        for n in names:
            v = cols[n][i]
            got = pr.get(n)
            if isinstance(v, ListV):
                v = float("inf") if any(isinstance(x, float) for x in v.items) else sum(as_fraction(x) for x in v.items) / len(v.items)
            off = v is False
            if v is ABSENT or v is False or nan(v) or isinstance(v, float):
                v = None
            ok = off and got == 0 or got is None and v is None or v is True and got == 1 or v is not None and v is not True and not isinstance(got, bool) and got is not None and eqv(got, v)
            chk.require(ok, "value", C, f"{d}: the property {n} of cell {i} is {show(got)}, expected {show(v)}", sample=f"{d}, {n} of cell {i}: {show(got)}")
        extra = [n for n in pr.keys if n not in names + ["id"]]
        chk.require(not extra, "other values", C, f"{d}: feature {i} also has {extra}")

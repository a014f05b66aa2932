"""Validating a mesh against its source data measures exactly the differences."""
import itertools
from fractions import Fraction as F
from sa.report import Check
from sa.tables import *
from sa.values import *
from sa.values import as_fraction
from .common import *
from .p27 import Dom

RULE = ("FullMeshValidator on meshes read from documents, with source points in every place relative to the cells and not on their edges: mean and root mean square of the differences between each point inside a cell and the cell's value, over all cells; "
        "slices hold exactly the points of the region; Sampler maps arbitrary unit samples linearly to the ranges; sample squares of MeshValidator end at the validation length or the mesh's limit")

V = "meshiphi.mesh_validation."
E_ = MG + "environment_mesh.EnvironmentMesh"


class Exact(Dom):
    reals = ("sqrt",)


LAYOUTS = [
    [([0, 10], [0, 10]), ([0, 10], [10, 20])],
    [([-70, -60], [100, 110]), ([-60, -55], [100, 105]), ([-60, -55], [105, 110]), ([-55, -50], [100, 110])],
    [([0, 10], [160, 170]), ([0, 10], [170, 180]), ([0, 10], [-180, -170])],
    [([0, 10], [165, 175]), ([0, 10], [175, -175]), ([0, 10], [-175, -165])],
]
POINTS = [
    [(1, 1), (5, 5), (9, 15), (3, 12), (-1, 5), (5, 25)],
    [(-65, 103), (-57, 101), (-57, 109), (-52, 104), (-61, 111), (-49, 105), (-69, 109), (-66, 101)],
    [(5, 161), (5, 175), (5, -175), (5, -165), (2, 179), (8, -179)],
    [(5, 170), (5, 176), (5, -176), (5, -170), (2, 179), (8, 160)],
]
VALS = [3, -1, F(1, 2), 7, 4, -6, 2, 11]
VALS2 = [0, 5, -2, 1, 1, 3, -4, 6]


def check(tier):
    chk = Check("P31", RULE, tier, minimum=20)
    jobs = [(k, l, n) for k in ("scalar", "vector", "slice") for l in range(len(LAYOUTS)) for n in (1, 2, 3, 5, 8)]
    jobs += [("sampler", d, n) for d in (1, 2, 3) for n in (1, 2, 4)] + [("ends", i, 0) for i in range(4)] + [("columns", 0, 0)] + [("values", l, n) for l in (0, 1) for n in (0, 1, 3, 8)]
    chk.parallel(jobs, lambda c, j: globals()[j[0]](c, j[1], j[2]))
    return chk


def inside(p, cell):
    (s, n), (w, e) = cell
    return s < p[0] < n and (w < p[1] < e if w < e else p[1] > w or p[1] < e)


def doc(it, cells):
    A = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    cs = [it.call(A, [boundary(it, list(la), list(lo)), DictV([("m", 2 * j - 3), ("mx", j + 1), ("my", F(j, 2))]), str(j)], {}) for j, (la, lo) in enumerate(cells)]
    lats = [x for la, _ in cells for x in la]
    b = boundary(it, [min(lats), max(lats)], [cells[0][1][0], cells[-1][1][1]])
    G = it.call(it.prog.cls(MG + "neighbour_graph.NeighbourGraph"), [], {})
    cfg = DictV([("region", DictV([("lat_min", min(lats)), ("lat_max", max(lats)), ("long_min", cells[0][1][0]), ("long_max", cells[-1][1][1]), ("start_time", "2017-02-01"), ("end_time", "2017-02-04"), ("cell_width", 5), ("cell_height", 5)]))])
    return it.call(it.prog.cls(E_), [b, ListV(cs), G, cfg], {})


def validator(it, l, n):
    pts = POINTS[l][:n]
    src = FrameV({"lat": [p[0] for p in pts], "long": [p[1] for p in pts], "s": VALS[:len(pts)], "sx": VALS[:len(pts)], "sy": VALS2[:len(pts)]}, None)
    o = ObjV(it.prog.cls(V + "full_mesh_validator.FullMeshValidator"))
    o.attrs.update(mesh=doc(it, LAYOUTS[l]), source_data=src)
    return o


def root(it, x):
    return sqrt(it, x, None)


def scalar(chk, l, n):
    measure(chk, l, n, "validate_scalar", ["s", "m"], ("mean_err", "root_mean_squared_err"))


def vector(chk, l, n):
    measure(chk, l, n, "validate_vector", [ListV(["sx", "sy"]), ListV(["mx", "my"])], ("mean_d_vector_mag", "root_mean_squared_d_vector_mag"))


def measure(chk, l, n, name, args, keys):
    C = "FullMeshValidator." + name
    pts = POINTS[l][:n]
    n = len(pts)
    hits = [(i, j) for i, p in enumerate(pts) for j, c in enumerate(LAYOUTS[l]) if inside(p, c)]
    if not hits:
        return
    d = f"cells {LAYOUTS[l]}, points {pts}"

    def setup(it):
        return PyFn("driver", lambda i, a, k, node=None: i.call(i.getattr(validator(i, l, n), name), list(args), {})), [], {}, None
    for t in decided(chk, name, setup, Exact):
        if not chk.require(t.outcome == "return", name, C, f"{d}: raises {t.exc}", t.where):
            continue
        it, r = t.interp, t.value
        if name == "validate_scalar":
            sq_ = [(F(VALS[i]) - (2 * j - 3)) ** 2 for i, j in hits]
        else:
            sq_ = [(F(VALS[i]) - (j + 1)) ** 2 + (F(VALS2[i]) - F(j, 2)) ** 2 for i, j in hits]
        mean = mknum({m: c / len(hits) for m, c in total_poly(it, sq_).items()})
        rms = root(it, sum(sq_) / len(hits))
        for key, w in zip(("cellbox_count",) + keys, (len(LAYOUTS[l]), mean, rms)):
            g = r.get(key) if isinstance(r, DictV) else None
            chk.require(g is not None and eqv(plain(it, g), w), name, C, f"{d}: {key} is {show(g)}, expected {show(w)}", t.where, sample=f"{d}: {key} {show(g)}")


def plain(it, v):
    """squares of roots resolved"""
    if isinstance(v, Sym) and v.op == "sqrt":
        return root(it, plain(it, v.args[0]))
    if isinstance(v, Num):
        out = {}
        for m, c in v.t.items():
            p = {(): c}
            for x, e in m:
                x = plain(it, x)
                if isinstance(x, Sym) and x.op == "sqrt" and e > 1:
                    for _ in range(e // 2):
                        p = pmul(p, poly(x.args[0]))
                    e %= 2
                for _ in range(e):
                    p = pmul(p, poly(x))
            out = padd(out, p)
        return mknum(out)
    return v


def total_poly(it, sq_):
    out = {}
    for q in sq_:
        out = padd(out, poly(root(it, q)))
    return out


def slice(chk, l, n):
    C = "FullMeshValidator.slice_data"
    pts = POINTS[l][:n]
    n = len(pts)
    for cell in LAYOUTS[l]:
        def setup(it):
            return PyFn("driver", lambda i, a, k, node=None: i.call(i.getattr(validator(i, l, n), "slice_data"), [boundary(i, *map(list, cell))], {})), [], {}, None
        for t in decided(chk, "slice", setup, Exact):
            d = f"region {cell}, points {pts}"
            if not chk.require(t.outcome == "return", "slice", C, f"{d}: raises {t.exc}", t.where):
                continue
            T = t.value
            got = [(T.cols["lat"][i], T.cols["long"][i], T.cols["s"][i]) for i in range(len(T.cols["lat"]))] if isinstance(T, FrameV) else None
            want = [(p[0], p[1], VALS[i]) for i, p in enumerate(pts) if inside(p, cell)]
            chk.require(got == want, "slice", C, f"{d}: {got} rather than {want}", t.where, sample=d)


def sampler(chk, d, n):
    C = "Sampler.generate_samples"
    R = [(-60, 20), (100, 140), (-5, 5)][:d]
    pts = [[F((3 * i + 5 * j + 1) % 8, 8) for j in range(d)] for i in range(n)]

    def sobol(it, a, k, node=None):
        if as_fraction(k.get("d", a[0] if a else None)) != d:
            it.undecided("dimensions of the samples", node)
        return Draw(n, pts)
    for m in (d, d + 1):
        def setup(it):
            S = it.call(it.prog.cls(V + "sampler.Sampler"), [d, n], {})
            return it.getattr(S, "generate_samples"), [ListV([ListV(list(x)) for x in (R if m == d else R + [(0, 1)])])], {}, None
        for t in decided(chk, "samples", setup, Exact, models={"scipy.stats.qmc.Sobol": sobol}):
            if m != d:
                chk.require(t.outcome == "raise", "samples", C, f"{m} ranges for {d} dimensions are accepted", t.where)
                continue
            if not chk.require(t.outcome == "return", "samples", C, f"{n} samples of {d}: raises {t.exc}", t.where):
                continue
            r = t.value
            want = [F(lo) + x * (hi - lo) for p in pts for x, (lo, hi) in zip(p, R)]
            ok = isinstance(r, ArrV) and tuple(r.shape) == (n, d) and [as_fraction(x) for x in r.cells] == want
            chk.require(ok, "samples", C, f"{n} samples of {d}: {show(r)}", t.where, sample=f"{n} samples of {d} dimensions")


class Draw(NativeV):
    tname = "sample sequence"

    def __init__(self, n, pts):
        self.n, self.pts = n, pts

    def attr(self, it, name, node):
        def f(it, a, k, n):
            if as_fraction(k.get("n", a[0] if a else 1)) != self.n:
                it.undecided("number of samples", n)
            return NDArr([x for p in self.pts for x in p], (self.n, len(self.pts[0])))
        if name == "random":
            return self.meth(name, f)
        it.undecided(f"sample sequence: {name}", node)


def ends(chk, i, _):
    C = "MeshValidator.get_range_end"
    S, N, W, E = [(-60, -50, 10, 30), (0, 5, -180, 180), (70, 80, -20, -10), (-5, 5, 0, 1)][i]
    for la, lo, L in itertools.product((S, N - F(1, 20), N - F(1, 10), N), (W, E - F(1, 20), E - F(1, 10), E), (F(1, 10), F(1, 2))):
        def setup(it):
            o = ObjV(it.prog.cls(V + "mesh_validator.MeshValidator"))
            M = ObjV(None, "mesh", {"get_bounds": PyFn("get_bounds", lambda i_, a, k, node=None: boundary(i_, [S, N], [W, E]))}, lazy=False)
            o.attrs.update(validation_length=L, mesh=M)
            return it.getattr(o, "get_range_end"), [ListV([la, lo])], {}, None
        for t in decided(chk, "ends", setup, Exact):
            d = f"sample {la}, {lo}, length {L}, limits {S}:{N}, {W}:{E}"
            if chk.require(t.outcome == "return", "ends", C, f"{d}: raises {t.exc}", t.where):
                got = [as_fraction(x) for x in t.interp.items_of(t.value, None)]
                chk.require(got == [min(N, la + L), min(E, lo + L)], "ends", C, f"{d}: {[str(x) for x in got]}", t.where, sample=d)


def columns(chk, _, __):
    C = "FullMeshValidator"
    for cols in (("lat", "long", "s"), ("lat", "s"), ("long", "s"), ("s",)):
        def setup(it):
            return it.prog.cls(V + "full_mesh_validator.FullMeshValidator"), [DictV(), FrameV({c: [1, 2] for c in cols}, None)], {}, None
        for t in decided(chk, "columns", setup, Exact, models={E_ + ".load_from_json": lambda it, a, k, node=None: ObjV(None, "mesh", {}, lazy=False)}):
            chk.require((t.outcome == "return") == (len(cols) == 3), "columns", C, f"source data with columns {cols}: {t.outcome}", t.where, sample=f"columns {cols}: {t.outcome}")


def values(chk, l, n):
    """the source's values in a sample square, and the values of the cells around the same points"""
    cells = LAYOUTS[l]
    pts = [p for p in POINTS[l][:n] if any(inside(p, c) for c in cells)]
    S, N = min(c[0][0] for c in cells), max(c[0][1] for c in cells)
    W, E = cells[0][1][0], cells[-1][1][1]
    la, lo = S + F(1, 4), cells[0][1][0] + F(1, 4)
    for name, (vals, key), two in itertools.product(("get_value_from_data", "get_values_from_mesh"), ((VALS, "m"), (VALS2, "mx")), (False, True)):
        C = "MeshValidator." + name

        def setup(it):
            it.asked = []

            def loader(key, vals):
                def trim(i, a, k, node=None):
                    b = a[0] if a else k.get("bounds")
                    i.asked.append([as_fraction(x) for q in ("lat_range", "long_range") for x in i.items_of(i.getattr(b, q), node)])
                    return FrameV({"lat": [p[0] for p in pts], "long": [p[1] for p in pts], key: list(vals[:len(pts)])}, None)
                L = ObjV(None, "loader", {"trim_datapoints": PyFn("trim_datapoints", trim), "get_data_col_name": PyFn("name", lambda i, a, k, node=None: key), "data_name": key}, lazy=False)
                return ObjV(None, "source", {"get_data_loader": PyFn("get", lambda i, a, k, node=None: L)}, lazy=False)
            src = ListV([loader(key, vals)] + ([loader("my", vals[::-1])] if two else []))
            first = ObjV(None, "cell", {"get_data_source": PyFn("get", lambda i, a, k, node=None: src)}, lazy=False)
            o = ObjV(it.prog.cls(V + "mesh_validator.MeshValidator"))

            def run(i, a, k, node=None):
                M = ObjV(None, "mesh", {"get_bounds": PyFn("get_bounds", lambda i_, a, k, node=None: boundary(i_, [S, N], [W, E], ListV(["2017-02-01", "2017-02-04"]))), "cellboxes": ListV([first])}, lazy=False)
                o.attrs.update(validation_length=F(1, 2), mesh=M, env_mesh=doc(i, cells))
                return i.call(i.getattr(o, name), [ListV([la, lo])], {})
            return PyFn("driver", run), [], {}, None
        for t in decided(chk, "values", setup, Exact):
            d = f"cells {cells}, points {pts}, layer {key}"
            if not chk.require(t.outcome == "return", "values", C, f"{d}: raises {t.exc}", t.where):
                continue
            got = [as_fraction(x) for x in t.interp.items_of(t.value, None)]
            on = lambda p, c: c[0][0] <= p[0] <= c[0][1] and c[1][0] <= p[1] <= c[1][1]
            cell = [[j for j, c in enumerate(cells) if on(p, c)] for p in pts]
            of = {"m": lambda j: 2 * j - 3, "mx": lambda j: j + 1, "my": lambda j: F(j, 2)}
            want = []
            for q in [key] + (["my"] if two else []):
                want += [[x] for x in (vals if q == key else vals[::-1])[:len(pts)]] if name == "get_value_from_data" else [[of[q](j) for j in js] for js in cell]
            chk.require(len(got) == len(want) and all(g in w for g, w in zip(got, want)), "values", C, f"{d}: {[str(x) for x in got]} rather than {[[str(y) for y in x] for x in want]}", t.where, sample=f"{d}: {want}")
            ok = t.interp.asked == [[la, la + F(1, 2), lo, lo + F(1, 2)]] * (2 if two else 1)
            chk.require(ok, "values", C, f"{d}: asks for the points of {[[str(y) for y in x] for x in t.interp.asked]}", t.where)

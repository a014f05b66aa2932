"""A drawn mesh shows every cell once per layer, coloured by its value."""
import ast
from fractions import Fraction as F
from sa.report import Check
from sa.shapes import JsonText, ShapeV, parse
from sa.tables import *
from sa.values import *
from sa.values import as_fraction
from .common import *
from .p27 import Dom, E_, HOLDER

RULE = ("to_png with the drawing library replaced by stand-ins that record their calls: for every colour map layer of the parameter file each cell's own polygon is drawn once, coloured by that layer's map at (value - least) / (greatest - least) over all cells; "
        "for every truth layer exactly the true cells, in the layer's colour; layers in the order listed, colour maps first; on a plate carree map with the extent of the mesh's region; saved once, under the path given")

CELLS = [([0, 5], [0, 10]), ([0, 5], [10, 20]), ([5, 10], [0, 10]), ([5, 10], [10, 15])]
REGIONS = {"plain": (0, 10, 0, 20), "wide": (-70, 80, -175, 160), "cells": (-3, 21, 2, 9)}
COLS = {
    "a": (1, 2, 3, 4), "b": (F(1, 2), -3, 7, 0), "c": (-5, -1, -5, -2), "d": (10, 0, 0, 10), "low": (0, 100, 0, 0),
    "t": (True, False, True, False), "u": (False, False, False, True), "v": (True, True, True, True), "w": (False, False, False, False),
}
LAYERS = [([], []), (["a"], []), (["b"], []), (["c"], []), (["d"], ["t"]), ([], ["t"]), ([], ["u", "v"]), (["low"], ["w"]), (["a", "b"], ["u"]), (["b", "a"], ["t", "u"])]


class Note(NativeV):
    """an object of the drawing library"""

    def __init__(self, kind, *of):
        self.kind, self.of = kind, of
        self.tname = kind

    def attr(self, it, name, node):
        if self.kind == "axes" and name in ("add_geometries", "set_extent"):
            return self.meth(name, lambda it, a, k, n: it.drawn.append((name, list(a), dict(k))))
        if self.kind == "figure" and name == "savefig":
            return self.meth(name, lambda it, a, k, n: it.drawn.append((name, list(a), dict(k))))
        if self.kind in ("axes", "figure") and name in ("coastlines", "gridlines", "set_title", "tight_layout", "suptitle"):
            return self.meth(name, lambda it, a, k, n: None)
        if self.kind == "figure" and name in ("add_subplot", "add_axes"):
            return self.meth(name, axes)
        if self.kind == "colour map" and name == "__call__":
            return self.meth(name, lambda it, a, k, n: colour(self, it, a, n))
        it.undecided(f"drawing library: {name} of {self.kind}", node)

    def call(self, it, a, k, node):
        if self.kind == "colour map":
            return colour(self, it, a, node)
        it.undecided(f"call of {self.kind}", node)


def colour(m, it, a, node):
    if len(a) != 1 or as_fraction(a[0]) is None if not isinstance(a[0], bool) else True:
        it.undecided("value of a colour map", node)
    return Sym("colour", m.of[0], as_fraction(a[0]))


def cmap(it, a, k, node=None):
    if len(a) != 1 or not isinstance(a[0], str) or k:
        it.undecided("colour map", node)
    m = Note("colour map", a[0])
    return PyFn("colour map", lambda it, a_, k_, n=None: colour(m, it, a_, n))


def norm(it, a, k, node=None):
    lo, hi = k.get("vmin", a[0] if a else None), k.get("vmax", a[1] if len(a) > 1 else None)
    if lo is None or hi is None:
        it.undecided("colour scale", node)
    return PyFn("colour scale", lambda it, a_, k_, n=None: it.binop(ast.Div(), it.binop(ast.Sub(), a_[0], lo, n), it.binop(ast.Sub(), hi, lo, n), n))


def axes(it, a, k, node=None):
    p = k.get("projection")
    it.drawn.append(("axes", p.kind if isinstance(p, Note) else p))
    return Note("axes")


def models():
    crs = lambda it, a, k, node=None: Note("plate carree") if not a and not k else it.undecided("map projection", node)
    return {"matplotlib.colors.Normalize": norm, "matplotlib.pyplot.Normalize": norm, "matplotlib.pyplot.figure": lambda it, a, k, node=None: Note("figure"), "matplotlib.pyplot.axes": axes, "matplotlib.pyplot.subplot": axes,
            "cartopy.crs.PlateCarree": crs, "matplotlib.colormaps.__getitem__": cmap, "matplotlib.colormaps.get_cmap": cmap, "matplotlib.pyplot.get_cmap": cmap, "matplotlib.cm.get_cmap": cmap,
            "matplotlib.pyplot.savefig": lambda it, a, k, node=None: it.drawn.append(("savefig", list(a), dict(k))), "matplotlib.pyplot.close": lambda it, a, k, node=None: None}


def check(tier):
    chk = Check("P30", RULE, tier, minimum=50)
    jobs = [(r, n, i) for r in REGIONS for n in (1, 2, 3, 4) for i in range(len(LAYERS))]
    chk.parallel(jobs, one)
    return chk


def one(chk, job):
    region, n, li = job
    cm, bl = LAYERS[li]
    S, N, W, E = REGIONS[region]
    C = "EnvironmentMesh.to_png"
    if any(len(set(COLS[x][:n])) == 1 for x in cm):
        return                          # nothing to tell apart
    OUT = "/scratch/mesh.png"
    MAPS = {x: m for x, m in zip(cm, ("viridis", "Blues"))}
    HUES = {x: h for x, h in zip(bl, ("red", "lime"))}
    d = f"{n} cells, region {REGIONS[region]}, colour maps {MAPS}, truth layers {HUES}"

    def setup(it):
        it.drawn = []

        def run(i, a, k, node=None):
            A = i.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
            cells = [i.call(A, [boundary(i, la, lo), DictV([(x, COLS[x][j]) for x in COLS]), str(7 * j + 2)], {}) for j, (la, lo) in enumerate(CELLS[:n])]
            G = i.call(i.prog.cls(MG + "neighbour_graph.NeighbourGraph"), [], {})
            cfg = DictV([("region", DictV([("lat_min", S), ("lat_max", N), ("long_min", W), ("long_max", E), ("start_time", "2017-02-01"), ("end_time", "2017-02-04"), ("cell_width", 5), ("cell_height", 5)]))])
            m = i.call(i.prog.cls(E_), [boundary(i, [S, N], [W, E]), ListV(cells), G, cfg], {})
            i.files[HOLDER] = [JsonText(DictV([("cmaps", ListV([DictV([("data_name", x), ("cmap", MAPS[x])]) for x in cm])), ("bools", ListV([DictV([("data_name", x), ("colour", HUES[x])]) for x in bl]))]))]
            i.call(i.getattr(m, "to_png"), [HOLDER, OUT], {})
            return ListV([i.call(i.getattr(c, "to_json"), [], {}) for c in cells])
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "png", setup, Dom, models=models()):
        if t.exc is not None:
            chk.bad("png", C, f"{d}: raises {t.exc}", t.where)
            continue
        it, log = t.interp, t.interp.drawn
        chk.require([x[1] for x in log if x[0] == "axes"] == ["plate carree"], "map", C, f"{d}: drawn on {[show(x[1]) for x in log if x[0] == 'axes']}")
        ext = [x for x in log if x[0] == "set_extent"]
        ok = len(ext) == 1 and [as_fraction(x) for x in it.items_of(ext[0][1][0], None)] == [W, E, S, N]
        chk.require(ok, "extent", C, f"{d}: the map shows {[show(x[1][0]) for x in ext]}", sample=d)
        sv = [i for i, x in enumerate(log) if x[0] == "savefig"]
        geo = [i for i, x in enumerate(log) if x[0] == "add_geometries"]
        ok = len(sv) == 1 and (log[sv[0]][1] or [log[sv[0]][2].get("fname")])[0] == OUT and all(i < sv[0] for i in geo)
        chk.require(ok, "saved", C, f"{d}: saved {[show(log[i][1]) for i in sv]} after {len(geo)} drawings")
        # what each layer should show
        docs = [parse(it, x.get("geometry"), None) for x in t.value.items]
        want = []
        for x in cm:
            v = [F(y) for y in COLS[x][:n]]
            want.append((x, [(j, Sym("colour", MAPS[x], (v[j] - min(v)) / (max(v) - min(v)))) for j in range(n)]))
        for x in bl:
            want.append((x, [(j, HUES[x]) for j in range(n) if COLS[x][j]]))
        got = []
        bad = None
        for i in geo:
            _, a, k = log[i]
            ps = it.items_of(a[0], None)
            crs = a[1] if len(a) > 1 else k.get("crs")
            if not (isinstance(crs, Note) and crs.kind == "plate carree"):
                bad = "a cell is placed by another projection than its degrees"
            for p in ps:
                if not isinstance(p, ShapeV):
                    bad = f"{show(p)} is drawn"
                    continue
                hit = [j for j, q in enumerate(docs) if q.polys == p.polys]
                got.append((hit[0] if hit else None, k.get("facecolor", k.get("fc"))))
        chk.require(bad is None, "drawing", C, f"{d}: {bad}")
        at = 0
        for x, w in want:
            seg = got[at:at + len(w)]
            at += len(w)
            key = lambda s: sorted((str(j), show(c)) for j, c in s)
            chk.require(key(seg) == key(w), "layer", C, f"{d}: layer {x} is drawn as {[(j, show(c)) for j, c in seg]}, expected {[(j, show(c)) for j, c in w]}", sample=f"{d}: {x}")
        chk.require(at == len(got), "layer", C, f"{d}: {len(got)} drawings, expected {at}")

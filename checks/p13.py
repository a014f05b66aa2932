"""A built mesh holds one cell per live cell, with its own values, its graph and its configuration."""
import itertools
from sa.order import HullDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .pipeline import *

RULE = ("building meshes of abstract sources (grids of up to 2x2 cells, depths 0-2, scalar and vector sources, with and without conditions): every loader is "
        "made once from its own configuration entry for the whole region; the mesh lists every live cell once, under its graph id, with exactly the values its sources give for "
        "its own bounds; the graph's nodes and links are among those ids; a second build gives the same; a loader added later contributes as a configured one")

OPS = {"val", "nan"}


def check(tier):
    chk = Check("P13", RULE, tier, minimum=300)
    jobs = []
    for W, H in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for top in ((0, 1, 2) if (W, H) != (2, 2) or chk.thorough() else (1,)):
            for kinds in (["s"], ["v"], ["s", "v"], ["v", "s"], ["s", "s", "v"]):
                for pat in range(4 if top else 1):
                    jobs.append((W, H, top, kinds, pat, None))
                    if top:
                        jobs.append((W, H, top, kinds, pat, "twice"))
                    if pat < 2:
                        jobs.append((W, H, top, kinds, pat, "added"))
    jobs += [(1, 1, 0, [], 0, None), (2, 2, 1, [], 0, None)]
    chk.parallel(jobs, lambda c, j: one(c, *j))
    return chk


def het(pat, e):
    size = e[1] - e[0]
    x, y, d = int(e[2] / size), int(e[0] / size), int(16 / size)
    return {0: False, 1: d == 1, 2: (x + y) % 2 == 0, 3: x >= y}[pat]


def one(chk, W, H, top, kinds, pat, how):
    C = "MeshBuilder.build_environmental_mesh"
    srcs = []
    for i, k in enumerate(kinds):
        names = [f"a{i}"] if k == "s" else [f"u{i}", f"w{i}"]
        srcs.append(Source(f"src{i}", names=names, conds=1 if i != 1 else None, verdict=lambda c, e, i=i: "HET" if het((pat + i) % 4 if pat else 0, e) else "CLR",
                           params=[("files", ListV([f"in{i}"])), ("extra", i)]))
    cfgd = srcs[:-1] if how == "added" else srcs
    case = f"{W}x{H} grid, depth {top}, sources {kinds}, pattern {pat}{', ' + how if how else ''}"
    calls, made = [], []

    def setup(it):
        for s in srcs:
            s.wrong = []
        calls.clear()
        made.clear()

        def run(i, a, k, node=None):
            cfg = config(cfgd, W, H, top)
            b = builder(i, cfg)
            if how == "added":
                def new(i2, a2, k2, node=None):
                    made.append((a2, k2))
                    return srcs[-1].loader(i2)
                i.call(i.getattr(b, "add_dataloader"), [PyFn("Dataloader", new), srcs[-1].params_v()], {})
            m = i.call(i.getattr(b, "build_environmental_mesh"), [], {})
            if how == "twice":
                m = i.call(i.getattr(b, "build_environmental_mesh"), [], {})
            return TupleV([b, m, cfg])
        return PyFn("driver", run), [], {}, None
    want = sorted(l[0] for j in range(H) for i in range(W)
                  for l in leaves(srcs, (F(16 * j), F(16 * j + 16), F(16 * i), F(16 * i + 16)), 0, top))
    for t in decided(chk, "build", setup, lambda: HullDomain(), ops=OPS, models=factory(cfgd, calls)):
        if t.exc is not None:
            chk.bad("build", C, f"{case}: raises {t.exc}")
            continue
        it = t.interp
        b, m, cfg = t.value.items
        g = lambda o, n: it.call(it.getattr(o, n), [], {})
        cells = it.items_of(it.getattr(m, "agg_cellboxes"))
        ids = [g(c, "get_id") for c in cells]
        exts = [extent(it, g(c, "get_bounds")) for c in cells]
        chk.require(len(set(map(show, ids))) == len(ids), "ids", C, f"{case}: ids repeat: {ids}")
        if not chk.require(sorted(exts) == want, "cells", C, f"{case}: {len(exts)} cells, expected {len(want)}"):
            continue
        for c, e in zip(cells, exts):
            d = g(c, "get_agg_data")
            if foreign(d, OPS) is not None or not isinstance(d, DictV):
                chk.undec("values", f"values {show(d)}")
                continue
            got = {k: v for k, v in d.pairs() if k != "id"}
            exp = {n: Sym("val", s.key, n, *e) for s in srcs for n in s.names}
            diff = [n for n in set(got) | set(exp) if n not in got or n not in exp or got[n] != exp[n]]
            chk.require(not diff, "values", C, f"{case}: cell {txt(e)}: {diff[0] if diff else ''} is {show(got.get(diff[0])) if diff else ''}", sample=case)
        gr = it.call(it.getattr(it.getattr(m, "neighbour_graph"), "get_graph"), [], {})
        nodes = [str(k) for k in gr.keys]
        chk.require(sorted(nodes) == sorted(map(str, ids)), "graph", C, f"{case}: graph nodes {sorted(nodes)}, cell ids {sorted(map(str, ids))}")
        links = {str(x) for _, row in gr.pairs() for _, l in row.pairs() for x in it.items_of(l)}
        chk.require(links <= set(map(str, ids)), "graph", C, f"{case}: the graph links to {sorted(links - set(map(str, ids)))}")
        # ids name the cell they are linked as: position of the cell among the builder's cells
        boxes = it.items_of(it.getattr(it.getattr(b, "mesh"), "cellboxes"))
        pos = {str(n): extent(it, g(x, "get_bounds")) for n, x in enumerate(boxes) if isinstance(x, ObjV)}
        chk.require(all(pos.get(str(i)) == e for i, e in zip(ids, exts)), "ids", C, f"{case}: an id is not the cell's node in the graph")
        mb = extent(it, it.getattr(m, "bounds"))
        chk.require(mb == (F(0), F(16 * H), F(0), F(16 * W)), "bounds", C, f"{case}: the mesh bounds are {txt(mb)}")
        wrong = [w for s in srcs for w in s.wrong]
        chk.require(not wrong, "data", C, f"{case}: {wrong[0] if wrong else ''}")
        loaders(chk, it, C, case, cfgd, calls, cfg, W, H, 3)
        mc = it.getattr(m, "config")
        reg = mc.get("region") if isinstance(mc, DictV) else None
        ok = isinstance(reg, DictV) and all(reg.get(k) == v for k, v in cfg.get("region").pairs())
        chk.require(ok, "config", C, f"{case}: the mesh records the region {show(reg)}")
        ds = it.items_of(mc.get("data_sources")) if isinstance(mc, DictV) and mc.get("data_sources") is not None else []
        chk.require([x.get("loader") for x in ds] == [s.key for s in cfgd], "config", C, f"{case}: the mesh records the sources {[show(x.get('loader')) for x in ds]}")
        for x, s in zip(ds, cfgd):
            f = x.get("params").get("files")
            chk.require(isinstance(f, ListV) and list(f.items) == [f"{s.key}.nc"], "config", C, f"{case}: files recorded for {s.key}: {show(f)}, read {s.key}.nc")


def loaders(chk, it, C, case, cfgd, calls, cfg, W, H, dp):
    chk.require([c.get("name") for c in calls] == [s.key for s in cfgd], "loaders", C, f"{case}: loaders made: {[show(c.get('name')) for c in calls]}")
    for c, s in zip(calls, cfgd):
        e = extent(it, c.get("bounds")) if isinstance(c.get("bounds"), ObjV) else None
        chk.require(e == (F(0), F(16 * H), F(0), F(16 * W)), "loaders", C, f"{case}: {s.key} is made for {show(c.get('bounds'))}")
        p = c.get("params")
        chk.require(isinstance(p, DictV) and p.get("extra") == cfgd.index(s), "loaders", C, f"{case}: {s.key} is made with the parameters {show(p)}")
        chk.require(num(c.get("min_dp", 5)) == dp, "loaders", C, f"{case}: {s.key} is made with a minimum of {show(c.get('min_dp'))} points")

"""Splitting a cell of a finished (loaded) mesh keeps mesh and graph consistent."""
from fractions import Fraction as F
from sa.localmesh import *
from sa.report import Check
from sa.values import *
from .common import *
from .p03 import PLACES, box_cell, final_cells, same

RULE = ("inductive step on a mesh loaded from file (string keys): EnvironmentMesh.split_and_replace(cell) (and a second "
        "split) leaves exactly the live cells in list and graph, each ordered pair of live cells adjacent exactly once in "
        "the direction geometry gives; the new cells carry fresh ids, the values of the cell they replace and untouched "
        "values elsewhere")


def check(tier):
    chk = Check("P04", RULE, tier, minimum=4000, assumptions=[
        "cells are compared as exact boxes; one representative per order type of neighbour position",
        "meshes of three or more columns"])
    jobs = []
    for name, others in meshes(chk.thorough()):
        for pl in PLACES:
            if pl.seam is not None and name.startswith("two"):
                continue
            jobs.append((name, others, pl, None))
    for name, others in meshes():
        if name.startswith("one ") or name == "alone":
            continue
        for pl in (PLACES if chk.thorough() else [PLACES[0], PLACES[4]]):
            seconds = list(range(len(others))) + ["NW", "NE", "SW", "SE"]
            if not chk.thorough() and len(others) > 12:
                seconds = seconds[::3] + ["NE", "SW"]
            for second in seconds:
                jobs.append((name, others, pl, second))
    chk.parallel(jobs, one)
    return chk


def env_mesh(it, cells, pl, ids, config=None, bounds=None, tag=""):
    """EnvironmentMesh as loaded from JSON: {id(int): Cell}"""
    AC = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    NG = it.prog.cls(MG + "neighbour_graph.NeighbourGraph")
    EM = it.prog.cls(MG + "environment_mesh.EnvironmentMesh")
    boxes = []
    for i in ids:
        c = cells[i]
        bd = boundary(it, [pl.lat(c.s), pl.lat(c.n)], [pl.long(c.w, False), pl.long(c.e, True)])
        boxes.append(it.call(AC, [bd, DictV([("SIC", Sym("sic" + tag, i)), ("depth", Sym("depth" + tag, i))]), str(i)], {}))
    g = DictV([(str(i), DictV([(str(d), ListV(list(js))) for d, js in m.items()])) for i, m in graph(cells).items()])
    ng = it.call(it.getattr(NG, "from_json"), [g], {})
    m = it.call(EM, [bounds if bounds is not None else Sym("bounds"), ListV(boxes), ng, config or DictV([])], {})
    return m, ng, boxes


def one(chk, job):
    name, others, pl, second = job
    P = Cell(-1, 1, -1, 1)
    ids = [4] + [7 + 2 * i for i in range(len(others))]
    ids[1:] = reversed(ids[1:])           # largest id not last
    cells = dict(zip(ids, [P] + list(others)))
    C = "EnvironmentMesh.split_and_replace"
    rule = "split" if second is None else "second-split"
    src = {}

    def setup(it):
        m, ng, boxes = env_mesh(it, cells, pl, ids)

        def run(i, a, k, node=None):
            f = i.getattr(m, "split_and_replace")
            i.call(f, ["4"], {})
            if second is not None:
                if isinstance(second, int):
                    tgt = str(ids[second + 1])
                else:
                    tgt = None
                    for b in i.items_of(i.getattr(m, "agg_cellboxes")):
                        if box_cell(i, i.call(i.getattr(b, "get_bounds"), [], {}), pl, [P.quads()[second]]):
                            tgt = i.call(i.getattr(b, "get_id"), [], {})
                    if tgt is None:
                        raise Undecided(f"no child covers {second}")
                i.call(f, [tgt], {})
        return PyFn("driver", run), [], {}, (m, ng)
    desc = f"{name}, {pl}" + (f", then splitting {second}" if second is not None else "")
    for t in decided(chk, rule, setup, pl.domain):
        if t.outcome == "raise":
            chk.bad(rule, C, f"{desc}: raises {t.exc}", t.where)
            continue
        compare(chk, rule, C, t.interp, t.inputs, final_cells(others, second, P), pl, desc, cells)


def compare(chk, rule, C, it, inputs, want_cells, pl, desc, before, values=True):
    m, ng = inputs
    live = {}
    ok = True
    for b in it.items_of(it.getattr(m, "agg_cellboxes")):
        cid = it.call(it.getattr(b, "get_id"), [], {})
        c = box_cell(it, it.call(it.getattr(b, "get_bounds"), [], {}), pl, want_cells)
        if c is None:
            chk.bad(rule + "-cells", C, f"{desc}: cell {show(cid)} is not a cell of the resulting mesh")
            return
        if not chk.require(isinstance(cid, str) and cid.isdigit() and cid not in live, rule + "-ids", C, f"{desc}: id {show(cid)} repeated or not a numeric string"):
            return
        live[cid] = c
        if not values:
            continue
        # value inheritance: a cell's data is that of the original cell covering it
        data = it.call(it.getattr(b, "get_agg_data"), [], {})
        own = [i for i, o in before.items() if o.key() == c.key()] or [i for i, o in before.items() if o.overlaps(c)]
        i = own[0]
        good = isinstance(data, DictV) and data.get("SIC") == Sym("sic", i) and data.get("depth") == Sym("depth", i)
        chk.require(good, rule + "-values", C, f"{desc}: cell {c} carries {show(data)}, expected the values of {before[i]}")
        if isinstance(data, DictV) and "id" in data.keys:
            chk.require(data.get("id") == cid, rule + "-ids", C, f"{desc}: cell {cid} records id {show(data.get('id'))} in its data")
        if own and before[i].key() == c.key():
            chk.require(cid == str(i), rule + "-ids", C, f"{desc}: untouched cell {i} renamed {cid}")
        else:
            chk.require(cid not in [str(x) for x in before], rule + "-ids", C, f"{desc}: new cell reuses id {cid}")
    if not chk.require(sorted(c.key() for c in live.values()) == sorted(c.key() for c in want_cells), rule + "-cells", C,
                       f"{desc}: live cells {sorted(map(repr, live.values()))}"):
        return
    g = it.call(it.getattr(ng, "get_graph"), [], {})
    if not chk.require(set(g.keys) == set(live), rule + "-nodes", C, f"{desc}: graph nodes {sorted(map(show, g.keys))}, live cells {sorted(live)}"):
        return
    want = graph(live)
    for i in live:
        mm = g.get(i)
        for d in DIRS:
            got = mm.get(str(d))
            got = it.items_of(got) if got is not None else None
            w = sorted(int(x) for x in want[i][d])
            chk.require(got is not None and all(isinstance(x, int) for x in got) and sorted(got) == w, rule + "-edges", C,
                        f"{desc}: direction {d} of {live[i]} lists {got and [repr(live.get(str(x), x)) for x in got]}, geometry says {[repr(live[x]) for x in want[i][d]]}")

"""Splitting a cell of a mesh under construction keeps the neighbour graph exact."""
from fractions import Fraction as F
from sa.interp import explore
from sa.localmesh import *
from sa.report import Check
from sa.values import *
from .common import *

RULE = ("inductive step of 'the graph equals geometric adjacency': starting from a local mesh whose graph is exact, "
        "MeshBuilder.split_and_replace(cell) (and a second split of one of the remaining cells) yields a mesh whose "
        "graph has exactly the live cells as nodes and, for every ordered pair of live cells, lists the second once in "
        "the direction geometry gives and nowhere else; the split cell is gone from list and graph; ids stay list "
        "positions")

PLACES = [Place(None), Place(1), Place(-1), Place(0), Place(F(1, 3)), Place(F(-1, 2)), Place(3), Place(-3), Place(-1, True)]


def check(tier):
    chk = Check("P03", RULE, tier, minimum=4000, assumptions=[
        "cells are compared as exact boxes; positions of neighbours relative to the split cell are covered by one "
        "representative per order type in half-cell units",
        "meshes of three or more columns"])
    jobs = []
    for name, others in meshes(chk.thorough()):
        for pl in PLACES:
            if pl.seam is not None and name.startswith("two"):
                continue
            for glob in ((False, True) if pl.seam in (1, -1) else (False,)):
                jobs.append((name, others, pl, glob, None))
    # second split: every other cell of the rich meshes, and every child
    for name, others in meshes():
        if name.startswith("one ") or name == "alone":
            continue
        for pl in (PLACES if chk.thorough() else [PLACES[0], PLACES[3], PLACES[4]]):
            n = len(others)
            for second in list(range(n)) + ["NW", "NE", "SW", "SE"]:
                jobs.append((name, others, pl, False, second))
    chk.parallel(jobs, one)
    return chk


def build(it, cells, pl, glob, dead=1):
    """builder object holding the local mesh; cells: {index: Cell}"""
    NG = it.prog.cls(MG + "neighbour_graph.NeighbourGraph")
    n = max(cells) + 1
    boxes = []
    for i in range(n):
        if i not in cells:
            boxes.append(None)
            continue
        c = cells[i]
        cb = cellbox(it, boundary(it, [pl.lat(c.s), pl.lat(c.n)], [pl.long(c.w, False), pl.long(c.e, True)]), str(i))
        it.call(it.getattr(cb, "set_data_source"), [ListV([])], {})
        boxes.append(cb)
    ng = it.call(NG, [], {})
    g = DictV([(i, DictV([(d, ListV(list(js))) for d, js in m.items()])) for i, m in graph(cells).items()])
    it.setattr(ng, "neighbour_graph", g)
    if glob:
        it.call(it.getattr(ng, "set_global_mesh"), [True], {})
    mesh = it.call(it.prog.cls(MG + "mesh.Mesh"), [Sym("mesh_bounds"), ListV(boxes), ng, 5], {})
    mb = ObjV(it.prog.cls(MG + "mesh_builder.MeshBuilder"))
    mb.attrs.update({"mesh": mesh, "neighbour_graph": ng, "config": DictV([])})
    return mb, mesh, ng, boxes


def one(chk, job):
    name, others, pl, glob, second = job
    P = Cell(-1, 1, -1, 1)
    # index 0 is a dead (already replaced) entry
    cells = {1: P}
    for i, o in enumerate(others):
        cells[i + 2] = o
    C = "MeshBuilder.split_and_replace"
    rule = "split" if second is None else "second-split"

    def setup(it):
        mb, mesh, ng, boxes = build(it, cells, pl, glob)

        def run(i, a, k, node=None):
            f = i.getattr(mb, "split_and_replace")
            i.call(f, [boxes[1]], {})
            if second is not None:
                kids = [x for x in i.items_of(i.getattr(mesh, "cellboxes")) if isinstance(x, ObjV)]
                if isinstance(second, int):
                    tgt = boxes[second + 2]
                else:
                    tgt = quad_of(i, kids, pl, P.quads()[second])
                i.call(f, [tgt], {})
            return None
        return PyFn("driver", run), [], {}, (mesh, ng)
    desc = f"{name}, {pl}" + (", global" if glob else "") + (f", then splitting {second}" if second is not None else "")
    for t in decided(chk, rule, setup, pl.domain):
        if t.outcome == "raise":
            chk.bad(rule, C, f"{desc}: raises {t.exc}", t.where)
            continue
        compare(chk, rule, C, t.interp, t.inputs, cells, others, second, pl, desc, P)


def same(x, y):
    d = padd(poly(x), poly(y), -1)
    v = mknum(d)
    return isnum(v) and v % 360 == 0


def box_cell(it, bd, pl, cands):
    """which candidate cell this boundary is"""
    g = lambda n: it.call(it.getattr(bd, n), [], {})
    la, lb, w, e = g("get_lat_min"), g("get_lat_max"), g("get_long_min"), g("get_long_max")
    for c in cands:
        if eqv(la, pl.lat(c.s)) and eqv(lb, pl.lat(c.n)) and same(w, pl.long(c.w, False)) and same(e, pl.long(c.e, True)):
            return c
    return None


def quad_of(it, boxes, pl, cell):
    for b in boxes:
        if box_cell(it, it.call(it.getattr(b, "get_bounds"), [], {}), pl, [cell]):
            return b
    raise Undecided(f"no child covers {cell}")


def final_cells(others, second, P):
    out = list(others)
    q = P.quads()
    new = list(q.values())
    if second is None:
        return out + new
    if isinstance(second, int):
        tgt = out.pop(second)
        return out + new + list(tgt.quads().values())
    new.remove(q[second])
    return out + new + list(q[second].quads().values())


def compare(chk, rule, C, it, inputs, cells, others, second, pl, desc, P):
    mesh, ng = inputs
    want_cells = final_cells(others, second, P)
    boxes = it.items_of(it.getattr(mesh, "cellboxes"))
    live = {}
    for i, b in enumerate(boxes):
        if isinstance(b, ObjV):
            c = box_cell(it, it.call(it.getattr(b, "get_bounds"), [], {}), pl, want_cells)
            if c is None:
                chk.bad(rule + "-cells", C, f"{desc}: list entry {i} ({show(it.getattr(b, 'bounds').attrs.get('lat_range'))} x {show(it.getattr(b, 'bounds').attrs.get('long_range'))}) is not a cell of the split mesh")
                return
            live[i] = c
            cid = it.call(it.getattr(b, "get_id"), [], {})
            chk.require(cid == str(i), rule + "-ids", C, f"{desc}: list entry {i} has id {show(cid)}")
    if not chk.require(sorted(c.key() for c in live.values()) == sorted(c.key() for c in want_cells), rule + "-cells", C,
                       f"{desc}: live cells {sorted(map(repr, live.values()))}"):
        return
    g = it.call(it.getattr(ng, "get_graph"), [], {})
    if not chk.require(set(g.keys) == set(live), rule + "-nodes", C, f"{desc}: graph nodes {sorted(map(show, g.keys))}, live cells {sorted(live)}"):
        return
    want = graph(live)
    for i in live:
        m = g.get(i)
        for d in DIRS:
            got = m.get(d)
            got = it.items_of(got) if got is not None else None
            chk.require(got is not None and sorted(map(show, got)) == sorted(map(show, want[i][d])), rule + "-edges", C,
                        f"{desc}: direction {d} of {live[i]} lists {got and [repr(live.get(x, x)) for x in got]}, geometry says {[repr(live[x]) for x in want[i][d]]}")

"""Adjacency classification of two cells."""
from sa.geom import *
from sa.interp import explore
from sa.order import Chain, OrderDomain, interval_pairs
from sa.report import Check
from sa.values import *
from .common import *

RULE = ("for every relative position of two boxes (13 latitude orderings x every ordering of the four longitude ends on "
        "the circle, date line included) the direction returned by the cell and the boundary classifier equals the "
        "geometric one, and swapping the boxes negates it")


def check(tier):
    chk = Check("P01", RULE, tier, minimum=4000, assumptions=[
        "coordinates are compared as real numbers (no rounding)",
        "box pairs that meet on both their east and west sides (a two-column ring), or that overlap in longitude and "
        "also meet end to end around the globe, are outside the property: no mesh of three or more columns has them"])
    NG = chk.prog.cls("meshiphi.mesh_generation.neighbour_graph.NeighbourGraph")
    lats = []
    for r in interval_pairs():
        n = max(r) + 1
        pts = [Sym(f"y{i}") for i in range(n)]
        lats.append(([pts[i] for i in r], Chain([-90] + pts + [90]), r))
    jobs = []
    for vals, ch, circ, ranks in long_configs():
        a, b = (ranks[0], ranks[1]), (ranks[2], ranks[3])
        if circ.pt(a[0]) == circ.pt(a[1]) or circ.pt(b[0]) == circ.pt(b[1]):
            continue
        # an end written -180 never occurs in a mesh (ends on the date line are written 180)
        if vals[1] == -180 or vals[3] == -180:
            continue
        te, tw, ov = lon_relation(circ, a, b)
        if (te and tw) or (ov and (te or tw)):
            continue
        for lv, lch, lr in lats:
            lat = lat_relation((lr[0], lr[1]), (lr[2], lr[3]))
            want = expected_case(te, tw, ov, lat)
            for glob in (False, True):
                for kind in ("cell", "bounds"):
                    if kind == "bounds" and glob:
                        continue
                    jobs.append((kind, glob, vals, lv, ch, lch, want))
    chk.parallel(jobs, lambda c, j: one(c, NG, *j))
    return chk


def one(chk, NG, kind, glob, vals, lv, ch, lch, want):
    got = {}
    for swap in (False, True):
        def setup(it):
            A = boundary(it, [lv[0], lv[1]], [vals[0], vals[1]])
            Bx = boundary(it, [lv[2], lv[3]], [vals[2], vals[3]])
            ng = it.call(NG, [], {})
            if glob:
                it.call(it.getattr(ng, "set_global_mesh"), [True], {})
            if kind == "cell":
                A, Bx = cellbox(it, A, "0"), cellbox(it, Bx, "1")
                f = it.getattr(ng, "get_neighbour_case")
            else:
                f = it.getattr(ng, "get_neighbour_case_bounds")
            return f, ([Bx, A] if swap else [A, Bx]), {}, None
        name = "NeighbourGraph.get_neighbour_case" + ("" if kind == "cell" else "_bounds")
        rule = f"direction-{kind}" + ("-global" if glob else "")
        w = OPP[want] if swap else want
        for t in decided(chk, rule, setup, lambda: OrderDomain(ch, lch)):
            desc = f"boxes long {show(TupleV(vals[:2]))} lat {show(TupleV(lv[:2]))} and long {show(TupleV(vals[2:]))} lat {show(TupleV(lv[2:]))} (order {ch_show(ch)}; {ch_show(lch)})"
            if swap:
                desc += ", second box first"
            if t.outcome == "raise":
                chk.bad(rule, name, f"{desc}: raises {t.exc}", t.where)
            else:
                chk.require(t.value == w, rule, name, f"{desc}: returns {show(t.value)}, geometry says {w}")

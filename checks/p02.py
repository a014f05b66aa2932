"""A split cuts a cell into its four quadrants and hands its data down."""
from fractions import Fraction
from sa.geom import *
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.values import *
from .common import *

RULE = ("for every box (inside the map, touching or crossing the date line) the four boxes produced by CellBox.split, "
        "Boundary.split and EnvironmentMesh.sim_split_cellbox are the four quadrants of the parent, edges expressed in "
        "[-180,180]; children of CellBox.split are one level deeper, carry distinct consecutive ids, the parent link, the "
        "parent's time range and, per data source, the same loader, splitting conditions and fill type and the data "
        "trimmed to the child's own bounds")

QUADS = {"NW": (1, 0), "NE": (1, 1), "SW": (0, 0), "SE": (0, 1)}


def longs():
    """(name, s, e, chain) one per kind of longitude range"""
    s, e = Sym("s"), Sym("e")
    yield "inside", s, e, Chain([-180, s, e, 180])
    yield "from -180", -180, e, Chain([-180, e, 180])
    yield "to 180", s, 180, Chain([-180, s, 180])
    yield "whole globe", -180, 180, Chain([-180, 180])
    yield "over date line", s, e, Chain([-180, e, s, 180])
    yield "from 180", 180, e, Chain([-180, e, 180])


def check(tier):
    chk = Check("P02", RULE, tier, minimum=300, assumptions=["edges are real numbers (no rounding)"])
    a, b = Sym("a"), Sym("b")
    lat = Chain([-90, a, b, 90])
    for name, s, e, ch in longs():
        dom = lambda: OrderDomain(ch, lat, Chain([0, Sym("depth"), Sym("id0"), Sym("mindp")]), ints={Sym("id0"), Sym("depth")})
        cell_split(chk, name, a, b, s, e, dom)
        bound_split(chk, name, a, b, s, e, dom)
    agg_split(chk, a, b)
    return chk


def edges(it, bd):
    g = lambda n: it.call(it.getattr(bd, n), [], {})
    return g("get_lat_min"), g("get_lat_max"), g("get_long_min"), g("get_long_max")


def same_point(it, x, y):
    """x, y longitudes equal as points of the circle"""
    d = mknum(padd(poly(x), poly(y), -1))
    d = it.num(d) if not isnum(d) else d
    return isnum(d) and d % 360 == 0


def in_range(it, x):
    return it.decide(it.v_lt(-180, x, False)) and it.decide(it.v_lt(x, 180, False))


def quadrant(it, child, a, b, s, e):
    """name of the quadrant of [a,b]x[s,e] the box is, or None; with reason"""
    la, lb, lo, hi = edges(it, child)
    width = padd(poly(e), poly(s), -1)
    if isnum(e) and isnum(s):
        crossing = e < s
    else:
        crossing = not it.decide(it.v_lt(s, e))
    w = padd(width, poly(360)) if crossing else width
    midlat = mknum({k: v / 2 for k, v in padd(poly(a), poly(b)).items()})
    midlon = mknum(padd(poly(s), {k: v / 2 for k, v in w.items()}))
    for q, (n, east) in QUADS.items():
        lats = (midlat, b) if n else (a, midlat)
        lons = (midlon, e) if east else (s, midlon)
        if eqv(la, lats[0]) and eqv(lb, lats[1]) and same_point(it, lo, lons[0]) and same_point(it, hi, lons[1]):
            if not (in_range(it, lo) and in_range(it, hi)):
                return None, f"edges {show(lo)}..{show(hi)} outside -180:180"
            gw = it.call(it.getattr(child, "get_width"), [], {})
            gh = it.call(it.getattr(child, "get_height"), [], {})
            if not eqv(gw, mknum({k: v / 2 for k, v in w.items()})):
                return None, f"width {show(gw)} is not half of the parent's"
            return q, None
    return None, f"lat {show(la)}..{show(lb)} long {show(lo)}..{show(hi)} is no quadrant"


def four(chk, rule, construct, it, bds, a, b, s, e, order, desc):
    got = []
    for bd in bds:
        q, why = quadrant(it, bd, a, b, s, e)
        if q is None:
            chk.bad(rule, construct, f"{desc}: {why}")
            return None
        got.append(q)
    if not chk.require(sorted(got) == sorted(QUADS), rule, construct, f"{desc}: quadrants produced are {got}"):
        return None
    if order:
        chk.require(got == order, rule + "-order", construct, f"{desc}: quadrant order {got}, callers rely on {order}")
    return got


def cell_split(chk, name, a, b, s, e, dom):
    loaders = [Sym("loader0"), Sym("loader1")]
    MD = chk.prog.cls(MG + "metadata.Metadata")

    def setup(it):
        time = ListV(["2020-01-01", "2020-01-31"])
        cb = cellbox(it, boundary(it, [a, b], [s, e], time), "7")
        it.call(it.getattr(cb, "set_split_depth"), [Sym("depth")], {})
        it.call(it.getattr(cb, "set_minimum_datapoints"), [Sym("mindp")], {})
        mds = [it.call(MD, [l, Sym(f"conds{i}"), Sym(f"fill{i}"), Sym(f"subset{i}")], {}) for i, l in enumerate(loaders)]
        it.call(it.getattr(cb, "set_data_source"), [ListV(mds)], {})
        return it.getattr(cb, "split"), [Sym("id0")], {}, cb

    def dm():
        d = dom()
        # symbols and results of the opaque loader are values, not None
        base = d.decide
        d.decide = lambda b: False if b.op == "isnone" else base(b)
        return d
    C = "CellBox.split"
    for t in decided(chk, "cell-split", setup, dm):
        it = t.interp
        desc = f"box {name}"
        if t.outcome == "raise":
            chk.bad("cell-split", C, f"{desc}: raises {t.exc}", t.where)
            continue
        kids = it.items_of(t.value)
        if not chk.require(len(kids) == 4, "cell-split", C, f"{desc}: {len(kids)} children"):
            continue
        g = lambda o, n: it.call(it.getattr(o, n), [], {})
        bds = [g(k, "get_bounds") for k in kids]
        four(chk, "cell-quadrants", C, it, bds, a, b, s, e, None, desc)
        for i, (k, bd) in enumerate(zip(kids, bds)):
            chk.require(eqv(g(k, "get_split_depth"), mknum(padd(poly(Sym("depth")), poly(1)))), "child-depth", C,
                        f"{desc}: child depth {show(g(k, 'get_split_depth'))}")
            chk.require(g(k, "get_parent") is t.inputs, "child-parent", C, f"{desc}: child's parent is {show(g(k, 'get_parent'))}")
            tr = g(bd, "get_time_range")
            chk.require(freeze(tr) == Sym("list", "2020-01-01", "2020-01-31"), "child-time", C, f"{desc}: child's time range {show(tr)}")
            cid = g(k, "get_id")
            chk.require(cid == Sym("str", mknum(padd(poly(Sym("id0")), poly(i)))), "child-id", C,
                        f"{desc}: child {i} has id {show(cid)}")
            ds = it.items_of(g(k, "get_data_source"))
            if not chk.require(len(ds) == 2, "child-data", C, f"{desc}: child has {len(ds)} data sources, parent 2"):
                continue
            for j, m in enumerate(ds):
                chk.require(g(m, "get_data_loader") == loaders[j], "child-data", C, f"{desc}: source {j} loader {show(g(m, 'get_data_loader'))}")
                chk.require(g(m, "get_splitting_conditions") == Sym(f"conds{j}"), "child-data", C, f"{desc}: source {j} conditions {show(g(m, 'get_splitting_conditions'))}")
                chk.require(g(m, "get_value_fill_type") == Sym(f"fill{j}"), "child-data", C, f"{desc}: source {j} fill {show(g(m, 'get_value_fill_type'))}")
                sub = g(m, "get_data_subset")
                ok = any(ev.kind == "mcall" and ev.name == "trim_datapoints" and ev.result == sub and ev.args[0] == loaders[j]
                         and len(ev.args) > 1 and ev.args[1] is bd
                         and trimmed_from(ev, j) for ev in t.events)
                chk.require(ok, "child-data", C, f"{desc}: source {j} data {show(sub)} is not the loader's data trimmed to the child's bounds")
        # the parent itself is left alone
        chk.require(edges(it, g(t.inputs, "get_bounds")) == (a, b, s, e), "parent-kept", C, f"{desc}: split changes the parent's bounds")


def trimmed_from(ev, j):
    data = ev.kwargs.get("data", ev.args[2] if len(ev.args) > 2 else None)
    return data is None or data == Sym(f"subset{j}") or data == Sym("attr", Sym(f"loader{j}"), "data")


def bound_split(chk, name, a, b, s, e, dom):
    def setup(it):
        bd = boundary(it, [a, b], [s, e], ListV(["2020-01-01", "2020-01-31"]))
        return it.getattr(bd, "split"), [], {}, bd
    C = "Boundary.split"
    for t in decided(chk, "boundary-split", setup, dom):
        it = t.interp
        desc = f"boundary {name}"
        if t.outcome == "raise":
            chk.bad("boundary-split", C, f"{desc}: raises {t.exc}", t.where)
            continue
        bds = it.items_of(t.value)
        four(chk, "boundary-quadrants", C, it, bds, a, b, s, e, None, desc)
        for bd in bds:
            tr = it.call(it.getattr(bd, "get_time_range"), [], {})
            chk.require(freeze(tr) == Sym("list", "2020-01-01", "2020-01-31"), "boundary-time", C, f"{desc}: time range {show(tr)}")


def agg_split(chk, a, b):
    """EnvironmentMesh.sim_split_cellbox: quadrants, ids, copied data"""
    EM = chk.prog.cls(MG + "environment_mesh.EnvironmentMesh")
    AC = chk.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    lat = Chain([-90, a, b, 90])
    C = "EnvironmentMesh.sim_split_cellbox"
    for name, s, e, ch in longs():
        def setup(it):
            data = DictV([("SIC", Sym("v0")), ("uC", Sym("v1"))])
            cb = it.call(AC, [boundary(it, [a, b], [s, e]), data, "7"], {})
            other = it.call(AC, [boundary(it, [a, b], [s, e]), DictV([("SIC", Sym("w"))]), "12"], {})
            m = it.call(EM, [Sym("bounds"), ListV([cb, other]), Sym("ng"), DictV([])], {})
            return it.getattr(m, "sim_split_cellbox"), ["7"], {}, (cb, data)
        for t in decided(chk, "agg-split", setup, lambda: OrderDomain(ch, lat)):
            it = t.interp
            if t.outcome == "raise":
                chk.bad("agg-split", C, f"cell {name}: raises {t.exc}", t.where)
                continue
            kids = it.items_of(t.value)
            g = lambda o, n: it.call(it.getattr(o, n), [], {})
            four(chk, "agg-quadrants", C, it, [g(k, "get_bounds") for k in kids], a, b, s, e, None, f"cell {name}")
            ids = [g(k, "get_id") for k in kids]
            chk.require(sorted(map(show, ids)) == sorted(map(show, ["13", "14", "15", "16"])), "agg-ids", C, f"cell {name}: child ids {ids}, largest id in use 12")
            for k in kids:
                d = g(k, "get_agg_data")
                chk.require(isinstance(d, DictV) and d.get("SIC") == Sym("v0") and d.get("uC") == Sym("v1"), "agg-values", C,
                            f"cell {name}: child data {show(d)}")
                chk.require(isinstance(d, DictV) and (d.get("id") in (None, g(k, "get_id"))), "agg-ids", C, f"cell {name}: child id {g(k, 'get_id')} but data id {show(d.get('id'))}")
            ds = [id(g(k, "get_agg_data")) for k in kids]
            chk.require(len(set(ds)) == 4 and id(t.inputs[1]) not in ds, "agg-copies", C, f"cell {name}: children share one data dictionary")

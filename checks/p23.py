"""Looking up, selecting, removing, adding and updating the cells of a finished mesh."""
import itertools
from fractions import Fraction as F
from sa.heap import diff, snap
from sa.localmesh import *
from sa.report import Check
from sa.values import *
from .common import *
from .p04 import env_mesh
from .p06 import HOST, bnd, cfg, hosts, mk

RULE = ("over meshes of equal, halved and mixed cells at a symbolic place: a cell is found by its id as number or text and only then; the cells within, north, south, east and west of a region and on each edge of the mesh are exactly "
        "those the geometry says; removing, adding or updating a cell does exactly that to the cells and graph, and a position that is no cell's is refused; two cells are equal exactly when id, values and bounds are")

C = "EnvironmentMesh."
UNITS = [F(-5), F(-4), F(-3), F(-2), F(-1), F(0), F(1), F(2), F(3), F(4), F(5)]


def check(tier):
    chk = Check("P23", RULE, tier, minimum=200, assumptions=["the mesh is as loaded from file, and neither it nor the region crosses or touches the antimeridian"])
    jobs = []
    some = [(a, b) for a, b in itertools.combinations([-5, -4, -2, -1, 0, 1, 2, 4, 5] if not chk.thorough() else range(-5, 6), 2)]
    pick = [p for i, p in enumerate(itertools.product(some, some)) if chk.thorough() or i % 4 == 1]
    for hn, h in hosts():
        for i in range(0, len(pick), 30):
            jobs.append(("select", hn, h, pick[i:i + 30]))
        jobs.append(("lookup", hn, h))
        jobs.append(("edges", hn, h))
        for i in range(len(h)):
            jobs.append(("remove", hn, h, i))
        for i in range(0, len(pick), 7):
            jobs.append(("remove within", hn, h, pick[i]))
        for i in [-7, -2, -1, 0, 1, len(h) // 2, len(h) - 1, len(h), len(h) + 1, 1000]:
            jobs.append(("update", hn, h, i))
        jobs.append(("add", hn, h))
    for kind in ("cell", ):
        for what in ("same", "id", "value", "name", "extra value", "south", "north", "west", "east", "no cell"):
            jobs.append(("equal", kind, what))
    chk.parallel(jobs, lambda c, j: DO[j[0]](c, *j[1:]))
    return chk


def mesh(it, h, pl):
    return mk(it, pl, h, HOST, "a", 3, 2)


def drive(chk, rule, case, h, run, pl=None):
    """run(it, mesh, boxes, cells) inside the interpreter; yields (trace, inputs)"""
    pl = pl or Place(None)

    def setup(it):
        A = mesh(it, h, pl)
        return PyFn("driver", lambda i, a, k, node=None: run(i, A)), [], {}, A
    for t in decided(chk, rule, setup, lambda: Place(None).domain()):
        yield t


def ids(it, boxes):
    return [it.call(it.getattr(b, "get_id"), [], {}) for b in it.items_of(boxes)]


def region(it, pl, x, y):
    return boundary(it, [pl.lat(y[0]), pl.lat(y[1])], [pl.long(x[0], False), pl.long(x[1], True)])


SEL = {
    "within": lambda c, x, y: x[0] <= c.w and c.e <= x[1] and y[0] <= c.s and c.n <= y[1],
    "north_of": lambda c, x, y: c.s == y[1] and c.e >= x[0] and c.w <= x[1],
    "south_of": lambda c, x, y: c.n == y[0] and c.e >= x[0] and c.w <= x[1],
    "east_of": lambda c, x, y: c.w == x[1] and y[0] <= c.s and c.n <= y[1],
    "west_of": lambda c, x, y: c.e == x[0] and y[0] <= c.s and c.n <= y[1],
}


def select(chk, hn, h, picks):
    pl = Place(None)

    def run(it, A):
        out = []
        for x, y in picks:
            bd = region(it, pl, x, y)
            for s in SEL:
                out.append(it.call(it.getattr(A[0], f"get_cellboxes_{s}_bounds"), [bd], {}))
        return out
    for t in drive(chk, "select", hn, h, run):
        if not chk.require(t.exc is None, "select", C + "get_cellboxes_*_bounds", f"{hn}: raises {t.exc}", t.where):
            continue
        it, A = t.interp, t.inputs
        for n, ((x, y), s) in enumerate(itertools.product(picks, SEL)):
            want = [str(i) for i, c in A[3].items() if SEL[s](c, x, y)]
            got = ids(it, t.value[n])
            lost, extra = [i for i in want if i not in got], [i for i in got if i not in want]
            what = f"{hn} mesh, region {x[0]}:{x[1]} east {y[0]}:{y[1]} north: "
            if lost:
                chk.bad("select", C + f"get_cellboxes_{s}_bounds", what + f"the cell {A[3][int(lost[0])]} is not selected")
            elif extra:
                chk.bad("select", C + f"get_cellboxes_{s}_bounds", what + f"the cell {A[3].get(int(extra[0]), extra[0])} is selected")
            else:
                chk.require(len(got) == len(want), "select", C + f"get_cellboxes_{s}_bounds", what + "cells are selected more than once", sample=what + f"{s}: {len(want)} cells")


def lookup(chk, hn, h):
    asked = [("text", str), ("number", int)]

    def run(it, A):
        out = [it.call(it.getattr(A[0], "get_max_cellbox_id"), [], {})]
        for i in A[3]:
            out += [it.call(it.getattr(A[0], "get_cellbox"), [f(i)], {}) for _, f in asked]
        for i in (2, "2", 10 ** 6, "", "03"):
            out.append(it.call(it.getattr(A[0], "get_cellbox"), [i], {}))
        return out
    for t in drive(chk, "lookup", hn, h, run):
        if not chk.require(t.exc is None, "lookup", C + "get_cellbox", f"{hn}: raises {t.exc}", t.where):
            continue
        A = t.inputs
        box = {str(i): b for i, b in zip(A[3], A[2])}
        chk.require(t.value[0] == max(A[3]), "lookup", C + "get_max_cellbox_id", f"{hn} mesh: the greatest id is {show(t.value[0])} rather than {max(A[3])}", sample=f"{hn}: {max(A[3])}")
        for n, (i, (kind, f)) in enumerate(itertools.product(A[3], asked)):
            chk.require(t.value[1 + n] is box[str(i)], "lookup", C + "get_cellbox", f"{hn} mesh: the cell with id {f(i)!r} is {show(t.value[1 + n])}", sample=f"{hn}: {f(i)!r}")
        for i, v in zip((2, "2", 10 ** 6, "", "03"), t.value[1 + 2 * len(A[3]):]):
            chk.require(v is None, "lookup", C + "get_cellbox", f"{hn} mesh: there is no cell {i!r}, but one is found")


EDGES = {"top": lambda c: c.n == HOST[3] * 2, "bottom": lambda c: c.s == HOST[2] * 2, "left": lambda c: c.w == HOST[0] * 2, "right": lambda c: c.e == HOST[1] * 2}


def edges(chk, hn, h):
    def run(it, A):
        return [it.call(it.getattr(A[0], f"get_{e}_edge_cellboxes"), [], {}) for e in EDGES]
    for t in drive(chk, "edges", hn, h, run):
        if not chk.require(t.exc is None, "edges", C + "get_*_edge_cellboxes", f"{hn}: raises {t.exc}", t.where):
            continue
        for e, v in zip(EDGES, t.value):
            want = sorted(str(i) for i, c in t.inputs[3].items() if EDGES[e](c))
            chk.require(sorted(map(str, ids(t.interp, v))) == want, "edges", C + f"get_{e}_edge_cellboxes", f"{hn} mesh: the cells on the {e} edge are {ids(t.interp, v)} rather than {want}", sample=f"{hn} {e}: {len(want)} cells")


def state(it, A):
    g = it.call(it.getattr(it.getattr(A[0], "neighbour_graph"), "get_graph"), [], {})
    return [(b, snap(b)) for b in it.items_of(it.getattr(A[0], "agg_cellboxes"))], snap(g), snap(it.getattr(A[0], "config")), snap(it.getattr(A[0], "bounds"))


def gone(chk, rule, meth, what, t, drop):
    """the cells named in drop are gone from cells and graph, all else is as before"""
    it, A = t.interp, t.inputs
    before, now = t.value, state(it, A)
    keep = [b for (b, _), i in zip(before[0], A[3]) if str(i) not in drop]
    if not chk.require([id(b) for b, _ in now[0]] == [id(b) for b in keep], rule, C + meth, f"{what}: the mesh has {len(now[0])} cells rather than {len(keep)}, or others"):
        return
    chk.require(all(diff(s, snap(b)) is None for b, s in before[0] if any(b is k for k in keep)), rule, C + meth, f"{what}: another cell changes")
    chk.require(diff(before[2], now[2]) is None and diff(before[3], now[3]) is None, rule, C + meth, f"{what}: the configuration or extent of the mesh changes")
    live = {i: c for i, c in A[3].items() if str(i) not in drop}
    wg = graph(live)
    g = it.call(it.getattr(it.getattr(A[0], "neighbour_graph"), "get_graph"), [], {})
    if not chk.require(sorted(map(show, g.keys)) == sorted(show(str(i)) for i in live), rule, C + meth, f"{what}: the graph has nodes for {len(g.keys)} cells"):
        return
    for i in live:
        for d in DIRS:
            got = sorted(map(str, it.items_of(g.get(str(i)).get(str(d)))))
            chk.require(got == sorted(str(x) for x in wg[i][d]), rule, C + meth, f"{what}: direction {d} of {live[i]} lists {got}", sample=what)


def remove(chk, hn, h, n):
    def run(it, A):
        s = state(it, A)
        it.call(it.getattr(A[0], "remove_cellbox"), [A[2][n]], {})
        return s
    for t in drive(chk, "remove", hn, h, run):
        what = f"{hn} mesh, removing cell {h[n]}"
        if chk.require(t.exc is None, "remove", C + "remove_cellbox", f"{what}: raises {t.exc}", t.where):
            gone(chk, "remove", "remove_cellbox", what, t, {str(list(t.inputs[3])[n])})


def remove_within(chk, hn, h, p):
    pl = Place(None)
    x, y = p

    def run(it, A):
        s = state(it, A)
        it.call(it.getattr(A[0], "remove_cellboxes_within_bounds"), [region(it, pl, x, y)], {})
        return s
    for t in drive(chk, "remove", hn, h, run):
        what = f"{hn} mesh, removing cells within {x[0]}:{x[1]} east {y[0]}:{y[1]} north"
        if chk.require(t.exc is None, "remove", C + "remove_cellboxes_within_bounds", f"{what}: raises {t.exc}", t.where):
            gone(chk, "remove", "remove_cellboxes_within_bounds", what, t, {str(i) for i, c in t.inputs[3].items() if SEL["within"](c, x, y)})


def update(chk, hn, h, n):
    C_ = C + "update_cellbox"
    vals = DictV([("speed", Sym("new", 1)), ("SIC", Sym("new", 2)), ("fuel", ListV([Sym("new", 3), Sym("new", 4)]))])
    keep = {}

    def run(it, A):
        s = state(it, A)
        keep["values"] = snap(vals)
        it.call(it.getattr(A[0], "update_cellbox"), [n, vals], {})
        return s
    # what was there before must be seen from outside the call, as the call may refuse
    box = {}

    def outer(it, A):
        box["s"] = state(it, A)
        return run(it, A)
    for t in drive(chk, "update", hn, h, outer):
        it, A = t.interp, t.inputs
        what = f"{hn} mesh of {len(h)} cells, updating position {n}"
        before, now = box["s"], state(it, A)
        if not 0 <= n < len(h):
            chk.require(t.outcome == "raise", "update", C_, f"{what}: accepted", t.where, sample=what)
            want = None
        else:
            if not chk.require(t.exc is None, "update", C_, f"{what}: raises {t.exc}", t.where):
                continue
            want = A[2][n]
        chk.require(keep["values"] == snap(vals), "update", C_, f"{what}: the values passed in change")
        ok = [id(b) for b, _ in before[0]] == [id(b) for b, _ in now[0]] and before[1:] == now[1:]
        chk.require(ok, "update", C_, f"{what}: cells or graph change")
        for (b, s), (_, s2) in zip(before[0], now[0]):
            if b is not want:
                chk.require(diff(s, s2) is None, "update", C_, f"{what}: another cell changes, {diff(s, s2)}")
        if want is not None:
            d = it.call(it.getattr(want, "get_agg_data"), [], {})
            i = list(A[3])[n]
            got = {k: freeze(v) for k, v in d.pairs()} if isinstance(d, DictV) else None
            exp = {"SIC": Sym("new", 2), "depth": Sym("deptha", i), "speed": Sym("new", 1), "fuel": freeze(ListV([Sym("new", 3), Sym("new", 4)]))}
            chk.require(got is not None and {k: v for k, v in got.items() if k != "id"} == exp, "update", C_, f"{what}: the cell holds {show(d)}", sample=what)


def add(chk, hn, h):
    box = {}

    def run(it, A):
        pl = Place(None)
        AC = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
        box["new"] = it.call(AC, [region(it, pl, (F(4), F(6)), (F(0), F(2))), DictV([("SIC", Sym("new", 1))]), "999"], {})
        box["snap"] = snap(box["new"])
        s = state(it, A)
        it.call(it.getattr(A[0], "add_cellbox"), [box["new"]], {})
        return s
    for t in drive(chk, "add", hn, h, run):
        if not chk.require(t.exc is None, "add", C + "add_cellbox", f"{hn}: raises {t.exc}", t.where):
            continue
        now = state(t.interp, t.inputs)
        before = t.value
        chk.require([id(b) for b, _ in now[0]] == [id(b) for b, _ in before[0]] + [id(box["new"])], "add", C + "add_cellbox", f"{hn} mesh: after adding a cell the cells are others, or in another order", sample=f"{hn}: {len(now[0])} cells")
        chk.require(all(diff(s, s2) is None for (_, s), (_, s2) in zip(before[0], now[0])) and diff(box["snap"], snap(box["new"])) is None, "add", C + "add_cellbox", f"{hn} mesh: adding a cell changes a cell")


def equal(chk, kind, what):
    base = dict(lat=[Sym("lat", 0), Sym("lat", 1)], long=[Sym("long", 0), Sym("long", 1)])
    from sa.order import Chain, OrderDomain
    y, x = [-90, Sym("lat", 0), Sym("lat", 2), Sym("lat", 1), 90], [-180, Sym("long", 0), Sym("long", 2), Sym("long", 1), 180]
    o = {"south": ([2, 1], [0, 1]), "north": ([0, 2], [0, 1]), "west": ([0, 1], [2, 1]), "east": ([0, 1], [0, 2])}.get(what, ([0, 1], [0, 1]))

    def setup(it):
        AC = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
        a = it.call(AC, [boundary(it, base["lat"], base["long"]), DictV([("SIC", F(7, 2)), ("depth", -4)]), "5"], {})
        d = {"value": [("SIC", F(7, 2)), ("depth", -5)], "name": [("SIC", F(7, 2)), ("deep", -4)], "extra value": [("SIC", F(7, 2)), ("depth", -4), ("u", 0)]}
        b = it.call(AC, [boundary(it, [Sym("lat", i) for i in o[0]], [Sym("long", i) for i in o[1]]), DictV(d.get(what, [("SIC", F(7, 2)), ("depth", -4)])), "6" if what == "id" else "5"], {})
        if what == "no cell":
            b = "5"

        def run(i, args, k, node=None):
            import ast
            return ListV([bool(i.truth(i.compare(ast.Eq(), p, q, None), None)) for p, q in ((a, b), (b, a))])
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "equal", setup, lambda: OrderDomain(Chain(y), Chain(x))):
        if not chk.require(t.exc is None, "equal", "AggregatedCellBox.__eq__", f"cells with different {what}: raises {t.exc}", t.where):
            continue
        want = what == "same"
        chk.require(all(v is want for v in t.value.items), "equal", "AggregatedCellBox.__eq__", f"cells {'with the same id, values and bounds' if want else 'differing in ' + what} are {'equal' if not want else 'not equal'}", sample=what)


DO = {"select": select, "lookup": lookup, "edges": edges, "remove": remove, "remove within": remove_within, "update": update, "add": add, "equal": equal}

"""The initial grid tiles the region and its graph is geometric adjacency."""
from fractions import Fraction as F
from sa.interp import Domain, explore
from sa.localmesh import DIRS
from sa.order import HullDomain
from sa.program import AnchorLost
from sa.report import Check
from sa.values import *
from sa.values import _MISSING
from .common import *

RULE = ("(a) for grids of symbolic size, the initial neighbour map of a cell at symbolic row/column lists exactly the "
        "surrounding grid positions; (b) for every grid of 1..N columns and rows with symbolic origin and cell size, any "
        "position of the date line, and global grids of three or more columns, building a mesh yields cells that tile the region "
        "row by row from the south-west, ids equal to positions, and a graph equal to geometric adjacency (around the "
        "globe when global); (c) cell sizes that do not divide the region are rejected")

X0, CW, Y0, CH = Sym("long_min"), Sym("cell_width"), Sym("lat_min"), Sym("cell_height")


def check(tier):
    chk = Check("P05", RULE, tier, minimum=5000, assumptions=["coordinates are real numbers (no rounding)",
                                                               "meshes of three or more columns when global"])
    n = 8 if chk.thorough() else 5
    jobs = [("sym", l, r, d, u) for l in (0, 1) for r in (0, 1) for d in (0, 1) for u in (0, 1)]
    for W in range(1, n + 1):
        for H in range(1, n + 1):
            places = ["mid", "from-180", "to180"] + [F(k, 2) for k in range(1, 2 * W)]
            if not chk.thorough() and (W > 3 or H > 3):
                places = ["mid", F(1), F(1, 2), F(W) - 1]
            if W > 1:
                places += [(170, F(19, W)), (10, 5), (-180, F(5, 2)), (180 - 5 * W, 5), (180 - 3 * (W // 2), 3), (180, 5)]
            for pl in dict.fromkeys(places):
                jobs.append(("grid", W, H, pl))
    for W in range(3, n + 3):
        for H in range(1, n + 1):
            jobs.append(("grid", W, H, "global"))
    for W in (F(1, 2), F(3, 2), F(7, 3)):
        for pl in ("mid", F(1, 4)):
            jobs.append(("reject", W, F(2), pl))
            jobs.append(("reject", F(2), W, pl))
    for W in (F(7), F(11), F(25), F(400)):
        jobs.append(("reject", F(360) / W, F(2), "global"))
    chk.parallel(jobs, one)
    return chk


class NonNeg(Domain):
    """symbols are natural numbers; a polynomial with no negative coefficient is >= 0"""

    def __init__(self, W):
        self.W = W

    def sign(self, v):
        p = poly(v)
        out = {-1, 0, 1}
        if all(c >= 0 for c in p.values()):
            out = {1} if p.get((), 0) > 0 else {0, 1}
        elif all(c <= 0 for c in p.values()):
            out = {-1} if p.get((), 0) < 0 else {0, -1}
        return out

    def is_int(self, v):
        p = poly(v)
        return p is not None and all(c.denominator == 1 for c in p.values())

    def decide(self, b):
        return None

    def mod(self, it, x, m, node):
        # subtract multiples of W until 0 <= x < W is provable
        if mknum(poly(m)) != self.W:
            return None
        for k in self.ks:
            r = padd(poly(x), pmul(poly(k), poly(self.W)), -1)
            if self.sign(mknum(r)) <= {0, 1} and self.sign(mknum(padd(r, poly(self.W), -1))) == {-1}:
                return mknum(r)
        return None


def one(chk, job):
    if job[0] == "sym":
        return symbolic(chk, *job[1:])
    if job[0] == "grid":
        return grid(chk, *job[1:])
    return reject(chk, *job[1:])


def symbolic(chk, l, r, d, u):
    """cell with l,r,d,u in {0, 1+n} cells to its west/east/south/north"""
    try:
        NG = chk.prog.cls(MG + "neighbour_graph.NeighbourGraph")
    except AnchorLost:
        raise
    if NG.lookup("initialise_map")[0] is None:
        return
    def num(f, name):
        return mknum(padd(poly(1), poly(Sym(name)))) if f else 0
    L, R, D, U = num(l, "w"), num(r, "e"), num(d, "s"), num(u, "n")
    W = mknum(padd(padd(poly(L), poly(R)), poly(1)))
    idx = mknum(padd(pmul(poly(D), poly(W)), poly(L)))
    ln = mknum(pmul(padd(padd(poly(D), poly(U)), poly(1)), poly(W)))
    C = "NeighbourGraph.initialise_map"

    def factory():
        dm = NonNeg(W)
        dm.ks = [D, mknum(padd(poly(D), poly(1))), mknum(padd(poly(D), poly(1), -1))]
        return dm

    def setup(it):
        ng = it.call(NG, [], {})
        return it.getattr(ng, "initialise_map"), [idx, W, ln], {}, None
    desc = f"cell with {show(L)} columns west, {show(R)} east, {show(D)} rows south, {show(U)} north"
    def at(dx, dy):
        return mknum(padd(padd(poly(idx), poly(dx)), pmul(poly(dy), poly(W))))
    want = {1: (r and u, at(1, 1)), 2: (r, at(1, 0)), 3: (r and d, at(1, -1)), 4: (d, at(0, -1)),
            -1: (l and d, at(-1, -1)), -2: (l, at(-1, 0)), -3: (l and u, at(-1, 1)), -4: (u, at(0, 1))}
    for t in decided(chk, "initial-map", setup, factory):
        if t.outcome == "raise":
            chk.bad("initial-map", C, f"{desc}: raises {t.exc}", t.where)
            continue
        if not isinstance(t.value, DictV):
            chk.undec("initial-map", "not a map")
            continue
        for k in DIRS:
            got = t.value.get(k)
            has, v = want[k]
            ok = isinstance(got, ListV) and len(got.items) == (1 if has else 0) and all(eqv(x, v) for x in got.items)
            chk.require(ok, "initial-map", C, f"{desc}: direction {k} lists {show(got)}, expected {[show(v)] if has else []}")


def region(W, H, pl):
    """(lat range, long range, cell sizes, domain factory, edge(i)) for a W x H grid"""
    W, H = F(W), F(H)
    lat0, lat1 = Y0, mknum(padd(poly(Y0), pmul(poly(CH), poly(H))))
    latg = ((Y0, CH), [(-90, 0), (90, 0), (-90, F(180) / H)])
    cw = CW
    if pl == "global":
        x0, x1, cw = -180, 180, mknum(poly(F(360) / W))
        groups = [latg]
    elif isinstance(pl, tuple):
        x0, cw = F(pl[0]), F(pl[1])
        x1 = x0 + cw * W
        x0, x1, cw = (mknum(poly(x)) for x in (x0, x1 if x1 <= 180 else x1 - 360, cw))
        return (-F(3), -F(3) + F(5, 2) * H), (x0, x1), (cw, F(5, 2)), (lambda: HullDomain())
    elif pl == "mid":
        x0, x1 = X0, mknum(padd(poly(X0), pmul(poly(CW), poly(W))))
        groups = [latg, ((X0, CW), [(-180, 0), (180, 0), (-180, F(360) / W)])]
    elif pl == "from-180":
        x0, x1 = -180, mknum(padd(poly(-180), pmul(poly(CW), poly(W))))
        groups = [latg, ((CW,), [(0,), (F(360) / W,)])]
    elif pl == "to180":
        x0, x1 = mknum(padd(poly(180), pmul(poly(CW), poly(W)), -1)), 180
        groups = [latg, ((CW,), [(0,), (F(360) / W,)])]
    else:
        x0 = mknum(padd(poly(180), pmul(poly(CW), poly(pl)), -1))
        x1 = mknum(padd(poly(-180), pmul(poly(CW), poly(W - pl))))
        groups = [latg, ((CW,), [(0,), (F(360) / W,)])]
    return (lat0, lat1), (x0, x1), (cw, CH), (lambda: HullDomain(*groups))


def config(lat, long, size):
    return DictV([("region", DictV([
        ("lat_min", lat[0]), ("lat_max", lat[1]), ("long_min", long[0]), ("long_max", long[1]),
        ("start_time", "2017-02-01"), ("end_time", "2017-02-04"), ("cell_width", size[0]), ("cell_height", size[1])])),
        ("data_sources", ListV([])), ("splitting", DictV([("split_depth", 2), ("minimum_datapoints", 5)]))])


def build(it, cfg):
    return it.call(it.prog.cls(MG + "mesh_builder.MeshBuilder"), [cfg], {})


def grid(chk, W, H, pl):
    lat, long, size, dom = region(W, H, pl)
    C = "MeshBuilder.__init__"
    desc = f"{W} x {H} grid, " + ("global" if pl == "global" else f"from {pl[0]} in steps of {pl[1]}" if isinstance(pl, tuple) else str(pl) if isinstance(pl, str) else f"date line {pl} columns from the west edge")
    box = {}

    def setup(it):
        def run(i, a, k, node=None):
            return build(i, config(lat, long, size))
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "grid", setup, dom):
        if t.outcome == "raise":
            chk.bad("grid", C, f"{desc}: raises {t.exc}", t.where)
            continue
        it = t.interp
        mesh = it.getattr(t.value, "mesh")
        boxes = it.items_of(it.getattr(mesh, "cellboxes"))
        if not chk.require(len(boxes) == W * H, "grid-cells", C, f"{desc}: {len(boxes)} cells"):
            continue
        ok = True
        for n, b in enumerate(boxes):
            j, i = divmod(n, W)
            g = lambda nm: it.call(it.getattr(it.call(it.getattr(b, "get_bounds"), [], {}), nm), [], {})
            exp = [mknum(padd(poly(lat[0]), pmul(poly(size[1]), poly(j + e)))) for e in (0, 1)]
            we, ee = (mknum(padd(poly(long[0]), pmul(poly(size[0]), poly(i + e)))) for e in (0, 1))
            w, e = g("get_long_min"), g("get_long_max")
            good = eqv(g("get_lat_min"), exp[0]) and eqv(g("get_lat_max"), exp[1]) and mod360(w, we) and mod360(e, ee)
            ok &= chk.require(good, "grid-cells", C, f"{desc}: cell {n} spans long {show(w)}..{show(e)}, expected {show(we)}..{show(ee)}")
            for x, nm in ((w, "west"), (e, "east")):
                s = it.dom.sign(mknum(padd(poly(x), poly(180), -1))) | {0}, it.dom.sign(mknum(padd(poly(x), poly(180)))) | {0}
                chk.require(1 not in s[0] and -1 not in s[1], "grid-domain", C, f"{desc}: {nm} edge {show(x)} of cell {n} may leave -180:180")
            chk.require(it.dom.sign(mknum(padd(poly(e), poly(180)))) == {1}, "grid-domain", C,
                        f"{desc}: east edge {show(e)} of cell {n} is not in (-180, 180]")
            # a date-line edge must be written so that the cell keeps its own width
            wd = g("get_width")
            chk.require(eqv(wd, size[0]), "grid-cells", C, f"{desc}: cell {n} has width {show(wd)}")
            cid = it.call(it.getattr(b, "get_id"), [], {})
            chk.require(cid == str(n), "grid-ids", C, f"{desc}: cell {n} has id {show(cid)}")
        ng = it.getattr(t.value, "neighbour_graph")
        g = it.call(it.getattr(ng, "get_graph"), [], {})
        chk.require(it.getattr(mesh, "neighbour_graph") is ng, "grid-graph", C, f"{desc}: mesh and builder hold different graphs")
        if not chk.require(sorted(map(show, g.keys)) == sorted(map(show, range(W * H))), "grid-graph", C, f"{desc}: nodes {show(ListV(g.keys))}"):
            continue
        glob = it.truth(it.call(it.getattr(ng, "is_global_mesh"), [], {}))
        chk.require(glob == (pl == "global"), "grid-global", C, f"{desc}: global flag is {glob}")
        for n in range(W * H):
            y, x = divmod(n, W)
            m = g.get(n)
            for k, (dx, dy) in {1: (1, 1), 2: (1, 0), 3: (1, -1), 4: (0, -1), -1: (-1, -1), -2: (-1, 0), -3: (-1, 1), -4: (0, 1)}.items():
                xx, yy = x + dx, y + dy
                if pl == "global":
                    xx %= W
                w = [yy * W + xx] if 0 <= xx < W and 0 <= yy < H else []
                got = m.get(k)
                got = it.items_of(got) if got is not None else None
                chk.require(got is not None and sorted(map(show, got)) == sorted(map(show, w)), "grid-graph", C,
                            f"{desc}: direction {k} of cell {n} lists {got}, geometry says {w}")


def mod360(a, b):
    v = mknum(padd(poly(a), poly(b), -1))
    return isnum(v) and v % 360 == 0


def reject(chk, W, H, pl):
    lat, long, size, dom = region(W, H, pl)

    def setup(it):
        return PyFn("driver", lambda i, a, k, node=None: build(i, config(lat, long, size))), [], {}, None
    desc = f"region of {W} x {H} cells" + (" around the globe" if pl == "global" else "")
    for t in decided(chk, "reject", setup, dom):
        ok = t.outcome == "raise" and getattr(t.value, "tname", "") in ("AssertionError", "ValueError")
        chk.require(ok, "reject", "MeshBuilder.__init__", f"{desc}: cell size does not divide it, but " + ("it is accepted" if t.outcome != "raise" else f"only {t.value} follows"))

"""Finding the cell at a point, and refining a mesh around points."""
from fractions import Fraction as F
from sa.localmesh import *
from sa.order import HullDomain
from sa.report import Check
from sa.values import *
from .common import *
from .p03 import box_cell
from .p04 import compare, env_mesh

RULE = ("on local meshes with symbolic place and size, for every gap of the grid lines the point can lie in: a cell contains the point exactly when its box does, the mesh is "
        "reported to contain it exactly when a cell does, the id looked up is that cell's; refining around points replaces exactly the cells strictly containing a point, quarter by quarter, "
        "until width or height is down to the configured minimum, with values inherited and the graph equal to geometry; a point on an edge never raises")

PY, PX = Sym("point_lat"), Sym("point_long")


class TextH(HullDomain):
    text = True


class Spot:
    """a point in half-cell units: each coordinate a number (on that line) or an open interval (lo, hi)"""

    def __init__(self, y, x):
        self.y, self.x = y, x

    def __repr__(self):
        f = lambda v: f"between {v[0]} and {v[1]}" if isinstance(v, tuple) else f"at {v}"
        return f"lat {f(self.y)}, long {f(self.x)}"

    def mid(self):
        f = lambda v: (F(v[0]) + F(v[1])) / 2 if isinstance(v, tuple) else F(v)
        return f(self.y), f(self.x)

    def inside(self, c):
        y, x = self.mid()
        return c.s < y < c.n and c.w < x < c.e

    def touches(self, c):
        y, x = self.mid()
        return c.s <= y <= c.n and c.w <= x <= c.e


def long_at(pl, k, side=None):
    """longitude of unit position k as a polynomial; on the date line by side"""
    if pl.seam is not None and F(k) == pl.seam:
        return 180 if side != "e" else -180
    return pl.long(k, True)


def domain(pl, spots):
    """symbols of the place plus those of each point"""
    def build():
        lv = [(F(-90), F(0)), (F(90), F(0)), (F(0), F(90, 8))]
        if pl.seam is None:
            ls, ov = [XM, XH], [(F(-180), F(0)), (F(180), F(0)), (F(0), F(180, 8))]
        else:
            ls, ov = [XH], [(F(0),), (F(18),)]
        ys, xs = [YM, YH], list(ls)
        for i, s in enumerate(spots):
            if isinstance(s.y, tuple):
                ys.append(Sym(PY.op, i))
                lv = [v + (v[0] + F(k) * v[1],) for v in lv for k in s.y]
            if isinstance(s.x, tuple):
                xs.append(Sym(PX.op, i))
                if pl.seam is None:
                    ov = [v + (v[0] + F(k) * v[1],) for v in ov for k in s.x]
                else:
                    base = 180 if F(s.x[1]) <= pl.seam else -180
                    ov = [v + (F(base) + (F(k) - pl.seam) * v[0],) for v in ov for k in s.x]
        return TextH((tuple(ys), dedup(lv)), (tuple(xs), dedup(ov)))
    return build


def dedup(vs):
    return list(dict.fromkeys(vs))


def value(pl, s, i):
    y = Sym(PY.op, i) if isinstance(s.y, tuple) else pl.lat(s.y)
    x = Sym(PX.op, i) if isinstance(s.x, tuple) else long_at(pl, s.x)
    return TupleV([y, x])


def ok_place(pl, spot):
    """the gap must not straddle the date line"""
    return pl.seam is None or not isinstance(spot.x, tuple) or not (spot.x[0] < pl.seam < spot.x[1])


PL = [Place(None), Place(0), Place(1), Place(-1), Place(F(-1, 2)), Place(3), Place(-1, True)]
P_ = Cell(-1, 1, -1, 1)
MAXSTEPS = 400000        # ten times what the largest case takes


def gaps(seam, *ks):
    ks = sorted({F(k) for k in ks} | ({seam} if seam is not None and min(ks) < seam < max(ks) else set()))
    return list(zip(ks, ks[1:]))


NAMES = ("alone", "uniform grid", "half-size surroundings", "quarter-size surroundings", "SW quadrant of a split cell", "mixed sizes")


def check(tier):
    chk = Check("P15", RULE, tier, minimum=300, assumptions=["meshes of three or more columns", "points on an edge of a cell or on the antimeridian itself: only the absence of errors and the consistency of the mesh"])
    jobs = []
    ms = [(n, o) for n, o in meshes() if n in NAMES]
    Q = [F(-1), F(-1, 2), F(0), F(1, 2), F(1)]
    for pl in PL:
        # one cell, point in each of the gaps around and inside it
        for y in gaps(None, -3, -1, 1, 3):
            for x in gaps(pl.seam, -3, -1, 1, 3):
                jobs.append(("cell", pl, Spot(y, x)))
        for name, others in ms:
            if not chk.thorough() and pl.seam not in (None, 0) and name.startswith(("half", "quarter")):
                continue
            ys = gaps(None, *sorted({v for c in [P_] + others for v in (c.s, c.n)} | {F(-8), F(8)}))
            xs = gaps(pl.seam, *sorted({v for c in [P_] + others for v in (c.w, c.e)} | {F(-8), F(8)}))
            for i, y in enumerate(ys):
                for j, x in enumerate(xs):
                    if not chk.thorough() and pl.seam not in (None, 0) and (i + j) % 2:
                        continue
                    jobs.append(("find", name, others, pl, Spot(y, x)))
    # refinement: minimum size in half cells (height, width), point in P_
    for pl in PL:
        for name, others in ms:
            for mh, mw, depth in ((2, 2, 0), (1, 1, 1), (F(1, 2), F(1, 2), 2), (F(1, 2), 1, 1), (1, F(1, 2), 1), (4, 4, 1), (F(3, 4), F(3, 4), 1)):
                if mh == mw == F(1, 2):
                    sp = [Spot(y, x) for y in gaps(None, *Q) for x in gaps(pl.seam, *Q)]
                else:
                    sp = [Spot(y, x) for y in gaps(None, -1, 0, 1) for x in gaps(pl.seam, -1, 0, 1)]
                if not chk.thorough():
                    if pl.seam not in (None, 0) and (depth, mh) != (2, F(1, 2)):
                        continue
                    if pl.seam not in (None, 0) and name.startswith(("half", "quarter")):
                        continue
                    if name not in ("alone", "uniform grid"):
                        sp = sp[::3]
                for s in sp:
                    jobs.append(("refine", name, others, pl, [s], (mh, mw, depth)))
    # lines, two points, other cells, outside
    for pl in PL[:5]:
        for name, others in ms[:3]:
            h = (F(1, 2), F(1, 2), 2)
            for y, x in ((0, 0), (0, (F(1, 2), 1)), ((-1, F(-1, 2)), 0), (F(1, 2), F(-1, 2)), (1, (0, F(1, 2))), (1, 1), (F(1, 2), (F(1, 2), 1)), ((0, F(1, 2)), -1)):
                s = Spot(y, x)
                if ok_place(pl, s):
                    jobs.append(("refine", name, others, pl, [s], h))
            a, b, c, d = Spot((0, F(1, 2)), (F(1, 2), 1)), Spot((F(-1), F(-1, 2)), (F(-1), F(-1, 2))), Spot((F(1, 2), 1), (F(1, 2), 1)), Spot((5, 8), (5, 8))
            e = Spot((F(1), F(2)), (F(0), F(1, 2)))
            z = Spot(0, 0)
            for ss in ([a, b], [a, c], [b, d], [d, a], [d], [e, a], [a, e, b], [a, a], [z, a], [a, z]):
                if all(ok_place(pl, s) for s in ss):
                    jobs.append(("refine", name, others, pl, ss, h))
    chk.parallel(jobs, lambda c, j: {"cell": cell, "find": find, "refine": refine}[j[0]](c, *j[1:]))
    return chk


def cell(chk, pl, spot):
    rule, C = "contains", "AggregatedCellBox.contains_point"
    want = spot.inside(P_)

    def setup(it):
        m, ng, boxes = env_mesh(it, {4: P_}, pl, [4])
        return it.getattr(boxes[0], "contains_point"), list(value(pl, spot, 0).items), {}, None
    for t in decided(chk, rule, setup, domain(pl, [spot])):
        if t.outcome == "raise":
            chk.bad(rule, C, f"{pl}, point {spot}: raises {t.exc}", t.where)
        elif isinstance(t.value, bool):
            chk.require(t.value is want, rule, C, f"{pl}, point {spot} of the cell -1..1: reported {t.value}")
        else:
            chk.undec(rule, f"answer {show(t.value)}")


def find(chk, name, others, pl, spot):
    rule = "find"
    ids = [4] + [7 + 2 * i for i in range(len(others))]
    cells = dict(zip(ids, [P_] + list(others)))
    order = ids[2:] + ids[:2]
    want = [i for i in ids if spot.inside(cells[i])]
    pt = value(pl, spot, 0)
    for q in ("query_inside_mesh", "query_index"):
        C = "EnvironmentMesh." + q

        def setup(it):
            m, ng, boxes = env_mesh(it, cells, pl, order)
            return it.getattr(m, q), [pt], {}, m
        for t in decided(chk, rule, setup, domain(pl, [spot])):
            d = f"{name}, {pl}, point {spot}"
            if q == "query_inside_mesh":
                if t.outcome == "raise":
                    chk.bad(rule, C, f"{d}: raises {t.exc}", t.where)
                elif isinstance(t.value, bool):
                    chk.require(t.value is bool(want), rule, C, f"{d}: reported {t.value}")
                else:
                    chk.undec(rule, f"answer {show(t.value)}")
            elif want:
                if t.outcome == "raise":
                    chk.bad(rule, C, f"{d}: raises {t.exc} for a point of cell {want[0]}", t.where)
                else:
                    chk.require(t.value == str(want[0]), rule, C, f"{d}: gives {show(t.value)}, the point lies in cell {want[0]}")
            else:
                chk.require(t.outcome == "raise", rule, C, f"{d}: gives {show(t.value) if t.outcome != 'raise' else ''} for a point outside the mesh")


def leaves(cells, spots, mh, mw):
    """expected cells, or None where a point falls on an edge"""
    out = list(cells)
    for s in spots:
        while True:
            hit = [c for c in out if s.inside(c)]
            if not hit:
                if any(s.touches(c) for c in out):
                    return None
                break
            c = hit[0]
            if c.e - c.w <= mw or c.n - c.s <= mh:
                break
            out.remove(c)
            out += list(c.quads().values())
    return out


def quartering(have, start, spots):
    """cells (set of keys) arise from start by quartering cells that touch a point"""
    todo, left = list(start), dict(have)
    n = 0
    while todo:
        n += 1
        if n > 2000:
            return False
        c = todo.pop()
        if c.key() in left:
            del left[c.key()]
            continue
        if not any(s.touches(c) for s in spots) or c.e - c.w < F(1, 64):
            return False
        todo += list(c.quads().values())
    return not left


def refine(chk, name, others, pl, spots, size):
    mh, mw, depth = size
    rule, C = "refine", "EnvironmentMesh.split_points"
    ids = [4] + [7 + 2 * i for i in range(len(others))]
    cells = dict(zip(ids, [P_] + list(others)))
    order = ids[2:] + ids[:2]
    want = leaves(cells.values(), spots, mh, mw)
    cfg = DictV([("region", DictV([("cell_width", mknum(pmul(poly(XH), poly(F(mw) * 2 ** depth)))), ("cell_height", mknum(pmul(poly(YH), poly(F(mh) * 2 ** depth))))])),
                 ("splitting", DictV([("split_depth", depth), ("minimum_datapoints", 5)]))])
    pts = [value(pl, s, i) for i, s in enumerate(spots)]
    desc = f"{name}, {pl}, smallest cell {mw} by {mh} half cells (depth {depth}), point(s) {spots}"

    def setup(it):
        m, ng, boxes = env_mesh(it, cells, pl, order, config=cfg)
        return it.getattr(m, "split_points"), [ListV(list(pts))], {}, (m, ng)
    def runaway(e):
        chk.bad(rule + "-ends", C, f"{desc}: does not end (more than {MAXSTEPS} steps, {e})", e.where)
    for t in decided(chk, rule, setup, domain(pl, spots), runaway=runaway, max_steps=MAXSTEPS):
        if t.outcome == "raise":
            chk.bad(rule, C, f"{desc}: raises {t.exc}", t.where)
            continue
        it = t.interp
        w = want
        if w is None:
            w = found(chk, rule, C, it, t.inputs[0], pl, cells.values(), spots, desc)
            if w is None:
                continue
        compare(chk, rule, C, it, t.inputs, w, pl, desc, cells)


def found(chk, rule, C, it, m, pl, start, spots, desc):
    """cells present, when they are a quartering of the start around the points"""
    cand, have = [], {}
    todo = [(c, 0) for c in start]
    while todo:
        c, d = todo.pop()
        cand.append(c)
        if d < 4 and any(s.touches(c) for s in spots):
            todo += [(q, d + 1) for q in c.quads().values()]
    for b in it.items_of(it.getattr(m, "agg_cellboxes")):
        c = box_cell(it, it.call(it.getattr(b, "get_bounds"), [], {}), pl, cand)
        if c is None:
            chk.bad(rule + "-cells", C, f"{desc}: a cell is neither an original cell nor a quarter of one at the point")
            return None
        have[c.key()] = c
    if not chk.require(quartering(have, start, spots), rule + "-cells", C, f"{desc}: cells {sorted(map(repr, have.values()))} are not the original cells quartered around the point"):
        return None
    return list(have.values())

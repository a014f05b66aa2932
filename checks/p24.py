"""Synthetic shapes: the grid and values of circles, rectangles, gradients and checkerboards."""
import itertools
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .p18 import S, V, absv

RULE = ("import_data of the scalar and vector shape loaders, over regions, numbers of points, centres (configured, in part, not at all), radii, sizes, directions, square sizes and multipliers: the data is a grid of the configured "
        "numbers of evenly spaced latitudes and longitudes from limit to limit, and the value at each point is the one the shape's definition gives")

SC, VE = S + "shape.ShapeDataLoader", V + "vector_shape.VectorShapeDataLoader"
REGIONS = {"south": ([-60, -50], [10, 30]), "around 0": ([-4, 6], [-3, 7]), "globe": ([-90, 90], [-180, 180]), "west": ([10, 14], [-170, -160]), "up to the date line": ([40, 50], [172, 180]), "small": ([F(1, 2), F(3, 2)], [-1, 0])}


class Arrays(OrderDomain):
    ndarrays = True
    text = True


DOM = lambda: Arrays(Chain([-90, 90]), Chain([-180, 180]))


def grid(lo, hi, n, end=True):
    return [lo + F(hi - lo) * i / (n - 1 if end else n) for i in range(n)]


def check(tier):
    chk = Check("P24", RULE, tier, minimum=50, assumptions=["the region does not cross the antimeridian and there are at least two points each way"])
    jobs = []
    sizes = [(5, 5), (4, 7), (7, 4), (2, 3), (3, 2)] + ([(9, 6), (6, 9), (11, 11)] if chk.thorough() else [])
    for rn, (la, lo) in REGIONS.items():
        for i, (nx, ny) in enumerate(sizes):
            ys, xs = grid(*la, ny), grid(*lo, nx)
            my, mx = F(la[0] + la[1]) / 2, F(lo[0] + lo[1]) / 2
            h, w = la[1] - la[0], lo[1] - lo[0]
            centres = [None, (ys[0], xs[-1]), (my, mx + F(w) / 5), (None, xs[1]), (ys[1], None), (my + F(h) / 7, None)]
            centres += [c for c in [(0, 0), (0, mx), (my, 0), (0, None), (None, 0)] if rn in ("around 0", "globe", "small")]
            for j, c in enumerate(centres):
                m = [F(7, 2), -3, 1][(i + j) % 3]
                mv = [-2, F(1, 2), 4][(i + 2 * j) % 3]
                for r in {F(w) / 2, F(h) / 3, xs[1] - xs[0], F(3, 2), 0}:
                    jobs.append((rn, "circle", nx, ny, dict(centre=c, radius=r), m, mv))
                for p in {(F(w) / 3, F(h) / 4), (xs[1] - xs[0], 0), (1, 3), (F(w) / 4, h)}:
                    jobs.append((rn, "rectangle", nx, ny, dict(centre=c, width=p[0], height=p[1]), m, mv))
            for vert in (True, False):
                for m, mv in ((1, 1), (F(7, 2), -2), (-3, 0)):
                    jobs.append((rn, "gradient", nx, ny, dict(vertical=vert), m, mv))
            for gs in {(F(w) / nx, F(h) / ny), (1, 2), (F(w) / 3, F(h) / 2), (3, 1), (F(w) * 2, F(h) / ny)}:
                jobs.append((rn, "checkerboard", nx, ny, dict(gridsize=gs), 1, 1))
    jobs += [("south", "blob", 3, 3, {}, 1, 1)]
    # settings not configured
    for sh in ("circle", "rectangle", "gradient", "checkerboard"):
        jobs += [(rn, sh, 5, 4, None, 1, 1) for rn in ("around 0", "south")]
    chk.parallel([jobs[i::16] for i in range(16)], lambda c, js: [one(c, *j) for j in js])
    return chk


def wanted(sh, la, lo, nx, ny, p):
    end = sh != "checkerboard"
    ys, xs = grid(*la, ny, end), grid(*lo, nx, end)
    c = p.get("centre") or (None, None)
    cy = ys[ny // 2] if c[0] is None else c[0]
    cx = xs[nx // 2] if c[1] is None else c[1]
    out = {}
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            if sh == "circle":
                v = 1 if (x - cx) ** 2 + (y - cy) ** 2 <= F(p["radius"]) ** 2 else 0
            elif sh == "rectangle":
                v = 1 if abs(x - cx) <= p["width"] and abs(y - cy) <= p["height"] else 0
            elif sh == "gradient":
                v = F(i, ny - 1) if p["vertical"] else F(j, nx - 1)
            else:
                gw, gh = p["gridsize"]
                v = (F(y - la[0]) / gh // 1 + F(x - lo[0]) / gw // 1) % 2
            out[y, x] = v
    return out


DEFAULT = {"circle": dict(radius=1), "rectangle": dict(width=1, height=1), "gradient": dict(vertical=True), "checkerboard": dict(gridsize=(1, 1))}


def one(chk, rn, sh, nx, ny, conf, m, mv):
    la, lo = REGIONS[rn]
    for kind, q in (("scalar", SC), ("vector", VE)):
        if kind == "vector" and sh == "checkerboard":
            continue
        name = ("vector_" if kind == "vector" else "") + sh
        rule, C = f"{kind} {sh}", q.split(".")[-1] + ".import_data"
        case = f"{sh}, {nx} by {ny} points, region {rn} {la}, {lo}, {conf}, multiplied by {m}" + (f" and {mv}" if kind == "vector" else "")

        def setup(it):
            o = ObjV(it.prog.cls(q))
            p = {"dataloader_name": name, "nx": nx, "ny": ny}
            p.update({"multiplier": m} if kind == "scalar" else {"multiplier_u": m, "multiplier_v": mv})
            p.update({k: v for k, v in (conf or {}).items() if v is not None})
            if p.get("centre"):
                p["centre"] = list(p["centre"])
            p = it.call(it.getattr(o, "add_default_params"), [absv(p)], {})
            for k, v in p.pairs():
                o.attrs[k] = v
            return it.getattr(o, "import_data"), [boundary(it, la, lo)], {}, None
        for t in decided(chk, rule, setup, DOM):
            if sh == "blob":
                expect(chk, rule, C, case, t.outcome == "raise", "refused", "accepted", t)
                continue
            if t.outcome != "return":
                expect(chk, rule, C, case, False, "a grid of values", f"raises {t.exc}", t)
                continue
            want = wanted(sh, la, lo, nx, ny, conf or DEFAULT[sh])
            got = t.value
            if isinstance(got, FrameV):
                if not {"lat", "long"} <= set(got.cols):
                    expect(chk, rule, C, case, False, "columns lat and long", sorted(got.cols), t)
                    continue
                have = {}
                for i in range(got.nrows):
                    have.setdefault((got.cols["lat"][i], got.cols["long"][i]), []).append([v[i] for c, v in got.cols.items() if c not in ("lat", "long")])
                names = [c for c in got.cols if c not in ("lat", "long")]
            elif isinstance(got, DatasetV) and set(got.dims) == {"lat", "long"}:
                have, names = {}, list(got.vars)
                for i, y in enumerate(got.coords["lat"]):
                    for j, x in enumerate(got.coords["long"]):
                        have.setdefault((y, x), []).append([v.at({"lat": i, "long": j}) for v in got.vars.values()])
            else:
                chk.undec(rule, f"the result is {show(got)}")
                continue
            expect(chk, rule, C, case, len(names) == (1 if kind == "scalar" else 2), "one value per component", f"values {names}", t)
            expect(chk, rule, C, case, all(len(v) == 1 for v in have.values()) and set(have) == set(want), f"points {pts(want)}", f"points {pts(have)}", t)
            for pt, v in want.items():
                g = have.get(pt)
                if not g or len(g[0]) != (1 if kind == "scalar" else 2):
                    continue
                if kind == "scalar":
                    w = [v * m]
                elif sh == "gradient":
                    vert = (conf or DEFAULT[sh])["vertical"]
                    w = [0, v * mv] if vert else [v * m, 0]
                else:
                    w = [v * m, v * mv]
                ok = all(num(x) is not None and num(x) == y for x, y in zip(g[0], w))
                expect(chk, rule, C, case, ok, f"at latitude {pt[0]}, longitude {pt[1]}: {[str(x) for x in w]}", f"{[show(x) for x in g[0]]}", t)


def expect(chk, rule, C, case, ok, want, got, t):
    chk.require(ok, rule, C, f"{case}: expected {want}, got {got}", t.where, sample=case)


def num(x):
    if isinstance(x, bool):
        return int(x)
    return as_fraction(x) if isnum(x) else None


def pts(d):
    return f"latitudes {sorted({str(p[0]) for p in d})}, longitudes {sorted({str(p[1]) for p in d})}"

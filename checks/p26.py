"""Random field sources scale, clip and place the field as configured."""
import itertools
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.tables import trig
from sa.values import *
from sa.values import as_fraction
from .common import *

RULE = ("with the underlying random field replaced by arbitrary normalised fields (a function of the seed, the number of the draw, the size and the exponent): import_data gives one value per point of an even grid over the region, limits included; "
        "binary: whether the field reaches the threshold; scalar: the field clipped to the thresholds, stretched to 0:1, scaled to min:max, then times the multiplier plus the offset; "
        "vector: magnitude from the first draw scaled to min:max, direction 360 degrees times the second, eastward component its sine and northward its cosine; the configured seed is set before the first draw")

Q = {"scalar": "meshiphi.dataloaders.scalar.scalar_grf.ScalarGRFDataLoader", "vector": "meshiphi.dataloaders.vector.vector_grf.VectorGRFDataLoader"}
REGIONS = [((-60, -45), (-30, 30)), ((0, 10), (100, 180)), ((-5, 7), (-180, -170))]
PI = F(355, 113)
THRESH = [[0, 1], [F(1, 4), F(3, 4)], [0, F(1, 2)], [F(1, 3), 1]]
SCALES = [(-10, 10, 1, 0), (0, 5, 2, F(-3, 2)), (3, 4, -1, 7), (-2, -1, F(1, 2), 1)]


class Exact(OrderDomain):
    ndarrays = True
    pi = PI


def field(seed, draw, size, alpha):
    """an arbitrary field from 0 to 1, of multiples of 1/24 (15 degrees: of 1/12 for directions)"""
    m = size * size
    step = 12 if draw % 2 else 24
    base = (0 if seed is None else seed * 5) + 7 * draw + 3 * int(alpha * 2)
    out = [F((base + 11 * i + i * i) % (step + 1), step) for i in range(m)]
    out[base % m], out[(base + 1) % m] = F(0), F(1)
    return out


def check(tier):
    chk = Check("P26", RULE, tier, minimum=50)
    jobs = []
    for r in range(len(REGIONS)):
        for size in (3, 4, 5):
            for seed in (None, 0, 16):
                for alpha in (3, F(5, 2)):
                    for th in (0, F(1, 4), F(1, 2), 1, F(9, 8), F(-1, 8)):
                        jobs.append(("binary", r, size, seed, alpha, th, None))
                    for th in THRESH:
                        for sc in SCALES:
                            jobs.append(("scalar", r, size, seed, alpha, th, sc))
                    for sc in SCALES:
                        for names in (("uC", "vC"), ("v", "a")):
                            jobs.append(("vector", r, size, seed, alpha, names, sc))
    chk.parallel(jobs, one)
    return chk


def one(chk, job):
    kind, r, size, seed, alpha, th, sc = job
    q = Q["vector" if kind == "vector" else "scalar"]
    C = q.split(".")[-1] + ".import_data"
    (s, n), (w, e) = REGIONS[r]
    case = f"{kind} field of {size}, seed {seed}, alpha {alpha}, " + (f"names {th}" if kind == "vector" else f"threshold {[str(x) for x in th] if isinstance(th, list) else th}") + (f", min, max, multiplier, offset {[str(x) for x in sc]}" if sc else "") + f", region {(s, n)} by {(w, e)}"

    def setup(it):
        it.draws = []
        it.seeded = "unset"
        L = ObjV(it.prog.cls(q))
        a = {"seed": seed, "size": size, "alpha": alpha, "data_name": None, "dataloader_name": "grf"}
        if kind == "binary":
            a.update(binary=True, threshold=th, min=0, max=1)
        elif kind == "scalar":
            a.update(binary=False, threshold=ListV(list(th)), min=sc[0], max=sc[1], multiplier=sc[2], offset=sc[3])
        else:
            a.update(vec_x=th[0], vec_y=th[1], min=sc[0], max=sc[1])
        L.attrs.update(a)
        return it.getattr(L, "import_data"), [boundary(it, [s, n], [w, e])], {}, None

    def draw(it, a, k, node=None):
        a = list(a) + [k[x] for x in ("size", "alpha")[len(a):] if x in k]
        if len(a) != 2:
            it.undecided("arguments of the random field", node)
        z = as_fraction(a[0])
        it.draws.append((it.seeded, z, as_fraction(a[1])))
        sd = it.seeded if it.seeded != "unset" else 997
        return NDArr(field(sd, len(it.draws) - 1, int(z), as_fraction(a[1])), (int(z), int(z)))

    def seedit(it, a, k, node=None):
        it.seeded = k.get("seed", a[0] if a else None)
        it.draws = []
        return None
    models = {"meshiphi.utils.gaussian_random_field": draw, "numpy.random.seed": seedit}
    for t in decided(chk, kind, setup, lambda: Exact(Chain([-90, 90]), Chain([-180, 180])), models=models):
        if not chk.require(t.outcome == "return", kind, C, f"{case}: raises {t.exc}", t.where):
            continue
        T = t.value
        names = list(th) if kind == "vector" else ["data"]
        got = cells(T, names)
        if isinstance(got, str):
            chk.bad(kind, C, f"{case}: {got}", t.where)
            continue
        f0 = field(seed, 0, size, alpha)
        if kind == "vector":
            f1 = field(seed, 1, size, alpha)
        elif kind == "scalar":
            c = [min(max(x, th[0]), th[1]) for x in f0]
            c = [(x - min(c)) / (max(c) - min(c)) for x in c]
        for i, j in itertools.product(range(size), range(size)):
            p = i * size + j
            at = (s + F(n - s) * i / (size - 1), w + F(e - w) * j / (size - 1))
            if not chk.require(at in got, kind, C, f"{case}: no point at {tuple(map(str, at))}"):
                break
            v = got[at]
            if kind == "binary":
                want = [f0[p] >= th]
                ok = len(v) == 1 and (v[0] is want[0] or not isinstance(v[0], bool) and as_fraction(v[0]) == int(want[0]))
            elif kind == "scalar":
                want = [(c[p] * (sc[1] - sc[0]) + sc[0]) * sc[2] + sc[3]]
                ok = eqv(v[0], want[0])
            else:
                m = f0[p] * (sc[1] - sc[0]) + sc[0]
                d = t.interp.dom.pi * 2 * f1[p]
                want = [mknum(pmul(poly(m), poly(trig(t.interp, g, d, None)))) for g in ("sin", "cos")]
                ok = all(eqv(x, y) for x, y in zip(v, want))
            chk.require(ok, kind, C, f"{case}: at {tuple(map(str, at))} {[show(x) for x in v]} rather than {[show(x) for x in want]}", sample=f"{tuple(map(str, at))}: {[show(x) for x in v]}")
        chk.require(len(got) == size * size, kind, C, f"{case}: {len(got)} points")


def cells(T, names):
    out = {}
    if isinstance(T, FrameV):
        if any(x not in T.cols for x in names + ["lat", "long"]):
            return f"columns {sorted(T.cols)}"
        for i in range(len(T.cols["lat"])):
            k = (as_fraction(T.cols["lat"][i]), as_fraction(T.cols["long"][i]))
            if k in out:
                return f"the point {k} twice"
            out[k] = [T.cols[x][i] for x in names]
        return out
    if isinstance(T, DatasetV):
        for x in names:
            if x not in T.vars:
                return f"variables {sorted(T.vars)}"
            v = T.vars[x]
            if set(v.dims) != {"lat", "long"}:
                return f"dimensions {v.dims}"
            for p in itertools.product(*[range(z) for z in v.shape]):
                i = dict(zip(v.dims, p))
                out.setdefault((as_fraction(v.coords["lat"][i["lat"]]), as_fraction(v.coords["long"][i["long"]])), []).append(v.at(i))
        return out if all(len(v) == len(names) for v in out.values()) else "a point appears twice"
    return f"not a table: {show(T)}"

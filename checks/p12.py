"""Empty cells are filled as configured, and the first source with a value wins."""
import itertools
from sa.order import HullDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from .common import *
from .pipeline import *

RULE = ("CellBox.aggregate over chains of up to three ancestors and up to three sources sharing or not sharing names, every pattern of missing "
        "values and every way of filling: each name gets the source's value for the cell's own bounds and data; if missing, that of the nearest ancestor with a value (fill "
        "'parent') or the configured number; among sources of one name the first value that is not missing; building a mesh applies the configured fill, 'parent' by default")

OPS = {"val", "nan"}


def check(tier):
    chk = Check("P12", RULE, tier, minimum=500)
    jobs = []
    deep = 4 if chk.thorough() else 3
    for n in range(deep + 1):
        for miss in itertools.product((False, True), repeat=n + 1):
            for fill in ("parent", 0, F(7, 2), "nan"):
                jobs.append(("one", [("v",)], [tuple((m,) for m in miss)], [fill], False))
                jobs.append(("one", [("u", "w")], [tuple((m, m) for m in miss)], [fill], False))
    for n in range(3):
        for miss in itertools.product(itertools.product((False, True), repeat=2), repeat=n + 1):
            for fill in ("parent", 0):
                jobs.append(("one", [("u", "w")], [miss], [fill], False))
    # several sources
    for names in ([("v",), ("v",)], [("v",), ("x",)], [("u", "w"), ("u", "w")], [("v",), ("u", "w"), ("v",)], [("v",), ("v",), ("v",)], [("u", "w"), ("v",), ("u", "w")]):
        for n in (0, 1, 2):
            if n == 2 and len(names) > 2 and not chk.thorough():
                continue
            for miss in itertools.product((False, True), repeat=(n + 1) * len(names)):
                for fills in (["parent"] * 3, [0, F(5), 3], ["nan", "parent", 4], ["parent", 2, "nan"]):
                    for rev in (False, True):
                        if rev and n == 0 or rev and fills[0] != "parent":
                            continue
                        it = iter(miss)
                        pat = [tuple((m,) * len(nm) for m in [next(it) for _ in range(n + 1)]) for nm in names]
                        jobs.append(("one", names, pat, fills[:len(names)], rev))
    for fill, exp in ((None, "parent"), ("parent", "parent"), (0, 0), ("0", 0), ("0.0", 0), ("Nan", "nan"), ("nan", "nan"), (F(7, 2), F(7, 2)), ("3.5", F(7, 2)), ("-1", -1), ("zero", "parent"), ("", "parent"), ("Parent", "parent")):
        for vec in (False, True):
            jobs.append(("built", fill, exp, vec))
    chk.parallel(jobs, lambda c, j: (one if j[0] == "one" else built)(c, *j[1:]))
    return chk


def ext(level):
    """extent of the ancestor at a level (0: the cell)"""
    s = F(2) ** level
    return (F(0), s, F(0), s)


def fill_value(f):
    return NAN if f == "nan" else f if isinstance(f, str) else int(f) if F(f).denominator == 1 else f


def level_of(e):
    return next((l for l in range(8) if ext(l) == e), None)


def result(src, vals, fill, name):
    """value of one source after filling; vals(level) -> value"""
    v = vals(0)
    if not nan(v):
        return v
    if fill == "parent":
        l = 1
        while True:
            v = vals(l)
            if v is None:
                return NAN
            if not nan(v):
                return v
            l += 1
    return fill_value(fill)


def one(chk, names, miss, fills, rev):
    C = "CellBox.aggregate"
    n = len(miss[0]) - 1
    rule = "vector" if any(len(x) > 1 for x in names) else "scalar"

    def mk(i):
        def value(nm, e):
            l = level_of(e)
            if l is None or l > n:
                return Sym("val", f"source {i}", nm, "elsewhere", *e)
            return NAN if miss[i][l][names[i].index(nm)] else Sym("val", f"source {i}", nm, "ancestor" if l else "cell", l)
        return Source(f"s{i}", names=list(names[i]), value=value)
    srcs = [mk(i) for i in range(len(names))]
    case = f"sources {['/'.join(x) for x in names]}, missing (cell first) {[[list(l) for l in m] for m in miss]}, fill {[str(f) for f in fills]}"
    MD = chk.prog.cls(MG + "metadata.Metadata")

    def setup(it):
        for s in srcs:
            s.wrong = []
            s.loader(it)
        child = None
        cells = []
        for l in range(n + 1):
            e = ext(l)
            cb = cellbox(it, boundary(it, [0, int(e[1])], [0, int(e[3])], ListV(["2017-02-01", "2017-02-04"])), str(10 + l))
            mds = [it.call(MD, [s.obj, ListV([]), fill_value(f) if f != "parent" else "parent", s.subset(e)], {}) for s, f in zip(srcs, fills)]
            if rev and l:
                mds = mds[::-1]
            it.call(it.getattr(cb, "set_data_source"), [ListV(mds)], {})
            if child is not None:
                it.call(it.getattr(child, "set_parent"), [cb], {})
            child = cb
            cells.append(cb)
        return it.getattr(cells[0], "aggregate"), [], {}, it.call(it.getattr(cells[0], "get_bounds"), [], {})
    want = {}
    for i, nms in enumerate(names):
        for k, nm in enumerate(nms):
            v = result(srcs[i], lambda l: None if l > n else srcs[i].value(nm, ext(l)), fills[i], nm)
            if nm not in want or nan(want[nm]):
                want[nm] = v
    for t in decided(chk, rule, setup, ops=OPS):
        if t.exc is not None:
            chk.bad(rule, C, f"{case}: raises {t.exc}")
            continue
        it = t.interp
        d = it.call(it.getattr(t.value, "get_agg_data"), [], {})
        if foreign(d, OPS) is not None or not isinstance(d, DictV):
            chk.undec(rule, f"result {show(d)}")
            continue
        got = dict(d.pairs())
        bad = [x for x in got if x not in want and x != "id"]
        chk.require(not bad, rule + " names", C, f"{case}: a value named {show(bad[0]) if bad else ''} appears")
        for nm, w in want.items():
            g = got.get(nm)
            ok = g is not None and (nan(g) and nan(w) or not nan(g) and not nan(w) and not isinstance(g, str) and eqv(g, w))
            chk.require(ok, rule, C, f"{case}: {nm} is {show(g)}, expected {show(w)}", sample=case)
        chk.require(it.call(it.getattr(t.value, "get_id"), [], {}) == "10", "identity", C, f"{case}: the id changes")
        b = it.call(it.getattr(t.value, "get_bounds"), [], {})
        chk.require(b is t.inputs or extent(it, b) == ext(0), "identity", C, f"{case}: the bounds change")
        wrong = [w for s in srcs for w in s.wrong]
        chk.require(not wrong, "own data", C, f"{case}: {wrong[0] if wrong else ''}")


def built(chk, fill, exp, vec):
    """a mesh of one cell split once (and one quarter again); data only in the whole cell and in one quarter"""
    C = "MeshBuilder"
    rule = "configured fill"
    names = ["u", "w"] if vec else ["v"]
    full = (F(0), F(16), F(0), F(16))
    qs = quarters(full)

    def value(nm, e):
        return Sym("val", nm, *e) if e in (full, qs[0]) else NAN

    def verdict(c, e):
        return "HET" if e in (full, qs[0], qs[1]) else "CLR"
    s = Source("s", names=names, value=value, verdict=verdict, fill=fill)
    case = f"value_fill_types {fill!r}, {'vector' if vec else 'scalar'}"

    def setup(it):
        s.wrong = []

        def run(i, a, k, node=None):
            return i.call(i.getattr(builder(i, config([s], 1, 1, 2)), "build_environmental_mesh"), [], {})
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, rule, setup, lambda: HullDomain(), ops=OPS, models=factory([s])):
        if t.exc is not None:
            chk.bad(rule, C, f"{case}: raises {t.exc}")
            continue
        it = t.interp
        for c in it.items_of(it.getattr(t.value, "agg_cellboxes")):
            e = extent(it, it.call(it.getattr(c, "get_bounds"), [], {}))
            d = it.call(it.getattr(c, "get_agg_data"), [], {})
            up = qs[0] if inside(e, qs[0]) else full
            for nm in names:
                w = Sym("val", nm, *up) if exp == "parent" else fill_value(exp)
                g = d.get(nm)
                if foreign(g, OPS) is not None:
                    chk.undec(rule, f"value {show(g)}")
                    continue
                ok = g is not None and (nan(g) and nan(w) or not nan(g) and not nan(w) and not isinstance(g, str) and eqv(g, w))
                chk.require(ok, rule, C, f"{case}: {nm} of the cell {txt(e)} without data is {show(g)}, expected {show(w)}", sample=case)
        wrong = s.wrong
        chk.require(not wrong, rule + " data", C, f"{case}: {wrong[0] if wrong else ''}")

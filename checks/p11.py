"""Cells are split exactly where the data sources ask for it, to the maximum depth at most."""
import itertools
from sa.order import HullDomain
from sa.report import Check
from sa.values import *
from .common import *
from .pipeline import *

RULE = ("over every combination of verdicts (clear, heterogeneous, homogeneous, too few) of up to three conditions in up to three "
        "sources: a cell asks to be split iff no considered verdict is homogeneous or too few and one is heterogeneous; building a mesh from "
        "abstract sources leaves exactly the cells the rule demands, sources being considered cumulatively in configured order, none "
        "deeper than the maximum, each asked and split with its own data")


def check(tier):
    chk = Check("P11", RULE, tier, minimum=400)
    jobs = []
    for conds in ([], [0], [1], [2], [1, 1], [0, 1], [1, 0, 1], [2, 1], [3]):
        for vs in itertools.product(KINDS, repeat=sum(conds)):
            jobs.append(("ask", conds, vs))
    for conds in ([1], [2], [1, 1], [0, 1], [1, 0], [None, 1], [1, 0, 1], [2, 1], [1, 1, 1]):
        n = sum(c or 0 for c in conds)
        roots = list(itertools.product(KINDS, repeat=n))
        if n > 2 and not chk.thorough():
            roots = roots[::3]
        for top in ((0, 1, 2, 3) if chk.thorough() else (0, 1, 2)):
            for r, root in enumerate(roots):
                for o in range(len(roots) if n == 1 else 4 if not chk.thorough() else 8):
                    if top == 0 and o or top == 2 and n > 1 and o % 2 and not chk.thorough():
                        continue
                    W, H = ((1, 1), (2, 1), (1, 2))[(r + o) % 3 if n > 1 else o % 3]
                    jobs.append(("build", conds, r if n <= 2 or chk.thorough() else 3 * r, o, top, W, H))
    chk.parallel(jobs, lambda c, j: (ask if j[0] == "ask" else build)(c, *j[1:]))
    return chk


def ask(chk, conds, vs):
    it_ = iter(vs)
    per = [[next(it_) for _ in range(c)] for c in conds]
    for k in range(len(conds) + 1):
        run_ask(chk, conds, per, k)
    run_ask(chk, conds, per, None)


def run_ask(chk, conds, per, k):
    """k: number of leading sources considered; None: all, by the other entry point"""
    CB = chk.prog.cls(MG + "cellbox.CellBox")
    name = "should_split" if k is not None else "should_split_breadth_first"
    if CB.lookup(name)[0] is None:
        return
    MD = chk.prog.cls(MG + "metadata.Metadata")
    C = f"CellBox.{name}"
    srcs = [Source(f"s{i}", conds=c, verdict=lambda c, e, i=i: per[i][c]) for i, c in enumerate(conds)]
    here = (F(0), F(16), F(0), F(16))

    def setup(it):
        for s in srcs:
            s.wrong = []
        cb = cellbox(it, boundary(it, [0, 16], [0, 16]), "0")
        mds = [it.call(MD, [s.loader(it), ListV([s.cond(c) for c in range(s.conds)]), "parent", s.subset(here)], {}) for s in srcs]
        it.call(it.getattr(cb, "set_data_source"), [ListV(mds)], {})
        return it.getattr(cb, name), ([] if k is None else [k]), {}, None
    want = wants(srcs, len(srcs) if k is None else k, here)
    case = f"verdicts {per} by source" + ("" if k is None else f", the first {k} considered")
    for t in decided(chk, "ask", setup):
        if t.exc is not None:
            chk.bad("ask", C, f"{case}: raises {t.exc}")
            continue
        got = t.interp.truth(t.value)
        chk.require(got == want, "ask", C, f"{case}: {'split' if got else 'not split'}", sample=case)
        wrong = [w for s in srcs for w in s.wrong]
        chk.require(not wrong, "ask-data", C, f"{case}: {wrong[0] if wrong else ''}")


def verdicts(n, r, o, cell):
    """verdict tuple of a cell from its path: the root by r, lower cells spread over all tuples from offset o"""
    combos = list(itertools.product(KINDS, repeat=n))

    def of(e):
        size = e[1] - e[0]
        if size == cell:
            i = r + (3 * o + 1) * int((e[2] + e[0]) / cell)
        else:
            x, y, d = int(e[2] / size), int(e[0] / size), int(cell / size)
            i = o + 5 * x + 7 * y + d * (r + 1)
            if d > 2:
                i += 3 * x * y
        return combos[i % len(combos)]
    return of


def build(chk, conds, r, o, top, W, H):
    C = "MeshBuilder.build_environmental_mesh"
    n = sum(c or 0 for c in conds)
    of = verdicts(n, r, o, 16)
    srcs, at = [], 0
    for i, c in enumerate(conds):
        srcs.append(Source(f"s{i}", conds=c, verdict=lambda k, e, at=at: of(e)[at + k]))
        at += c or 0
    case = f"{W}x{H} grid, depth {top}, sources with {conds} conditions, verdict table {r}/{o}"

    def setup(it):
        for s in srcs:
            s.wrong = []
        return PyFn("driver", lambda i, a, k, node=None: run(i)), [], {}, None

    def run(it):
        b = builder(it, config(srcs, W, H, top))
        return TupleV([b, it.call(it.getattr(b, "build_environmental_mesh"), [], {})])
    want = sorted(l for j in range(H) for i in range(W)
                  for l in leaves(srcs, (F(16 * j), F(16 * j + 16), F(16 * i), F(16 * i + 16)), 0, top))
    for t in decided(chk, "refine", setup, lambda: HullDomain(), models=factory(srcs)):
        if t.exc is not None:
            chk.bad("refine", C, f"{case}: raises {t.exc}")
            continue
        it = t.interp
        b, m = t.value.items
        cells = it.items_of(it.getattr(m, "agg_cellboxes"))
        got = sorted(extent(it, it.call(it.getattr(c, "get_bounds"), [], {})) for c in cells)
        exp = [e for e, _ in want]
        miss = [e for e in exp if e not in got]
        extra = [e for e in got if e not in exp]
        small = [e for e in got if e[1] - e[0] < F(16) / 2 ** top]
        if small:
            chk.bad("depth", C, f"{case}: the cell {txt(small[0])} lies deeper than the maximum depth")
        else:
            chk.ok("depth", 1, case)
        if extra and any(inside(w, extra[0]) for w in miss):
            chk.bad("refine", C, f"{case}: the cell {txt(extra[0])} is left although the verdicts {of(extra[0])} ask for a split")
        elif miss or extra or len(got) != len(exp):
            chk.bad("refine", C, f"{case}: the cell {txt((miss or extra or got)[0])} is {'split or lost' if miss else 'unexpected'}, verdicts {of((miss or extra or got)[0])}")
        else:
            chk.ok("refine", len(exp), case)
        live = it.items_of(it.call(it.getattr(it.getattr(b, "mesh"), "get_cellboxes"), [], {}))
        dep = sorted((extent(it, it.call(it.getattr(c, "get_bounds"), [], {})), num(it.call(it.getattr(c, "get_split_depth"), [], {}))) for c in live)
        chk.require(miss or extra or dep == want, "refine-depth", C, f"{case}: recorded split depths are not those of the cells")
        wrong = [w for s in srcs for w in s.wrong]
        chk.require(not wrong, "refine-data", C, f"{case}: {wrong[0] if wrong else ''}")

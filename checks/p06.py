"""Merging one finished mesh into another."""
from fractions import Fraction as F
from sa.localmesh import *
from sa.report import Check
from sa.values import *
from .common import *
from .p03 import box_cell
from .p04 import env_mesh

RULE = ("for host meshes and inserts over symbolic base cells (insert inside, on each edge and corner, covering, adjoining and "
        "overlapping the host; equal, coarser and finer cells on both sides), merge_mesh leaves exactly the host cells "
        "outside the insert plus the insert's cells, values and host ids untouched, ids unique, the graph equal to "
        "geometric adjacency, and the inserted mesh object unmodified; misaligned inserts are refused with the host "
        "unchanged; a second merge keeps all this")


def base(x0, x1, y0, y1):
    """base cells (2 units) with corners at even units, numbered row by row"""
    return [Cell(2 * y, 2 * y + 2, 2 * x, 2 * x + 2) for y in range(y0, y1) for x in range(x0, x1)]


def refine(cells, picks):
    out = []
    for c in cells:
        n = picks.get((c.w, c.s), 0)
        cur = [c]
        for _ in range(n):
            cur = [q for k in cur for q in k.quads().values()]
        out += cur
    return out


def within(c, b):
    return b[0] * 2 <= c.w and c.e <= b[1] * 2 and b[2] * 2 <= c.s and c.n <= b[3] * 2


HOST = (-2, 2, -2, 2)
BLOCKS = {"inside": (-1, 1, -1, 1), "one cell": (0, 1, 0, 1), "south-west corner": (-2, 0, -2, 0), "north-east corner": (0, 2, 0, 2),
          "north-west corner": (-2, -1, 1, 2), "south-east corner": (1, 2, -2, -1),
          "west edge": (-2, -1, -1, 1), "east edge": (1, 2, -1, 1), "south edge": (-1, 1, -2, -1), "north edge": (-1, 1, 1, 2),
          "row": (-2, 2, 0, 1), "column": (0, 1, -2, 2), "covering": (-2, 2, -2, 2),
          "adjoining east": (2, 3, -1, 1), "adjoining north": (-1, 1, 2, 3), "adjoining south-west": (-3, -2, -3, -2),
          "overlapping east": (1, 3, -1, 1), "overlapping south-west": (-3, -1, -3, -1), "apart": (3, 4, 3, 4)}


def hosts():
    u = base(*HOST)
    yield "uniform", u
    yield "all halved", refine(u, {(c.w, c.s): 1 for c in u})
    yield "mixed", refine(u, {(F(-4), F(-4)): 1, (F(-2), F(2)): 2, (F(2), F(0)): 1, (F(0), F(-4)): 1, (F(2), F(2)): 1, (F(-4), F(0)): 2})


def inserts(b):
    x0, x1, y0, y1 = b
    u = base(*b)
    yield "base cells", u
    yield "one big cell", [Cell(2 * y0, 2 * y1, 2 * x0, 2 * x1)]
    yield "halved", refine(u, {(c.w, c.s): 1 for c in u})
    if len(u) > 1:
        yield "mixed", refine(u, {(u[0].w, u[0].s): 2, (u[-1].w, u[-1].s): 1})


def check(tier):
    chk = Check("P06", RULE, tier, minimum=10000, assumptions=[
        "both meshes as loaded from file, neither crossing nor touching the antimeridian",
        "host and insert cells come from halving cells of a common base grid"])
    jobs = []
    for hn, h in hosts():
        for bn, b in BLOCKS.items():
            for n, (inn, ins) in enumerate(inserts(b)):
                if not chk.thorough() and hn != "mixed" and n > 1:
                    continue
                jobs.append(("merge", hn, h, bn, b, inn, ins, None))
    hn, h = list(hosts())[2]
    for b1, b2 in (("inside", "one cell"), ("one cell", "east edge"), ("west edge", "inside"), ("adjoining east", "overlapping east"), ("covering", "inside")):
        jobs.append(("merge", hn, h, b1, BLOCKS[b1], "halved", list(inserts(BLOCKS[b1]))[2][1], (b2, BLOCKS[b2], base(*BLOCKS[b2]))))
    for what in ("half a cell north", "half a cell east", "third of a cell west", "half a cell taller", "half a cell wider", "same", "third narrower"):
        jobs.append(("refuse", what))
    chk.parallel(jobs, one)
    return chk


def cfg(pl, b):
    # base cells are two half-widths wide
    return DictV([("region", DictV([
        ("lat_min", pl.lat(2 * b[2])), ("lat_max", pl.lat(2 * b[3])), ("long_min", pl.long(2 * b[0], False)), ("long_max", pl.long(2 * b[1], True)),
        ("cell_width", mknum(pmul(poly(XH), poly(2)))), ("cell_height", mknum(pmul(poly(YH), poly(2))))]))])


def bnd(it, pl, b):
    return boundary(it, [pl.lat(2 * b[2]), pl.lat(2 * b[3])], [pl.long(2 * b[0], False), pl.long(2 * b[1], True)])


def mk(it, pl, cells, b, tag, start, step):
    n = len(cells)
    ids = [start + step * i for i in range(n)]
    ids = ids[n // 2:] + ids[:n // 2]
    cs = dict(zip(ids, cells))
    m, ng, boxes = env_mesh(it, cs, pl, ids, config=cfg(pl, b), bounds=bnd(it, pl, b), tag=tag)
    return m, ng, boxes, cs


def snapshot(it, m):
    out = []
    for x in it.items_of(it.getattr(m, "agg_cellboxes")):
        bd = it.call(it.getattr(x, "get_bounds"), [], {})
        out.append((it.call(it.getattr(x, "get_id"), [], {}), freeze(it.call(it.getattr(x, "get_agg_data"), [], {})),
                    tuple(freeze(it.call(it.getattr(bd, g), [], {})) for g in ("get_lat_min", "get_lat_max", "get_long_min", "get_long_max"))))
    g = it.call(it.getattr(it.getattr(m, "neighbour_graph"), "get_graph"), [], {})
    return (out, freeze(g), freeze(it.getattr(m, "config")))


def one(chk, job):
    if job[0] == "merge":
        return merge(chk, *job[1:])
    return refuse(chk, job[1])


def merge(chk, hn, host, bn, b, inn, ins, then):
    pl = Place(None)
    C = "EnvironmentMesh.merge_mesh"
    desc = f"{hn} host, insert {bn} ({inn})" + (f", then {then[0]}" if then else "")
    rule = "merge" if not then else "second-merge"
    fin = [(c, "a") for c in host if not within(c, b)] + [(c, "b") for c in ins]
    if then:
        fin = [(c, t) for c, t in fin if not within(c, then[1])] + [(c, "c") for c in then[2]]

    def setup(it):
        A = mk(it, pl, host, HOST, "a", 0, 1)
        Bm = mk(it, pl, ins, b, "b", 0, 1)
        Cm = mk(it, pl, then[2], then[1], "c", 0, 1) if then else None

        def run(i, a, k, node=None):
            snap = [snapshot(i, x[0]) for x in (Bm, Cm) if x]
            f = i.getattr(A[0], "merge_mesh")
            i.call(f, [Bm[0]], {})
            if then:
                i.call(f, [Cm[0]], {})
            return snap
        return PyFn("driver", run), [], {}, (A, Bm, Cm)
    for t in decided(chk, rule, setup, lambda: Place(None).domain()):
        if t.outcome == "raise":
            chk.bad(rule, C, f"{desc}: raises {t.exc}", t.where)
            continue
        it = t.interp
        A, Bm, Cm = t.inputs
        for s, m in zip(t.value, [x for x in (Bm, Cm) if x]):
            now = snapshot(it, m[0])
            for part, x, y in zip(("cells", "graph", "config"), s, now):
                chk.require(x == y, rule + "-argument-unmodified", C, f"{desc}: the {part} of the inserted mesh changed")
        rec = it.getattr(A[0], "config")
        rec = rec.get("merged") if isinstance(rec, DictV) else None
        ins_cfg = [freeze(it.getattr(m[0], "config")) for m in (Bm, Cm) if m]
        chk.require(isinstance(rec, ListV) and [freeze(x) for x in rec.items] == ins_cfg, rule + "-config", C,
                    f"{desc}: the merged mesh records {show(rec)[:80]} as merged configurations")
        compare(chk, rule, C, it, A, {"a": A[3], "b": Bm[3], "c": Cm[3] if Cm else {}}, fin, pl, desc)


def compare(chk, rule, C, it, A, orig, fin, pl, desc):
    m, ng = A[0], A[1]
    ng2 = it.getattr(m, "neighbour_graph")
    want = [c for c, _ in fin]
    live = {}
    for b in it.items_of(it.getattr(m, "agg_cellboxes")):
        cid = it.call(it.getattr(b, "get_id"), [], {})
        c = box_cell(it, it.call(it.getattr(b, "get_bounds"), [], {}), pl, want)
        if not chk.require(c is not None, rule + "-cells", C, f"{desc}: cell {show(cid)} should not be in the merged mesh"):
            return
        if not chk.require(isinstance(cid, str) and cid.isdigit() and cid not in live, rule + "-ids", C, f"{desc}: id {show(cid)} repeated or malformed"):
            return
        live[cid] = c
        tag = [t for k, t in fin if k is c][0]
        i = [i for i, o in orig[tag].items() if o.key() == c.key()][0]
        data = it.call(it.getattr(b, "get_agg_data"), [], {})
        ok = isinstance(data, DictV) and data.get("SIC") == Sym("sic" + tag, i) and data.get("depth") == Sym("depth" + tag, i)
        chk.require(ok, rule + "-values", C, f"{desc}: cell {c} carries {show(data)}, expected values of cell {i} of mesh {tag}")
        if isinstance(data, DictV) and "id" in data:
            chk.require(data.get("id") == cid, rule + "-ids", C, f"{desc}: cell {cid} records id {show(data.get('id'))}")
        if tag == "a":
            chk.require(cid == str(i), rule + "-ids", C, f"{desc}: host cell {i} renamed {cid}")
    if not chk.require(sorted(c.key() for c in live.values()) == sorted(c.key() for c in want), rule + "-cells", C,
                       f"{desc}: cells missing or repeated in the merged mesh"):
        return
    g = it.call(it.getattr(ng2, "get_graph"), [], {})
    if not chk.require(sorted(map(show, g.keys)) == sorted(map(show, live)), rule + "-nodes", C, f"{desc}: graph nodes {sorted(map(show, g.keys))}, cells {sorted(live)}"):
        return
    wg = graph(live)
    for i in live:
        mm = g.get(i)
        for d in DIRS:
            got = mm.get(str(d))
            got = it.items_of(got) if got is not None else None
            w = sorted(int(x) for x in wg[i][d])
            chk.require(got is not None and all(isinstance(x, int) for x in got) and sorted(got) == w, rule + "-edges", C,
                        f"{desc}: direction {d} of {live[i]} lists {got and [repr(live.get(str(x), x)) for x in got]}, geometry says {[repr(live[x]) for x in wg[i][d]]}")


def refuse(chk, what):
    pl = Place(None)
    b = {"half a cell north": (-1, 1, F(-1, 2), F(3, 2)), "half a cell east": (F(-1, 2), F(3, 2), -1, 1), "third of a cell west": (F(-4, 3), F(2, 3), -1, 1),
         "half a cell taller": (-1, 1, -1, F(3, 2)), "half a cell wider": (-1, F(3, 2), -1, 1), "same": (-1, 1, -1, 1),
         "third narrower": (-1, F(2, 3), -1, 1)}[what]
    C = "EnvironmentMesh.merge_mesh"
    host = base(*HOST)
    ins = [Cell(2 * b[2], 2 * b[3], 2 * b[0], 2 * b[1])]
    shot = {}

    def setup(it):
        A = mk(it, pl, host, HOST, "a", 0, 1)
        Bm = mk(it, pl, ins, b, "b", 0, 1)
        s = snapshot(it, A[0])
        return it.getattr(A[0], "merge_mesh"), [Bm[0]], {}, (A, s)
    for t in decided(chk, "refuse", setup, lambda: Place(None).domain()):
        if what == "same":
            chk.require(t.outcome == "return", "accept", C, f"an aligned insert is refused ({t.exc if t.outcome == 'raise' else ''})")
            continue
        if chk.require(t.outcome == "raise", "refuse", C, f"insert {what} than the host's base grid is accepted"):
            A, s = t.inputs
            chk.require(snapshot(t.interp, A[0]) == s, "refuse-unchanged", C, f"insert {what}: the host changed although the merge was refused")

"""A mesh written as JSON and read back is the same mesh."""
import ast
from fractions import Fraction as F
from sa.order import Chain, HullDomain, OrderDomain
from sa.report import Check
from sa.shapes import FileV, JsonText, ShapeV, jsonable, untok
from sa.tables import NAN, nan
from sa.values import *
from .common import *

RULE = ("over every order type of a cell's limits and the date line, with symbolic limits: the cell's document gives its centre and half sizes, its id and every value, its geometry covers exactly the cell "
        "(one rectangle, or two when the date line is crossed), and reading document or geometry gives the same region, id and values; for meshes with integer- or text-keyed graphs: "
        "the document holds the configuration, all cells in order and the graph with text keys, reading it gives these back, writing again gives the same document, and saving to a file writes it")

OPS = {"val", "nan", "y0", "y1", "x0", "x1"}


class Text(OrderDomain):
    text = True


class TextH(HullDomain):
    text = True


Y = [Sym("y0"), Sym("y1")]
LATS = [(Y, Chain([-90] + Y + [90]), "inside"), ([-90, Y[1]], Chain([-90, Y[1], 90]), "from the south pole"), ([Y[0], 90], Chain([-90, Y[0], 90]), "to the north pole"),
        ([-90, 90], Chain([-90, 90]), "pole to pole")]
X = [Sym("x0"), Sym("x1")]
# (limits, order, west piece, east piece): pieces as (lo, hi) in -180:180
LONGS = [(X, Chain([-180] + X + [180]), [(X[0], X[1])], "inside"),
         ([-180, X[1]], Chain([-180, X[1], 180]), [(-180, X[1])], "from -180"),
         ([X[0], 180], Chain([-180, X[0], 180]), [(X[0], 180)], "to 180"),
         ([-180, 180], Chain([-180, 180]), [(-180, 180)], "the whole globe"),
         ([X[1], X[0]], Chain([-180] + X + [180]), [(X[1], 180), (-180, X[0])], "over the date line"),
         ([180, X[1]], Chain([-180, X[1], 180]), [(-180, X[1])], "from the date line written 180"),
         ([X[0], -180], Chain([-180, X[0], 180]), [(X[0], 180)], "to the date line written -180")]
# some concrete places, halves included
CONC = [([0, F(5, 1024)], [F(180) - F(5, 4096), -180]), ([0, F(5, 1024)], [180, -F(180) + F(5, 4096)]), ([F(-5, 2), F(5, 2)], [F(15, 2), 10]), ([-60, F(-115, 2)], [F(355, 2), F(-355, 2)]), ([0, 5], [175, -170]), ([0, 5], [-5, 0]), ([-5, 0], [0, 5]), ([0, 5], [175, 180]), ([F(5, 1024), F(10, 1024)], [F(-15, 1024), F(-10, 1024)]), ([-F(61) - F(5, 4096), -F(61)], [F(180) - F(5, 4096), -F(180) + F(5, 4096)])]


def check(tier):
    chk = Check("P14", RULE, tier, minimum=60)
    jobs = []
    for la in range(len(LATS)):
        for lo in range(len(LONGS)):
            jobs.append(("cell", LATS[la][0], LONGS[lo][0], LATS[la][1], LONGS[lo][1], LONGS[lo][2], f"{LATS[la][2]}, {LONGS[lo][3]}"))
    for lat, lon in CONC:
        pieces = [tuple(lon)] if lon[0] < lon[1] else [p for p in ((lon[0], 180), (-180, lon[1])) if p[0] != p[1]]
        jobs.append(("cell", lat, lon, None, None, pieces, "placed"))
    for i in range(len(DATA)):
        jobs.append(("data", i))
    for keys in ("int", "str"):
        for n in (0, 1, 3):
            jobs.append(("mesh", keys, n))
    for fmt in (None, "JSON", "json", "Json"):
        jobs.append(("save", fmt))
    chk.parallel(jobs, lambda c, j: {"cell": cell, "data": data, "mesh": mesh, "save": save}[j[0]](c, *j[1:]))
    return chk


def agg(it, bd, data_, cid):
    return it.call(it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox"), [bd, data_, cid], {})


def same_long(a, b):
    """equal, or both the date line"""
    return eqv(a, b) or (a in (180, -180) and b in (180, -180))


def limits(it, bd):
    return [it.call(it.getattr(bd, n), [], {}) for n in ("get_lat_min", "get_lat_max", "get_long_min", "get_long_max")]


def same_region(it, bd, lat, lon):
    g = limits(it, bd)
    return eqv(g[0], lat[0]) and eqv(g[1], lat[1]) and same_long(g[2], lon[0]) and same_long(g[3], lon[1]) and not (
        same_long(lon[0], lon[1]) is False and eqv(g[2], g[3]))


def txt(lat, lon, case):
    return f"cell lat {show(ListV(lat))} long {show(ListV(lon))} ({case})"


def dom(lch, ch):
    return (lambda: Text(lch, ch)) if lch is not None else (lambda: TextH())


def cell(chk, lat, lon, lch, ch, pieces, case):
    A = chk.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    Bc = chk.prog.cls(MG + "boundary.Boundary")
    d = txt(lat, lon, case)

    def setup(it):
        def run(i, a, k, node=None):
            bd = boundary(i, lat, lon)
            c = agg(i, bd, DictV([("v", Sym("val", "v"))]), "7")
            j = i.call(i.getattr(c, "to_json"), [], {})
            back = i.call(i.getattr(A, "from_json"), [jsonable(i, j, None)], {})
            w = i.call(i.getattr(bd, "to_poly_string"), [], {})
            p = i.call(i.getattr(bd, "to_polygon"), [], {})
            b2 = i.call(i.getattr(Bc, "from_poly_string"), [w], {}) if Bc.lookup("from_poly_string")[0] is not None else None
            cx = j.get("cx")
            within = isinstance(cx, (int, F, Sym, Num)) and i.truth(i.compare(ast.LtE(), cx, 180, None)) and i.truth(i.compare(ast.LtE(), -180, cx, None))
            return TupleV([j, back, w, p, b2, within])
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "cell", setup, dom(lch, ch), ops=OPS):
        it = t.interp
        if t.exc is not None:
            chk.bad("cell", "AggregatedCellBox.to_json / from_json", f"{d}: raises {t.exc}", t.where)
            continue
        j, back, w, p, b2, within = t.value.items
        width = 0
        for lo, hi in pieces:
            width = it.binop(ADD, width, it.binop(SUB, hi, lo, None), None)
        # geometry
        want = sorted([(show(a), show(b)) for a, b in pieces])
        got = []
        ok = isinstance(p, ShapeV)
        if ok:
            for r in p.polys:
                box = p.rect(it, r, None)
                ok = ok and p.is_rect(it, r, box, None) and eqv(box[1], lat[0]) and eqv(box[3], lat[1])
                got.append((show(box[0]), show(box[2])))
        chk.require(ok and sorted(got) == want, "geometry", "Boundary.to_polygon", f"{d}: the polygon covers longitudes {got}, not {want}" if ok else f"{d}: the polygon is not a rectangle of the cell's latitudes", sample=d)
        chk.require(isinstance(w, str) and isinstance(j.get("geometry"), str) and j.get("geometry") == w, "geometry text", "AggregatedCellBox.to_json", f"{d}: written geometry {untok(it, j.get('geometry'))}")
        # numbers
        h = it.binop(DIV, it.binop(SUB, lat[1], lat[0], None), 2, None)
        hw = it.binop(DIV, width, 2, None)
        chk.require(eqv(j.get("dcx"), hw) and eqv(j.get("dcy"), h), "half size", "AggregatedCellBox.to_json", f"{d}: half sizes written as {show(j.get('dcx'))}, {show(j.get('dcy'))}")
        chk.require(eqv(j.get("cy"), it.binop(ADD, lat[0], h, None)), "centre", "AggregatedCellBox.to_json", f"{d}: centre latitude {show(j.get('cy'))}")
        cx, mid = j.get("cx"), it.binop(ADD, lon[0], hw, None)
        if lon[0] == 180:
            mid = it.binop(ADD, -180, hw, None)
        px, pm = poly(cx), poly(mid)
        diff = None if px is None or pm is None else padd(px, pm, -1)
        on = diff is not None and (not diff or set(diff) == {()} and abs(diff[()]) == 360)
        chk.require(on and within, "centre", "AggregatedCellBox.to_json", f"{d}: centre longitude {show(cx)}")
        # back
        chk.require(same_region(it, it.call(it.getattr(back, "get_bounds"), [], {}), lat, lon), "read region", "AggregatedCellBox.from_json",
                    f"{d}: reads back as {show(ListV(limits(it, it.call(it.getattr(back, 'get_bounds'), [], {}))))}")
        chk.require(it.call(it.getattr(back, "get_id"), [], {}) == "7", "read id", "AggregatedCellBox.from_json", f"{d}: id becomes {show(it.call(it.getattr(back, 'get_id'), [], {}))}")
        ad = it.call(it.getattr(back, "get_agg_data"), [], {})
        chk.require(isinstance(ad, DictV) and ad.pairs() == [("v", Sym("val", "v"))], "read values", "AggregatedCellBox.from_json", f"{d}: values become {show(ad)}")
        if b2 is not None:
            chk.require(same_region(it, b2, lat, lon), "read polygon", "Boundary.from_poly_string", f"{d}: its geometry reads as {show(ListV(limits(it, b2)))}")


ADD, SUB, DIV = ast.Add(), ast.Sub(), ast.Div()

V = lambda n: Sym("val", n)
DATA = [[], [("SIC", V("SIC"))], [("SIC", V("SIC")), ("uC", V("uC")), ("vC", V("vC")), ("elevation", V("elev"))], [("SIC", NAN)], [("a", None), ("b", True), ("c", False), ("d", "text"), ("e", 0)],
        [("speed", ListV([V("s1"), V("s2"), 0])), ("fuel", ListV([]))], [("cx2", V("q")), ("ids", V("i")), ("geometry2", V("g")), ("x", V("x")), ("dc", 3)], [("nested", DictV([("k", ListV([V("n")]))]))]]


def same(a, b):
    """equal values, containers by content"""
    if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, DictV) and isinstance(b, DictV):
        return len(a.keys) == len(b.keys) and all(k in b and same(v, b.get(k)) for k, v in a.pairs())
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    if isinstance(a, (ListV, DictV, TupleV, ObjV)) or isinstance(b, (ListV, DictV, TupleV, ObjV)):
        return a is b
    return eqv(a, b)


def data(chk, i):
    A = chk.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
    for cid in ("0", "12", "345"):
        def setup(it):
            def run(it2, a, k, node=None):
                c = agg(it2, boundary(it2, [0, 5], [10, 20]), jsonable(it2, DictV(DATA[i]), None), cid)
                j = it2.call(it2.getattr(c, "to_json"), [], {})
                return TupleV([c, j, it2.call(it2.getattr(A, "from_json"), [jsonable(it2, j, None)], {})])
            return PyFn("driver", run), [], {}, None
        d = f"cell {show(cid)} with values {show(DictV(DATA[i]))}"
        for t in decided(chk, "data", setup, TextH, ops=OPS):
            it = t.interp
            if t.exc is not None:
                chk.bad("data", "AggregatedCellBox.to_json / from_json", f"{d}: raises {t.exc}", t.where)
                continue
            c, j, back = t.value.items
            exp = DictV(DATA[i])
            rest = DictV([(k, v) for k, v in j.pairs() if k not in ("geometry", "cx", "cy", "dcx", "dcy", "id")])
            chk.require(same(rest, exp) and j.get("id") == cid, "write values", "AggregatedCellBox.to_json", f"{d}: written as {show(rest)}, id {show(j.get('id'))}", sample=d)
            chk.require(same(it.call(it.getattr(back, "get_agg_data"), [], {}), exp), "read values", "AggregatedCellBox.from_json", f"{d}: read as {show(it.call(it.getattr(back, 'get_agg_data'), [], {}))}")
            chk.require(it.call(it.getattr(back, "get_id"), [], {}) == cid, "read id", "AggregatedCellBox.from_json", f"{d}: id read as {show(it.call(it.getattr(back, 'get_id'), [], {}))}")
            chk.require(same(it.call(it.getattr(c, "get_agg_data"), [], {}), exp), "unchanged", "AggregatedCellBox.to_json", f"{d}: the cell's values change to {show(it.call(it.getattr(c, 'get_agg_data'), [], {}))}")


DIRS = (1, 2, 3, 4, -1, -2, -3, -4)


def make(it, keys, n):
    """a mesh of n cells with an arbitrary graph"""
    ids = ["0", "4", "11"][:n]
    cells = [agg(it, boundary(it, [0, 5], [5 * i, 5 * i + 5]), DictV([("v", Sym("val", c)), ("w", NAN if i == 1 else Sym("val", "w", c))]), c) for i, c in enumerate(ids)]
    graph = DictV()
    for i, c in enumerate(ids):
        k = (lambda x: int(x)) if keys == "int" else (lambda x: str(x))
        graph.keys.append(k(c))
        graph.vals.append(DictV([(k(d), ListV([int(x) for x in ids if x != c][:(i + abs(d)) % 3])) for d in DIRS]))
    ng = it.call(it.prog.cls(MG + "neighbour_graph.NeighbourGraph"), [], {})
    it.setattr(ng, "neighbour_graph", graph)
    cfg = config_(n)
    return it.call(it.prog.cls(MG + "environment_mesh.EnvironmentMesh"), [boundary(it, [0, 5], [0, 5 * max(n, 1)], ListV(["2017-02-01", "2017-02-04"])), ListV(cells), ng, cfg], {}), cells, graph, cfg


def config_(n):
    return DictV([("region", DictV([("lat_min", 0), ("lat_max", 5), ("long_min", 0), ("long_max", 5 * max(n, 1)), ("start_time", "2017-02-01"), ("end_time", "2017-02-04"), ("cell_width", 5), ("cell_height", 5)])),
                  ("data_sources", ListV([DictV([("loader", "x"), ("params", DictV([("k", V("p")), ("files", ListV(["a", "b"]))]))])])), ("splitting", DictV([("split_depth", 2), ("minimum_datapoints", 5)])), ("extra", NAN)])


def mesh(chk, keys, n):
    E = chk.prog.cls(MG + "environment_mesh.EnvironmentMesh")
    C = "EnvironmentMesh.to_json / load_from_json"
    d = f"mesh of {n} cells, graph keyed by {'numbers' if keys == 'int' else 'text'}"

    def setup(it):
        def run(i, a, k, node=None):
            m, cells, graph, cfg = make(i, keys, n)
            j = i.call(i.getattr(m, "to_json"), [], {})
            m2 = i.call(i.getattr(E, "load_from_json"), [jsonable(i, j, None)], {})
            j2 = i.call(i.getattr(m2, "to_json"), [], {})
            return TupleV([m, j, m2, j2])
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "mesh", setup, TextH, ops=OPS):
        it = t.interp
        if t.exc is not None:
            chk.bad("mesh", C, f"{d}: raises {t.exc}", t.where)
            continue
        m, j, m2, j2 = t.value.items
        _, cells, graph, cfg = make(it, keys, n)
        chk.require(same(jsonable(it, graph, None), j.get("neighbour_graph")), "document graph", C, f"{d}: graph written as {show(j.get('neighbour_graph'))[:300]}", sample=d)
        mi = j.get("config")
        chk.require(isinstance(mi, DictV) and same(cfg, mi.get("mesh_info")), "document config", C, f"{d}: configuration written as {show(mi)[:300]}")
        cj = [it.call(it.getattr(c, "to_json"), [], {}) for c in cells]
        chk.require(same(ListV(cj), j.get("cellboxes")), "document cells", C, f"{d}: cells written as {show(j.get('cellboxes'))[:300]}")
        for nm, mm, g in (("read", m2, jsonable(it, graph, None)), ("unchanged", m, graph)):
            ng = it.call(it.getattr(it.getattr(mm, "neighbour_graph"), "get_graph"), [], {})
            chk.require(same(g, ng), f"{nm} graph", C, f"{d}: graph is {show(ng)[:300]}")
            chk.require(same(cfg, it.getattr(mm, "config")), f"{nm} config", C, f"{d}: configuration is {show(it.getattr(mm, 'config'))[:300]}")
            cs = it.items_of(it.getattr(mm, "agg_cellboxes"))
            ok = len(cs) == len(cells)
            for x, y in zip(cs, cells):
                ok = ok and it.call(it.getattr(x, "get_id"), [], {}) == it.call(it.getattr(y, "get_id"), [], {}) and same(it.call(it.getattr(x, "get_agg_data"), [], {}), it.call(it.getattr(y, "get_agg_data"), [], {})) and \
                    same(ListV(limits(it, it.call(it.getattr(x, "get_bounds"), [], {}))), ListV(limits(it, it.call(it.getattr(y, "get_bounds"), [], {}))))
            chk.require(ok, f"{nm} cells", C, f"{d}: cells differ after {'reading back' if nm == 'read' else 'writing'}")
            bd = it.getattr(mm, "bounds")
            chk.require(same(ListV(limits(it, bd)), ListV([0, 5, 0, 5 * max(n, 1)])) and same(it.call(it.getattr(bd, "get_time_range"), [], {}), ListV(["2017-02-01", "2017-02-04"])), f"{nm} bounds", C, f"{d}: region is {show(ListV(limits(it, bd)))}")
        chk.require(same(j, j2), "again", C, f"{d}: writing the mesh read back gives another document")


def save(chk, fmt):
    C = "EnvironmentMesh.save"
    d = f"saved with format {fmt!r}"

    def setup(it):
        def run(i, a, k, node=None):
            m, *_ = make(i, "str", 2)
            j = i.call(i.getattr(m, "to_json"), [], {})
            i.call(i.getattr(m, "save"), ["out.json"] + ([fmt] if fmt else []), {})
            return j
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, "save", setup, TextH, ops=OPS):
        it = t.interp
        if t.exc is not None:
            chk.bad("save", C, f"{d}: raises {t.exc}", t.where)
            continue
        f = it.files.get("out.json")
        ok = f is not None and len(f) == 1 and isinstance(f[0], JsonText)
        if f is not None and len(f) > 1:
            chk.undec("save", "written in several pieces")
            continue
        chk.require(ok and same(f[0].v, t.value), "save", C, f"{d}: the file does not hold the document of the mesh", sample=d)
        chk.require(set(it.files) == {"out.json"}, "save", C, f"{d}: other files written: {sorted(it.files)}")

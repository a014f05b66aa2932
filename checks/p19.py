"""Queries leave the mesh, its cells, its graph and its data as they were."""
from fractions import Fraction as F
from sa.heap import diff, snap
from sa.localmesh import *
from sa.order import Chain, HullDomain, OrderDomain
from sa.report import Check
from sa.tables import NAN
from sa.values import *
from .common import *
from .p04 import env_mesh
from .p07 import LOADERS, loader
from .p08 import table
from .pipeline import Source

RULE = ("for every query of a mesh, region, cell, neighbour graph or data source, over local meshes anywhere on the map and tables and grids with and without missing values: everything reachable from the "
        "object queried and from the arguments is the same after the query as before, and asking again gives the same answer")

BOUNDS = ([-10, 10], [20, 40])
INSIDE = [(-5, 25), (0, 30), (3, 33), (7, 37), (10, 40)]
OUTSIDE = [(-20, 15), (15, 45), (-10, 20)]


class Text(HullDomain):
    text = True


def check(tier):
    chk = Check("P19", RULE, tier, minimum=100)
    jobs = []
    local = [(n, o) for n, o in meshes() if not n.startswith("one ")]
    places = [Place(), Place(0), Place(-1), Place(F(1, 2))]
    for name, others in local:
        for pl in places:
            if chk.thorough() or pl.seam in (None, F(0)) or name in ("uniform grid", "alone"):
                for q in MESHQ:
                    jobs.append(("mesh", q, name, others, pl))
    for lon in ([0, 10], [170, -170], [-180, 180], [-180, -170], [175, 180]):
        for q in REGIONQ:
            jobs.append(("region", q, lon))
        for q in CELLQ:
            jobs.append(("cell", q, lon))
    for L in LOADERS:
        for fmt in ("frame", "grid"):
            for pat in ((0, 1, 2, 3), (2, None, 1), (None, None), (0,)):
                for q in LOADQ[L[0]]:
                    for given in (False, True):
                        jobs.append(("data", L, fmt, pat, q, given))
    for q in BOXQ:
        for n in (1, 2):
            for depth in (0, 1):
                jobs.append(("box", q, n, depth))
    chk.parallel(jobs, lambda c, j: DO[j[0]](c, *j[1:]))
    return chk


def ask(chk, rule, C, case, mk, domain, **kw):
    """mk(it) -> (object, [watched], call(it))"""
    def setup(it):
        def run(i, a, k, node=None):
            watched, call = mk(i)
            before = [snap(w) for w in watched]
            r1 = snap(call(i))
            mid = [snap(w) for w in watched]
            r2 = snap(call(i))
            return TupleV([PyFn("seen", None), before, r1, mid, r2, [snap(w) for w in watched]])
        return PyFn("driver", run), [], {}, None
    kw.setdefault("ops", NOT_OPAQUE)
    for t in decided(chk, rule, setup, domain, **kw):
        if t.exc is not None:
            chk.undec(rule, f"{case}: raises {t.exc}")      # whether it may raise is another property's matter
            continue
        _, before, r1, mid, r2, after = t.value.items
        f = next((f for s in before + mid + after for f in [foreign_in(s)] if f is not None), None)
        if f is not None:
            chk.undec(rule, f"{case}: holds the uninterpreted term {show(f)}")
            continue
        d = next((x for a, b in zip(before, mid) if (x := diff(a, b, "it"))), None)
        if not chk.require(d is None, rule, C, f"{case}: after the query {d}", t.where, sample=case):
            continue
        d = next((x for a, b in zip(before, after) if (x := diff(a, b, "it"))), None)
        if not chk.require(d is None, rule, C, f"{case}: after asking twice {d}", t.where):
            continue
        if foreign_in(r1) is None and foreign_in(r2) is None:
            d = diff(r1, r2, "the answer")
            chk.require(d is None, rule + " again", C, f"{case}: asked again, {d}", t.where)
        else:
            chk.undec(rule + " again", case)


def foreign_in(s):
    if isinstance(s, tuple):
        return next((f for x in s if (f := foreign_in(x)) is not None), None)
    return foreign(s, NOT_OPAQUE)


def m(obj, name, *args, **kw):
    return lambda it: it.call(it.getattr(obj, name), list(args), dict(kw))


# ------------------------------------------------------------------ meshes
def point(pl, k):
    lo = pl.long(F(k), False)
    return TupleV([pl.lat(F(1, 3)), lo])


MESHQ = {
    "query_inside_mesh": lambda m_, ng, bs, pl, bd: ([point(pl, F(1, 3))], {}), "query_index": lambda m_, ng, bs, pl, bd: ([point(pl, F(1, 3))], {}),
    "get_cellbox": lambda m_, ng, bs, pl, bd: (["4"], {}), "to_json": lambda *a: ([], {}), "cellboxes_to_json": lambda *a: ([], {}),
    "get_cellboxes_within_bounds": lambda m_, ng, bs, pl, bd: ([bd], {}), "get_cellboxes_north_of_bounds": lambda m_, ng, bs, pl, bd: ([bd], {}),
    "get_cellboxes_south_of_bounds": lambda m_, ng, bs, pl, bd: ([bd], {}), "get_cellboxes_east_of_bounds": lambda m_, ng, bs, pl, bd: ([bd], {}),
    "get_cellboxes_west_of_bounds": lambda m_, ng, bs, pl, bd: ([bd], {}), "get_top_edge_cellboxes": lambda *a: ([], {}), "get_bottom_edge_cellboxes": lambda *a: ([], {}),
    "get_right_edge_cellboxes": lambda *a: ([], {}), "get_left_edge_cellboxes": lambda *a: ([], {}), "get_max_cellbox_id": lambda *a: ([], {}),
    "validate_merge_compatibility": lambda m_, ng, bs, pl, bd: ([m_], {}), "sim_split_cellbox": lambda *a: (["4"], {}),
    "neighbour_graph.get_graph": lambda *a: ([], {}), "neighbour_graph.get_neighbours": lambda *a: (["4", "2"], {}), "neighbour_graph.get_neighbour_map": lambda *a: (["4"], {}),
    "neighbour_graph.is_global_mesh": lambda *a: ([], {}), "neighbour_graph.get_neighbour_case": lambda m_, ng, bs, pl, bd: ([bs[0], bs[-1]], {}),
    "neighbour_graph.get_neighbour_case_bounds": lambda m_, ng, bs, pl, bd: ([bs[0].attrs.get("boundary"), bs[-1].attrs.get("boundary")], {}),
    "neighbour_graph.get_global_mesh_neighbour_case": lambda m_, ng, bs, pl, bd: ([bs[0], bs[-1]], {}),
}


def mesh(chk, q, name, others, pl):
    ids = [4] + [7 + 2 * i for i in range(len(others))][::-1]
    cells = dict(zip(ids, [Cell(-1, 1, -1, 1)] + list(others)))
    case = f"{name}, {pl}: {q}"
    owner, meth = ("neighbour_graph", q.split(".")[1]) if "." in q else (None, q)

    def mk(it):
        bd = boundary(it, [pl.lat(-1), pl.lat(1)], [pl.long(-1, False), pl.long(1, True)])
        conf = DictV([("region", DictV([("cell_width", XH), ("cell_height", YH)])), ("splitting", DictV([("split_depth", 2)]))])
        m_, ng, bs = env_mesh(it, cells, pl, ids, conf, bd)
        o = ng if owner else m_
        if o.cls.lookup(meth)[0] is None:
            raise Undecided(f"no {q}")
        a, k = MESHQ[q](m_, ng, bs, pl, bd)
        if any(x is None for x in a):
            raise Undecided("cell without boundary")
        return [m_, ng] + list(a), m(o, meth, *a, **k)

    def dom():
        d = pl.domain()
        d.text = True
        return d
    ask(chk, "graph" if owner else "mesh", f"{'NeighbourGraph' if owner else 'EnvironmentMesh'}.{meth}", case, mk, dom)


# ------------------------------------------------------------------ regions and cells
REGIONQ = ["getcx", "getcy", "get_height", "get_width", "get_time_range", "getdcx", "getdcy", "get_lat_min", "get_lat_max", "get_long_min", "get_long_max", "get_time_min", "get_time_max", "get_bounds", "to_polygon",
           "to_poly_string", "split", "__str__", "__eq__"]
CELLQ = ["get_bounds", "get_agg_data", "get_id", "to_json", "contains_point", "__eq__"]


class TextC(HullDomain):
    text = True


def region(chk, q, lon):
    def mk(it):
        bd = boundary(it, [-20, 10], lon, ListV(["2013-01-01", "2013-02-01"]))
        other = boundary(it, [-20, 10], lon, ListV(["2013-01-01", "2013-02-01"]))
        if bd.cls.lookup(q)[0] is None:
            raise Undecided(f"no {q}")
        return [bd, other], m(bd, q, *([other] if q == "__eq__" else []))
    ask(chk, "region", f"Boundary.{q}", f"region over longitudes {lon}: {q}", mk, TextC)


def cell(chk, q, lon):
    def mk(it):
        A = it.prog.cls(MG + "aggregated_cellbox.AggregatedCellBox")
        two = [it.call(A, [boundary(it, [-20, 10], lon), DictV([("v", Sym("val", 1)), ("flag", True), ("list", ListV([Sym("val", 2), Sym("val", 3)]))]), "5"], {}) for _ in range(2)]
        if two[0].cls.lookup(q)[0] is None:
            raise Undecided(f"no {q}")
        return two, m(two[0], q, *([two[1]] if q == "__eq__" else [-5, 177] if q == "contains_point" else []))
    ask(chk, "cell", f"AggregatedCellBox.{q}", f"cell over longitudes {lon}: {q}", mk, TextC)


# ------------------------------------------------------------------ data sources
LOADQ = {"scalar": ["trim_datapoints", "calculate_coverage", "get_hom_condition", "get_data_col_name"] + ["get_value " + a for a in ("MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT")],
         "vector": ["trim_datapoints", "calculate_coverage", "get_hom_condition", "get_hom_condition curl", "get_data_col_name", "calc_curl", "calc_dmag"] + ["get_value " + a for a in ("MIN", "MAX", "MEAN", "STD", "COUNT")]}


def data(chk, L, fmt, pat, q, given):
    kind, cls, names = L
    meth, _, arg = q.partition(" ")
    C = f"{cls.split('.')[-1]}.{meth}"
    n = len(pat)
    ranks = sorted({p for p in pat if p is not None})
    num = {0: 3, 1: F(7, 2), 2: 8, 3: -4}
    if kind == "scalar":
        cols = {"v": [NAN if p is None else num[p] for p in pat]}
    else:
        cols = {nm: [NAN if p is None else num[p] + 4 * j for p in pat] for j, nm in enumerate(names)}
        if meth in ("get_value", "calc_dmag", "get_hom_condition"):
            cols["_magnitude"] = [NAN if p is None else Sym("mag", p) for p in pat]
    case = f"{kind} {fmt} of {n} points{' with missing values' if None in pat else ''}{', data given' if given else ''}: {q}"

    def mk(it):
        bd = boundary(it, *BOUNDS, ListV(["2013-01-01", "2013-02-01"]))
        d = table(fmt, cols, INSIDE[:n], [] if given or meth in ("calc_curl", "calc_dmag", "calculate_coverage") else OUTSIDE)
        own = table(fmt, {c: [Sym("other", c, i) for i in range(len(v))] for c, v in cols.items()}, INSIDE[:n], []) if given else d
        o = loader(it, cls, names, own)
        o.attrs["min_dp"] = 1
        if o.cls.lookup(meth)[0] is None:
            raise Undecided(f"no {meth}")
        a, k = [bd], {"data": d} if given else {}
        if meth == "get_value":
            k["agg_type"] = arg
        if meth == "get_hom_condition":
            sc = [("lower_bound", F(1, 10)), ("upper_bound", F(9, 10)), ("split_lock", False)]
            sc.append(("threshold", 4))
            a.append(DictV(sc) if kind == "scalar" else DictV([("curl" if arg else "dmag", DictV(sc))]))
        if meth == "get_data_col_name":
            a, k = [], {}
        return [o, d] + a, m(o, meth, *a, **k)
    ask(chk, f"{kind} {fmt}", C, case, mk, lambda: OrderDomain(Chain([-180, 180]), Chain([Sym("mag", r) for r in ranks]) if ranks else Chain([0])))


# ------------------------------------------------------------------ cells being built
BOXQ = ["get_id", "get_minimum_datapoints", "get_data_source", "get_parent", "get_bounds", "get_split_depth", "should_split", "should_split_breadth_first", "aggregate", "split"]


def box(chk, q, n, depth):
    C = f"CellBox.{q}"
    case = f"cell of depth {depth} with {n} sources: {q}"
    srcs = [Source(f"s{i}", names=["v"] if i == 0 else ["u", "w"], verdict=lambda c, e: "HET", value=lambda nm, e: NAN if e[1] == 8 and nm == "v" else Sym("val", nm, *e)) for i in range(n)]

    def mk(it):
        MD = it.prog.cls(MG + "metadata.Metadata")
        parent = None
        loaders = [s.loader(it) for s in srcs]
        for l in range(depth + 1):
            size = 16 >> l
            e = (F(0), F(size), F(0), F(size))
            cb = cellbox(it, boundary(it, [0, size], [0, size], ListV(["2017-02-01", "2017-02-04"])), str(10 + l))
            mds = [it.call(MD, [o, ListV([DictV([(",".join(s.names), s.cond(0))])]), "parent", s.subset(e)], {}) for s, o in zip(srcs, loaders)]
            it.call(it.getattr(cb, "set_data_source"), [ListV(mds)], {})
            it.call(it.getattr(cb, "set_split_depth"), [l], {})
            it.call(it.getattr(cb, "set_minimum_datapoints"), [3], {})
            if parent is not None:
                it.call(it.getattr(cb, "set_parent"), [parent], {})
            parent = cb
        if cb.cls.lookup(q)[0] is None:
            raise Undecided(f"no {q}")
        return [cb], m(cb, q, *([n] if q == "should_split" else [40] if q == "split" else []))
    ask(chk, "cell being built", C, case, mk, None)


DO = {"mesh": mesh, "region": region, "cell": cell, "data": data, "box": box}

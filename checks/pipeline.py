"""Abstract data sources for the mesh builder: loaders that are values of the analysis, not code."""
from fractions import Fraction as F
from sa.values import *
from .common import *

FACTORY = "meshiphi.dataloaders.factory.DataLoaderFactory.get_dataloader"
KINDS = ["CLR", "HET", "HOM", "MIN"]


def num(v):
    """number of an abstract constant, or None"""
    p = poly(v)
    return None if p is None or any(k for k in p) else F(p.get((), 0))


def extent(it, bd):
    """(south, north, west, east) as numbers"""
    return tuple(num(it.call(it.getattr(bd, n), [], {})) for n in ("get_lat_min", "get_lat_max", "get_long_min", "get_long_max"))


class Source:
    """what one data source answers: verdict(cond number, extent), value(name, extent)"""

    def __init__(self, key, names=None, conds=1, verdict=None, value=None, fill=None, params=None):
        self.key, self.names, self.conds = key, names or [key], conds
        self.verdict = verdict or (lambda c, e: "CLR")
        self.value = value or (lambda n, e: Sym("val", key, n, *e))
        self.fill, self.params = fill, params or []
        self.wrong = []            # misuse seen: text

    def params_v(self):
        p = [("splitting_conditions", ListV([DictV([(",".join(self.names), self.cond(c))]) for c in range(self.conds)]))] if self.conds is not None else []
        if self.fill is not None:
            p.append(("value_fill_types", self.fill))
        return DictV(p + self.params)

    def cond(self, c):
        return DictV([("threshold", c), ("upper_bound", 1), ("lower_bound", 0), ("of", self.key)])

    def subset(self, e):
        return ObjV(None, f"data {self.key} {e}", {"_of": self.key, "_in": e})

    def data_ok(self, d, e, what):
        """data given for an extent: none (the loader's own) or that of the same source and extent"""
        if d is None:
            return
        if not isinstance(d, ObjV) or d.attrs.get("_of") != self.key:
            self.wrong.append(f"{what} of source {self.key} uses data {show(d)}")
        elif what == "selection":
            if d.attrs["_in"] is not None and not inside(e, d.attrs["_in"]):
                self.wrong.append(f"{what} of source {self.key} for {txt(e)} uses the data of {txt(d.attrs['_in'])}")
        elif d.attrs["_in"] != e:
            self.wrong.append(f"{what} of source {self.key} for {txt(e)} uses the data of " + (txt(d.attrs["_in"]) if d.attrs["_in"] else "the whole region"))

    def loader(self, it):
        kind = "vector.abstract_vector.VectorDataLoader" if len(self.names) > 1 else "scalar.abstract_scalar.ScalarDataLoader"
        o = ObjV(it.prog.cls("meshiphi.dataloaders." + kind), f"loader {self.key}")

        def arg(args, kwargs, i, name):
            return kwargs[name] if name in kwargs else args[i] if len(args) > i else None

        def hom(it, args, kwargs, node=None):
            e = extent(it, arg(args, kwargs, 0, "bounds"))
            c = arg(args, kwargs, 1, "splitting_conds")
            self.data_ok(arg(args, kwargs, 2, "data"), e, "verdict")
            k = num(c.get("threshold")) if isinstance(c, DictV) and c.get("of") == self.key else None
            if k is None:
                self.wrong.append(f"source {self.key} is asked with the condition {show(c)}")
                return "CLR"
            return self.verdict(int(k), e)

        def trim(it, args, kwargs, node=None):
            e = extent(it, arg(args, kwargs, 0, "bounds"))
            self.data_ok(arg(args, kwargs, 1, "data"), e, "selection")
            return self.subset(e)

        def value(it, args, kwargs, node=None):
            e = extent(it, arg(args, kwargs, 0, "bounds"))
            d = kwargs.get("data")
            if d is None:
                d = next((a for a in args[1:] if isinstance(a, ObjV)), None)
            self.data_ok(d, e, "value")
            return DictV([(n, self.value(n, e)) for n in self.names])
        o.attrs.update({"data_name": ",".join(self.names), "data_name_list": ListV(list(self.names)), "dataloader_name": self.key,
                        "data": self.subset(None), "files": ListV([f"{self.key}.nc"]), "aggregate_type": "MEAN", "min_dp": 5,
                        "get_hom_condition": PyFn("get_hom_condition", hom), "trim_datapoints": PyFn("trim_datapoints", trim),
                        "get_value": PyFn("get_value", value)})
        self.obj = o
        return o


def inside(a, b):
    return b[0] <= a[0] and a[1] <= b[1] and b[2] <= a[2] and a[3] <= b[3]


def txt(e):
    return "lat %s:%s long %s:%s" % tuple(float(x) if x is not None else "?" for x in e)


def config(srcs, W=1, H=1, depth=1, cell=16):
    return DictV([("region", DictV([
        ("lat_min", 0), ("lat_max", cell * H), ("long_min", 0), ("long_max", cell * W),
        ("start_time", "2017-02-01"), ("end_time", "2017-02-04"), ("cell_width", cell), ("cell_height", cell)])),
        ("data_sources", ListV([DictV([("loader", s.key), ("params", s.params_v())]) for s in srcs])),
        ("splitting", DictV([("split_depth", depth), ("minimum_datapoints", 3)]))])


def factory(srcs, calls=None):
    by = {s.key: s for s in srcs}

    def get(it, args, kwargs, node=None):
        names = ["name", "bounds", "params", "min_dp"]
        a = dict(zip(names, args))
        a.update(kwargs)
        if calls is not None:
            calls.append(a)
        s = by.get(a.get("name"))
        if s is None:
            raise Undecided(f"loader {show(a.get('name'))} requested")
        return s.loader(it)
    return {FACTORY: get}


def builder(it, cfg):
    return it.call(it.prog.cls(MG + "mesh_builder.MeshBuilder"), [cfg], {})


def quarters(e):
    s, n, w, o = e
    y, x = (s + n) / 2, (w + o) / 2
    return [(y, n, w, x), (y, n, x, o), (s, y, w, x), (s, y, x, o)]


def wants(srcs, k, e):
    vs = [s.verdict(c, e) for s in srcs[:k] for c in range(s.conds or 0)]
    return "HET" in vs and "HOM" not in vs and "MIN" not in vs


def leaves(srcs, e, depth, top, k=1):
    """expected live cells below extent e: [(extent, depth)]"""
    if depth < top:
        for j in range(k, len(srcs) + 1):
            if wants(srcs, j, e):
                return [l for q in quarters(e) for l in leaves(srcs, q, depth + 1, top, j)]
    return [(e, depth)]

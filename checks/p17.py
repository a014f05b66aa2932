"""Configurations: exactly the well-formed ones are accepted, and building a mesh refuses the rest."""
import copy
import datetime as dt
from fractions import Fraction as F
from sa.order import OrderDomain
from sa.report import Check
from sa.shapes import JsonText
from sa.tables import FrameV
from sa.values import *
from .common import *
from .p16 import DATES, day
from .pipeline import FACTORY

RULE = ("over single departures from well-formed configurations (each key missing, each value of every other JSON type or beyond its limits, unknown keys, unreadable dates, cell sizes that do not divide the region): "
        "validation raises exactly for the departures, given as a document or as a path to one, leaves the document as it was, and building a mesh refuses what validation refuses")

CV = "meshiphi.config_validation.config_validator."
VALUES = [None, True, False, 0, 1, 3, -1, F(5, 2), F(-1, 2), 101, 100, "", "12", "text", "days", "hours", "seconds", [], [1], ["a"], ["a", "b"], ["a", 1], ["a", "b", "c"], {}, {"a": 1}]


def number(v):
    return isinstance(v, (int, F)) and not isinstance(v, bool)


KIND = {
    "number": number, "positive": lambda v: number(v) and v > 0, "natural": lambda v: number(v) and v >= 0, "percent": lambda v: number(v) and 0 <= v <= 100,
    "integer": lambda v: number(v) and F(v).denominator == 1, "text": lambda v: isinstance(v, str), "bool": lambda v: isinstance(v, bool), "object": lambda v: isinstance(v, dict),
    "texts": lambda v: isinstance(v, list) and all(isinstance(x, str) for x in v), "pair": lambda v: isinstance(v, list) and len(v) == 2 and all(isinstance(x, str) for x in v),
    "unit": lambda v: isinstance(v, str) and v in ("days", "hours", "seconds"), "none": lambda v: False, "any": lambda v: True,
}

REGION = {"lat_min": -10, "lat_max": 10, "long_min": -20, "long_max": 20, "start_time": "2013-01-01", "end_time": "2013-01-14", "cell_width": 5, "cell_height": F(5, 2)}
MESH = {"region": REGION, "data_sources": [{"loader": "scalar_csv", "params": {"files": ["a.csv"]}}, {"loader": "GEBCO", "params": {}}], "splitting": {"split_depth": 3, "minimum_datapoints": 5}}
VESSEL = {"VesselType": "SDA", "MaxSpeed": F(53, 2), "Unit": "km/hr", "MaxIceConc": 80, "MinDepth": 10}
ROUTE = {"objective_function": "traveltime", "path_variables": ["fuel", "traveltime"], "vector_names": ["uC", "vC"], "variable_speed": True, "time_unit": "days", "early_stopping_criterion": True, "zero_currents": False}

# field -> (kind, required); None as kind: checked elsewhere (dates, sizes)
SPEC = {
    "mesh": (CV + "validate_mesh_config", MESH, {
        (): ({"region": "none", "data_sources": "none", "splitting": "none"}, True),
        ("region",): ({"lat_min": "num", "lat_max": "num", "long_min": "num", "long_max": "num", "cell_width": "num", "cell_height": "num", "start_time": "date", "end_time": "date"}, False),
        ("splitting",): ({"split_depth": "integer", "minimum_datapoints": "integer"}, False),
        ("data_sources", 0): ({"loader": "text", "params": "object"}, False), ("data_sources", 1): ({"loader": "text", "params": "object"}, False)}),
    "vessel": (CV + "validate_vessel_config", VESSEL, {(): ({"VesselType": "text", "MaxSpeed": "natural", "Unit": "text", "MaxIceConc": "percent", "MinDepth": "natural"}, True)}),
    "route": (CV + "validate_route_config", ROUTE, {(): ({"objective_function": "text", "path_variables": "texts", "vector_names": "pair", "variable_speed": "bool", "time_unit": "unit", "early_stopping_criterion": "bool",
                                                         "zero_currents": "bool"}, True)}),
}
OPTIONAL = {"route": {"smoothing_blocked_sic": "number", "smoothing_max_iterations": "integer", "smoothing_merge_separation": "number", "smoothing_converged_sep": "number"}}


def absv(v):
    if isinstance(v, dict):
        return DictV([(k, absv(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ListV([absv(x) for x in v])
    return v


def put(d, path, key, *v):
    d = copy.deepcopy(d)
    t = d
    for p in path:
        t = t[p]
    if v:
        t[key] = v[0]
    else:
        del t[key]
    return d


def at(path, key):
    return "/".join(str(x) for x in path + (key,))


def cases(which):
    """(document, well-formed?, what is special)"""
    fn, base, spec = SPEC[which]
    out = [(base, True, "well-formed")]
    for path, (fields, open_) in spec.items():
        for k, kind in fields.items():
            out.append((put(base, path, k), False, f"without {at(path, k)}"))
            for v in VALUES:
                if kind == "num":
                    ok = False if not number(v) else None      # whether a number fits is decided with the sizes
                elif kind == "date":
                    ok = False
                elif kind == "none":
                    ok = False if k != "data_sources" or v != [] else True
                else:
                    ok = KIND[kind](v)
                if ok is not None:
                    out.append((put(base, path, k, v), ok, f"with {at(path, k)} = {v!r}"))
        if not open_:
            for v in (1, "x", None, {}):
                out.append((put(base, path, "another_key", v), False, f"with an unknown key in {at(path, '')}"))
    for k, kind in OPTIONAL.get(which, {}).items():
        for v in VALUES:
            out.append((put(base, (), k, v), KIND[kind](v), f"with {k} = {v!r}"))
    if which == "mesh":
        for v in VALUES:
            out.append((put(base, ("data_sources",), 0, v), False, f"with the data source {v!r}"))
        out.append((dict(base, data_sources=[]), True, "without data sources"))
        out.append((dict(base, data_sources=base["data_sources"][:1] * 3), True, "with three data sources"))
        for k, other in (("start_time", "end_time"), ("end_time", "start_time")):
            for text in [d[0] for d in DATES]:
                out.append((put(put(base, ("region",), k, text), ("region",), other, "2013-01-14" if k == "start_time" else "1901-01-01"), ("date", text), f"with {k} {text!r}"))
        out += sizes(base)
    return out


def sizes(base):
    """places, extents and cell sizes: accepted exactly when positive sizes divide the extents"""
    out = []
    W = [5, 10, 20, 45, 90, 175, 180, 185, 270, 355, 360]
    C = [F(1, 2), 1, F(5, 4), F(5, 2), 3, 5, 7, 8, 9, 10, 12, 15, 20, 45, 60, 90, 100, 180, 270, 360, 400, 0, -5, -1, F(-5, 2), F(5001, 1000), F(20001, 1000), F(4999, 1000)]
    for w in W:
        for start in (-180, -177, -20, 0, 3, 100, 175, 179, F(359, 2)):
            end = start + w
            if end > 180:
                end -= 360
            if w == 360 and start != -180:
                continue
            if end < -180 or end == start:
                continue
            for c in C:
                ok = c > 0 and F(w) / F(c) % 1 == 0
                out.append(({**base, "region": {**REGION, "long_min": start, "long_max": end, "cell_width": c}}, ok, f"with longitudes {start}:{end} and cell width {c}"))
    for lo, hi in ((-90, 90), (-10, 10), (0, 5), (-60, -50), (-90, -85), (F(-5, 2), F(5, 2)), (60, 90), (-90, 45)):
        for c in C:
            ok = c > 0 and F(hi - lo) / F(c) % 1 == 0
            out.append(({**base, "region": {**REGION, "lat_min": lo, "lat_max": hi, "cell_height": c}}, ok, f"with latitudes {lo}:{hi} and cell height {c}"))
    return out


NOWS = [dt.datetime(2024, 2, 27, 13, 45, 10), dt.datetime(2023, 12, 31, 23, 59, 59)]


class Dated(OrderDomain):
    now = NOWS[0]
    text = True


def check(tier):
    chk = Check("P17", RULE, tier, minimum=200)
    jobs = []
    for which in SPEC:
        for i, (doc, ok, what) in enumerate(cases(which)):
            jobs.append(("validate", which, doc, ok, what, "dict"))
            if "divisible" not in what and (not what.startswith("with l") or i % 7 == 0):
                jobs.append(("validate", which, doc, ok, what, "path"))
            if which == "mesh":
                jobs.append(("build", which, doc, ok, what, "dict"))
        for v in (None, 3, [], ["x"], (1, 2), True, F(1, 2)):
            jobs.append(("other", which, v))
        jobs.append(("nofile", which))
    for w in WAY:
        jobs.append(("way", w))
    chk.parallel(jobs, lambda c, j: DO[j[0]](c, *j[1:]))
    return chk


def verdict(ok):
    if isinstance(ok, tuple):
        return day(ok[1], Dated.now) is not None
    return ok


def do_validate(chk, which, doc, ok, what, how):
    rule = "accepts" if verdict(ok) else "refuses"
    C = SPEC[which][0].rsplit(".", 1)[1]
    case = f"{which} configuration {what}" + (", given as a path" if how == "path" else "")

    def setup(it):
        arg = absv(doc)
        if how == "path":
            it.files["/cfg/config.json"] = [JsonText(arg)]
            return it.prog.fn(SPEC[which][0]), ["/cfg/config.json"], {}, arg
        return it.prog.fn(SPEC[which][0]), [arg], {}, arg
    for t in decided(chk, rule, setup, Dated):
        if verdict(ok):
            if not chk.require(t.outcome == "return", rule, C, f"{case}: raises {t.exc}", t.where, sample=case):
                continue
        else:
            chk.require(t.outcome == "raise", rule, C, f"{case}: accepted", sample=case)
        if how == "dict":
            chk.require(freeze(t.inputs) == freeze(absv(doc)), "document left alone", C, f"{case}: the document is {show(freeze(t.inputs))} after validation")


def do_build(chk, which, doc, ok, what, how):
    """building refuses what validation refuses"""
    if verdict(ok):
        return
    rule, C = "build refuses", "MeshBuilder.__init__"

    def setup(it):
        return it.prog.cls(MG + "mesh_builder.MeshBuilder"), [absv(doc)], {}, None
    stub = {FACTORY: lambda it, a, k, node=None: it.undecided("a data source is loaded", node)}
    for t in decided(chk, rule, setup, Dated, models=stub):
        chk.require(t.outcome == "raise", rule, C, f"mesh configuration {what}: a mesh is built", sample=what)


def do_other(chk, which, v):
    rule = "refuses"
    C = SPEC[which][0].rsplit(".", 1)[1]

    def setup(it):
        return it.prog.fn(SPEC[which][0]), [TupleV(list(v)) if isinstance(v, tuple) else absv(v)], {}, None
    for t in decided(chk, rule, setup, Dated):
        chk.require(t.outcome == "raise", rule, C, f"{which} configuration given as {v!r}: accepted")


def do_nofile(chk, which):
    rule = "refuses"
    C = SPEC[which][0].rsplit(".", 1)[1]

    def setup(it):
        return it.prog.fn(SPEC[which][0]), ["/cfg/missing.json"], {}, None
    for t in decided(chk, rule, setup, Dated):
        chk.require(t.outcome == "raise", rule, C, f"{which} configuration at a path without a file: accepted")


# ------------------------------------------------------------------ waypoints
GOOD = {"Name": ["A", "B", "C"], "Lat": [F(-121, 2), 50, 0], "Long": [F(7, 2), 20, -180], "Source": ["X", "", ""], "Destination": ["", "X", "X"]}
NAN = Sym("nan")
WAY = [(GOOD, True, "well-formed")] + [({k: v for k, v in GOOD.items() if k != c}, False, f"without the column {c}") for c in GOOD] + \
    [(dict(GOOD, Source=["", "", ""]), False, "without a source"), (dict(GOOD, Destination=[NAN, NAN, NAN]), False, "without a destination"), (dict(GOOD, Source=["x", "Y", ""]), False, "without a source 'X'"),
     (dict(GOOD, Source=["X", "X", "X"]), True, "all sources"), (dict(GOOD, Destination=["", "", "X"]), True, "one destination"), (dict(GOOD, Extra=[1, 2, 3]), True, "with another column")] + \
    [(dict(GOOD, **{c: [v if i == p else x for i, x in enumerate(GOOD[c])]}), False, f"with {c} {v!r} in row {p}") for c in ("Lat", "Long") for p in (0, 1, 2) for v in ("north", "", NAN, None, "12E")] + \
    [(dict(GOOD, **{c: ["1", "-2.5", "3e1"]}), True, f"with numeric texts in {c}") for c in ("Lat", "Long")]


def do_way(chk, w):
    cols, ok, what = w
    rule, C = "waypoints", "validate_waypoints"

    def setup(it):
        return it.prog.fn(CV + "validate_waypoints"), [FrameV(cols)], {}, None
    for t in decided(chk, rule, setup, Dated):
        if ok:
            chk.require(t.outcome == "return", rule, C, f"waypoints {what}: raises {t.exc}", t.where, sample=what)
        else:
            chk.require(t.outcome == "raise", rule, C, f"waypoints {what}: accepted", sample=what)


DO = {"validate": do_validate, "build": do_build, "other": do_other, "nofile": do_nofile, "way": do_way}

"""Data source names, files and settings: the right loader gets what the configuration says."""
import itertools
from fractions import Fraction as F
from sa.program import AnchorLost
from sa.report import Check
from sa.values import *
from .common import *

RULE = ("over every known source name in several spellings, with and without each required setting, and files given as file, folder or list: the loader made is the one of that name, given the region, all settings as "
        "configured, the files named, and the minimum number of points; unknown names and missing required settings raise; for every loader, filling in defaults keeps every configured setting and adds exactly the missing ones")

D = "meshiphi.dataloaders."
S, V, L = D + "scalar.", D + "vector.", D + "lut."
TABLE = {
    "scalar_csv": (S + "scalar_csv.ScalarCSVDataLoader", ["files"]), "scalar_grf": (S + "scalar_grf.ScalarGRFDataLoader", ["binary"]), "binary_grf": (S + "scalar_grf.ScalarGRFDataLoader", ["binary"]),
    "amsr": (S + "amsr.AMSRDataLoader", ["files", "hemisphere"]), "bsose_sic": (S + "bsose_sea_ice.BSOSESeaIceDataLoader", ["files"]), "bsose_depth": (S + "bsose_depth.BSOSEDepthDataLoader", ["files"]),
    "baltic_sic": (S + "baltic_sea_ice.BalticSeaIceDataLoader", ["files"]), "gebco": (S + "gebco.GEBCODataLoader", ["files"]), "icenet": (S + "icenet.IceNetDataLoader", ["files"]), "modis": (S + "modis.MODISDataLoader", ["files"]),
    "visual_iced": (S + "visual_iced.VisualIcedDataLoader", ["files"]), "era5_sig_wave_height": (S + "era5_sig_wave_height.ERA5SigWaveHeightDataLoader", ["files"]),
    "era5_max_wave_height": (S + "era5_max_wave_height.ERA5MaxWaveHeightDataLoader", ["files"]), "era5_wave_dir": (S + "era5_mean_wave_direction.ERA5MeanWaveDirDataLoader", ["files"]),
    "era5_wave_period": (S + "era5_wave_period.ERA5WavePeriodDataLoader", ["files"]), "era5_wind_mag": (S + "era5_wind_mag.ERA5WindMagDataLoader", ["files"]), "era5_wind_dir": (S + "era5_wind_dir.ERA5WindDirDataLoader", ["files"]),
    "ecmwf_sig_wave_height": (S + "ecmwf_sig_wave_height.ECMWFSigWaveHeightDataLoader", ["files"]),
    "circle": (S + "shape.ShapeDataLoader", []), "rectangle": (S + "shape.ShapeDataLoader", []), "gradient": (S + "shape.ShapeDataLoader", []), "checkerboard": (S + "shape.ShapeDataLoader", []),
    "vector_csv": (V + "vector_csv.VectorCSVDataLoader", ["files"]), "vector_grf": (V + "vector_grf.VectorGRFDataLoader", []), "baltic_currents": (V + "baltic_current.BalticCurrentDataLoader", ["files"]),
    "era5_wind": (V + "era5_wind.ERA5WindDataLoader", ["files"]), "era5_wave_direction": (V + "era5_wave_direction_vector.ERA5WaveDirectionLoader", ["files"]),
    "northsea_currents": (V + "north_sea_current.NorthSeaCurrentDataLoader", ["files"]), "duacs_currents": (V + "duacs_current.DuacsCurrentDataLoader", ["files"]),
    "oras5_currents": (V + "oras5_current.ORAS5CurrentDataLoader", ["files"]), "sose": (V + "sose.SOSEDataLoader", ["files"]),
    "vector_circle": (V + "vector_shape.VectorShapeDataLoader", []), "vector_gradient": (V + "vector_shape.VectorShapeDataLoader", []), "vector_rectangle": (V + "vector_shape.VectorShapeDataLoader", []),
    "thickness": (L + "thickness.ThicknessDataLoader", []), "density": (L + "density.DensityDataLoader", []), "scotland_ncmpa": (L + "scotland_ncmpa.ScotlandNCMPA", ["files"]),
    "lut_csv": (L + "lut_csv.LutCSV", ["files"]), "lut_geojson": (L + "lut_geojson.LutGeoJSON", ["files", "value"]), "lut_shapefile": (L + "lut_shapefile.LutShapefile", ["files", "value"]),
}
FACTORY = D + "factory.DataLoaderFactory"
GIVEN = {"files": ["/d/b.nc", "/d/a.nc"], "binary": True, "hemisphere": "south", "value": 7}
FOUND = ["/d/2020/c.nc", "/d/2020/a.nc", "/d/2020/b.nc"]


def absv(v):
    if isinstance(v, dict):
        return DictV([(k, absv(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ListV([absv(x) for x in v])
    if isinstance(v, tuple):
        return TupleV([absv(x) for x in v])
    return v


def check(tier):
    chk = Check("P18", RULE, tier, minimum=200)
    have = {}
    for n, (q, req) in TABLE.items():
        try:
            have[n] = chk.prog.cls(q).qual
        except AnchorLost:
            chk.undec("loader", f"class {q} not found")
    for n, (q, req) in TABLE.items():
        if n not in have:
            continue
        full = {k: GIVEN[k] for k in req}
        own = dict(full, data_name="mine", aggregate_type="MAX", downsample_factors=[2, 3], splitting_conditions=[], anything=Sym("any value"))
        for spelt in {n, n.upper(), n.title(), n.swapcase(), n[0].upper() + n[1:]}:
            one(chk, spelt, own, True, n, have)
        one(chk, n, full, True, n, have)
        for k in req:
            one(chk, n, {x: y for x, y in own.items() if x != k}, False, n, have)
        if "files" in req:
            rest = {x: y for x, y in own.items() if x != "files"}
            one(chk, n, dict(rest, file="/d/one.nc"), True, n, have, files=["/d/one.nc"])
            for folder in ("/d/2020", "/d/2020/"):
                one(chk, n, dict(rest, folder=folder), True, n, have, files=sorted(FOUND), look="/d/2020/*")
    for bad in ("", "gebc", "gebco ", "scalar", "csv", "scalar csv", "scalar_csv_", "vector", "unknown", "GEBCO2", "none"):
        one(chk, bad, dict(GIVEN), False, None, have)
    for n, (q, req) in TABLE.items():
        if n in have:
            defaults(chk, n, q, {k: GIVEN[k] for k in req})
    for h, want in (("north", "EPSG:3411"), ("South", "EPSG:3412"), ("SOUTH", "EPSG:3412"), ("North", "EPSG:3411"), ("east", None), ("", None)):
        if "amsr" in have:
            hemisphere(chk, h, want)
    return chk


def one(chk, spelt, params, ok, name, have, files=None, look=None):
    rule, C = "loader" if ok else "refusal", "DataLoaderFactory.get_dataloader"
    case = f"source {spelt!r} with settings {sorted(params)}"
    for mdp in (None, 12, 2):
        made = []

        def model(qual):
            def f(it, a, k, node=None):
                bd = k.get("bounds", a[0] if a else None)
                p = k.get("params", a[1] if len(a) > 1 else None)
                made.append((qual, bd, p))
                return ObjV(it.prog.cls(qual), "made loader")
            return f

        def setup(it):
            made.clear()
            bd = ObjV(it.prog.cls(MG + "boundary.Boundary"), "region")
            kw = {} if mdp is None else {"min_dp": mdp}
            return it.getattr(it.prog.cls(FACTORY), "get_dataloader"), [spelt, bd, absv(params)], kw, bd
        patterns = []

        def glob(it, a, k, node=None):
            patterns.append(a[0])
            return ListV(list(FOUND))
        models = {q: model(q) for q in set(have.values())}
        models["glob.glob"] = glob
        for f in ("getsize", "getmtime", "getctime", "getatime"):      # sizes and times say nothing about the order of names
            models["os.path." + f] = lambda it, a, k, node=None: -sum(map(ord, a[0])) if isinstance(a[0], str) else it.undecided("a file's size", node)
        for t in decided(chk, rule, setup, models=models):
            if not ok:
                chk.require(t.outcome == "raise" and not made, rule, C, f"{case}: a loader is made", sample=case)
                continue
            if not chk.require(t.outcome == "return" and len(made) == 1, rule, C, f"{case}: " + (f"raises {t.exc}" if t.outcome == "raise" else f"{len(made)} loaders made"), t.where):
                continue
            q, bd, p = made[0]
            chk.require(q == have[name], rule, C, f"{case}: makes {q}", sample=f"{spelt} -> {q}")
            chk.require(isinstance(t.value, ObjV) and t.value.cls.qual == q, rule, C, f"{case}: returns {show(t.value)}")
            chk.require(bd is t.inputs, "region", C, f"{case}: the loader is given another region")
            if not isinstance(p, DictV):
                chk.undec("settings", f"settings are {show(p)}")
                continue
            got = {k: v for k, v in p.pairs()}
            for k, v in params.items():
                if k in ("file", "folder"):
                    continue
                chk.require(k in got and freeze(got[k]) == freeze(absv(v)), "settings", C, f"{case}: setting {k} arrives as {show(got.get(k))}")
            chk.require(got.get("dataloader_name") == name, "settings", C, f"{case}: the loader is told the name {show(got.get('dataloader_name'))}")
            chk.require(got.get("min_dp") == (5 if mdp is None else mdp), "settings", C, f"{case}: minimum number of points {show(got.get('min_dp'))}")
            if files is not None:
                chk.require("files" in got and freeze(got["files"]) == freeze(ListV(list(files))), "files", C, f"{case}: the files are {show(freeze(got.get('files')))}", sample=f"{case}: {files}")
                if look is not None and patterns:
                    chk.require(all(x == look for x in patterns), "files", C, f"{case}: the files are looked up as {[show(x) for x in patterns]}")
            patterns.clear()


# settings every loader has after defaults are filled in
BASE = {"scalar": {"data_name": None, "downsample_factors": [1, 1], "aggregate_type": "MEAN", "min_dp": 5, "in_proj": "EPSG:4326", "out_proj": "EPSG:4326", "x_col": "lat", "y_col": "long"},
        "lut": {"data_name": None, "aggregate_type": "MEAN"}}
BASE["vector"] = dict(BASE["scalar"])
SPECIAL = {"scalar_grf": {"data_name": "binary_data"}, "binary_grf": {"data_name": "binary_data"}, "vector_grf": {"data_name": "uC,vC"}, "amsr": {"in_proj": "EPSG:3412", "x_col": "x", "y_col": "y"},
           "lut_geojson": {"data_name": "dummy_data"}, "lut_shapefile": {"data_name": "dummy_data"}}
NEEDS = {"circle": ["nx", "ny", "multiplier", "radius", "centre"], "rectangle": ["nx", "ny", "multiplier", "width", "height", "centre"], "gradient": ["nx", "ny", "multiplier", "vertical"], "checkerboard": ["nx", "ny", "gridsize"],
         "vector_circle": ["nx", "ny", "multiplier_u", "multiplier_v", "radius", "centre"], "vector_rectangle": ["nx", "ny", "multiplier_u", "multiplier_v", "width", "height", "centre"],
         "vector_gradient": ["nx", "ny", "multiplier_u", "multiplier_v", "vertical"], "scalar_grf": ["seed", "size", "alpha", "min", "max", "binary", "threshold", "multiplier", "offset"], "binary_grf": ["seed", "size", "alpha", "min", "max", "binary", "threshold"],
         "vector_grf": ["seed", "size", "alpha", "vec_x", "vec_y", "min", "max"]}
GRF = {"seed": None, "size": 512, "alpha": 3}
VALUE = {"circle": {"nx": 101, "ny": 101, "multiplier": 1, "radius": 1, "centre": [None, None]}, "rectangle": {"nx": 101, "ny": 101, "multiplier": 1, "width": 1, "height": 1, "centre": [None, None]},
         "gradient": {"nx": 101, "ny": 101, "multiplier": 1, "vertical": True}, "checkerboard": {"nx": 101, "ny": 101, "gridsize": [1, 1]},
         "vector_circle": {"nx": 101, "ny": 101, "multiplier_u": 1, "multiplier_v": 1, "radius": 1, "centre": [None, None]},
         "vector_rectangle": {"nx": 101, "ny": 101, "multiplier_u": 1, "multiplier_v": 1, "width": 1, "height": 1, "centre": [None, None]},
         "vector_gradient": {"nx": 101, "ny": 101, "multiplier_u": 1, "multiplier_v": 1, "vertical": True},
         "scalar_grf": dict(GRF, min=-10, max=10, threshold=[0, 1], multiplier=1, offset=0), "binary_grf": dict(GRF, min=0, max=1, threshold=F(1, 2)),
         "vector_grf": dict(GRF, min=0, max=10, vec_x="uC", vec_y="vC")}


def alike(got, want):
    """the same value, a list or a tuple of it alike, True apart from 1"""
    if isinstance(want, list):
        return isinstance(got, (ListV, TupleV)) and len(got.items) == len(want) and all(alike(g, w) for g, w in zip(got.items, want))
    if want is None or isinstance(want, (bool, str)):
        return type(got) is type(want) and got == want
    return not isinstance(got, bool) and as_fraction(got) == want


# settings another one decides
FORCED = {"amsr": {"in_proj", "x_col", "y_col"}}
DERIVED = {"vector_grf": {"data_name": {"vec_x", "vec_y"}}}


def fill(chk, rule, n, q, params):
    def setup(it):
        c = it.prog.cls(q)
        o = ObjV(c, "loader")
        return it.getattr(o, "add_default_params"), [absv(params)], {}, None
    return decided(chk, rule, setup)


def chosen(k, default):
    """a configured value: any number where the default is one, some text or list otherwise"""
    if k == "data_name":
        return "mine_u,mine_v"
    if isinstance(default, (bool, int, F)):
        return Sym("chosen", k)
    if isinstance(default, str):
        return "chosen " + k
    return [F(7, 2), 9] if isinstance(default, (ListV, TupleV)) else Sym("chosen", k)


def defaults(chk, n, q, req):
    rule, C = "defaults", q.split(".")[-1] + ".add_default_params"
    req = dict(req, dataloader_name=n)
    if n == "scalar_grf":
        req["binary"] = False
    kind = q.split(".")[2]
    want = dict(BASE[kind], **SPECIAL.get(n, {}))
    if n == "scalar_grf":
        want["data_name"] = "scalar_data"
    base = None
    for t in fill(chk, rule, n, q, req):
        if not chk.require(t.outcome == "return", rule, C, f"source {n} with only required settings: raises {t.exc}", t.where):
            continue
        if not isinstance(t.value, DictV):
            chk.undec(rule, f"settings are {show(t.value)}")
            continue
        base = {k: v for k, v in t.value.pairs()}
        for k, v in want.items():
            chk.require(k in base and freeze(base[k]) == freeze(absv(v)), rule, C, f"source {n}: default of {k} is {show(freeze(base[k])) if k in base else 'missing'}", sample=f"{n}: {k} = {v}")
        for k, v in VALUE.get(n, {}).items():
            if k in base:
                chk.require(alike(base[k], v), rule, C, f"source {n}: default of {k} is {show(freeze(base[k]))} rather than {v}", sample=f"{n}: {k} = {v}")
        for k in NEEDS.get(n, []):
            chk.require(k in base, rule, C, f"source {n}: setting {k} is missing when not configured")
        for k, v in req.items():
            chk.require(k in base and freeze(base[k]) == freeze(absv(v)), "kept", C, f"source {n}: setting {k} becomes {show(base.get(k))}")
    if base is None:
        return
    for k in base:
        if k in req or k in FORCED.get(n, ()):
            continue
        mine = chosen(k, base[k])
        for t in fill(chk, rule, n, q, dict(req, **{k: mine})):
            if not chk.require(t.outcome == "return", "kept", C, f"source {n} with {k} configured: raises {t.exc}", t.where):
                continue
            got = {x: y for x, y in t.value.pairs()} if isinstance(t.value, DictV) else {}
            chk.require(k in got and freeze(got[k]) == freeze(absv(mine)), "kept", C, f"source {n}: the configured {k} is replaced by {show(got.get(k))}", sample=f"{n}: {k}")
            for x in base:
                if x != k and x not in DERIVED.get(n, {}).get(k, ()):
                    chk.require(x in got and freeze(got[x]) == freeze(base[x]), "kept", C, f"source {n}: configuring {k} changes {x} to {show(got.get(x))}")
    # all but one configured
    names = [k for k in base if k not in FORCED.get(n, ())]
    for drop in names:
        if drop in req:
            continue
        p = {k: req[k] if k in req else chosen(k, base[k]) for k in names if k != drop}
        for t in fill(chk, rule, n, q, p):
            if not chk.require(t.outcome == "return", "kept", C, f"source {n} with all but {drop} configured: raises {t.exc}", t.where):
                continue
            got = {x: y for x, y in t.value.pairs()} if isinstance(t.value, DictV) else {}
            for k, v in p.items():
                chk.require(k in got and freeze(got[k]) == freeze(absv(v)), "kept", C, f"source {n} without {drop}: the configured {k} is replaced by {show(got.get(k))}")
            chk.require(drop in got, rule, C, f"source {n}: {drop} missing")


def hemisphere(chk, h, want):
    rule, C = "hemisphere", "AMSRDataLoader.add_default_params"
    for t in fill(chk, rule, "amsr", TABLE["amsr"][0], {"files": [], "hemisphere": h, "dataloader_name": "amsr"}):
        if want is None:
            chk.require(t.outcome == "raise", rule, C, f"hemisphere {h!r}: accepted")
        else:
            got = {x: y for x, y in t.value.pairs()} if t.outcome == "return" else {}
            chk.require(got.get("in_proj") == want, rule, C, f"hemisphere {h!r}: projection {show(got.get('in_proj'))}", t.where)

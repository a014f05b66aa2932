"""Sources read from files give the points of their files."""
import datetime as dt
import itertools
from fractions import Fraction as F
from sa.dates import DateV
from sa.interp import RaiseSig
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.tables import by_coords
from sa.values import *
from sa.values import as_fraction
from .common import *

RULE = ("over files in each source's own conventions (axis names and directions, 0:360 or -180:180 longitudes, one or several files, dated files in and out of the time range, missing values, further variables): "
        "import_data gives every file point inside the region and the time range once, at its latitude, its longitude in -180:180 and its time, on ascending axes, under the source's variable names with the value the source defines; "
        "nothing else than file points appears, and a time range without a file is refused")

PI = F(355, 113)
S_, V_ = "meshiphi.dataloaders.scalar.", "meshiphi.dataloaders.vector."
DAYS = ["2013-01-01", "2013-01-02", "2013-01-03", "2013-01-10"]
EAST = [5, 50, 95, 140, 185, 230, 275, 320, 350]
WEST = [-175, -130, -85, -40, -10, 5, 50, 95, 140]
LATS = [-72, -41, -8, 3, 37, 66]
REGIONS = [((-60, 40), (-100, 60)), ((-80, 5), (130, -120)), ((-90, 90), (-180, 180)), ((0, 70), (0, 100)), ((-45, 10), (-180, -5)), ((-10, 80), (90, 180)), ((-50, 50), (-30, -20))]
TURN = [0, 30, 45, 60, 90, 120, 135, 150, 180, 210, 225, 240, 270, 300, 315, 330]
ROSE = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (3, 0), (-2, 2)]


class Exact(OrderDomain):
    pi = PI
    ndarrays = True


def era5(q, **k):
    return dict(q=q, lat="latitude", lon="longitude", desc=True, east=True, time="time", dated=lambda d: f"data/era5_wave_{d}.nc", **k)


def at(x):
    return lambda c, o: c[x]


def times(x, f):
    return lambda c, o: NAN if nan(c[x]) else mknum(pmul(poly(c[x]), poly(f)))


def size(c, o):
    a, b = c["u10"], c["v10"]
    return NAN if nan(a) or nan(b) else ("sqrt", padd(pmul(poly(a), poly(a)), pmul(poly(b), poly(b))))


def bearing(c, o):
    a, b = c["u10"], c["v10"]
    if nan(a) or nan(b):
        return NAN
    sg = lambda x: (x > 0) - (x < 0)
    return {(1, 0): 180, (1, 1): 225, (0, 1): 270, (-1, 1): 315, (-1, 0): 0, (-1, -1): 45, (0, -1): 90, (1, -1): 135}[sg(a), sg(b)]


def against(x, cos):
    def f(c, o):
        if nan(c[x]):
            return NAN
        d = int(c[x]) % 360
        d = (d + (90 if cos else 0) + 180) % 360        # minus the sine of it
        sg, d = (-1, d - 180) if d > 180 else (1, d)
        d = min(d, 180 - d)
        return mknum(pmul(poly({0: 0, 30: F(1, 2), 45: Sym("sqrt", F(1, 2)), 60: Sym("sqrt", F(3, 4)), 90: 1}[d]), poly(sg)))
    return f


def uncloud(c, o):
    return NAN if nan(c["cloud"]) or c["cloud"] == 1 else c["iceArea"]


# the value of a cloud flag that is missing is left open
SOURCES = {
    "gebco": dict(q=S_ + "gebco.GEBCODataLoader", lat="lat", lon="lon", vars=["elevation"], out={"elevation": at("elevation")}),
    "baltic_sic": dict(q=S_ + "baltic_sea_ice.BalticSeaIceDataLoader", lat="lat", lon="lon", desc=True, time="time", vars=["ice_concentration"], more=["thickness"], out={"SIC": at("ice_concentration")}),
    "bsose_depth": dict(q=S_ + "bsose_depth.BSOSEDepthDataLoader", lat="YC", lon="XC", east=True, vars=["Depth"], aux=["Depth"], more=["other"], out={"elevation": times("Depth", -1)}),
    "bsose_sic": dict(q=S_ + "bsose_sea_ice.BSOSESeaIceDataLoader", lat="YC", lon="XC", east=True, time="time", vars=["SIarea"], units=[None, "percentage", "fraction", "parts"],
                      out={"SIC": lambda c, o: c["SIarea"] if o == "fraction" else times("SIarea", 100)(c, o)}),
    "era5_sig_wave_height": era5(S_ + "era5_sig_wave_height.ERA5SigWaveHeightDataLoader", vars=["swh"], more=["hmax", "mwd"], out={"swh": at("swh")}),
    "era5_max_wave_height": era5(S_ + "era5_max_wave_height.ERA5MaxWaveHeightDataLoader", vars=["hmax"], more=["swh"], out={"hmax": at("hmax")}),
    "era5_mean_wave_direction": era5(S_ + "era5_mean_wave_direction.ERA5MeanWaveDirDataLoader", vars=["mwd"], more=["swh"], out={"mwd": at("mwd")}),
    "era5_wave_period": era5(S_ + "era5_wave_period.ERA5WavePeriodDataLoader", vars=["mwp"], more=["swh"], out={"mwp": at("mwp")}),
    "era5_wind_mag": era5(S_ + "era5_wind_mag.ERA5WindMagDataLoader", vars=["u10", "v10"], out={"wind_mag": size}),
    "era5_wind_dir": era5(S_ + "era5_wind_dir.ERA5WindDirDataLoader", vars=["u10", "v10"], cells="rose", out={"wind_dir": bearing}),
    "era5_wind": era5(V_ + "era5_wind.ERA5WindDataLoader", vars=["u10", "v10"], out={"u10": at("u10"), "v10": at("v10")}),
    "era5_wave_direction_vector": era5(V_ + "era5_wave_direction_vector.ERA5WaveDirectionLoader", vars=["mwd"], more=["swh"], cells="turn", out={"uW": against("mwd", False), "vW": against("mwd", True)}),
    "modis": dict(q=S_ + "modis.MODISDataLoader", lat="lat", lon="long", vars=["iceArea", "cloud"], cells="cloud", out={"SIC": uncloud}),
    "scalar_csv": dict(q=S_ + "scalar_csv.ScalarCSVDataLoader", frame=True, time="time", vars=["depth"], out={"depth": at("depth")}),
    "vector_csv": dict(q=V_ + "vector_csv.VectorCSVDataLoader", frame=True, time="time", vars=["uC", "vC"], out={"uC": at("uC"), "vC": at("vC")}),
    "baltic_currents": dict(q=V_ + "baltic_current.BalticCurrentDataLoader", lat="latitude", lon="longitude", time="time", depth=True, vars=["uo", "vo"], cells="num", mean=True, out={"uC": at("uo"), "vC": at("vo")}),
    "duacs_currents": dict(q=V_ + "duacs_current.DuacsCurrentDataLoader", lat="latitude", lon="longitude", time="time", dated=lambda d: f"data/duacs_nrt_{d}.nc", vars=["ugos", "vgos"], crs=True,
                           out={"uC": at("ugos"), "vC": at("vgos")}),
    "northsea_currents": dict(q=V_ + "north_sea_current.NorthSeaCurrentDataLoader", lat="lat", lon="lon", time="times", vars=["U", "V"], more=["W"], out={"uC": at("U"), "vC": at("V")}),
    "oras5_currents": dict(q=V_ + "oras5_current.ORAS5CurrentDataLoader", lat="nav_lat", lon="nav_lon", vars=["uo", "vo"], more=["wo"], out={"uC": at("uo"), "vC": at("vo")}),
    "sose": dict(q=V_ + "sose.SOSEDataLoader", lat="lat", lon="lon", east=True, vars=["uC", "vC"], out={"uC": at("uC"), "vC": at("vC")}),
    "amsr": dict(q=S_ + "amsr.AMSRDataLoader", lat="y", lon="x", flat=True, vars=["z"], name_dated=lambda d: f"data-v1/s-6250/asi-AMSR2-s6250-{d.replace('-', '')}-v5.4.nc", grid_mapping=True, out={"SIC": at("z")}),
    "ecmwf": dict(q=S_ + "ecmwf_sig_wave_height.ECMWFSigWaveHeightDataLoader", lat="latitude", lon="longitude", desc=True, vars=["swh"], more=["mwd"], scalars=["surface", "step"], forecast=True, out={"swh": at("swh")}),
    "visual_ice nc": dict(q=S_ + "visual_iced.VisualIcedDataLoader", lat="y", lon="x", flat=True, vars=["Band1"], grid_mapping=True, suffix="nc", single=True, out={"SIC": times("Band1", 100)}),
    "visual_ice tiff": dict(q=S_ + "visual_iced.VisualIcedDataLoader", lat="y", lon="x", flat=True, vars=["band_data"], tiff=True, suffix="tiff", single=True, desc=True, out={"SIC": times("band_data", 100)}),
}


def cell(kind, tag, var, i):
    if kind == "turn" and var == "mwd":
        return NAN if i % 11 == 7 else TURN[i % len(TURN)]
    if kind == "rose" and var in ("u10", "v10"):
        return NAN if i % 11 == 7 and var == "u10" else ROSE[i % len(ROSE)][var == "v10"]
    if kind == "num":
        return NAN if (i + len(var)) % 7 == 3 else (i * 7919 + 31 * len(var) + ord(var[0])) % 211 - 100
    if kind == "cloud" and var == "cloud":
        return (0, 1, 0, 0, 1)[i % 5]
    return NAN if (i + len(var)) % 7 == 3 else Sym("val", tag, var, i)


class Files:
    """the files of one case: path -> table, and the points they hold {(lat, long, time): {var: cell}}"""

    def __init__(self):
        self.tab, self.pts, self.order = {}, {}, []

    def add(self, path, table):
        self.tab[path] = table
        self.order.append(path)


def grid(fs, path, sp, lats, lons, days, tag, when=None):
    """one file in the source's conventions"""
    ys = sorted(lats, reverse=sp.get("desc", False))
    own = lambda x: x - 360 if sp.get("east") and x > 180 else x
    tn = sp.get("time")
    names = sp["vars"] + sp.get("more", [])
    deep = [F(1, 2), 3] if sp.get("depth") else [None]
    band = [1] if sp.get("tiff") else [None]
    co, dims = {}, []
    if tn:
        co[tn] = list(days)
        dims.append(tn)
    if sp.get("depth"):
        co["depth"] = deep
        dims.append("depth")
    if sp.get("tiff"):
        co["band"] = band
        dims.append("band")
    co[sp["lat"]], co[sp["lon"]] = list(ys), list(lons)
    dims += [sp["lat"], sp["lon"]]
    out = {n: [] for n in names}
    for i, p in enumerate(itertools.product(*[co[d] for d in dims])):
        q = dict(zip(dims, p))
        cs = {n: cell(sp.get("cells"), tag, n, i) for n in names}
        for n in names:
            out[n].append(cs[n])
        if q.get("depth", deep[0]) == deep[0]:
            for w in ([q[tn]] if tn else when or [None]):
                fs.pts[q[sp["lat"]], own(q[sp["lon"]]), w] = cs
    arr = {n: DataV(out[n], dims, co, n) for n in names}
    if sp.get("aux"):
        for n in sp["vars"]:
            arr[n] = DataV([c for c in out[n]], dims, co, n)
    if sp.get("grid_mapping"):
        arr["polar_stereographic"] = DataV([""], (), {}, "polar_stereographic")
    if sp.get("crs") and tag.endswith("crs"):
        arr["crs"] = DataV([1], (), {}, "crs")
    aux = {n: arr.pop(n) for n in sp.get("aux", [])}
    for n in sp.get("scalars", []) + (["spatial_ref"] if sp.get("tiff") else []):
        aux[n] = DataV([0], (), {}, n)
    fs.add(path, DatasetV(arr, co, dims, aux))


def table(fs, path, sp, lats, lons, days, tag):
    rows = list(itertools.product(days or [None], lats, lons))
    rows = rows[1::2] + rows[::2]
    cols = {"lat": [r[1] for r in rows], "long": [r[2] for r in rows]}
    if days:
        cols["time"] = [r[0] for r in rows]
    for n in sp["vars"]:
        cols[n] = [cell(None, tag, n, i) for i in range(len(rows))]
    for i, r in enumerate(rows):
        fs.pts[r[1], r[2], r[0]] = {n: cols[n][i] for n in sp["vars"]}
    fs.add(path, FrameV(cols))


def cases(name, sp):
    """(text, Files) of one source; only the files of the case's points are read"""
    xs = EAST if sp.get("east") else WEST
    if sp.get("flat"):
        xs, ys = [-2000, 500, 3000], [-4000, 100, 900, 7000]
    else:
        ys = LATS
    if sp.get("frame"):
        for days in (DAYS, None):
            for n in (1, 3):
                fs = Files()
                for j in range(n):
                    table(fs, f"data/part{j}.csv", sp, ys[j::n], xs, days, f"f{j}")
                yield f"{n} files, {'with' if days else 'without'} times", fs
    elif sp.get("dated"):
        for pick in ([1], [0, 1, 2], [2, 0, 1, 3], [3, 1]):
            for crs in ((False, True) if sp.get("crs") else (False,)):
                fs = Files()
                for j in pick:
                    grid(fs, sp["dated"](DAYS[j]), sp, ys, xs, [DAYS[j]], f"f{j}" + ("crs" if crs else ""))
                yield f"files of {', '.join(DAYS[j] for j in pick)}" + (" with crs" if crs else ""), fs
    elif sp.get("name_dated"):
        for pick in ([1], [0, 1, 2], [2, 0, 1, 3], [3, 1], [0, 3]):
            fs = Files()
            for j in pick:
                grid(fs, sp["name_dated"](DAYS[j]), sp, ys, xs, None, f"f{j}", [DAYS[j]])
            yield f"files of {', '.join(DAYS[j] for j in pick)}", fs
    elif sp.get("forecast"):
        for bases in (["2012-12-31T12", "2012-12-31T00", "2013-01-01T00", "2013-01-01T12"], ["2012-12-30T00"], ["2013-01-01T12", "2013-01-02T00"], ["2012-12-31T12"]):
            for hours in ([3, 12, 18, 24, 36, 9], [90, 6, 72], [12], [102, 84, 120]):
                fs = Files()
                late = max([b for b in bases if b < "2013-01-02T00"], default=None)
                keep = {}
                for b in bases:
                    d = dt.datetime.fromisoformat(b + ":00:00")
                    for h in hours:
                        w = d + dt.timedelta(hours=h)
                        grid(fs, f"data/{d.strftime('%Y%m%d%H0000')}-{h}h-wave-fc.nc", sp, ys, xs, None, f"{b} {h}", [w])
                        if b == late:
                            keep.update({k: v for k, v in fs.pts.items() if k[2] == w})
                        fs.pts = {}
                fs.pts = keep
                yield f"forecasts of {', '.join(bases)} for {hours} hours", fs
    elif sp.get("single"):
        fs = Files()
        grid(fs, f"data/ice.v2.{sp['suffix']}", sp, ys, xs, None, "f0")
        yield "one file", fs
    else:
        tn = sp.get("time")
        fs = Files()
        grid(fs, "data/all.nc", sp, ys, xs, DAYS if tn else None, "f0")
        yield "one file", fs
        fs = Files()
        if tn:
            for j in (1, 0, 2):
                grid(fs, f"data/part{j}.nc", sp, ys, xs, [DAYS[j]], f"f{j}")
        else:
            for j, part in ((1, xs[5:]), (0, xs[:5])):
                grid(fs, f"data/part{j}.nc", sp, ys, part, None, f"f{j}")
        yield f"{len(fs.order)} files", fs
        if not tn:
            fs = Files()
            for j, part in ((0, ys[:3]), (1, ys[3:])):
                grid(fs, f"data/part{j}.nc", sp, part, xs, None, f"f{j}")
            yield f"{len(fs.order)} files in latitude", fs


def check(tier):
    chk = Check("P25", RULE, tier, minimum=100)
    jobs = []
    for name, sp in SOURCES.items():
        for n in range(len(list(cases(name, sp)))):
            for r in range(len(REGIONS)) if not sp.get("flat") else (0, 1):
                for u in range(len(sp.get("units", [None]))):
                    jobs.append((name, n, r, u))
    chk.parallel(jobs, one)
    return chk


def moment(v):
    if isinstance(v, DateV):
        v = v.v
    if isinstance(v, str):
        return dt.datetime.fromisoformat(v)
    return v


RANGES = [("2013-01-02", "2013-01-05"), ("2013-01-01", "2013-01-03")]
ALLOWED = {"combine": "by_coords", "parallel": (True, False), "engine": "netcdf4"}


def one(chk, job):
    name, n, r, u = job
    sp = SOURCES[name]
    what, fs = list(cases(name, sp))[n]
    (s, nn), (w, e) = REGIONS[r]
    unit = sp.get("units", [None])[u]
    C = sp["q"].split(".")[-1] + ".import_data"
    rule = "points"
    timed = bool(sp.get("time") or sp.get("name_dated") or sp.get("forecast"))
    for span in RANGES:
        case = f"{name}, {what}, region {(s, nn)} by {(w, e)}, {span[0]} to {span[1]}" + (f", units {unit}" if unit else "")
        if sp.get("forecast") and span[0] != "2013-01-02":
            continue

        def plain(it, k, node):
            for x, v in k.items():
                if x not in ALLOWED:
                    it.undecided(f"reading with {x}", node)

        def read(it, a, k, node=None):
            p = a[0] if a else k.get("filename_or_obj", k.get("filepath_or_buffer"))
            plain(it, {x: v for x, v in k.items() if x not in ("filename_or_obj", "filepath_or_buffer")}, node)
            if len(a) > 1 or p not in fs.tab:
                it.undecided(f"reading {show(p)}", node)
            return fs.tab[p]

        def many(it, a, k, node=None):
            plain(it, {x: v for x, v in k.items() if x != "paths"}, node)
            ps = a[0] if a else k.get("paths")
            ps = [ps] if isinstance(ps, str) else it.items_of(ps, node)
            if not ps:
                raise RaiseSig(ExcV("OSError"), it.where(node))
            if len(a) > 1 or any(p not in fs.tab for p in ps):
                it.undecided("reading files", node)
            return by_coords(it, [fs.tab[p] for p in ps], node)
        models = {"xarray.open_dataset": read, "xarray.open_mfdataset": many, "pandas.read_csv": read, "xarray.load_dataset": read}

        def setup(it):
            L = ObjV(it.prog.cls(sp["q"]))
            L.attrs.update({"files": ListV(list(fs.order)), "dataloader_name": name.split(" ")[0], "data_name": None})
            if unit:
                L.attrs["units"] = unit
            bd = boundary(it, [s, nn], [w, e], ListV(list(span)))
            return it.getattr(L, "import_data"), [bd], {}, None
        t0, t1 = moment(span[0]), moment(span[1])
        inside = lambda k: sp.get("flat") or s < k[0] < nn and (w < k[1] < e if w < e else k[1] > w or k[1] < e)
        during = lambda k: k[2] is None or t0 <= moment(k[2]) <= t1
        now = {k: c for k, c in fs.pts.items() if during(k)}
        refuse = not now and (sp.get("dated") or sp.get("name_dated") or sp.get("forecast")) or unit == "parts"
        for t in decided(chk, rule, setup, lambda: Exact(Chain([-90, 90]), Chain([-180, 180])), models=models):
            if refuse:
                chk.require(t.outcome == "raise", rule, C, f"{case}: " + ("the unknown unit is accepted" if unit == "parts" else "no file is in the time range, and the source is accepted"), t.where)
                continue
            if not chk.require(t.outcome == "return", rule, C, f"{case}: raises {t.exc}", t.where):
                continue
            compare(chk, C, case, sp, t, now if sp.get("dated") or sp.get("name_dated") or sp.get("forecast") else fs.pts, now, inside, unit)


def compare(chk, C, case, sp, t, own, now, inside, unit):
    """own: the points that may appear; now: those that must, inside the region"""
    la, lo = ("y", "x") if sp.get("flat") else ("lat", "long")
    T = t.value
    names = list(sp["out"])
    timed = any(k[2] is not None for k in own) and not sp.get("mean")
    got = {}
    if isinstance(T, DatasetV):
        for n in names:
            if not chk.require(n in T.vars, "names", C, f"{case}: no variable {n} but {sorted(T.vars)}", sample=None):
                return
        want = {la, lo} | ({"time"} if timed else set())
        for n in names:
            v = T.vars[n]
            if not chk.require(set(v.dims) == want, "names", C, f"{case}: {n} has dimensions {sorted(v.dims)} rather than {sorted(want)}"):
                return
            for p in itertools.product(*[range(len(v.coords[d])) for d in v.dims]):
                i = dict(zip(v.dims, p))
                k = (num(v.coords[la][i[la]]), num(v.coords[lo][i[lo]]), moment(v.coords["time"][i["time"]]) if timed else None)
                if not chk.require((k, n) not in got, "points", C, f"{case}: the point {k} appears twice"):
                    return
                got[k, n] = v.at(i)
        if not sp.get("flat"):
            for d in want:
                c = [moment(x) if d == "time" else num(x) for x in T.coords.get(d, ())]
                chk.require(all(x < y for x, y in zip(c, c[1:])), "axes", C, f"{case}: the {d} axis is not ascending: {[str(x) for x in c]}")
    elif isinstance(T, FrameV):
        for n in names + [la, lo] + (["time"] if timed else []):
            if not chk.require(n in T.cols, "names", C, f"{case}: no column {n} but {sorted(T.cols)}"):
                return
        for i in range(len(T.cols[la])):
            k = (num(T.cols[la][i]), num(T.cols[lo][i]), moment(T.cols["time"][i]) if timed else None)
            for n in names:
                if not chk.require((k, n) not in got, "points", C, f"{case}: the point {k} appears twice"):
                    return
                got[k, n] = T.cols[n][i]
    else:
        chk.bad("points", C, f"{case}: gives {show(T)}, not a table", t.where)
        return
    spec = {}
    for k, c in (now if sp.get("mean") else own).items():
        kk = (F(k[0]), F(k[1]), moment(k[2]) if timed else None)
        for n, f in sp["out"].items():
            v = f(c, unit)
            if sp.get("mean"):
                spec.setdefault((kk, n), []).append(v)
            else:
                spec[kk, n] = v
    if sp.get("mean"):
        def avg(vs):
            vs = [v for v in vs if not nan(v)]
            if not vs:
                return NAN
            p = poly(0)
            for v in vs:
                p = padd(p, poly(v))
            return mknum(pmul(p, poly(F(1, len(vs)))))
        spec = {k: avg(v) for k, v in spec.items()}
    must = {(F(k[0]), F(k[1]), moment(k[2]) if timed else None) for k in now if inside(k)}
    for (k, n), v in got.items():
        if not chk.require((k, n) in spec, "points", C, f"{case}: the point {show_pt(k)} is not in the files"):
            return
        x = spec[k, n]
        if nan(x) or nan(v):
            ok = nan(x) and nan(v)
        elif isinstance(x, tuple):
            ok = isinstance(v, Sym) and v.op == "sqrt" and eqv(thaw_(v.args[0]), mknum(x[1]))
        else:
            ok = eqv(v, x)
        chk.require(ok, "values", C, f"{case}: {n} at {show_pt(k)} is {show(v)} rather than {show(x) if not isinstance(x, tuple) else 'sqrt ' + show(mknum(x[1]))}", sample=f"{n} at {show_pt(k)}")
    for k in must:
        for n in names:
            if nan(spec[k, n]):
                continue
            chk.require((k, n) in got, "points", C, f"{case}: the point {show_pt(k)} of the files is lost")


def thaw_(x):
    from sa.interp import thaw
    return thaw(x) if isinstance(x, Sym) else x


def num(v):
    f = as_fraction(v)
    return f if f is not None else v


def show_pt(k):
    return "(" + ", ".join(str(c) for c in k if c is not None) + ")"

"""GeoPandas frames, as far as writing them as GeoJSON goes."""
from .shapes import JsonText, ShapeV
from .tables import *
from .tables import DataV
from .values import *


class GeoFrameV(FrameV):
    tname = "geopandas.GeoDataFrame"

    def __init__(self, frame, geom, crs):
        FrameV.__init__(self, frame.cols, frame.index, frame.nrows, frame.iname)
        self.geom, self.crs = geom, crs

    def features(self, it, n):
        out = []
        for i in range(self.nrows):
            g = self.cols[self.geom][i]
            if not isinstance(g, ShapeV):
                it.undecided("geometry column without shapes", n)
            rings = [ListV([ListV([ListV([p[0], p[1]]) for p in closed(r)])]) for r in g.polys]
            props = DictV()
            for c, v in self.cols.items():
                if c != self.geom:
                    x = v[i]
                    if isinstance(x, float):
                        x = Sym("infinite", "+" if x > 0 else "-")          # json.loads gives an infinity back
                    props.keys.append(c)
                    props.vals.append(None if nan(x) else x)
            out.append(DictV([("id", str(self.index[i])), ("type", "Feature"), ("properties", props),
                              ("geometry", DictV([("type", g.kind), ("coordinates", rings[0] if g.kind == "Polygon" else ListV(rings))]))]))
        return DictV([("type", "FeatureCollection"), ("features", ListV(out))])

    def attr(self, it, name, node):
        if name == "to_json":
            def tj(it, a, k, n):
                if a or set(k) - {"na", "indent"} or k.get("na", "null") != "null":
                    it.undecided("GeoDataFrame.to_json options", n)
                return JsonText(self.features(it, n))
            return self.meth(name, tj)
        if name == "__geo_interface__":
            return self.features(it, node)
        if name == "set_crs" or name == "to_crs":
            def crs(it, a, k, n):
                c = k.get("crs", a[0] if a else None)
                if name == "to_crs" and str(self.crs).split(":")[-1] != str(c).split(":")[-1]:
                    it.undecided("reprojection of a GeoDataFrame", n)
                return GeoFrameV(self, self.geom, c)
            return self.meth(name, crs)
        if name == "crs":
            return self.crs
        return FrameV.attr(self, it, name, node)


def closed(r):
    r = list(r)
    return r if r[0] == r[-1] else r + [r[0]]


def geodataframe(it, a, k, node=None):
    d = k.get("data", a[0] if a else None)
    g = k.get("geometry", "geometry")
    if not isinstance(d, FrameV) or set(k) - {"data", "geometry", "crs"} or len(a) > 1:
        it.undecided("GeoDataFrame", node)
    d = FrameV(d.cols, d.index, d.nrows, d.iname)
    if not isinstance(g, str):
        cells = g.cells if isinstance(g, ArrV) else it.items_of(g, node)
        d.cols["geometry"] = list(cells)
        g = "geometry"
    if g not in d.cols:
        it.undecided("GeoDataFrame without a geometry", node)
    return GeoFrameV(d, g, k.get("crs"))

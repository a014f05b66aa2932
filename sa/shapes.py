"""Abstract shapely geometry, JSON text and files.

Numbers that appear in text are kept as opaque tokens (one per abstract number), so text can be
split and joined without knowing the digits; reading a token back gives the number it stands for.
"""
import ast
import re
from fractions import Fraction

from .interp import RaiseSig
from .tables import NAN, NativeV, nan
from .values import *
from .values import _MISSING, as_fraction

TOK = re.compile("\ue000(\\d+)\ue001")


def token(it, v):
    """text of an abstract number"""
    f = as_fraction(v) if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) else None
    if f is not None:
        return str(int(f)) if f.denominator == 1 else repr(float(f))
    if nan(v):
        return "nan"
    v = it.simplify_num(v) if hasattr(it, "simplify_num") else v
    for i, x in enumerate(it.tokens):
        if x == v:
            return f"\ue000{i}\ue001"
    it.tokens.append(v)
    return f"\ue000{len(it.tokens) - 1}\ue001"


def untoken(it, s):
    """the number a token stands for, or None"""
    m = TOK.fullmatch(s.strip()) if isinstance(s, str) else None
    return it.tokens[int(m.group(1))] if m else None


def untok(it, s):
    """a text for messages"""
    return TOK.sub(lambda m: show(it.tokens[int(m.group(1))]), s) if isinstance(s, str) else show(s)


def text_of(it, v):
    """abstract text as a str with tokens, or None"""
    if isinstance(v, str):
        return v
    if isinstance(v, Sym) and v.op == "str":
        return token(it, v.args[0])
    if isinstance(v, Sym) and v.op == "concat":
        ps = [text_of(it, a) for a in v.args]
        return None if any(p is None for p in ps) else "".join(ps)
    return None


def number(it, s, n):
    v = untoken(it, s)
    if v is not None:
        return v
    try:
        f = as_fraction(float(s))
    except ValueError:
        raise RaiseSig(ExcV("ValueError"), it.where(n))
    return int(f) if f.denominator == 1 else f


class ShapeV(NativeV):
    """kind: Point, Polygon, MultiPolygon; polys: lists of (x, y)"""

    def __init__(self, kind, polys):
        self.kind, self.polys = kind, polys
        self.tname = kind

    def wkt(self, it):
        def c(p):
            return f"{token(it, p[0])} {token(it, p[1])}"

        def ring(r):
            return "(" + ", ".join(c(p) for p in r) + ")"
        if self.kind == "Point":
            return f"POINT ({c(self.polys[0][0])})"
        if self.kind == "Polygon":
            return f"POLYGON ({ring(self.polys[0])})"
        return "MULTIPOLYGON (" + ", ".join(f"({ring(r)})" for r in self.polys) + ")"

    def rect(self, it, r, n):
        """(x0, y0, x1, y1) of a ring that is an axis-parallel rectangle, corner by corner"""
        from .builtins_model import BUILTINS
        xs, ys = ListV([p[0] for p in r]), ListV([p[1] for p in r])
        x0, x1 = BUILTINS["min"](it, [xs], {}, n), BUILTINS["max"](it, [xs], {}, n)
        y0, y1 = BUILTINS["min"](it, [ys], {}, n), BUILTINS["max"](it, [ys], {}, n)
        return x0, y0, x1, y1

    def is_rect(self, it, r, box, n):
        x0, y0, x1, y1 = box
        if len(r) != 5:
            return False
        eq = lambda a, b: it.decide(it.v_eq(a, b, n), n)
        cor = []
        for x, y in r[:4]:
            i = 0 if eq(x, x0) else 1 if eq(x, x1) else None
            j = 0 if eq(y, y0) else 1 if eq(y, y1) else None
            if i is None or j is None:
                return False
            cor.append((i, j))
        # consecutive corners differ in exactly one coordinate
        return len(set(cor)) == 4 and all((a[0] != b[0]) + (a[1] != b[1]) == 1 for a, b in zip(cor, cor[1:] + cor[:1]))

    def inside(self, it, p, strict, n):
        """truth of the point lying in the shape"""
        op = ast.Lt() if strict else ast.LtE()
        out = []
        for r in self.polys:
            box = self.rect(it, r, n)
            if not self.is_rect(it, r, box, n):
                it.undecided("membership of a point in a shape that is not a rectangle", n)
            x0, y0, x1, y1 = box
            ok = True
            for a, b in ((x0, p[0]), (p[0], x1), (y0, p[1]), (p[1], y1)):
                if not it.decide(it.compare(op, a, b, n), n):
                    ok = False
                    break
            out.append(ok)
        return any(out)

    def boxes(self, it, n):
        out = []
        for r in self.polys:
            b = self.rect(it, r, n)
            flat = all(isinstance(x, (int, float, Fraction)) for x in b) and (b[0] == b[2] or b[1] == b[3])
            if self.kind != "pieces" and not flat and not self.is_rect(it, r, b, n):
                it.undecided("a shape that is not made of rectangles", n)
            out.append(b)
        return out

    def common(self, it, o, n):
        """the overlap, as pieces (touching sides included)"""
        if not isinstance(o, ShapeV) or o.kind == "Point":
            it.undecided("overlap with something other than a polygon", n)
        from .builtins_model import BUILTINS
        out = []
        for a in self.boxes(it, n):
            for b in o.boxes(it, n):
                lo = [BUILTINS["max"](it, [a[i], b[i]], {}, n) for i in (0, 1)]
                hi = [BUILTINS["min"](it, [a[i], b[i]], {}, n) for i in (2, 3)]
                if all(it.decide(it.compare(ast.LtE(), x, y, n), n) for x, y in zip(lo, hi)):
                    out.append(ring(lo[0], lo[1], hi[0], hi[1]))
        return ShapeV("pieces", out)

    def concrete(self, it, n):
        """known boxes of the shape, or None"""
        f = [[as_fraction(x) if isinstance(x, (int, float, Fraction)) else None for x in b] for b in self.boxes(it, n)]
        return None if any(x is None for b in f for x in b) else f

    def parts(self, it, n):
        """connected parts (sharing an edge) of a shape with known corners, each a list of boxes; and the leftover lines and points"""
        f = self.concrete(it, n)
        if f is None:
            it.undecided("parts of a shape without known corners", n)
        full = [b for b in f if b[0] < b[2] and b[1] < b[3]]
        thin = [b for b in f if b not in full]
        groups = []
        for b in full:
            near = [g for g in groups if any(joined(b, c) for c in g)]
            groups = [g for g in groups if g not in near] + [sum(near, []) + [b]]
        lines = [t for t in thin if not within(t, full)]
        return groups, lines

    def geom_type(self, it, n):
        if self.kind != "pieces":
            return self.kind
        g, l = self.parts(it, n)
        if g and l:
            return "GeometryCollection"
        if g:
            return "Polygon" if len(g) == 1 else "MultiPolygon"
        if l:
            return "LineString" if any(b[0] < b[2] or b[1] < b[3] for b in l) else "Point"
        return "Polygon"

    def same(self, it, o, n):
        if not isinstance(o, ShapeV):
            return False
        if not self.polys or not o.polys:
            return not self.polys and not o.polys
        if self.polys == o.polys and self.kind == o.kind:
            return True
        f, g = self.concrete(it, n), o.concrete(it, n)
        if f is not None and g is not None and sorted(f) != sorted(g):
            return False
        it.undecided("equality of shapes", n)

    def arith(self, it, op, o, n):
        if not isinstance(o, ShapeV):
            it.undecided("arithmetic on a shape", n)
        if isinstance(op, ast.BitAnd):
            return self.common(it, o, n)
        if isinstance(op, ast.BitOr):
            return union(it, [self, o], n)
        if isinstance(op, ast.Sub):
            return minus(it, self, o, n)
        it.undecided("arithmetic on a shape", n)

    def relate(self, it, name, o, n):
        def small(x):
            return not it.truth(it.compare(ast.NotEq(), x, 0, n))
        c = self.common(it, o, n)
        if name in ("intersects", "disjoint"):
            return bool(c.polys) == (name == "intersects")
        area = c.attr(it, "area", n)
        if name == "touches":
            return bool(c.polys) and small(area)
        mine, other = self.attr(it, "area", n), o.attr(it, "area", n)
        cov = lambda w: not small(w) and small(it.binop(ast.Sub(), area, w, n))
        if name in ("contains", "covers"):
            return cov(other)
        if name in ("within", "covered_by"):
            return cov(mine)
        if name == "equals":
            return cov(mine) and cov(other)
        return not small(area) and not cov(mine) and not cov(other)

    def attr(self, it, name, node):
        if name == "wkt":
            return self.wkt(it)
        if name in ("geom_type", "type"):
            return self.geom_type(it, node)
        if name == "geoms" and self.kind == "pieces" and self.geom_type(it, node) == "MultiPolygon":
            return ListV([ShapeV("pieces", [ring(*b) for b in g]) for g in self.parts(it, node)[0]])
        if name == "bounds":
            rs = [self.rect(it, r, node) for r in self.polys]
            from .builtins_model import BUILTINS
            f = lambda nm, i: BUILTINS[nm](it, [ListV([r[i] for r in rs])], {}, node)
            return TupleV([f("min", 0), f("min", 1), f("max", 2), f("max", 3)])
        if name == "envelope":
            x0, y0, x1, y1 = self.attr(it, "bounds", node).items
            return ShapeV("Polygon", [[(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)]])
        if name == "geoms" and self.kind == "MultiPolygon":
            return ListV([ShapeV("Polygon", [r]) for r in self.polys])
        if name == "exterior" and self.kind == "Polygon":
            if len(self.polys) > 1:
                it.undecided("exterior of a shape made of pieces", node)
            return EdgeV(self)
        if name in ("x", "y") and self.kind == "Point":
            return self.polys[0][0][name == "y"]
        if name == "is_empty":
            return not self.polys
        if name == "area":
            t = 0
            for x0, y0, x1, y1 in self.boxes(it, node):
                t = it.binop(ast.Add(), t, it.binop(ast.Mult(), it.binop(ast.Sub(), x1, x0, node), it.binop(ast.Sub(), y1, y0, node), node), node)
            return t
        if name == "boundary" and self.kind != "Point":
            return EdgeV(self)
        if name == "intersection" and self.kind != "Point":
            return self.meth(name, lambda it2, a, k, n: self.common(it2, a[0], n))
        if name == "difference" and self.kind != "Point":
            return self.meth(name, lambda it2, a, k, n: minus(it2, self, a[0], n))
        if name == "union" and self.kind != "Point":
            return self.meth(name, lambda it2, a, k, n: union(it2, [self, a[0]], n))
        if name in ("intersects", "disjoint", "contains", "covers", "within", "covered_by", "touches", "overlaps", "equals") and self.kind != "Point":
            def f(it2, a, k, n):
                if len(a) == 1 and isinstance(a[0], ShapeV) and a[0].kind != "Point":
                    return self.relate(it2, name, a[0], n)
                if len(a) == 1 and isinstance(a[0], ShapeV) and name in ("contains", "covers", "intersects"):
                    return self.inside(it2, a[0].polys[0][0], name == "contains", n)
                it2.undecided(f"{name} of {show(a[0]) if a else '?'}", n)
            return self.meth(name, f)
        if name in ("within", "covered_by", "intersects") and self.kind == "Point":
            def f(it2, a, k, n):
                if len(a) == 1 and isinstance(a[0], ShapeV) and a[0].kind != "Point":
                    return a[0].inside(it2, self.polys[0][0], name == "within", n)
                it2.undecided(f"{name} of {show(a[0]) if a else '?'}", n)
            return self.meth(name, f)
        it.undecided(f"attribute {name} of {self.tname}", node)


def apart(bs):
    """no two of the boxes touch"""
    return all(a[2] < b[0] or b[2] < a[0] or a[3] < b[1] or b[3] < a[1] for i, a in enumerate(bs) for b in bs[:i])


class EdgeV(NativeV):
    """the outline of a shape"""
    tname = "outline"

    def __init__(self, of):
        self.of = of

    def attr(self, it, name, node):
        if name in ("coords", "xy") and len(self.of.polys) == 1:
            ps = self.of.polys[0]
            return ListV([TupleV(list(p)) for p in ps]) if name == "coords" else TupleV([ListV([p[i] for p in ps]) for i in (0, 1)])
        if name == "intersects":
            def f(it2, a, k, n):
                if len(a) == 1 and isinstance(a[0], EdgeV):
                    mine, other = self.of.concrete(it2, n), a[0].of.concrete(it2, n)
                    if mine and other and apart(mine) and apart(other):
                        return any(crosses([m], [o]) and crosses([o], [m]) for m in mine for o in other)
                    it2.undecided("crossing of outlines", n)
                if len(a) != 1 or not isinstance(a[0], ShapeV) or a[0].kind == "Point":
                    it2.undecided("crossing of an outline", n)
                lt = lambda x, y: it2.decide(it2.compare(ast.Lt(), x, y, n), n)
                le = lambda x, y: it2.decide(it2.compare(ast.LtE(), x, y, n), n)
                mine, other = self.of.concrete(it2, n), a[0].concrete(it2, n)
                if mine is not None and other is not None:
                    return crosses(mine, other)
                if len(self.of.polys) > 1:
                    it2.undecided("outline of a shape without known corners", n)
                for r in self.of.boxes(it2, n):
                    for b in a[0].boxes(it2, n):
                        if le(r[0], b[2]) and le(b[0], r[2]) and le(r[1], b[3]) and le(b[1], r[3]) and not (lt(r[0], b[0]) and lt(b[2], r[2]) and lt(r[1], b[1]) and lt(b[3], r[3])):
                            return True
                return False
            return self.meth(name, f)
        it.undecided(f"attribute {name} of an outline", node)


class TreeV(NativeV):
    """search tree over shapes: the positions of those that fit"""
    tname = "shapely.strtree.STRtree"

    def __init__(self, shapes):
        self.shapes = shapes

    def attr(self, it, name, node):
        if name == "query":
            def f(it2, a, k, n):
                pred = k.get("predicate", a[1] if len(a) > 1 else None)
                if pred not in ("intersects", "within", "contains", "covers", "covered_by", "touches", "overlaps") or not isinstance(a[0], ShapeV):
                    it2.undecided(f"tree query with predicate {show(pred)}", n)
                r = ListV([i for i, s in enumerate(self.shapes) if a[0].relate(it2, pred, s, n)])
                r.arr = True
                return r
            return self.meth(name, f)
        it.undecided(f"attribute {name} of a search tree", node)


def ring(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)]


def within(b, boxes, strict=False):
    """the box lies in the union of the boxes"""
    xs = sorted({b[0], b[2]} | {x for c in boxes for x in (c[0], c[2]) if b[0] < x < b[2]})
    ys = sorted({b[1], b[3]} | {y for c in boxes for y in (c[1], c[3]) if b[1] < y < b[3]})
    xs, ys = (list(zip(v, v[1:])) or [(v[0], v[0])] for v in (xs, ys))
    return all(any(c[0] <= x0 and x1 <= c[2] and c[1] <= y0 and y1 <= c[3] for c in boxes) for x0, x1 in xs for y0, y1 in ys)


def crosses(mine, other):
    """the outline of one set of boxes meets the (closed) other: not disjoint, and not inside its interior"""
    vals = sorted({v for b in mine + other for v in b})
    eps = min([y - x for x, y in zip(vals, vals[1:])] or [Fraction(1)]) / 4
    full = [b for b in mine if b[0] < b[2] and b[1] < b[3]]
    for o in other:
        touch = [b for b in full if b[0] <= o[2] and o[0] <= b[2] and b[1] <= o[3] and o[1] <= b[3]]
        if touch and not within([o[0] - eps, o[1] - eps, o[2] + eps, o[3] + eps], full):
            return True
    return False


def joined(a, b):
    w = min(a[2], b[2]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[1], b[1])
    return w >= 0 and h >= 0 and (w > 0 or h > 0)


def minus(it, a, b, n):
    """difference of shapes with known corners, as pieces"""
    f, g = a.concrete(it, n), b.concrete(it, n)
    if f is None or g is None:
        it.undecided("difference of shapes without known corners", n)
    xs, ys = sorted({x for c in f + g for x in (c[0], c[2])}), sorted({y for c in f + g for y in (c[1], c[3])})
    out = []
    for x0, x1 in zip(xs, xs[1:]):
        for y0, y1 in zip(ys, ys[1:]):
            i = lambda c: c[0] <= x0 and x1 <= c[2] and c[1] <= y0 and y1 <= c[3]
            if any(map(i, f)) and not any(map(i, g)):
                out.append(ring(*[int(v) if v.denominator == 1 else v for v in (x0, y0, x1, y1)]))
    return ShapeV("pieces", out)


def union(it, shapes, n):
    """union of shapes with known corners, as disjoint pieces"""
    bs = []
    for s in shapes:
        if not isinstance(s, ShapeV) or s.kind == "Point":
            it.undecided("union of something other than polygons", n)
        bs += s.boxes(it, n)
    f = [[as_fraction(x) if isinstance(x, (int, float, Fraction)) else None for x in b] for b in bs]
    if any(x is None for b in f for x in b):
        if len(bs) == 1:
            return shapes[0]
        it.undecided("union of shapes without known corners", n)
    xs, ys = sorted({x for b in f for x in (b[0], b[2])}), sorted({y for b in f for y in (b[1], b[3])})
    out = []
    for x0, x1 in zip(xs, xs[1:]):
        for y0, y1 in zip(ys, ys[1:]):
            if any(b[0] <= x0 and x1 <= b[2] and b[1] <= y0 and y1 <= b[3] for b in f):
                out.append(ring(*[int(v) if v.denominator == 1 else v for v in (x0, y0, x1, y1)]))
    return ShapeV("pieces", out)


def points(it, v, n):
    out = [tuple(it.items_of(p, n)[:2]) for p in it.items_of(v, n)]
    if out and any(x is not y and x != y for x, y in zip(out[0], out[-1])):
        out.append(out[0])
    return out


def parse(it, s, n):
    m = re.fullmatch(r"\s*(MULTIPOLYGON|POLYGON|POINT)\s*(\(.*\))\s*", s, re.I | re.S)
    if not m:
        raise RaiseSig(ExcV("ShapelyError"), it.where(n))
    kind = {"multipolygon": "MultiPolygon", "polygon": "Polygon", "point": "Point"}[m.group(1).lower()]
    body = m.group(2)

    def pts(t):
        out = []
        for c in t.split(","):
            w = c.split()
            if len(w) != 2:
                raise RaiseSig(ExcV("ShapelyError"), it.where(n))
            out.append(tuple(number(it, x, n) for x in w))
        return out
    rings = re.findall(r"\(([^()]+)\)", body)
    shape = re.sub(r"\s+", "", re.sub(r"[^(),]+", "", re.sub(r"\([^()]+\)", "R", body).replace("R", "#")).replace("#", "R"))
    want = {"Point": "#", "Polygon": "(#)", "MultiPolygon": "(" + ",".join(["(#)"] * len(rings)) + ")"}[kind]
    got = re.sub(r"\s+", "", re.sub(r"\([^()]+\)", "#", body))
    if got != want:
        if re.fullmatch(r"\(#(,#)+\)", got) or "#,#" in got:
            it.undecided("a polygon with holes", n)
        raise RaiseSig(ExcV("ShapelyError"), it.where(n))
    return ShapeV(kind, [pts(r) for r in rings])


def shape_call(it, path, last, a, k, n):
    if last in ("loads", "from_wkt") and a:
        s = text_of(it, a[0])
        if s is None:
            it.undecided(f"WKT text {show(a[0])}", n)
        return parse(it, s, n)
    if last == "dumps" and a and isinstance(a[0], ShapeV) or last == "to_wkt" and a and isinstance(a[0], ShapeV):
        if k or len(a) > 1:
            it.undecided("WKT output with options", n)
        return a[0].wkt(it)
    if last == "Point" and a:
        xy = list(a) if len(a) > 1 else it.items_of(a[0], n)
        return ShapeV("Point", [[tuple(xy[:2])]])
    if last == "Polygon" and not a and not k:
        return ShapeV("Polygon", [])
    if last == "Polygon" and a and not set(k) - {"holes"} and len(a) <= 2:
        shell = ShapeV("Polygon", [points(it, a[0], n)])
        holes = k.get("holes", a[1] if len(a) > 1 else None)
        for h in it.items_of(holes, n) if holes is not None else []:
            shell = minus(it, shell, ShapeV("Polygon", [points(it, h, n)]), n)
        return shell
    if last == "box" and len(a) == 4:
        x0, y0, x1, y1 = a
        return ShapeV("Polygon", [[(x1, y0), (x1, y1), (x0, y1), (x0, y0), (x1, y0)]])
    if last in ("unary_union", "union_all", "cascaded_union") and len(a) == 1:
        return union(it, it.items_of(a[0], n), n)
    if last == "STRtree" and len(a) == 1:
        ss = it.items_of(a[0], n)
        if all(isinstance(x, ShapeV) for x in ss):
            return TreeV(ss)
    if last in ("intersects", "intersection", "contains", "within", "covers", "touches", "overlaps", "union", "disjoint") and len(a) == 2 and isinstance(a[0], ShapeV):
        return it.call(a[0].attr(it, last, n), [a[1]], {}, n)
    if last == "area" and len(a) == 1 and isinstance(a[0], ShapeV):
        return a[0].attr(it, "area", n)
    if last == "MultiPolygon" and len(a) == 1:
        ps = it.items_of(a[0], n)
        if all(isinstance(p, ShapeV) and p.kind == "Polygon" for p in ps):
            return ShapeV("MultiPolygon", [p.polys[0] for p in ps])
    it.undecided(f"{path} of {', '.join(show(x) for x in a)}", n)


# ------------------------------------------------------------------ JSON and files
class JsonText(NativeV):
    tname = "JSON text"

    def __init__(self, v):
        self.v = v

    def attr(self, it, name, node):
        if name in ("strip", "rstrip", "lstrip"):
            return self.meth(name, lambda it2, a, k, n: self)
        it.undecided(f"{name} of a JSON text", node)


def jkey(it, k, n):
    if isinstance(k, str):
        return k
    if isinstance(k, bool) or k is None:
        return {True: "true", False: "false", None: "null"}[k]
    if isinstance(k, (int, float, Fraction, Sym, Num)):
        return it.to_str(k)
    raise RaiseSig(ExcV("TypeError"), it.where(n))


def jsonable(it, v, n):
    """what the value is after being written as JSON and read again"""
    if v is None or isinstance(v, (str, bool, int, float, Fraction, Sym, Num)):
        if isinstance(v, Sym) and v.op in ("list", "dict", "tuple"):
            return jsonable(it, thaw(v), n)
        return v
    if isinstance(v, (ListV, TupleV)):
        if getattr(v, "arr", False):
            raise RaiseSig(ExcV("TypeError"), it.where(n))
        return ListV([jsonable(it, x, n) for x in v.items])
    if isinstance(v, DictV):
        if v.base is not None:
            it.undecided("JSON of an open dict", n)
        out = DictV()
        for key, x in v.pairs():
            key, x = jkey(it, key, n), jsonable(it, x, n)
            i = it.dict_find(out, key, n)
            if i is None:
                out.keys.append(key)
                out.vals.append(x)
            else:
                out.vals[i] = x
        return out
    if isinstance(v, B):
        return v
    raise RaiseSig(ExcV("TypeError"), it.where(n))


class FileV(NativeV):
    tname = "file"

    def __init__(self, path, mode, store):
        self.path, self.mode, self.store = path, mode, store

    def write(self, it, v, n):
        if "w" not in self.mode and "a" not in self.mode and "x" not in self.mode:
            raise RaiseSig(ExcV("UnsupportedOperation"), it.where(n))
        self.store.setdefault(self.path, []).append(v)

    def content(self, it, n):
        if "r" not in self.mode and "+" not in self.mode:
            raise RaiseSig(ExcV("UnsupportedOperation"), it.where(n))
        c = self.store.get(self.path)
        if getattr(self, "done", False):
            raise RaiseSig(ExcV("JSONDecodeError"), it.where(n))            # read to the end before
        self.done = True
        if not c:
            raise RaiseSig(ExcV("JSONDecodeError"), it.where(n))
        if len(c) > 1:
            it.undecided("a file of several pieces", n)
        return c[0]

    def attr(self, it, name, node):
        if name == "write":
            return self.meth(name, lambda it2, a, k, n: self.write(it2, a[0], n))
        if name == "read":
            return self.meth(name, lambda it2, a, k, n: self.content(it2, n))
        if name == "seek":
            def seek(it2, a, k, n):
                if a != [0] and tuple(a) != (0,):
                    it2.undecided("seek", n)
                self.done = False
                return 0
            return self.meth(name, seek)
        if name in ("close", "flush", "__exit__"):
            return self.meth(name, lambda it2, a, k, n: None)
        if name == "__enter__":
            return self.meth(name, lambda it2, a, k, n: self)
        if name == "name":
            return self.path
        it.undecided(f"attribute {name} of a file", node)


def open_model(it, a, k, n):
    """files live in the analysis: it.files"""
    mode = k.get("mode", a[1] if len(a) > 1 else "r")
    path = k.get("file", a[0] if a else None)
    if isinstance(path, FileV):
        raise RaiseSig(ExcV("TypeError"), it.where(n))
    if not isinstance(path, str) or not isinstance(mode, str):
        it.undecided(f"open of {show(path)}", n)
    if "w" in mode:
        it.files[path] = []
    elif path not in it.files:
        raise RaiseSig(ExcV("FileNotFoundError"), it.where(n))
    return FileV(path, mode, it.files)


def json_call(it, path, last, a, k, n):
    if k.get("cls") is not None or k.get("default") is not None or k.get("skipkeys"):
        it.undecided(f"json.{last} with options", n)
    if last == "dumps":
        if k.get("allow_nan") is False or k.get("sort_keys"):
            it.undecided("json.dumps with options", n)
        return JsonText(jsonable(it, a[0], n))
    if last == "loads":
        if isinstance(a[0], JsonText):
            return jsonable(it, a[0].v, n)
        it.undecided("json.loads of a text the analysis does not know", n)
    if last == "dump" and len(a) >= 2:
        if isinstance(a[1], FileV):
            a[1].write(it, JsonText(jsonable(it, a[0], n)), n)
            return None
        if isinstance(a[1], str):
            raise RaiseSig(ExcV("AttributeError"), it.where(n))
        return _MISSING
    if last == "load":
        if isinstance(a[0], FileV):
            c = a[0].content(it, n)
            if isinstance(c, JsonText):
                return jsonable(it, c.v, n)
        return _MISSING
    return _MISSING

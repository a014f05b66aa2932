"""Local meshes around one cell, in half-cell units of that cell.

The cell to be split is [-1,1] x [-1,1]; every other cell is a box with
rational corners in the same units.  The units are scaled by a symbolic half
height / half width and placed anywhere on the map (symbolic centre), or with
the date line at a chosen position.
"""
from fractions import Fraction as F

from .order import HullDomain
from .values import *

YM, YH, XM, XH = Sym("lat_centre"), Sym("half_height"), Sym("long_centre"), Sym("half_width")
DIRS = (1, 2, 3, 4, -1, -2, -3, -4)


class Cell:
    """(south, north, west, east) in half-cell units"""

    def __init__(self, s, n, w, e):
        self.s, self.n, self.w, self.e = F(s), F(n), F(w), F(e)

    def __repr__(self):
        return f"[lat {self.s}..{self.n} long {self.w}..{self.e}]"

    def key(self):
        return (self.s, self.n, self.w, self.e)

    def quads(self):
        my, mx = (self.s + self.n) / 2, (self.w + self.e) / 2
        return {"NW": Cell(my, self.n, self.w, mx), "NE": Cell(my, self.n, mx, self.e),
                "SW": Cell(self.s, my, self.w, mx), "SE": Cell(self.s, my, mx, self.e)}

    def overlaps(self, o):
        return self.s < o.n and o.s < self.n and self.w < o.e and o.w < self.e


def case(a, b):
    """direction of b seen from a"""
    lat = "N" if a.n == b.s else "S" if b.n == a.s else "O" if (a.s < b.n and b.s < a.n) else None
    if lat is None:
        return 0
    if a.w < b.e and b.w < a.e:
        return {"N": -4, "S": 4, "O": 0}[lat]
    if a.e == b.w:
        return {"N": 1, "S": 3, "O": 2}[lat]
    if b.e == a.w:
        return {"N": -3, "S": -1, "O": -2}[lat]
    return 0


def graph(cells):
    """{key: {dir: sorted keys}} for {key: Cell}"""
    out = {}
    for i, a in cells.items():
        out[i] = {d: [] for d in DIRS}
        for j, b in cells.items():
            if i != j:
                c = case(a, b)
                if c:
                    out[i][c].append(j)
    return out


class Place:
    """where the local mesh lies: date line at unit position `seam`, or nowhere"""

    def __init__(self, seam=None, start180=False):
        self.seam = None if seam is None else F(seam)
        self.start180 = start180

    def __repr__(self):
        return "away from the date line" if self.seam is None else f"date line at {self.seam} half-widths from the centre"

    def domain(self, **kw):
        lat = ((YM, YH), [(-90, 0), (90, 0), (0, F(90, 8))])
        if self.seam is None:
            lon = ((XM, XH), [(-180, 0), (180, 0), (0, F(180, 8))])
        else:
            lon = ((XH,), [(0,), (F(18),)])
        return HullDomain(lat, lon, **kw)

    def lat(self, k):
        return mknum(padd(poly(YM), pmul(poly(YH), poly(F(k)))))

    def long(self, k, end):
        k = F(k)
        if self.seam is None:
            return mknum(padd(poly(XM), pmul(poly(XH), poly(k))))
        if k == self.seam:
            return 180 if (end or self.start180) else -180
        base = 180 if k < self.seam else -180
        return mknum(padd(poly(base), pmul(poly(XH), poly(k - self.seam))))


SIDE_L = [F(-3), F(-1), F(-3, 4), F(-1, 2), F(0), F(1, 4), F(1, 2)]
SIDE_U = [F(-1, 2), F(-1, 4), F(0), F(1, 2), F(3, 4), F(1), F(3)]


def side_ranges():
    return [(l, u) for l in SIDE_L for u in SIDE_U if l < u]


def side_cell(side, l, u, depth=2):
    d = F(depth)
    if side == "E":
        return Cell(l, u, 1, 1 + d)
    if side == "W":
        return Cell(l, u, -1 - d, -1)
    if side == "N":
        return Cell(1, 1 + d, l, u)
    return Cell(-1 - d, -1, l, u)


def corner_cell(c, d=2):
    d = F(d)
    s, n = (1, 1 + d) if c[0] == "N" else (-1 - d, -1)
    w, e = (1, 1 + d) if c[1] == "E" else (-1 - d, -1)
    return Cell(s, n, w, e)


def meshes(thorough=False):
    """(name, [other cells]) around the cell [-1,1]^2; never overlapping"""
    P = Cell(-1, 1, -1, 1)
    out = [("alone", [])]
    for side in "NESW":
        for l, u in side_ranges():
            out.append((f"one neighbour {side} {l}..{u}", [side_cell(side, l, u)]))
    for c in ("NE", "NW", "SE", "SW"):
        out.append((f"one corner neighbour {c}", [corner_cell(c)]))
    uniform = [side_cell(s, -1, 1) for s in "NESW"] + [corner_cell(c) for c in ("NE", "NW", "SE", "SW")]
    out.append(("uniform grid", uniform))
    half = [side_cell(s, l, l + 1, 1) for s in "NESW" for l in (-1, 0)] + [corner_cell(c, 1) for c in ("NE", "NW", "SE", "SW")]
    out.append(("half-size surroundings", half))
    quarter = [side_cell(s, F(i, 2) - 1, F(i + 1, 2) - 1, F(1, 2)) for s in "NESW" for i in range(4)] + \
              [corner_cell(c, F(1, 2)) for c in ("NE", "NW", "SE", "SW")]
    out.append(("quarter-size surroundings", quarter))
    # cell is one quadrant of a bigger block: siblings + big neighbours
    for q, (sy, sx) in {"SW": (1, 1), "SE": (1, -1), "NW": (-1, 1), "NE": (-1, -1)}.items():
        sib = [Cell(*sorted((sy, 3 * sy)), -1, 1), Cell(-1, 1, *sorted((sx, 3 * sx))),
               Cell(*sorted((sy, 3 * sy)), *sorted((sx, 3 * sx)))]
        blk_s, blk_n = (-1, 3) if sy == 1 else (-3, 1)
        blk_w, blk_e = (-1, 3) if sx == 1 else (-3, 1)
        big = []
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                if (i, j) != (0, 0):
                    big.append(Cell(blk_s + 4 * i, blk_n + 4 * i, blk_w + 4 * j, blk_e + 4 * j))
        out.append((f"{q} quadrant of a split cell", sib + big))
    # mixed sizes per side
    mixed = [side_cell("N", -1, 1), side_cell("E", -1, 0, 1), side_cell("E", 0, 1, 1), side_cell("S", -1, 3, 4),
             side_cell("W", -3, 1, 4), corner_cell("NE"), corner_cell("NW"), ]
    mixed = [m for i, m in enumerate(mixed) if not any(m.overlaps(o) for o in mixed[:i])]
    out.append(("mixed sizes", mixed))
    if thorough:
        rs = [(-3, -F(1, 2)), (-3, 0), (-1, 0), (-1, 1), (-3, 3), (0, 1), (F(1, 2), 3), (-F(1, 2), F(1, 2)), (0, 3), (-1, 3)]
        sides = "NESW"
        for i, s1 in enumerate(sides):
            for s2 in sides[i:]:
                for r1 in rs:
                    for r2 in rs:
                        c1, c2 = side_cell(s1, *r1), side_cell(s2, *r2)
                        if c1.overlaps(c2):
                            continue
                        out.append((f"two neighbours {s1} {r1[0]}..{r1[1]} and {s2} {r2[0]}..{r2[1]}", [c1, c2]))
    return out

"""Geometric specification on order types: boxes on the lat/long grid.

Longitudes are points of a circle, written in [-180, 180]; an arc (s, e) runs
eastwards from s to e.  180 and -180 are the same point.
"""
from .order import Chain, weak_orders
from .values import Sym

OPP = {1: -1, -1: 1, 2: -2, -2: 2, 3: -3, -3: 3, 4: -4, -4: 4, 0: 0}


def seam(r, top):
    """rank on the circle: the top constant and the bottom constant coincide"""
    return r


class Circle:
    """positions as ranks 0..n-1 in [-180,180]; `wrap` True when rank 0 is
    -180 and rank n-1 is 180 (the same point)"""

    def __init__(self, n, wrap):
        self.n, self.wrap = n, wrap
        self.m = n - 1 if wrap else n

    def pt(self, r):
        return r % self.m if self.wrap else r

    def arc(self, s, e):
        """set of elementary open gaps covered going east from s to e"""
        s, e = self.pt(s), self.pt(e)
        out = set()
        i = s
        while True:
            out.add(i)              # the gap just east of point i
            i = (i + 1) % self.m
            if i == e:
                break
        return frozenset(out)

    def full(self):
        return frozenset(range(self.m))


def lon_relation(c, a, b):
    """(touch_east, touch_west, overlap, ambiguous) of arcs a=(s,e), b=(s,e)"""
    A, Bq = c.arc(*a), c.arc(*b)
    ov = bool(A & Bq)
    te = c.pt(a[1]) == c.pt(b[0])
    tw = c.pt(a[0]) == c.pt(b[1])
    return te, tw, ov


def lat_relation(a, b):
    """'N' b touches a's north edge, 'S', 'O' overlap, None apart"""
    if a[1] == b[0]:
        return "N"
    if b[1] == a[0]:
        return "S"
    if a[0] < b[1] and b[0] < a[1]:
        return "O"
    return None


def expected_case(te, tw, ov, lat):
    if lat is None:
        return 0
    if ov:
        return {"N": -4, "S": 4, "O": 0}[lat]
    if te:
        return {"N": 1, "S": 3, "O": 2}[lat]
    if tw:
        return {"N": -3, "S": -1, "O": -2}[lat]
    return 0


def long_configs():
    """every relative position of two longitude arcs in [-180, 180], with the
    extreme coordinates either inside or on the date line.
    yields (values(a0,a1,b0,b1), Chain, Circle, ranks)"""
    for w in weak_orders(4):
        if w[0] == w[1] or w[2] == w[3]:
            continue
        n = max(w) + 1
        for atlo in (False, True):
            for athi in (False, True):
                pts = [Sym(f"x{i}") for i in range(n)]
                if atlo:
                    pts[0] = -180
                if athi:
                    pts[-1] = 180
                chain = list(pts)
                off = 0
                # the circle always carries the date line as a point
                if not atlo:
                    chain.insert(0, -180)
                    off = 1
                if not athi:
                    chain.append(180)
                c = Circle(len(chain), True)
                yield [pts[r] for r in w], Chain(chain), c, [r + off for r in w]

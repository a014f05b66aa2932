"""Order-type domain: coordinates known only through their relative order.

A `Chain` is a list of points p0 < p1 < ... on one axis, each either a symbol
or a constant.  The sign of a linear form over the points is decided from the
order alone (exact range of a linear function over the open order polytope).
"""
import itertools
from fractions import Fraction

from .values import *
from .values import as_fraction
from .interp import Domain

INF = float("inf")
# lower bound (v, 1): x > v; (v, 0): x >= v.  upper bound (v, 0): x < v; (v, 1): x <= v
FREE = ((-INF, 0), (INF, 1))


class Chain:
    def __init__(self, points):
        self.points = list(points)
        self.pos = {}
        for i, p in enumerate(self.points):
            if isinstance(p, Sym):
                self.pos[p] = i
        self.consts = [(i, as_fraction(p)) for i, p in enumerate(self.points) if not isinstance(p, Sym)]
        for (i, a), (j, b) in zip(self.consts, self.consts[1:]):
            assert a < b

    def range_of(self, coef):
        """open range (lo, hi) of sum coef[p]*p; coef: {Sym: Fraction}"""
        lo = hi = Fraction(0)
        if not self.consts:
            syms = [(self.pos[s], a) for s, a in coef.items()]
            tot = sum(a for _, a in syms)
            if tot != 0:
                return -INF, INF
            # s_j = s_0 + gaps
            n = len(self.points)
            a = [Fraction(0)] * n
            for i, c in syms:
                a[i] = c
            suf = Fraction(0)
            for i in range(n - 1, 0, -1):
                suf += a[i]
                if suf > 0:
                    hi = INF
                elif suf < 0:
                    lo = -INF
            return lo, hi
        n = len(self.points)
        a = [Fraction(0)] * n
        for s, c in coef.items():
            a[self.pos[s]] = c
        # segments
        cons = self.consts
        first, c0 = cons[0]
        # below
        base = Fraction(0)
        acc = Fraction(0)
        l = h = Fraction(0)
        for i in range(0, first):
            acc += a[i]
            if acc > 0:
                l = -INF
            elif acc < 0:
                h = INF
        tot = sum(a[:first])
        lo += c0 * tot + (l if l else 0)
        hi += c0 * tot + (h if h else 0)
        # bounded segments
        for (i, ci), (j, cj) in zip(cons, cons[1:]):
            seg = a[i + 1:j]
            if not any(seg):
                continue
            vals = []
            for t in range(len(seg) + 1):
                vals.append(ci * sum(seg[:t]) + cj * sum(seg[t:]))
            lo += min(vals)
            hi += max(vals)
        last, cl = cons[-1]
        l = h = Fraction(0)
        suf = Fraction(0)
        for i in range(n - 1, last, -1):
            suf += a[i]
            if suf > 0:
                h = INF
            elif suf < 0:
                l = -INF
        tot = sum(a[last + 1:])
        lo += cl * tot + (l if l else 0)
        hi += cl * tot + (h if h else 0)
        return lo, hi


class OrderDomain(Domain):
    split_abs = True
    arrays_as_lists = True

    def __init__(self, *chains, ints=(), facts=None):
        self.chains = chains
        self.own = {}
        for c in chains:
            for s in c.pos:
                self.own[s] = c
        self.ints = set(ints)
        self.facts = facts or {}
        self.box = {}               # symbol -> (lo, hi) learnt on this path

    def learn(self, q, signs):
        """a branch fixed the sign of q: narrow the symbol it bounds"""
        p = poly(q)
        ms = [m for m in p if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or ms[0][0][0] not in self.own:
            return
        x, a, c = ms[0][0][0], p[ms[0]], p.get((), Fraction(0))
        k = -c / a
        if a < 0:
            signs = {-s for s in signs}
        # bounds are (value, strict)
        lo, hi = self.box.get(x, FREE)
        if 1 not in signs:
            hi = min(hi, (k, 0 if 0 not in signs else 1))
        if -1 not in signs:
            lo = max(lo, (k, 0 if 0 in signs else 1))
        self.box[x] = (lo, hi)
        ch = self.own[x]
        up = (-INF, 0)
        for pt in ch.points:
            if isinstance(pt, Sym):
                l, h = self.box.get(pt, FREE)
                l = max(l, up)
                self.box[pt] = (l, h)
                up = (l[0], 1)
            else:
                up = max(up, (as_fraction(pt), 1))
        dn = (INF, 1)
        for pt in reversed(ch.points):
            if isinstance(pt, Sym):
                l, h = self.box.get(pt, FREE)
                h = min(h, dn)
                self.box[pt] = (l, h)
                dn = (h[0], 0)
            else:
                dn = min(dn, (as_fraction(pt), 0))

    def is_int(self, v):
        if isinstance(v, Sym):
            return v in self.ints
        if isinstance(v, Num):
            return all(c.denominator == 1 and all(a in self.ints for a, _ in m) for m, c in v.t.items())
        return False

    def parts(self, v):
        p = poly(v)
        const = Fraction(0)
        by = {}
        for m, c in p.items():
            if m == ():
                const += c
                continue
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.own:
                return None
            s = m[0][0]
            by.setdefault(id(self.own[s]), (self.own[s], {}))[1][s] = c
        return const, list(by.values())

    def range(self, v):
        """(lo, hi, has symbols)"""
        r = self.parts(v)
        if r is None:
            return None
        const, by = r
        lo = hi = const
        for ch, coef in by:
            l, h = ch.range_of(coef)
            if self.box:
                (bl, _), (bh, _) = self.boxrange(coef)
                l, h = max(l, bl), min(h, bh)
            lo += l
            hi += h
        return lo, hi, bool(by)

    def boxrange(self, coef):
        bl = bh = Fraction(0)
        so = sh = False
        for s, c in coef.items():
            (x, xs), (y, ys) = self.box.get(s, FREE)
            xs, ys = bool(xs), not ys
            if c > 0:
                bl += c * x
                bh += c * y
                so, sh = so or xs, sh or ys
            else:
                bl += c * y
                bh += c * x
                so, sh = so or ys, sh or xs
        return (bl, so), (bh, sh)

    def sign(self, v):
        r = self.parts(v)
        if r is None:
            return {-1, 0, 1}
        const, by = r
        if not by:
            return {(const > 0) - (const < 0)}
        lo = hi = const
        los = his = False           # strict (value not attained)
        for ch, coef in by:
            l, h = ch.range_of(coef)
            if l == h:
                lo += l
                hi += h
                continue
            ls = hs = True
            if self.box:
                (bl, s0), (bh, s1) = self.boxrange(coef)
                if bl > l:
                    l, ls = bl, s0
                if bh < h:
                    h, hs = bh, s1
            lo += l
            hi += h
            los, his = los or ls, his or hs
        out = set()
        if lo < 0:
            out.add(-1)
        if hi > 0:
            out.add(1)
        if (lo < 0 or (lo == 0 and not los)) and (hi > 0 or (hi == 0 and not his)):
            out.add(0)
        if lo == hi == 0:
            out = {0}
        return out

    def decide(self, b):
        if b.op == "isinst" and b.args[0] in self.own:
            if b.args[0] in self.ints and b.args[1].split(".")[-1] in ("int", "Integral"):
                return True
            return b.args[1].split(".")[-1] in ("float", "Number", "Real", "float64", "object")
        if b.op == "isnone" and b.args[0] in self.own:
            return False
        return self.facts.get(b)

    def num_isinst(self, v, name):
        short = name.split(".")[-1]
        if short in ("ndarray", "DataArray", "Series"):
            return False
        if short in ("float", "Number", "Real", "float64"):
            return True
        return None

    def mod(self, it, x, m, node):
        if not isnum(m):
            from .interp import pdiv
            c = pdiv(poly(x), poly(m))
            if isnum(c) and self.sign(m) == {1}:
                c = as_fraction(c)
                return mknum(pmul(poly(m), poly(c - c // 1)))
            return None
        if m <= 0:
            return None
        r = self.range(x)
        if r is None:
            return None
        lo, hi, _ = r
        if lo == -INF or hi == INF:
            return None
        import math
        k0 = math.floor(lo / m)
        k1 = math.floor(hi / m)
        for k in range(k0, k1 + 1):
            # x - k*m < m ?
            if k == k1 or it.decide(it.v_lt(x, (k + 1) * m, True, node), node):
                return mknum(padd(poly(x), poly(k * m), -1))
        return None


def weak_orders(n):
    """all weak orderings of n items as rank tuples"""
    out = []

    def rec(i, ranks, used):
        if i == n:
            out.append(tuple(ranks))
            return
        for r in range(used + 1):
            rec(i + 1, ranks + [r], max(used, r + 1))

    seen = set()
    for ranks in itertools.product(range(n), repeat=n):
        s = sorted(set(ranks))
        m = {v: i for i, v in enumerate(s)}
        t = tuple(m[r] for r in ranks)
        seen.add(t)
    return sorted(seen)


def interval_pairs():
    """the 13 relative positions of two proper intervals (a0,a1),(b0,b1)"""
    return [w for w in weak_orders(4) if w[0] < w[1] and w[2] < w[3]]


def chain_from_ranks(prefix, ranks, lo=None, hi=None, atlo=False, athi=False):
    """values for each item of a rank tuple, plus the Chain.

    lo/hi: constants strictly outside all points, unless atlo/athi put the
    lowest/highest rank exactly on them."""
    n = max(ranks) + 1
    pts = [Sym(f"{prefix}{i}") for i in range(n)]
    if atlo:
        pts[0] = lo
    if athi:
        pts[-1] = hi
    chain = list(pts)
    if lo is not None and not atlo:
        chain.insert(0, lo)
    if hi is not None and not athi:
        chain.append(hi)
    return [pts[r] for r in ranks], Chain(chain)


MEMO = {}


class HullDomain(OrderDomain):
    """Symbols ranging over the open convex hull of given vertices, in
    independent groups; the sign of a linear form is read off the vertices."""

    def __init__(self, *groups, ints=(), facts=None):
        # group: (symbols, [vertex tuples])
        self.groups = groups
        self.own = {}
        for g in groups:
            for s in g[0]:
                self.own[s] = g
        self.ints = set(ints)
        self.facts = facts or {}
        self.box = {}
        self.memo = MEMO.setdefault(tuple((tuple(g[0]), tuple(map(tuple, g[1]))) for g in groups), {})

    def learn(self, q, signs):
        pass

    def range(self, v):
        r = self.parts(v)
        if r is None:
            return None
        const, by = r
        lo = hi = const
        for g, coef in by:
            syms, verts = g
            vals = [sum(coef.get(s, 0) * as_fraction(x) for s, x in zip(syms, vt)) for vt in verts]
            lo += min(vals)
            hi += max(vals)
        return lo, hi, bool(by)

    def sign(self, v):
        s = self.memo.get(v)
        if s is None:
            s = self.memo[v] = frozenset(self.sign_(v))
        return s

    def sign_(self, v):
        r = self.range(v)
        if r is None:
            return {-1, 0, 1}
        lo, hi, _ = r
        if lo == hi:
            return {(lo > 0) - (lo < 0)}
        out = set()
        if lo < 0:
            out.add(-1)
        if hi > 0:
            out.add(1)
        if lo < 0 < hi:
            out.add(0)
        return out

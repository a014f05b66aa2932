"""The longitude, date, duration and rounding helpers give their defined values."""
import calendar
import datetime as dt
import itertools
import re
from decimal import Decimal, ROUND_HALF_EVEN, Context
from fractions import Fraction as F
from sa.dates import DateV
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.tables import *
from sa.values import *
from sa.values import as_fraction
from .common import *

RULE = ("longitude_domain: for a longitude in any open piece between, or on, multiples of 180 the result differs from it by a multiple of 360 and lies in -180:180, +-180 as given, lists and arrays element by element; "
        "longitude_distance: the result is plus or minus the difference modulo 360 and lies in 0:180, whichever pieces the longitudes lie in; "
        "frac_of_month, date_range, str_to_datetime: the calendar's own dates, for every month and for spans across months and leap years; "
        "convert_decimal_days: the whole days, hours and minutes nearest to the duration; round_to_sigfig: the decimal rounding of every finite number, 0 and infinities unchanged, in the form given; divergence and curl: central differences inside and one-sided ones on the rim of an arbitrary field; boundary_to_coords: the two corners")

U = "meshiphi.utils."


class Exact(OrderDomain):
    ndarrays = True


def fn(it, name):
    return it.prog.fn(U + name)


def check(tier):
    chk = Check("P29", RULE, tier, minimum=50)
    chk.parallel([("flow", z) for z in ((2, 2), (2, 3), (3, 2), (4, 3), (3, 5))] + [("corners", 0)] + [("domain", k) for k in range(-5, 6)] + [("distance", k) for k in range(-5, 6)] + [("months", y) for y in (1900, 2000, 2023, 2024)]
                 + [("dates", 0)] + [("days", i) for i in range(4)] + [("figures", s) for s in (1, 2, 3, 4, 5, None)], one)
    return chk


def one(chk, job):
    globals()[job[0]](chk, job[1])


def pieces(name, ks):
    """(description, value, chain) of a longitude on, and next to, each multiple of 180"""
    for k in ks:
        yield f"{180 * k}", 180 * k, None
        s = Sym(name)
        yield f"between {180 * k} and {180 * (k + 1)}", s, Chain([180 * k, s, 180 * (k + 1)])


def multiple(a, b):
    """a - b, when it is a whole number of turns"""
    d = mknum(padd(poly(a), poly(b), -1))
    return as_fraction(d) if isnum(d) and as_fraction(d) is not None and as_fraction(d) % 360 == 0 else None


def domain(chk, k):
    C = "longitude_domain"
    for text, v, ch in pieces("long", [k]):
        for form in ("number", "list", "array"):
            def setup(it):
                other = 200
                x = v if form == "number" else ListV([v, other]) if form == "list" else NDArr([v, other])
                return fn(it, C), [x], {}, None
            for t in decided(chk, "domain", setup, lambda: Exact(*([ch] if ch else []))):
                if not chk.require(t.outcome == "return", "domain", C, f"{form} {text}: raises {t.exc}", t.where):
                    continue
                r = t.value
                if form == "number":
                    got = [r]
                elif form == "list":
                    if not chk.require(isinstance(r, ListV) and not r.arr and len(r.items) == 2, "domain", C, f"list {text}: gives {show(r)}", t.where):
                        continue
                    got = r.items
                else:
                    ok = isinstance(r, NDArr) and len(r.cells) == 2 or isinstance(r, ListV) and r.arr and len(r.items) == 2
                    if not chk.require(ok, "domain", C, f"array {text}: gives {show(r)}", t.where):
                        continue
                    got = r.cells if isinstance(r, NDArr) else r.items
                    chk.require(eqv(got[1], -160), "domain", C, f"{form} {text}, 200: 200 becomes {show(got[1])}", t.where)
                g = got[0]
                if isinstance(v, int) and abs(v) == 180:
                    chk.require(eqv(g, v), "domain", C, f"{form} {text}: becomes {show(g)}", t.where)
                    continue
                dom = t.interp.dom
                ok = multiple(g, v) is not None and -1 not in dom.sign(mknum(padd(poly(g), poly(180)))) and -1 not in dom.sign(mknum(padd(poly(180), poly(g), -1)))
                chk.require(ok, "domain", C, f"{form} {text}: becomes {show(g)}", t.where, sample=f"{text} -> {show(g)}")


def distance(chk, k):
    C = "longitude_distance"
    for (ta, a, ca), (td, d, cd) in itertools.product(pieces("a", [k]), pieces("d", range(-4, 4))):
        def setup(it):
            return fn(it, C), [a, mknum(padd(poly(a), poly(d)))], {}, None
        for t in decided(chk, "distance", setup, lambda: Exact(*[c for c in (ca, cd) if c])):
            case = f"longitudes {ta} and {td} further"
            if not chk.require(t.outcome == "return", "distance", C, f"{case}: raises {t.exc}", t.where):
                continue
            g, dom = t.value, t.interp.dom
            ok = (multiple(g, d) is not None or multiple(mknum(pmul(poly(-1), poly(g))), d) is not None) \
                and -1 not in dom.sign(g) and -1 not in dom.sign(mknum(padd(poly(180), poly(g), -1)))
            chk.require(ok, "distance", C, f"{case}: {show(g)}", t.where, sample=f"{case}: {show(g)}")


def months(chk, y):
    C = "frac_of_month"
    for m in range(1, 13):
        n = calendar.monthrange(y, m)[1]
        for s, e in [(None, None), (1, n), (None, 1), (n, None), (2, 2), (1, n - 1), (None, 28), (15, None), (10, 20)]:
            day = lambda x: None if x is None else DateV(dt.datetime(y, m, x))
            want = F((e or n) - (s or 1) + 1, n)

            def setup(it):
                return fn(it, C), [y, m] + ([] if s is None and e is None else [day(s), day(e)]), {}, None
            for t in decided(chk, "months", setup, lambda: Exact()):
                case = f"{y}-{m}, days {s} to {e}"
                if chk.require(t.outcome == "return", "months", C, f"{case}: raises {t.exc}", t.where):
                    chk.require(eqv(t.value, want), "months", C, f"{case}: {show(t.value)} rather than {want}", t.where, sample=f"{case}: {want}")
        for s, e in [((y, m % 12 + 1, 1), (y, m, 5)), ((y, m, 5), (y, m % 12 + 1, 1))]:
            def setup(it):
                return fn(it, C), [y, m, DateV(dt.datetime(*s)), DateV(dt.datetime(*e))], {}, None
            for t in decided(chk, "months", setup, lambda: Exact()):
                chk.require(t.outcome == "raise", "months", C, f"{y}-{m}, {s} to {e}: accepted", t.where)


def dates(chk, _):
    C = "date_range"
    for s in ("2023-12-30", "2024-02-27", "2023-02-27", "1900-02-27", "2000-02-28", "2024-06-15"):
        a = dt.datetime.strptime(s, "%Y-%m-%d")
        for n in (-3, 0, 1, 2, 3, 5, 32):
            b = a + dt.timedelta(n)

            def setup(it):
                return PyFn("run", lambda it, a_, k_, node=None: ListV(list(it.items_of(it.call(fn(it, C), [DateV(a), DateV(b)], {}, node), node)))), [], {}, None
            for t in decided(chk, "dates", setup, lambda: Exact()):
                case = f"from {s} {n} days on"
                if chk.require(t.outcome == "return", "dates", C, f"{case}: raises {t.exc}", t.where):
                    got = [x.v for x in t.value.items]
                    want = [a + dt.timedelta(i) for i in range(max(n, 0))]
                    chk.require(got == want, "dates", C, f"{case}: {[str(x)[:10] for x in got[:4]]}... ({len(got)} dates)", t.where, sample=f"{case}: {len(want)} dates")

        def setup(it):
            return fn(it, "str_to_datetime"), [s], {}, None
        for t in decided(chk, "dates", setup, lambda: Exact()):
            chk.require(t.outcome == "return" and isinstance(t.value, DateV) and t.value.v == a, "dates", "str_to_datetime", f"{s}: {show(t.value)}", t.where)
    for s in ("2024-02-30", "2023-02-29", "01-02-2024", "2024/01/02", "x"):
        def setup(it):
            return fn(it, "str_to_datetime"), [s], {}, None
        for t in decided(chk, "dates", setup, lambda: Exact()):
            chk.require(t.outcome == "raise", "dates", "str_to_datetime", f"{s}: accepted", t.where)


def plain(s):
    """whole numbers without a decimal point"""
    return re.sub(r"(\d)\.0+(?!\d)", r"\1", s)


def days(chk, part):
    C = "convert_decimal_days"
    for d, h, m in itertools.product((0, 1, 2, 31), (0, 1, 12, 23), (0, 1, 29, 30, 59)):
        if (d + h + m) % 4 != part:
            continue
        for off in (0, F(1, 3), F(-1, 3), F(-1, 50)):
            v = d + F(h, 24) + F(m + off, 1440)
            if v < 0:
                continue
            for mins in (True, False):
                if mins:
                    tot = round(v * 1440)
                    hh, mm = divmod(tot, 60)
                    dd, hh = divmod(hh, 24)
                    want = f"{dd} days {hh} hours {mm} minutes" if dd else f"{hh} hours {mm} minutes" if hh else f"{mm} minutes"
                else:
                    tot = round(v * 24, 2)
                    dd, hh = divmod(tot, 24)
                    if abs((v * 2400) % 1 - F(1, 2)) < F(1, 1000):
                        continue
                    want = f"{dd} days {float(hh)} hours" if dd else f"{float(hh)} hours"

                def setup(it):
                    return fn(it, C), [v] + ([True] if mins else []), {}, None
                for t in decided(chk, "days", setup, lambda: Exact()):
                    case = f"{v} days" + (" with minutes" if mins else "")
                    if chk.require(t.outcome == "return", "days", C, f"{case}: raises {t.exc}", t.where):
                        chk.require(isinstance(t.value, str) and plain(t.value) == plain(want), "days", C, f"{case}: {show(t.value)} rather than {want}", t.where, sample=f"{case}: {want}")


NUMS = ["1", "9", "10", "99.996", "9.9996", "123456.7", "0.00012345678", "0.1", "1000", "999.96", "3.14159265", "87654321.123", "0.000999961", "2718.2818", "46.3", "0.051"]


def sig(x, n):
    q = Decimal(x)
    if q == 0:
        return F(0)
    return F(Context(prec=n, rounding=ROUND_HALF_EVEN).plus(q))


def figures(chk, s):
    C = "round_to_sigfig"
    n = 5 if s is None else s
    vals = [p + x for x in NUMS for p in ("", "-")]
    vals = [x for x in vals if abs(F(x) - sig(x, n)) != abs(F(x) - 2 * sig(x, n) + F(x))]
    forms = [("number", [x]) for x in vals + ["0"]] + [("list", ["0", "1.5", "-1234567.8"]), ("array", vals), ("array", ["0"] + vals[:3]), ("list", vals), ("array", ["12.3456789", "inf", "0", "-inf", "-0.98765432"]), ("list", ["inf", "77777.77"]), ("integers", ["7", "-123456", "0"]), ("integer", ["987654"]), ("integer", ["0"]), ("integer", ["-40"])]
    for form, xs in forms:
        def setup(it):
            vs = [int(x) if form.startswith("integer") else float(x) if "inf" in x else F(x) for x in xs]
            a = vs[0] if form in ("number", "integer") else ListV(vs) if form in ("list", "integers") else NDArr(vs)
            return fn(it, C), [a] + ([] if s is None else [s]), {}, None
        for t in decided(chk, "figures", setup, lambda: Exact()):
            case = f"{form} {', '.join(xs[:3])} to {n} figures"
            if not chk.require(t.outcome == "return", "figures", C, f"{case}: raises {t.exc}", t.where):
                continue
            r = t.value
            got = [r] if form in ("number", "integer") else r.items if isinstance(r, ListV) else r.cells if isinstance(r, NDArr) else None
            ok = got is not None and len(got) == len(xs) and (form == "array") == (isinstance(r, NDArr) or isinstance(r, ListV) and bool(r.arr))
            if chk.require(ok, "figures", C, f"{case}: gives {show(r)}", t.where):
                for x, g in zip(xs, got):
                    if "inf" in x:
                        chk.require(g == float(x), "figures", C, f"{form}: {x} becomes {show(g)}", t.where)
                        continue
                    chk.require(isnum(g) and as_fraction(g) == sig(x, n), "figures", C, f"{form}: {x} to {n} figures becomes {show(g)} rather than {sig(x, n)}", t.where, sample=f"{x} -> {sig(x, n)}")


def flow(chk, size):
    """finite differences of an arbitrary flow field of rows by columns; the result has columns first"""
    R, K = size
    u = [[Sym("val", "u", i, j) for j in range(K)] for i in range(R)]
    v = [[Sym("val", "v", i, j) for j in range(K)] for i in range(R)]

    def diff(xs, i):
        a, b = (1, 0) if i == 0 else (len(xs) - 1, len(xs) - 2) if i == len(xs) - 1 else (i + 1, i - 1)
        d = padd(poly(xs[a]), poly(xs[b]), -1)
        return {m: c / (a - b) for m, c in d.items()}
    for C in ("divergence", "curl"):
        def setup(it):
            return fn(it, C), [NDArr([w[i][j] for i in range(R) for j in range(K) for w in (u, v)], (R, K, 2))], {}, None
        for t in decided(chk, "flow", setup, lambda: Exact()):
            case = f"field of {R} rows by {K} columns"
            if not chk.require(t.outcome == "return", "flow", C, f"{case}: raises {t.exc}", t.where):
                continue
            r = t.value
            if not chk.require(isinstance(r, ArrV) and tuple(r.shape) == (K, R), "flow", C, f"{case}: gives {show(r)[:100]}", t.where):
                continue
            for j, i in itertools.product(range(K), range(R)):
                if C == "curl":
                    want = mknum(padd(diff(v[i], j), diff([x[j] for x in u], i), -1))
                else:
                    want = mknum(padd(diff(u[i], j), diff([x[j] for x in v], i)))
                g = r.cells[j * R + i]
                chk.require(eqv(g, want), "flow", C, f"{case}: at column {j}, row {i} {show(g)} rather than {show(want)}", t.where, sample=f"{C}, {case}, column {j}, row {i}: {show(g)}")


def corners(chk, _):
    C = "boundary_to_coords"
    for la, lo in itertools.product(((-60, -50), (0, 10), (-5, 80)), ((0, 10), (170, -170), (-180, 180))):
        def setup(it):
            return fn(it, C), [boundary(it, list(la), list(lo))], {}, None
        for t in decided(chk, "corners", setup, lambda: Exact()):
            got = [[as_fraction(y) for y in t.interp.items_of(x, None)] for x in t.interp.items_of(t.value, None)] if t.outcome == "return" else t.exc
            chk.require(got == [[la[0], lo[0]], [la[1], lo[1]]], "corners", C, f"{la} by {lo}: {got}", t.where)

"""A region: which limits and dates are accepted, its size and centre, equality, dates relative to today."""
import datetime as dt
from fractions import Fraction as F
from sa.order import Chain, OrderDomain
from sa.report import Check
from sa.values import *
from .common import *
from .p14 import LATS, LONGS, CONC, same_long

RULE = ("over every order type of a region's limits and the poles / the date line: construction succeeds exactly when the limits lie on the globe, south is not north of north and the dates are valid and in order; "
        "width, height, centre and half sizes are those of the region (centre within -180:180); two regions are equal exactly when all limits, and the time ranges both have, are equal; "
        "date texts are read as the day they name, also relative to a symbolic set of current days, and other texts are rejected")

T = ["2013-01-01", "2013-01-14"]


class Dated(OrderDomain):
    now = dt.datetime(2024, 2, 27, 13, 45, 10)


def check(tier):
    chk = Check("P16", RULE, tier, minimum=100)
    jobs = []
    for la in range(len(LATS)):
        for lo in range(len(LONGS)):
            jobs.append(("size", LATS[la][0], LONGS[lo][0], LATS[la][1], LONGS[lo][1], f"{LATS[la][2]}, {LONGS[lo][3]}"))
    for lat, lon in CONC:
        jobs.append(("size", lat, lon, None, None, "placed"))
    # acceptance: place of each limit relative to the ends of its range
    for c, end in (("lat", 90), ("long", 180)):
        for i in range(5):
            for j in range(5):
                for first in ((0, 1, 2) if i == j and i % 2 == 0 else (0,)):
                    jobs.append(("accept", c, end, i, j, first))
    for t, ok in TIMES:
        jobs.append(("time", t, ok))
    for a in range(len(SHORT)):
        jobs.append(("short", a))
    for a in EQ:
        jobs.append(("equal", a))
    for text, want in DATES:
        for now in NOWS:
            jobs.append(("date", text, want, now))
    for timed in (True, False):
        for cross in (False, True):
            jobs.append(("json", timed, cross))
    chk.parallel(jobs, lambda c, j: globals()["do_" + j[0]](c, *j[1:]))
    return chk


B_ = MG + "boundary.Boundary"


def dom(lat_ch, lon_ch):
    return lambda: Dated(*[c for c in (lat_ch, lon_ch) if c is not None])


def do_size(chk, lat, lon, lch, och, name):
    names = ["get_width", "get_height", "getcx", "getcy", "getdcx", "getdcy", "get_lat_min", "get_lat_max", "get_long_min", "get_long_max", "get_bounds"]
    d = f"region {name} ({show(ListV(list(lat)))} by {show(ListV(list(lon)))})"
    w = p2(lon[1], lon[0], -1)
    if not (name_inside(lon, och)):
        w = p2(w, 360, 1)
    h = p2(lat[1], lat[0], -1)
    half = lambda v: mknum(pmul(poly(v), poly(F(1, 2))))
    mid = p2(lon[0], half(w), 1)
    for nm in names:
        C = "Boundary." + nm

        def setup(it):
            return it.getattr(boundary(it, lat, lon, ListV(list(T))), nm), [], {}, None
        for t in decided(chk, "size", setup, dom(lch, och)):
            if t.outcome == "raise":
                chk.bad("size", C, f"{d}: raises {t.exc}", t.where)
                continue
            v = t.value
            if nm == "get_bounds":
                if not isinstance(v, (ListV, TupleV)):
                    chk.undec("size", f"bounds {show(v)}")
                    continue
                got = {tuple(map(show, t.interp.items_of(p))) for p in t.interp.items_of(v)}
                want = {(show(x), show(y)) for x in lon for y in lat}
                chk.require(got == want, "size", C, f"{d}: corners {sorted(got)}")
                path = [tuple(map(show, t.interp.items_of(p))) for p in t.interp.items_of(v)]
                around = [(show(lon[x]), show(lat[y])) for x, y in ((0, 0), (0, 1), (1, 1), (1, 0))]
                rings = [[r[(i + j) % 4] for j in range(5)] for r in (around, around[::-1]) for i in range(4)]
                chk.require(path in rings, "size", C, f"{d}: {path} is not the closed ring of its corners")
                continue
            if poly(v) is None:
                chk.undec("size", f"{nm} gives {show(v)}")
                continue
            if nm == "getcx":
                ok = False
                for c in (mid, p2(mid, 360, -1)):
                    if eqv(v, c):
                        ok = all(-1 not in sign(t.interp, p2(c, 180, 1) if k else p2(180, c, -1)) for k in (0, 1))
                chk.require(ok, "size", C, f"{d}: centre longitude {show(v)}")
                continue
            want = {"get_width": w, "get_height": h, "getcy": p2(lat[0], half(h), 1), "getdcx": half(w), "getdcy": half(h),
                    "get_lat_min": lat[0], "get_lat_max": lat[1], "get_long_min": lon[0], "get_long_max": lon[1]}[nm]
            chk.require(eqv(v, want), "size", C, f"{d}: {show(v)}, expected {show(want)}")


def sign(it, v):
    from sa.order import canon
    p = poly(v)
    c = mknum(p)
    if isnum(c):
        return {(c > 0) - (c < 0)}
    s, q = canon(p)
    return {x * s for x in it.possible(q)}


def p2(a, b, k):
    return mknum(padd(poly(a), poly(b), k))


def name_inside(lon, och):
    """west limit below east limit"""
    if och is None:
        return lon[0] < lon[1]
    pts = list(och.points)
    return pts.index(lon[0]) < pts.index(lon[1])


def do_accept(chk, c, end, i, j, first):
    """slots: 0 below -end, 1 at -end, 2 inside, 3 at end, 4 above; equal slots: order by `first`"""
    rule, C = "accept", "Boundary.__init__"
    a, b = Sym("a"), Sym("b")
    pts = {0: [], 2: [], 4: []}
    va = [a, -end, a, end, a][i]
    vb = [b, -end, b, end, b][j]
    if i == j and i % 2 == 0:
        pts[i] = [[a, b], [b, a], [a]][first]
        if first == 2:
            vb = a
    else:
        if i % 2 == 0:
            pts[i] = [a]
        if j % 2 == 0:
            pts[j] = [b]
    ch = Chain(pts[0] + [-end] + pts[2] + [end] + pts[4])
    on = 1 <= i <= 3 and 1 <= j <= 3
    order = i < j or (i == j and first != 1)
    if i == j and (i % 2 or first == 2):
        if on:
            return              # a region without extent is left open
    ok = on and (order if c == "lat" else True)
    lat, lon = ([va, vb], [10, 20]) if c == "lat" else ([10, 20], [va, vb])
    d = f"{c} limits {show(va)}, {show(vb)} with {ch_show(ch)}"

    def setup(it):
        return it.prog.cls(B_), [ListV(lat), ListV(lon)], {}, None
    for t in decided(chk, rule, setup, lambda: Dated(ch)):
        if ok:
            chk.require(t.outcome != "raise", rule, C, f"{d}: raises {t.outcome == 'raise' and t.exc}", t.where)
        else:
            chk.require(t.outcome == "raise", rule, C, f"{d}: accepted")


TIMES = [(["2013-01-01", "2013-01-14"], True), (["2013-01-14", "2013-01-01"], False), (["2013-01-01", "2013-01-01"], True), (["2013-12-31", "2014-01-01"], True), (["2014-01-01", "2013-12-31"], False),
         (["2013-09-30", "2013-10-01"], True), (["2013-10-01", "2013-09-30"], False), (["TODAY", "TODAY + 3"], True), (["TODAY - 3", "TODAY"], True), (["TODAY + 3", "TODAY"], False), (["TODAY", "TODAY - 1"], False),
         (["TODAY - 10", "TODAY - 2"], True), (["2013-01-01", "2013-02-30"], False), (["2013-13-01", "2014-01-01"], False), (["yesterday", "2014-01-01"], False), (["2013-01-01", ""], False), ([], True), (None, True),
         (["2016-02-29", "2016-03-01"], True), (["2015-02-29", "2016-03-01"], False)]


def day(text, now):
    """the day a text names, or None"""
    s = text.strip().upper()
    try:
        return dt.datetime.strptime(s, "%Y-%m-%d").strftime("%Y-%m-%d")
    except ValueError:
        pass
    if s == "TODAY":
        return now.strftime("%Y-%m-%d")
    if s.startswith("TODAY"):
        r = s[5:].strip()
        if r and r[0] in "+-":
            try:
                n = float(r[1:])
            except ValueError:
                return None
            return (now + dt.timedelta(days=n if r[0] == "+" else -n)).strftime("%Y-%m-%d")
    return None


def do_time(chk, t_, ok):
    rule, C = "time", "Boundary.__init__"

    def setup(it):
        return it.prog.cls(B_), [ListV([10, 20]), ListV([30, 40])] + ([ListV(list(t_))] if t_ is not None else []), {}, None
    for t in decided(chk, rule, setup, lambda: Dated()):
        if not ok:
            chk.require(t.outcome == "raise", rule, C, f"time range {t_}: accepted")
            continue
        if not chk.require(t.outcome != "raise", rule, C, f"time range {t_}: raises {t.outcome == 'raise' and t.exc}", t.where):
            continue
        it = t.interp
        got = it.call(it.getattr(t.value, "get_time_range"), [], {})
        got = it.items_of(got) if isinstance(got, (ListV, TupleV)) else got
        want = [day(x, Dated.now) for x in t_ or []]
        chk.require(list(got or []) == want, rule, C, f"time range {t_} became {got}, expected {want}")
        if want:
            for f, w in (("get_time_min", want[0]), ("get_time_max", want[1])):
                g = it.call(it.getattr(t.value, f), [], {})
                chk.require(g == w, rule, "Boundary." + f, f"time range {t_}: {show(g)}, expected {w}")


SHORT = [([10], [30, 40], None), ([10, 20], [30], None), ([], [30, 40], None), ([10, 20], [], None), ([10, 20], [30, 40], ["2013-01-01", "2013-01-02", "2013-01-03"])]


def do_short(chk, i):
    lat, lon, tm = SHORT[i]

    def setup(it):
        return it.prog.cls(B_), [ListV(list(lat)), ListV(list(lon))] + ([ListV(list(tm))] if tm else []), {}, None
    for t in decided(chk, "accept", setup, lambda: Dated()):
        chk.require(t.outcome == "raise", "accept", "Boundary.__init__", f"limits {lat}, {lon}, dates {tm}: accepted")


Q = [Sym("q%d" % i) for i in range(4)]
EQ = ["same", "lat_min", "lat_max", "long_min", "long_max", "start", "end", "both times", "other time absent", "own time absent", "swapped axes", "no times", "no times, other long_max", "time absent, other lat_min"]


def do_equal(chk, what):
    rule, C = "equal", "Boundary.__eq__"
    s, n, w, e = Q
    other = Sym("o")
    one, two = [[s, n], [w, e], list(T)], [[s, n], [w, e], list(T)]
    lat, lon = [-90, s, n, 90], [-180, w, e, 180]
    want = False
    if what in ("same", "other time absent", "own time absent", "no times"):
        want = True
    if what == "lat_min" or what.endswith("other lat_min"):
        two[0][0] = other
        lat = [-90, other, s, n, 90]
    if what == "lat_max":
        two[0][1] = other
        lat = [-90, s, n, other, 90]
    if what == "long_min":
        two[1][0] = other
        lon = [-180, w, other, e, 180]
    if what in ("long_max", "no times, other long_max"):
        two[1][1] = other
        lon = [-180, w, e, other, 180]
    if what in ("start", "both times"):
        two[2][0] = "2013-01-02"
    if what in ("end", "both times"):
        two[2][1] = "2013-01-15"
    if what == "other time absent" or what.startswith("no times") or what.startswith("time absent"):
        two[2] = None
    if what == "own time absent" or what.startswith("no times"):
        one[2] = None
    if what == "swapped axes":
        one, two = [[10, 20], [30, 40], list(T)], [[30, 40], [10, 20], list(T)]

    def setup(it):
        mk = lambda x: boundary(it, x[0], x[1], ListV(list(x[2])) if x[2] else None)
        x, y = mk(one), mk(two)

        def run(i, a, k, node=None):
            return [i.truth(i.v_eq(p, q, node), node) for p, q in ((x, y), (y, x), (x, x))]
        return PyFn("driver", run), [], {}, None
    for t in decided(chk, rule, setup, lambda: Dated(Chain(lat), Chain(lon))):
        if t.outcome == "raise":
            chk.bad(rule, C, f"regions differing in {what}: raises {t.exc}", t.where)
            continue
        chk.require(t.value == [want, want, True], rule, C, f"regions differing in {what}: equal, equal swapped, equal to itself = {t.value}")


NOWS = [dt.datetime(2024, 2, 27, 13, 45, 10), dt.datetime(2023, 12, 31, 23, 59, 59), dt.datetime(2021, 3, 1, 0, 0, 0), dt.datetime(2022, 10, 9, 12, 0, 0)]
DATES = [(t, None) for t in (
    "2013-01-01", "2016-02-29", "1970-12-31", "TODAY", "today", "Today", " TODAY ", "TODAY + 3", "TODAY+3", "TODAY +3", "TODAY - 16", "TODAY-16", "today - 2", "Today + 400", "TODAY - 0", "TODAY + 0", "TODAY + 10", "TODAY-31", "TODAY + 0.5", "TODAY - 1.5", "TODAY - 0.25", "TODAY + 7.75")]
DATES += [(t, "bad") for t in ("", "yesterday", "2013-02-30", "2015-02-29", "2013-00-10", "2013-13-01", "01-02-2013x", "2013/01/01", "TODAY + x", "TODAY - ", "TODAY 3", "TODAY * 3", "20130101x", "NOW", "TOMORROW", "2013-01", "TODAY + three")]


def do_date(chk, text, bad, now):
    rule, C = "date", "Boundary.parse_datetime"

    class D(OrderDomain):
        pass
    D.now = now

    def setup(it):
        return it.getattr(it.prog.cls(B_), "parse_datetime"), [text], {}, None
    for t in decided(chk, rule, setup, D):
        if bad:
            chk.require(t.outcome == "raise" and t.exc == "ValueError", rule, C, f"{text!r}: {t.exc if t.outcome == 'raise' else 'read as ' + show(t.value)}, expected ValueError")
        else:
            chk.require(t.outcome != "raise" and t.value == day(text, now), rule, C, f"{text!r} on {now}: {t.exc if t.outcome == 'raise' else show(t.value)}, expected {day(text, now)}", t.where)


def do_json(chk, timed, cross):
    rule, C = "config", "Boundary.from_json"
    s, n, w, e = Q
    ch = Chain([-180, e, w, 180] if cross else [-180, w, e, 180])
    items = [("lat_min", s), ("lat_max", n), ("long_min", w), ("long_max", e), ("cell_width", 5), ("cell_height", 5)]
    if timed:
        items += [("start_time", T[0]), ("end_time", T[1])]

    def setup(it):
        return it.getattr(it.prog.cls(B_), "from_json"), [DictV([("region", DictV(items)), ("data_sources", ListV([]))])], {}, None
    for t in decided(chk, rule, setup, lambda: Dated(Chain([-90, s, n, 90]), ch)):
        if t.outcome == "raise":
            chk.bad(rule, C, f"region with{'' if timed else 'out'} dates: raises {t.exc}", t.where)
            continue
        it = t.interp
        g = [it.call(it.getattr(t.value, f), [], {}) for f in ("get_lat_min", "get_lat_max", "get_long_min", "get_long_max")]
        chk.require(all(eqv(x, y) for x, y in zip(g, (s, n, w, e))), rule, C, f"limits {[show(x) for x in g]}")
        tr = it.items_of(it.call(it.getattr(t.value, "get_time_range"), [], {}))
        chk.require(list(tr) == (T if timed else []), rule, C, f"time range {[show(x) for x in tr]}")

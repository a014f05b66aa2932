"""Dates and durations (constant domain); "now" is supplied by the domain."""
import ast
import datetime as _dt
import time
from fractions import Fraction

from .tables import NativeV
from .values import *
from .values import _MISSING, as_fraction


class DateV(NativeV):
    def __init__(self, v):
        self.v = v
        self.tname = type(v).__name__

    def __repr__(self):
        return f"<{self.tname} {self.v}>"

    def __eq__(self, o):
        return isinstance(o, DateV) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def attr(self, it, name, node):
        v = self.v
        if name.startswith("_") or not hasattr(v, name):
            it.undecided(f"attribute {name} of {self.tname}", node)
        x = getattr(v, name)
        if isinstance(x, (int, str)):
            return x
        if callable(x) and name != "now":
            def f(it2, a, k, n):
                if not all(isinstance(y, (str, int, DateV)) for y in list(a) + list(k.values())):
                    it2.undecided(f"{name} with {[show(y) for y in a]}", n)
                u = lambda y: y.v if isinstance(y, DateV) else y
                return wrap(it2, guard(it2, n, getattr(v, name), *[u(y) for y in a], **{q: u(y) for q, y in k.items()}), n)
            return self.meth(name, f)
        it.undecided(f"attribute {name} of {self.tname}", node)


def wrap(it, r, n):
    if isinstance(r, (_dt.date, _dt.timedelta, _dt.time, time.struct_time)):
        return DateV(r)
    if isinstance(r, float):
        r = as_fraction(r)
        return int(r) if r.denominator == 1 else r
    if isinstance(r, (str, int, bool)):
        return r
    if isinstance(r, tuple):
        return TupleV([wrap(it, x, n) for x in r])
    it.undecided("date operation", n)


def guard(it, n, f, *a, **k):
    from .interp import RaiseSig
    try:
        return f(*a, **k)
    except (ValueError, TypeError, OverflowError) as e:
        raise RaiseSig(ExcV(type(e).__name__), it.where(n))


def arith(it, op, a, b, n):
    x = a.v if isinstance(a, DateV) else a
    y = b.v if isinstance(b, DateV) else b
    x, y = (float(z) if isinstance(z, Fraction) else z for z in (x, y))
    t = type(op)
    fn = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y, ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y}.get(t)
    if fn is None or not all(isinstance(z, (int, float, _dt.date, _dt.timedelta, str, type(None))) for z in (x, y)):
        it.undecided("arithmetic on dates", n)
    return wrap(it, guard(it, n, fn), n)


def less(it, a, b, strict, n):
    if isinstance(a, DateV) and isinstance(b, DateV):
        return guard(it, n, (lambda: a.v < b.v) if strict else (lambda: a.v <= b.v))
    it.undecided("ordering of a date and something else", n)


def date_call(it, path, last, a, k, n):
    """datetime.* and calendar.*"""
    def flt(x):
        return float(x) if isinstance(x, Fraction) else x
    known = all(isinstance(x, (str, int, float, Fraction)) for x in list(a) + list(k.values()))
    if path == "calendar.monthrange" and known:
        return TupleV(list(guard(it, n, __import__("calendar").monthrange, *a)))
    if path == "calendar.isleap" and known:
        return guard(it, n, __import__("calendar").isleap, *a)
    cls = "date" if ".date." in path or path == "datetime.date" else "datetime"
    if last in ("today", "now", "utcnow"):
        now = getattr(it.dom, "now", None)
        if now is None:
            return _MISSING
        return DateV(now.date() if cls == "date" else now)
    if last == "fromisoformat" and len(a) == 1 and isinstance(a[0], str):
        return DateV(guard(it, n, getattr(_dt, cls).fromisoformat, a[0]))
    if last == "timedelta" and known:
        return DateV(guard(it, n, _dt.timedelta, *[flt(x) for x in a], **{q: flt(x) for q, x in k.items()}))
    if last in ("datetime", "date") and a and known:
        return DateV(guard(it, n, getattr(_dt, last), *a, **k))
    return _MISSING

"""Structural snapshots of everything reachable from a value."""
from fractions import Fraction as F

from .tables import NativeV
from .values import *


def snap(v, memo=None):
    """nested tuples describing v and all it holds; attributes the code itself calls private (caches) are left out"""
    memo = {} if memo is None else memo
    if isinstance(v, (Sym, Num, B, ClassV, FuncV, ModV, ExtV)) or v is None or isinstance(v, (bool, int, float, str, bytes, F)):
        return v
    if isinstance(v, WrapV):
        return snap(v.inner, memo)
    if id(v) in memo:
        return memo[id(v)][0]
    memo[id(v)] = (("again",), v)
    if isinstance(v, ObjV):
        r = ("object", v.cls.qual if v.cls else None, tuple((k, snap(x, memo)) for k, x in sorted(v.attrs.items()) if not k.startswith("_")))
    elif isinstance(v, DictV):
        r = ("mapping", tuple((snap(k, memo), snap(x, memo)) for k, x in v.pairs()))
    elif isinstance(v, dict):
        r = ("mapping", tuple((snap(k, memo), snap(x, memo)) for k, x in v.items()))
    elif isinstance(v, (SetV, set, frozenset)):
        r = ("set", tuple(sorted((snap(x, memo) for x in (v.items if isinstance(v, SetV) else v)), key=repr)))
    elif isinstance(v, (ListV, TupleV)):
        r = ("list" if isinstance(v, ListV) else "tuple", tuple(snap(x, memo) for x in v.items))
    elif isinstance(v, (list, tuple)):
        r = ("list", tuple(snap(x, memo) for x in v))
    elif isinstance(v, NativeV):
        r = ("object", type(v).__name__, tuple((k, snap(x, memo)) for k, x in sorted(vars(v).items()) if not k.startswith("_")))
    else:
        r = ("other", type(v).__name__)
    memo[id(v)] = (r, v)
    return r


def diff(a, b, path=""):
    """path of the first difference between two snapshots, or None; attributes added to an object do not count"""
    if a is b:
        return None
    kind = lambda x: x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else None
    k = kind(a)
    if k is None or k != kind(b):
        return None if a == b and type(a) is type(b) or (a == b and not isinstance(a, tuple)) else f"{path or 'value'} is {text(b)} rather than {text(a)}"
    if k == "object":
        fb = dict(b[2])
        if a[1] != b[1]:
            return f"{path} is another kind of object"
        for n, x in a[2]:
            if n not in fb:
                return f"{path}.{n} is gone"
            d = diff(x, fb[n], f"{path}.{n}")
            if d:
                return d
        return None
    if k == "mapping":
        ka, kb = {repr(n): (n, x) for n, x in a[1]}, {repr(n): (n, x) for n, x in b[1]}
        for r, (n, x) in ka.items():
            if r not in kb:
                return f"{path} loses {text(n)}"
            d = diff(x, kb[r][1], f"{path}[{text(n)}]")
            if d:
                return d
        new = [n for r, (n, x) in kb.items() if r not in ka]
        return f"{path} gains {text(new[0])}" if new else None
    if k in ("list", "tuple", "set"):
        if len(a[1]) != len(b[1]):
            return f"{path} has {len(b[1])} items rather than {len(a[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
    return None


def text(v):
    return v[0] if isinstance(v, tuple) and v and isinstance(v[0], str) else show(v)

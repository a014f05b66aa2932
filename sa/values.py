"""Abstract values used by the analyser.

Every value denotes a *set* of run-time values.  Constants denote themselves;
`Sym` is a value number (two program points holding the same Sym hold the same
run-time value); `Num` is a polynomial over value numbers in normal form;
`B` is a truth value over comparisons of those.  Containers and objects are
abstract heap cells.
"""
from fractions import Fraction


class Undecided(Exception):
    """The analysis met a construct whose effect it cannot bound."""

    def __init__(self, msg, where=None):
        super().__init__(msg if where is None else f"{msg} at {where}")
        self.msg = msg
        self.where = where


class Runaway(Undecided):
    """a trace that did not end within its step bound"""


# ------------------------------------------------------------------ terms
class Sym:
    __slots__ = ("op", "args", "_h", "_k")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))
        self._k = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Sym) and self._h == o._h and self.op == o.op and self.args == o.args

    @property
    def key(self):
        if self._k is None:
            self._k = repr(self)
        return self._k

    def __repr__(self):
        if not self.args:
            return self.op
        if self.op == "attr":
            return f"{show(self.args[0])}.{self.args[1]}"
        if self.op == "item":
            return f"{show(self.args[0])}[{show(self.args[1])}]"
        if self.op == "call":
            return f"{self.args[0]}({', '.join(_showarg(a) for a in self.args[1:])})"
        if self.op == "mcall":
            return f"{show(self.args[0])}.{self.args[1]}({', '.join(_showarg(a) for a in self.args[2:])})"
        if self.op == "kw":
            return f"{self.args[0]}={show(self.args[1])}"
        return f"{self.op}({', '.join(show(a) for a in self.args)})"


def _showarg(a):
    return show(a)


class Num:
    """Polynomial in normal form: {monomial: coefficient}, monomial = tuple of
    (atom, exponent) sorted by key."""
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = hash(frozenset(terms.items()))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Num) and self.t == o.t

    @property
    def key(self):
        return repr(self)

    def __repr__(self):
        parts = []
        for m, c in sorted(self.t.items(), key=lambda kv: _mkey(kv[0])):
            s = "*".join(f"{show(a)}^{e}" if e != 1 else show(a) for a, e in m)
            if not m:
                parts.append(f"{_fr(c)}")
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append("-" + s)
            else:
                parts.append(f"{_fr(c)}*{s}")
        return "(" + " + ".join(parts) + ")"

    def atoms(self):
        return {a for m in self.t for a, _ in m}


def _fr(c):
    return str(c.numerator) if c.denominator == 1 else f"{c.numerator}/{c.denominator}"


def _mkey(m):
    return tuple((a.key if hasattr(a, "key") else repr(a), e) for a, e in m)


NUMERIC = (int, float, Fraction)


def isnum(v):
    return isinstance(v, NUMERIC) and not isinstance(v, bool)


def as_fraction(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return None


def poly(v):
    """dict of the polynomial denoted by v, or None"""
    if isinstance(v, Num):
        return v.t
    if isinstance(v, Sym):
        return {((v, 1),): Fraction(1)}
    f = as_fraction(v) if isinstance(v, (bool, int, float, Fraction)) else None
    if f is None:
        return None
    return {(): f} if f else {}


def mknum(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return 0
    if len(t) == 1:
        (m, c), = t.items()
        if m == ():
            return int(c) if c.denominator == 1 else c
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], Sym):
            return m[0][0]
    return Num(t)


def padd(a, b, sb=1):
    t = dict(a)
    for m, c in b.items():
        t[m] = t.get(m, Fraction(0)) + sb * c
    return {m: c for m, c in t.items() if c}


def pmul(a, b):
    t = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for at, e in m1 + m2:
                d[at] = d.get(at, 0) + e
            m = tuple(sorted(((at, e) for at, e in d.items() if e), key=lambda x: (x[0].key, x[1])))
            t[m] = t.get(m, Fraction(0)) + c1 * c2
    return {m: c for m, c in t.items() if c}


# ------------------------------------------------------------------ booleans
class B:
    """ops: lt(p): p<0   eq0(p): p==0   eq(a,b)  in(a,b)  truth(x)  isnone(x)
            isinst(x,name)  and  or  not"""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, B) and self.op == o.op and self.args == o.args

    @property
    def key(self):
        return repr(self)

    def __repr__(self):
        if self.op == "lt":
            return f"{show(self.args[0])} < 0"
        if self.op == "eq0":
            return f"{show(self.args[0])} == 0"
        if self.op == "eq":
            return f"{show(self.args[0])} == {show(self.args[1])}"
        if self.op == "not":
            return f"not({self.args[0]})"
        if self.op in ("and", "or"):
            return "(" + f" {self.op} ".join(show(a) for a in self.args) + ")"
        if self.op == "in":
            return f"{show(self.args[0])} in {show(self.args[1])}"
        return f"{self.op}({', '.join(show(a) for a in self.args)})"


def bnot(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, B):
        if x.op == "not":
            return x.args[0]
        return B("not", x)
    return B("not", B("truth", x))


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, B) and x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B("and", *sorted(out, key=lambda b: b.key))


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if isinstance(x, B) and x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B("or", *sorted(out, key=lambda b: b.key))


def blt(p):
    """p < 0 for a polynomial dict"""
    v = mknum(p)
    if isnum(v):
        return v < 0
    return B("lt", v)


def beq0(p):
    v = mknum(p)
    if isnum(v):
        return v == 0
    # canonical sign
    n = canon(p)[1]
    return B("eq0", n)


def canon(p):
    """(sign, value) with p = positive_factor*sign*value, leading coeff 1"""
    items = sorted(p.items(), key=lambda kv: (-sum(e for _, e in kv[0]), _mkey(kv[0])))
    c = items[0][1]
    s = 1 if c > 0 else -1
    return s, mknum({m: k / c for m, k in p.items()})


# ------------------------------------------------------------------ containers
class ListV:
    kind = "list"
    arr = False                     # numpy array rather than list

    def __init__(self, items=(), generic=False, origin=None, arr=False):
        self.items = list(items)
        if arr:
            self.arr = True
        self.generic = generic      # built by appending once per generic iteration
        self.origin = origin

    def __repr__(self):
        return f"[{', '.join(show(i) for i in self.items)}{', ...' if self.generic else ''}]"


class TupleV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"({', '.join(show(i) for i in self.items)})"


class SetV:
    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return "{" + ", ".join(show(i) for i in self.items) + "}"


class DictV:
    """ordered map with keys compared as abstract values; `base` is the Sym of
    an unknown dict underneath (None: fully known)"""

    def __init__(self, pairs=(), base=None):
        self.keys = []
        self.vals = []
        self.base = base
        for k, v in pairs:
            self.keys.append(k)
            self.vals.append(v)

    def pairs(self):
        return list(zip(self.keys, self.vals))

    def get(self, k, default=None):
        """exact-key lookup used by checkers"""
        for kk, v in zip(self.keys, self.vals):
            if type(kk) is type(k) and kk == k:
                return v
            if isnum(kk) and isnum(k) and kk == k:
                return v
        return default

    def __contains__(self, k):
        return self.get(k, _MISSING) is not _MISSING

    def __repr__(self):
        b = f"**{show(self.base)}, " if self.base is not None else ""
        return "{" + b + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.pairs()) + "}"


_MISSING = object()


class ObjV:
    _n = 0

    def __init__(self, cls, name=None, attrs=None, lazy=False):
        ObjV._n += 1
        self.cls = cls            # ClassV or None
        self.name = name or f"{cls.name if cls else 'obj'}#{ObjV._n}"
        self.attrs = dict(attrs or {})
        self.lazy = lazy          # unknown attributes read as Sym
        self.uid = ObjV._n

    def __repr__(self):
        return f"<{self.name}>"


class ClassV:
    def __init__(self, name, module, node, bases):
        self.name = name
        self.module = module      # ModuleInfo
        self.node = node
        self.bases = bases
        self.ns = {}
        self._mro = None

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def mro(self):
        if self._mro is None:
            seqs = [[self]]
            bs = [b for b in self.bases if isinstance(b, ClassV)]
            seqs += [list(b.mro()) for b in bs] + [list(bs)]
            out = []
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def has_external_base(self):
        return any(not isinstance(b, ClassV) for c in self.mro() for b in c.bases)

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, ClassV)]

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV:
    def __init__(self, name, node, module, env=None, cls=None, kind="function"):
        self.name = name
        self.node = node
        self.module = module
        self.env = env            # enclosing Frame for closures
        self.cls = cls
        self.kind = kind          # function | classmethod | staticmethod | property
        self.defaults = None

    @property
    def qual(self):
        if self.cls is not None:
            return f"{self.cls.qual}.{self.name}"
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<fn {self.name}>"


class BoundV:
    def __init__(self, fn, recv):
        self.fn = fn
        self.recv = recv

    def __repr__(self):
        return f"<bound {self.fn} of {show(self.recv)}>"


class BuiltinM:
    """bound builtin method of an abstract container / string"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class PyFn:
    """a model implemented by the analyser: fn(interp, args, kwargs, node)"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<model {self.name}>"


class ExtV:
    """something outside the analysed package, by dotted name"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return self.path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))


class ModV:
    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return f"<module {self.info.name}>"


class SuperV:
    def __init__(self, cls, recv):
        self.cls = cls
        self.recv = recv


class WrapV:
    """transparent progress-bar style wrapper around an iterable"""

    def __init__(self, inner):
        self.inner = inner


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f"slice({show(self.lo)}:{show(self.hi)}:{show(self.step)})"


class ExcV:
    """an exception instance of an external type"""

    def __init__(self, tname, args=()):
        self.tname = tname
        self.args = args

    def __repr__(self):
        return f"{self.tname}(...)"


def show(v):
    if isinstance(v, Fraction):
        return _fr(v)
    if isinstance(v, (tuple, frozenset)):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return repr(v)


def freeze(v, depth=0):
    """hashable snapshot of a value, for use inside terms"""
    if depth > 12:
        return Sym("deep")
    if isinstance(v, (Sym, Num, B)) or v is None or isinstance(v, (bool, int, float, str, bytes, Fraction)):
        return v
    if isinstance(v, ListV):
        return Sym("list" if not v.generic else "glist", *[freeze(i, depth + 1) for i in v.items])
    if isinstance(v, TupleV):
        return Sym("tuple", *[freeze(i, depth + 1) for i in v.items])
    if isinstance(v, SetV):
        return Sym("set", *sorted([freeze(i, depth + 1) for i in v.items], key=show))
    if isinstance(v, DictV):
        ps = [Sym("pair", freeze(k, depth + 1), freeze(x, depth + 1)) for k, x in v.pairs()]
        if v.base is not None:
            return Sym("dictover", v.base, *ps)
        return Sym("dict", *ps)
    if isinstance(v, ObjV):
        return Sym("obj", v.name)
    if isinstance(v, ClassV):
        return Sym("class", v.qual)
    if isinstance(v, FuncV):
        return Sym("fn", v.qual if v.env is None else f"{v.qual}@{v.node.lineno}")
    if isinstance(v, BoundV):
        return Sym("bound", freeze(v.recv, depth + 1), getattr(v.fn, "name", "?"))
    if isinstance(v, ExtV):
        return Sym("ext", v.path)
    if isinstance(v, WrapV):
        return freeze(v.inner, depth + 1)
    if isinstance(v, SliceV):
        return Sym("slice", freeze(v.lo, depth + 1), freeze(v.hi, depth + 1), freeze(v.step, depth + 1))
    if isinstance(v, ModV):
        return Sym("module", v.info.name)
    if isinstance(v, ExcV):
        return Sym("exc", v.tname)
    if isinstance(v, BuiltinM):
        return Sym("bm", freeze(v.recv, depth + 1), v.name)
    if isinstance(v, PyFn):
        return Sym("model", v.name)
    if isinstance(v, tuple):
        return tuple(freeze(x, depth + 1) for x in v)
    return Sym("opaque", type(v).__name__)

"""Abstract interpreter over the Python syntax tree.

The interpreter never runs the analysed package: it walks its syntax tree and
propagates abstract values.  A branch whose condition the domain cannot decide
partitions the trace (both outcomes are analysed, under the recorded
assumption).  A loop over an unknown collection is analysed for zero and for
one arbitrary element.
"""
import ast
import time
import builtins as _bi
from fractions import Fraction

from .values import *
from .values import _MISSING, as_fraction, bnot
from .program import Program, ModuleInfo

BUILTIN_EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


def isnan(v):
    return isinstance(v, Sym) and v.op == "nan" or isinstance(v, float) and v != v


def rootsq(x):
    """the signed square of a number or root of a number"""
    if isinstance(x, Sym):
        f = as_fraction(x.args[0]) if x.op == "sqrt" and isnum(x.args[0]) else None
        return f
    f = as_fraction(x) if isnum(x) else None
    return None if f is None else f * abs(f)


class RaiseSig(Exception):
    def __init__(self, val, where=None):
        self.val = val
        self.where = where


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class CutPath(Exception):
    """path abandoned (infeasible or beyond the unrolling bound)"""


class Event:
    __slots__ = ("kind", "name", "args", "kwargs", "result", "where", "raw", "nconds", "handlers", "withs")

    def __init__(self, kind, name, args=(), kwargs=None, result=None, where=None, raw=None, nconds=0, withs=()):
        self.kind, self.name, self.args = kind, name, args
        self.kwargs = kwargs or {}
        self.result, self.where, self.raw, self.nconds = result, where, raw, nconds
        self.withs = withs

    def __repr__(self):
        return f"{self.kind}:{self.name}({', '.join(show(a) for a in self.args)}{', ' if self.kwargs else ''}{', '.join(f'{k}={show(v)}' for k, v in self.kwargs.items())})"


class Frame:
    def __init__(self, module, parent=None, fn=None):
        self.module = module
        self.vars = {}
        self.parent = parent
        self.fn = fn
        self.globals_decl = set()
        self.nonlocals = set()
        self.yields = None

    def find(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f
            f = f.parent
        return None


class Domain:
    """What the analysis knows about its inputs.  Override per check."""

    def sign(self, v):
        """possible signs of a Num/Sym"""
        return {-1, 0, 1}

    def decide(self, b):
        """True/False/None for an atomic B other than lt/eq0"""
        return None

    def is_int(self, v):
        return False

    def attr(self, interp, base, name):
        return _MISSING

    def item(self, interp, base, key):
        return _MISSING

    def call(self, interp, name, args, kwargs, node):
        """model of an external / opaque call; _MISSING: none"""
        return _MISSING

    def mcall(self, interp, recv, name, args, kwargs, node):
        return _MISSING

    def may_raise(self, name):
        """exception names an external call may raise (only consulted inside try)"""
        return None


DEADLINE = [None]       # monotonic time after which nothing more is decided


class Interp:
    MAX_STEPS = 400000

    def __init__(self, prog, domain=None, decisions=(), opaque=(), models=None, max_while=3, max_steps=None):
        self.prog = prog
        self.dom = domain or Domain()
        self.decisions = list(decisions)
        self.dpos = 0
        self.alternatives = []      # (prefix, alt) discovered on this run
        self.signs = {}
        self.assumed = {}
        self.eqconst = {}
        self.conds = []             # [(B, bool, where)]
        self.events = []
        self.overlay = {}
        self.opaque = set(opaque)
        self.models = models or {}
        self.depth = 0
        self.steps = 0
        self.term_mode = 0
        self.generic_depth = 0
        self.try_stack = []
        self.withs = []
        self.cur = []               # call stack of (qual, node)
        self.max_while = max_while
        if max_steps:
            self.MAX_STEPS = max_steps
        self.visited = set()        # quals of package functions entered
        self.unmodelled = set()     # library operations met that have no model
        self.exc_stack = []
        self.notes = []
        self.gen_coll = []
        self.defcache = {}
        self.elts_generic = False
        self.tokens = []            # numbers standing in text
        self.files = {}             # path -> pieces written

    # ------------------------------------------------------------ plumbing
    def where(self, node=None):
        f = self.cur[-1] if self.cur else None
        mod = f[2] if f else None
        line = getattr(node, "lineno", None) or (getattr(f[1], "lineno", "?") if f else "?")
        return f"{mod.rel if mod else '?'}:{line} in {f[0] if f else '<module>'}"

    def bound(self, node):
        if self.steps > self.MAX_STEPS:
            raise Runaway("analysis step bound exceeded", self.where(node))
        if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            self.undecided("time allowed for the check used up", node)

    def undecided(self, msg, node=None):
        raise Undecided(msg, self.where(node))

    def event(self, kind, name, args=(), kwargs=None, result=None, node=None, raw=None):
        self.events.append(Event(kind, name, tuple(args), kwargs, result, self.where(node), raw,
                                 len(self.conds), tuple(self.withs)))

    def choose(self, tag, opts, node=None):
        """pick one of opts (labels); explores the others on later runs"""
        i = self.dpos
        if i < len(self.decisions):
            pick = self.decisions[i]
        else:
            pick = 0
            for alt in range(1, len(opts)):
                self.alternatives.append((list(self.decisions[:i]), alt))
            self.decisions.append(0)
        self.dpos += 1
        return opts[pick]

    # ------------------------------------------------------------ booleans
    def possible(self, q):
        s = self.dom.sign(q)
        if q in self.signs:
            s = s & self.signs[q]
        return s

    def decide_atom(self, b, node=None):
        if b.op in ("lt", "eq0"):
            p = poly(b.args[0])
            p = self.simplify(p)
            v = mknum(p)
            if isnum(v):
                return v < 0 if b.op == "lt" else v == 0
            s, q = canon(p)
            poss = self.possible(q)
            want = {-s} if b.op == "lt" else {0}
            if not poss:
                raise CutPath()
            if poss <= want:
                return True
            if not (poss & want):
                return False
            r = self.choose(b, [True, False], node)
            self.signs[q] = (poss & want) if r else (poss - want)
            learn = getattr(self.dom, "learn", None)
            if learn:
                learn(q, self.signs[q])
            self.conds.append((b, r, self.where(node)))
            return r
        if b in self.assumed:
            return self.assumed[b]
        d = self.dom.decide(b)
        if d is not None:
            return d
        if b.op == "eq":
            a, c = b.args
            for x, y in ((a, c), (c, a)):
                if isinstance(x, Sym) and not isinstance(y, (Sym, Num)):
                    k = self.eqconst.get(x, _MISSING)
                    if k is not _MISSING:
                        return k == y and type(k) is type(y)
        if b.op == "isnone":
            if self.eqconst.get(b.args[0], _MISSING) is not _MISSING:
                return False
        r = self.choose(b, [True, False], node)
        self.assumed[b] = r
        if b.op == "eq" and r:
            a, c = b.args
            for x, y in ((a, c), (c, a)):
                if isinstance(x, Sym) and not isinstance(y, (Sym, Num)):
                    self.eqconst[x] = y
        self.conds.append((b, r, self.where(node)))
        return r

    def simplify(self, p):
        f = getattr(self.dom, "simplify", None)
        return f(p) if f else p

    def decide(self, b, node=None):
        if isinstance(b, bool):
            return b
        if b.op == "not":
            return not self.decide(b.args[0], node)
        if b.op == "and":
            return all(self.decide(x, node) for x in b.args)
        if b.op == "or":
            return any(self.decide(x, node) for x in b.args)
        return self.decide_atom(b, node)

    def truthterm(self, v):
        """v as bool or B, without forking"""
        if isinstance(v, (bool, B)):
            return v
        if v is None:
            return False
        if isinstance(v, ArrV):
            return v.truthterm(self)
        if isinstance(v, NativeV):
            self.undecided(f"truth value of {v}")
        if isinstance(v, (int, float, Fraction, str, bytes)):
            return bool(v)
        if isinstance(v, (ListV, SetV)):
            if isinstance(v, ListV) and v.generic:
                return B("truth", freeze(v))
            return bool(v.items)
        if isinstance(v, TupleV):
            return bool(v.items)
        if isinstance(v, DictV):
            if v.keys:
                return True
            return False if v.base is None else B("truth", v.base)
        if isinstance(v, (ObjV,)):
            f, c = v.cls.lookup("__bool__") if v.cls else (None, None)
            if f is not None:
                return self.truthterm(self.call(BoundV(f, v), [], {}, None))
            f, c = v.cls.lookup("__len__") if v.cls else (None, None)
            if f is not None:
                return self.truthterm(self.call(BoundV(f, v), [], {}, None))
            return True
        if isinstance(v, (ClassV, FuncV, BoundV, ModV, ExtV, PyFn, BuiltinM, ExcV)):
            return True
        if isinstance(v, WrapV):
            return self.truthterm(v.inner)
        if isinstance(v, Num):
            return bnot(beq0(poly(v)))
        if isinstance(v, Sym):
            if v.op in ("list", "tuple", "dict", "set"):
                return bool(v.args)
            if v.op == "concat":
                return True if any(isinstance(a, str) and a for a in v.args) else B("truth", v)
            if v.op == "bool":
                return v.args[0]
            return B("truth", v)
        if isinstance(v, SliceV):
            return True
        raise Undecided(f"truth value of {show(v)}")

    def truth(self, v, node=None):
        t = self.truthterm(v)
        return self.decide(t, node)

    # ------------------------------------------------------------ comparison
    def v_eq(self, a, b, node=None):
        """a == b as bool/B"""
        if isinstance(a, WrapV):
            a = a.inner
        if isinstance(b, WrapV):
            b = b.inner
        if a is b and not isinstance(a, (Sym, float)):
            return True
        if isnan(a) or isnan(b):
            return False
        if isinstance(a, DateV) or isinstance(b, DateV):
            return a == b
        if isinstance(a, NativeV) or isinstance(b, NativeV):
            for x, y in ((a, b), (b, a)):
                if hasattr(x, "eqtype") and not isinstance(y, NativeV) and y is not None:
                    return x.eqtype(self, y, node)
            for x in (a, b):
                if isinstance(x, ArrV) and x.shape == ():
                    y = b if x is a else a
                    return self.v_eq(x.cells[0], y, node)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return False
            if hasattr(a, "same") and hasattr(b, "same"):
                return a.same(self, b, node)
            self.undecided("equality of tables", node)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            o, x = (a, b) if isinstance(a, ObjV) else (b, a)
            f = None
            if o.cls is not None:
                f, _ = o.cls.lookup("__eq__")
            if f is not None:
                r = self.call(BoundV(f, o), [x], {}, node)
                return self.truthterm(r)
            if isinstance(x, Sym):
                return B("eq", *sorted([freeze(o), x], key=show))
            return a is b
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(a, bool):
                return b if a else bnot(b)
            if isinstance(b, bool):
                return a if b else bnot(a)
            if a == b:
                return True
            return B("eq", *sorted([freeze(a), freeze(b)], key=show))
        plain = (type(None), bool, int, float, str, bytes, Fraction)
        if isinstance(a, plain) and isinstance(b, plain):
            if isinstance(a, float) or isinstance(b, float):
                fa, fb = as_fraction(a) if isinstance(a, NUMERIC) else None, as_fraction(b) if isinstance(b, NUMERIC) else None
                if fa is not None and fb is not None:
                    return fa == fb
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ListV, TupleV)) and isinstance(y, (ListV, TupleV)):
                if type(x) is not type(y):
                    return False
                if getattr(x, "generic", False) or getattr(y, "generic", False):
                    fx, fy = freeze(x), freeze(y)
                    return True if fx == fy else B("eq", *sorted([fx, fy], key=show))
                if len(x.items) != len(y.items):
                    return False
                return band(*[self.v_eq(i, j, node) for i, j in zip(x.items, y.items)])
            if isinstance(x, DictV) and isinstance(y, DictV) and x.base is None and y.base is None:
                if len(x.keys) != len(y.keys):
                    return False
                out = []
                for k, v in x.pairs():
                    w = y.get(k, _MISSING)
                    if w is _MISSING:
                        return False
                    out.append(self.v_eq(v, w, node))
                return band(*out)
            if isinstance(x, (ListV, TupleV, DictV, SetV)) and (isinstance(y, plain) or isinstance(y, (ClassV, FuncV, ExtV))):
                return False
            if isinstance(x, (ListV, TupleV)) and isinstance(y, Sym) and y.op in ("list", "tuple"):
                return self.v_eq(x, thaw(y), node)
        if isinstance(a, (ClassV, FuncV, ExtV, ModV, BoundV)) or isinstance(b, (ClassV, FuncV, ExtV, ModV, BoundV)):
            if isinstance(a, PyFn) or isinstance(b, PyFn):
                return False
            fa, fb = freeze(a), freeze(b)
            if fa == fb:
                return True
            if isinstance(a, Sym) or isinstance(b, Sym):
                return B("eq", *sorted([fa, fb], key=show))
            return False
        if isinstance(a, ExcV) or isinstance(b, ExcV):
            return a is b
        if isinstance(a, PyFn) and isinstance(b, PyFn):
            return a.name == b.name
        if isinstance(a, PyFn) or isinstance(b, PyFn):
            o = b if isinstance(a, PyFn) else a
            if o is None or isinstance(o, (str, int, float, Fraction, ListV, TupleV, DictV)):
                return False
        pa, pb = poly(a) if not isinstance(a, (str, type(None))) else None, poly(b) if not isinstance(b, (str, type(None))) else None
        if pa is not None and pb is not None and not isinstance(a, bool) and not isinstance(b, bool):
            stringy = [x for x in (a, b) if isinstance(x, Sym) and x.op in ("str", "concat")]
            if stringy:
                o = b if stringy[0] is a else a
                if isnum(o) or isinstance(o, Num):
                    return False
                if len(stringy) == 2 and a.op == "str" and b.op == "str":
                    return self.v_eq(a.args[0], b.args[0], node)
            d = padd(pa, pb, -1)
            d = self.simplify(d)
            return beq0(d)
        fa, fb = freeze(a), freeze(b)
        if fa == fb:
            return True
        for x, y in ((fa, fb), (fb, fa)):
            if isinstance(x, Sym) and x.op in ("list", "tuple", "dict", "set") and (y is None or isinstance(y, (str, int, float, bool))):
                return False
            if isinstance(x, Num) and (y is None or isinstance(y, str)):
                return False
            if isinstance(x, Sym) and x.op == "str" and isinstance(y, str):
                # str(n) == "5"
                try:
                    n = int(y)
                except ValueError:
                    n = None
                if n is not None and str(n) == y and (self.dom.is_int(x.args[0]) or isinstance(x.args[0], Num)):
                    return self.v_eq(x.args[0], n, node)
            if y is None and isinstance(x, Sym):
                return B("isnone", x)
        return B("eq", *sorted([fa, fb], key=show))

    def v_lt(self, a, b, strict=True, node=None):
        """a < b (or a <= b)"""
        if isinstance(a, ArrV) and a.shape == ():
            a = a.cells[0]
        if isinstance(b, ArrV) and b.shape == ():
            b = b.cells[0]
        if isnan(a) or isnan(b):
            return False
        if isinstance(a, DateV) or isinstance(b, DateV):
            return less(self, a, b, strict, node)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.op == b.op == "dt" and isinstance(a.args[0], str) and isinstance(b.args[0], str):
            return a.args[0] < b.args[0] if strict else a.args[0] <= b.args[0]
        if isinstance(a, (str,)) and isinstance(b, (str,)):
            return a < b if strict else a <= b
        if isinstance(a, (TupleV, ListV)) and isinstance(b, (TupleV, ListV)):
            if not a.items or not b.items:
                return (len(a.items) < len(b.items)) if strict else (len(a.items) <= len(b.items))
            e = self.v_eq(a.items[0], b.items[0], node)
            l = self.v_lt(a.items[0], b.items[0], True, node)
            rest = self.v_lt(TupleV(a.items[1:]), TupleV(b.items[1:]), strict, node)
            return bor(l, band(e, rest))
        for x in (a, b):
            if isinstance(x, float) and as_fraction(x) is None:
                if isnum(a) and isnum(b):
                    return a < b if strict else a <= b
                if x == float("inf"):
                    return (x is b) if strict else (x is b or a == b)
                if x == float("-inf"):
                    return (x is a)
        fa = freeze(a) if not isinstance(a, (Sym, Num)) else a
        fb = freeze(b) if not isinstance(b, (Sym, Num)) else b
        if isinstance(fa, B):
            fa = Sym("bool", fa)
        if isinstance(fb, B):
            fb = Sym("bool", fb)
        pa, pb = poly(fa), poly(fb)
        if pa is None and isinstance(fa, str):
            pa = poly(Sym("strc", fa))
        if pb is None and isinstance(fb, str):
            pb = poly(Sym("strc", fb))
        if fa is None or fb is None:
            raise RaiseSig(ExcV("TypeError"), self.where(node))
        if pa is None or pb is None:
            self.undecided(f"comparison of {show(a)} and {show(b)}", node)
        if any(isinstance(x, Sym) and x.op == "sqrt" for x in (fa, fb)):
            q = [rootsq(x) for x in (fa, fb)]
            if None not in q:
                return q[0] < q[1] if strict else q[0] <= q[1]
        d = self.simplify(padd(pa, pb, -1))
        if strict:
            return blt(d)
        return bnot(blt({m: -c for m, c in d.items()}))

    def v_is(self, a, b, node=None):
        if isinstance(a, NativeV) or isinstance(b, NativeV):
            return a is b
        if isinstance(a, WrapV):
            a = a.inner
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, Sym):
                    if x.op in ("list", "dict", "tuple", "str", "concat", "obj", "set"):
                        return False
                    return B("isnone", x)
                return False
            if isinstance(y, bool):
                if isinstance(x, bool):
                    return x is y
                if isinstance(x, B):
                    return x if y else bnot(x)
                if isinstance(x, Sym):
                    return B("eq", *sorted([x, y], key=show))
                return False
        if isinstance(a, (ObjV, ListV, DictV)) and isinstance(b, (ObjV, ListV, DictV)):
            return False
        if isinstance(a, (ClassV, ExtV)) and isinstance(b, (ClassV, ExtV)):
            return freeze(a) == freeze(b)
        return self.v_eq(a, b, node)

    def v_in(self, a, c, node=None):
        """a in c"""
        if isinstance(c, WrapV):
            c = c.inner
        if isinstance(c, NativeV):
            return c.contains(self, a, node)
        if isinstance(c, str):
            if isinstance(a, str):
                return a in c
            return B("in", freeze(a), c)
        if isinstance(c, (ListV, TupleV, SetV)):
            if isinstance(c, ListV) and c.generic:
                return bor(*[self.v_eq(a, i, node) for i in c.items], B("in", freeze(a), freeze(c)))
            return bor(*[self.v_eq(a, i, node) for i in c.items])
        if isinstance(c, DictV):
            xs = []
            for k in c.keys:
                e = self.v_eq(a, k, node)
                if e is True:
                    return True
                xs.append(e)
            r = bor(*xs)
            if c.base is not None:
                r = bor(r, B("in", freeze(a), c.base))
            return r
        if isinstance(c, Sym):
            if c.op in ("list", "tuple", "set"):
                return self.v_in(a, thaw(c), node)
            if c.op == "mcall" and c.args[1] == "keys" and len(c.args) == 2:
                return self.v_in(a, c.args[0], node)
            ov = [k for k in self.overlay if k[0] == c]
            r = bor(*[self.v_eq(a, thaw(k[1]), node) for k in ov]) if ov else False
            if r is True:
                return True
            return bor(r, B("in", freeze(a), c))
        if isinstance(c, ObjV) and c.cls is not None:
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truthterm(self.call(BoundV(f, c), [a], {}, node))
        self.undecided(f"membership in {show(c)}", node)

    # ------------------------------------------------------------ arithmetic
    def num(self, v):
        if isinstance(v, WrapV):
            v = v.inner
        if isinstance(v, bool):
            return poly(int(v))
        if isinstance(v, B):
            return poly(Sym("bool", v))
        if isinstance(v, (ListV, TupleV, DictV, ObjV, ExtV)):
            return poly(freeze(v))
        return poly(v)

    def elementwise(self, a, b, f, node):
        """array arithmetic; None when neither operand is an array"""
        aa, ba = isinstance(a, ListV) and a.arr, isinstance(b, ListV) and b.arr
        if not aa and not ba:
            return None
        seq = (ListV, TupleV)
        if isinstance(a, seq) and isinstance(b, seq):
            xs, ys = a.items, b.items
            if len(xs) == 1:
                xs = list(xs) * len(ys)
            if len(ys) == 1:
                ys = list(ys) * len(xs)
            if len(xs) != len(ys):
                raise RaiseSig(ExcV("ValueError"), self.where(node))
            return ListV([f(x, y) for x, y in zip(xs, ys)], arr=True)
        if aa:
            return ListV([f(x, b) for x in a.items], arr=True)
        return ListV([f(a, y) for y in b.items], arr=True)

    def binop(self, op, a, b, node=None):
        if isinstance(a, WrapV):
            a = a.inner
        if isinstance(b, WrapV):
            b = b.inner
        t = type(op)
        if isinstance(a, ArrV) and not hasattr(b, "rarith"):
            return a.zip(self, b, lambda x, y: self.binop(op, x, y, node), node)
        if isinstance(b, ArrV) and not hasattr(a, "rarith"):
            return b.zip(self, a, lambda x, y: self.binop(op, x, y, node), node, swap=True)
        if isinstance(a, DateV) or isinstance(b, DateV):
            return arith(self, op, a, b, node)
        if hasattr(a, "arith"):
            return a.arith(self, op, b, node)
        if hasattr(b, "rarith"):
            return b.rarith(self, op, a, node)
        if isinstance(a, NativeV) or isinstance(b, NativeV):
            self.undecided("arithmetic on whole tables", node)
        r = self.elementwise(a, b, lambda x, y: self.binop(op, x, y, node), node)
        if r is not None:
            return r
        if (isnan(a) or isnan(b)) and t in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.Mod, ast.FloorDiv) \
                and not isinstance(a, str) and not isinstance(b, str) and a is not None and b is not None:
            return Sym("nan")
        # dunder methods of package objects
        if isinstance(a, ObjV) and a.cls:
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(t)
            f = a.cls.lookup(nm)[0] if nm else None
            if f is not None:
                return self.call(BoundV(f, a), [b], {}, node)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
                x, y = self.truthterm(a), self.truthterm(b)
                if t is ast.BitAnd:
                    return band(x, y)
                if t is ast.BitOr:
                    return bor(x, y)
                return bor(band(x, bnot(y)), band(bnot(x), y))
            if isinstance(a, int) and isinstance(b, int):
                return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[t]
            if isinstance(a, SetV) and isinstance(b, SetV):
                if t is ast.BitOr:
                    return SetV(a.items + [i for i in b.items if not self.member(i, a)])
                if t is ast.BitAnd:
                    return SetV([i for i in a.items if self.member(i, b)])
            if isinstance(a, DictV) and isinstance(b, DictV) and t is ast.BitOr:
                d = DictV(a.pairs(), a.base)
                for k, v in b.pairs():
                    self.setitem(d, k, v, node)
                return d
            if isinstance(a, Sym) and isinstance(b, Sym):
                x, y = self.truthterm(a), self.truthterm(b)
                return band(x, y) if t is ast.BitAnd else bor(x, y) if t is ast.BitOr else Sym("xor", a, b)
            self.undecided(f"bitwise operation on {show(a)} and {show(b)}", node)
        if t is ast.Add:
            if isinstance(a, (ListV,)) and isinstance(b, (ListV,)):
                return ListV(a.items + b.items, a.generic or b.generic)
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, ListV) and isinstance(b, Sym):
                if b.op == "list":
                    return ListV(a.items + list(b.args), a.generic)
                return Sym("catlist", freeze(a), b)
            if isinstance(b, ListV) and isinstance(a, Sym):
                if a.op == "list":
                    return ListV(list(a.args) + b.items, b.generic)
                return Sym("catlist", a, freeze(b))
            if self.stringy(a) or self.stringy(b):
                return concat([a, b])
        if t is ast.Sub and isinstance(a, SetV) and isinstance(b, SetV):
            return SetV([i for i in a.items if not self.member(i, b)])
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ListV) and isinstance(y, int):
                    return ListV(x.items * y, x.generic)
                if isinstance(x, TupleV) and isinstance(y, int):
                    return TupleV(x.items * y)
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
                if isinstance(x, str):
                    return Sym("repeat", x, freeze(y))
                if isinstance(x, ListV):
                    return Sym("repeat", freeze(x), freeze(y))
        if t is ast.Mod and isinstance(a, str):
            args = b.items if isinstance(b, TupleV) else [b]
            parts = a.replace("%d", "%s").replace("%i", "%s").split("%s")
            if len(parts) == len(args) + 1 and "%" not in "".join(parts):
                out = []
                for i, p in enumerate(parts):
                    out.append(p)
                    if i < len(args):
                        out.append(self.to_str(args[i]))
                return concat(out)
            return Sym("fmt", a, *[freeze(x) for x in args])
        for x in (a, b):
            if isinstance(x, float) and as_fraction(x) is None:
                if isnum(a) and isnum(b):
                    try:
                        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                                ast.Div: lambda: a / b}[t]()
                    except Exception:
                        pass
                return Sym("arith", t.__name__, freeze(a), freeze(b))
        pa, pb = self.num(a), self.num(b)
        if pa is None or pb is None:
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                raise RaiseSig(ExcV("TypeError"), self.where(node))
            self.undecided(f"arithmetic on {show(a)} and {show(b)}", node)
        if t is ast.Add:
            return mknum(padd(pa, pb))
        if t is ast.Sub:
            return mknum(padd(pa, pb, -1))
        if t is ast.Mult:
            return mknum(pmul(pa, pb))
        ca, cb = mknum(pa), mknum(pb)
        if t is ast.Div:
            if isnum(cb):
                if cb == 0:
                    if isnum(ca):
                        raise RaiseSig(ExcV("ZeroDivisionError"), self.where(node))
                    return Sym("div", ca, 0)
                return mknum({m: c / as_fraction(cb) for m, c in pa.items()})
            return pdiv(pa, pb)
        if t in (ast.Mod, ast.FloorDiv):
            if isnum(ca) and isnum(cb):
                if cb == 0:
                    raise RaiseSig(ExcV("ZeroDivisionError"), self.where(node))
                r = as_fraction(ca) % as_fraction(cb) if t is ast.Mod else as_fraction(ca) // as_fraction(cb)
                return mknum(poly(r))
            f = getattr(self.dom, "mod" if t is ast.Mod else "floordiv", None)
            if f is not None:
                r = f(self, mknum(pa), mknum(pb), node)
                if r is not None:
                    return r
            return Sym("mod" if t is ast.Mod else "floordiv", ca, cb)
        if t is ast.Pow:
            if isnum(cb) and int(cb) == cb and 0 <= cb <= 6:
                r = {(): Fraction(1)}
                for _ in range(int(cb)):
                    r = pmul(r, pa)
                return mknum(r)
            if cb == Fraction(1, 2) and not isinstance(ca, float):
                from .tables import sqrt
                return sqrt(self, ca, node)
            if isnum(ca) and isnum(cb):
                return ca ** cb
            return Sym("pow", ca, cb)
        if t is ast.MatMult:
            return Sym("matmul", ca, cb)
        if t in (ast.LShift, ast.RShift):
            if isinstance(ca, int) and isinstance(cb, int):
                return ca << cb if t is ast.LShift else ca >> cb
        self.undecided(f"operator {t.__name__} on {show(a)}, {show(b)}", node)

    def member(self, i, s):
        r = self.v_in(i, s)
        return self.decide(r) if not isinstance(r, bool) else r

    def stringy(self, v):
        return isinstance(v, str) or (isinstance(v, Sym) and v.op in ("str", "concat", "fmt"))

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return str(v)
        if isinstance(v, Fraction):
            return str(float(v))
        if self.stringy(v):
            return v
        if isinstance(v, ObjV) and v.cls is not None:
            f, _ = v.cls.lookup("__str__")
            if f is not None:
                return self.call(BoundV(f, v), [], {}, None)
        if isinstance(v, NativeV):
            w = getattr(v, "wkt", None)
            if w is not None:
                return w(self)
        if getattr(self.dom, "text", False) and isinstance(v, (Num, Sym)):
            from .shapes import token
            return token(self, v)
        return Sym("str", freeze(v))

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, node=None):
        if isinstance(v, NativeV):
            return v.attr(self, name, node)
        if isinstance(v, (bool, B)) and name in ("all", "any", "item"):
            return PyFn(name, lambda it, a, k, n: v)
        if isinstance(v, (bool, B)) and name == "sum":
            return PyFn(name, lambda it, a, k, n: 1 if it.truth(v, n) else 0)
        if isinstance(v, WrapV):
            return PyFn("progress." + name, lambda it, a, k, n: None)
        if isinstance(v, ObjV):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__dict__":
                return DictV(list(v.attrs.items()))
            if name == "__class__":
                return v.cls
            if v.cls is not None:
                f, owner = v.cls.lookup(name)
                if f is not None:
                    return self.bind(f, v, v.cls, node)
                g, _ = v.cls.lookup("__getattr__")
                if g is not None:
                    return self.call(BoundV(g, v), [name], {}, node)
            if v.lazy:
                r = self.dom.attr(self, v, name)
                if r is _MISSING:
                    r = Sym("attr", Sym("obj", v.name), name)
                v.attrs[name] = r
                return r
            if v.cls is not None and v.cls.has_external_base():
                return Sym("attr", freeze(v), name)
            raise RaiseSig(ExcV("AttributeError", (f"{v.cls.name if v.cls else 'object'} has no attribute {name}",)), self.where(node))
        if isinstance(v, ClassV):
            f, owner = v.lookup(name)
            if f is not None:
                if isinstance(f, FuncV) and f.kind == "classmethod":
                    return BoundV(f, v)
                return f
            if name in ("__name__", "__qualname__"):
                return v.name
            if v.has_external_base():
                return Sym("attr", freeze(v), name)
            raise RaiseSig(ExcV("AttributeError"), self.where(node))
        if isinstance(v, SuperV):
            mro = v.recv.cls.mro() if isinstance(v.recv, ObjV) else (v.recv.mro() if isinstance(v.recv, ClassV) else v.cls.mro())
            seen = False
            for c in mro:
                if seen and name in c.ns:
                    return self.bind(c.ns[name], v.recv, c, node)
                if c is v.cls:
                    seen = True
            return PyFn("super." + name, lambda it, a, k, n: None)
        if isinstance(v, ModV):
            return self.modattr(v.info, name, node)
        if isinstance(v, ExtV):
            p = v.path + "." + name
            c = self.const(p)
            if c is not _MISSING:
                return c
            return ExtV(ALIAS.get(p, p))
        if isinstance(v, (Sym, Num, B)):
            if isinstance(v, Sym) and v.op == "ext":
                return self.getattr(ExtV(v.args[0]), name, node)
            r = self.dom.attr(self, v, name)
            if r is not _MISSING:
                return r
            k = ("attr", freeze(v), name)
            if k in self.overlay:
                return self.overlay[k]
            return Sym("attr", freeze(v), name)
        if isinstance(v, (ListV, DictV, SetV, TupleV, str)):
            return BuiltinM(v, name)
        if isinstance(v, (int, float, Fraction, bytes)) or v is None:
            if v is None:
                raise RaiseSig(ExcV("AttributeError", (f"None has no attribute {name}",)), self.where(node))
            return Sym("attr", freeze(v), name)
        if isinstance(v, (FuncV,)):
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__doc__":
                return Sym("doc")
            return Sym("attr", freeze(v), name)
        if isinstance(v, BoundV):
            if name in ("__name__",):
                return v.fn.name
            if name == "__self__":
                return v.recv
            if name == "__func__":
                return v.fn
        if isinstance(v, ExcV):
            return Sym("attr", Sym("exc", v.tname), name)
        if isinstance(v, SliceV):
            return {"start": v.lo, "stop": v.hi, "step": v.step}[name]
        if isinstance(v, BuiltinM):
            return Sym("attr", freeze(v), name)
        if isinstance(v, PyFn):
            return v.name if name == "__name__" else Sym("attr", freeze(v), name)
        self.undecided(f"attribute {name} of {show(v)}", node)

    def bind(self, f, recv, cls, node):
        if isinstance(f, FuncV):
            if f.kind == "staticmethod":
                return f
            if f.kind == "classmethod":
                return BoundV(f, recv.cls if isinstance(recv, ObjV) else recv)
            if f.kind == "property":
                return self.call(BoundV(f, recv), [], {}, node)
            return BoundV(f, recv)
        if isinstance(f, PyFn):
            return BoundV(f, recv)
        return f

    def modattr(self, info, name, node=None):
        self.prog.load(info)
        if name in info.env:
            return info.env[name]
        sub = info.name + "." + name
        if sub in self.prog.modules:
            return ModV(self.prog.modules[sub])
        raise RaiseSig(ExcV("AttributeError", (f"module {info.name} has no attribute {name}",)), self.where(node))

    def setattr(self, o, name, v, node=None):
        if isinstance(o, ObjV):
            if o.cls is not None:
                f, _ = o.cls.lookup(name)
                if isinstance(f, FuncV) and f.kind == "property":
                    s, _ = o.cls.lookup(name + ".setter")
                    if s is not None:
                        self.call(BoundV(s, o), [v], {}, node)
                        return
            o.attrs[name] = v
            self.event("setattr", name, (o, v), node=node)
            return
        if isinstance(o, ClassV):
            o.ns[name] = v
            self.event("setattr", name, (o, v), node=node)
            return
        if isinstance(o, Sym):
            self.overlay[("attr", o, name)] = v
            self.event("setattr", name, (o, v), node=node)
            return
        if isinstance(o, (FuncV, ModV)):
            return
        if isinstance(o, ExtV):
            self.event("setattr", o.path + "." + name, (o, v), node=node)
            return
        self.undecided(f"attribute store on {show(o)}", node)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k, node=None):
        if isinstance(o, WrapV):
            o = o.inner
        if isinstance(o, NativeV):
            return o.item(self, k, node)
        if isinstance(o, ExtV) and o.path + ".__getitem__" in self.models:
            return self.models[o.path + ".__getitem__"](self, [k], {}, node)
        if isinstance(o, Sym) and o.op in ("list", "tuple") and (isinstance(k, int) or isinstance(k, SliceV)):
            o = thaw(o)
        if isinstance(o, (ListV, TupleV, str)):
            items = o if isinstance(o, str) else o.items
            if isinstance(k, Fraction) and k.denominator == 1:
                k = int(k)
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int) and not getattr(o, "generic", False):
                if -len(items) <= k < len(items):
                    return items[k]
                raise RaiseSig(ExcV("IndexError"), self.where(node))
            if isinstance(k, SliceV):
                lo, hi, st = k.lo, k.hi, k.step
                if all(x is None or isinstance(x, int) for x in (lo, hi, st)) and not getattr(o, "generic", False):
                    if st == 0:
                        raise RaiseSig(ExcV("ValueError"), self.where(node))
                    r = items[slice(lo, hi, st)]
                    return r if isinstance(o, str) else (ListV(r, arr=o.arr) if isinstance(o, ListV) else TupleV(r))
                return Sym("item", freeze(o), freeze(k))
            if isinstance(o, ListV) and o.arr and isinstance(k, ListV) and not o.generic:
                if len(k.items) == len(items) and all(isinstance(x, (bool, B)) for x in k.items):
                    return ListV([x for x, c in zip(items, k.items) if self.truth(c, node)], arr=True)
                if all(isinstance(x, int) and not isinstance(x, bool) for x in k.items):
                    return ListV([items[i] for i in k.items], arr=True)
            if getattr(o, "generic", False) and len(items) == 1:
                return items[0]
            r = self.dom.item(self, o, k)
            if r is not _MISSING:
                return r
            return Sym("item", freeze(o), freeze(k))
        if isinstance(o, DictV):
            i = self.dict_find(o, k, node)
            if i is not None:
                return o.vals[i]
            if o.base is not None:
                return self.getitem(o.base, k, node)
            fac = getattr(o, "default", None)
            if fac is not None:
                v = self.call(fac, [], {}, node)
                if not getattr(o, "counter", False):
                    self.setitem(o, k, v, node)
                return v
            raise RaiseSig(ExcV("KeyError", (k,)), self.where(node))
        if isinstance(o, (Sym, Num, B)):
            fo = freeze(o)
            fk = freeze(k)
            if fo == o and isinstance(o, Sym) and o.op == "dict":
                for p in o.args:
                    if p.args[0] == fk:
                        return thaw(p.args[1])
            r = self.dom.item(self, o, k)
            if r is not _MISSING:
                return r
            if (fo, fk) in self.overlay:
                return self.overlay[(fo, fk)]
            return Sym("item", fo, fk)
        if isinstance(o, ObjV) and o.cls is not None:
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(BoundV(f, o), [k], {}, node)
        if isinstance(o, (ClassV, ExtV)):
            return o
        if o is None:
            raise RaiseSig(ExcV("TypeError"), self.where(node))
        self.undecided(f"subscript of {show(o)}", node)

    def dict_find(self, d, k, node=None):
        unknown = []
        for i, kk in enumerate(d.keys):
            e = self.v_eq(kk, k, node)
            if e is True:
                return i
            if e is not False:
                unknown.append((i, e))
        for i, e in unknown:
            if self.decide(e, node):
                return i
        return None

    def setitem(self, o, k, v, node=None):
        if isinstance(o, NativeV):
            o.setitem(self, k, v, node)
            return
        if isinstance(o, ListV):
            if isinstance(k, int) and not o.generic:
                if -len(o.items) <= k < len(o.items):
                    o.items[k] = v
                    return
                raise RaiseSig(ExcV("IndexError"), self.where(node))
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                o.items[slice(k.lo, k.hi, k.step)] = self.items_of(v, node)
                return
            if isinstance(k, str) or k is None:
                raise RaiseSig(ExcV("TypeError"), self.where(node))
            self.undecided(f"store to list at {show(k)}", node)
        if isinstance(o, DictV):
            i = self.dict_find(o, k, node)
            if i is not None:
                o.vals[i] = v
            else:
                o.keys.append(k)
                o.vals.append(v)
            self.event("setitem", "dict", (o, k, v), node=node)
            return
        if isinstance(o, (Sym,)):
            self.overlay[(o, freeze(k))] = v
            self.event("setitem", "sym", (o, k, v), node=node)
            return
        if isinstance(o, ObjV) and o.cls is not None:
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(BoundV(f, o), [k, v], {}, node)
                return
        if isinstance(o, Num):
            self.event("setitem", "sym", (o, k, v), node=node)
            return
        self.undecided(f"item store on {show(o)}", node)

    def delitem(self, o, k, node=None):
        if isinstance(o, NativeV):
            o.delitem(self, k, node)
            return
        if isinstance(o, DictV):
            i = self.dict_find(o, k, node)
            if i is None:
                if o.base is not None:
                    self.event("delitem", "dict", (o, k), node=node)
                    return
                raise RaiseSig(ExcV("KeyError", (k,)), self.where(node))
            del o.keys[i], o.vals[i]
            self.event("delitem", "dict", (o, k), node=node)
            return
        if isinstance(o, ListV) and isinstance(k, int):
            del o.items[k]
            return
        if isinstance(o, Sym):
            self.overlay.pop((o, freeze(k)), None)
            self.event("delitem", "sym", (o, k), node=node)
            return
        self.undecided(f"del item on {show(o)}", node)

    # ------------------------------------------------------------ iteration
    def items_of(self, v, node=None):
        """all items of an iterable; unknown iterables become one generic item"""
        if isinstance(v, WrapV):
            return self.items_of(v.inner, node)
        if isinstance(v, NativeV):
            return v.iter(self, node)
        if isinstance(v, (ListV, SetV)):
            return list(v.items)
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, DictV):
            return list(v.keys) + ([Sym("elem", v.base)] if v.base is not None else [])
        if isinstance(v, Sym) and v.op in ("list", "tuple", "set"):
            return [thaw(a) for a in v.args]
        if isinstance(v, Sym) and v.op == "dict":
            return [thaw(a.args[0]) for a in v.args]
        if isinstance(v, (Sym, Num, B)):
            return [self.generic_elem(freeze(v))]
        if isinstance(v, ObjV) and v.cls is not None:
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.items_of(self.call(BoundV(f, v), [], {}, node), node)
        self.undecided(f"iteration over {show(v)}", node)

    def is_generic(self, v):
        if isinstance(v, WrapV):
            return self.is_generic(v.inner)
        if isinstance(v, ListV):
            return v.generic
        if isinstance(v, DictV):
            return v.base is not None
        if isinstance(v, Sym):
            return v.op not in ("list", "tuple", "dict", "set")
        return isinstance(v, (Num, B))

    def generic_elem(self, v):
        if isinstance(v, Sym):
            if v.op == "enumerate":
                return TupleV([Sym("idx", v.args[0]), self.generic_elem(v.args[0])])
            if v.op == "zip":
                return TupleV([self.generic_elem(a) if isinstance(a, Sym) and a.op not in ("list", "tuple") else Sym("elem", a) for a in v.args])
            if v.op == "mcall" and v.args[1] == "items" and len(v.args) == 2:
                k = Sym("elem", v.args[0])
                return TupleV([k, Sym("item", v.args[0], k)])
            if v.op == "mcall" and v.args[1] == "keys" and len(v.args) == 2:
                return Sym("elem", v.args[0])
            if v.op == "mcall" and v.args[1] == "values" and len(v.args) == 2:
                return Sym("item", v.args[0], Sym("elem", v.args[0]))
            if v.op in ("comp",):
                return thaw(v.args[1])
            if v.op in ("sorted", "reversed", "tolist"):
                return self.generic_elem(v.args[0])
        r = self.dom.item(self, v, "<elem>") if hasattr(self.dom, "elem") else _MISSING
        if hasattr(self.dom, "elem"):
            r = self.dom.elem(self, v)
            if r is not _MISSING:
                return r
        return Sym("elem", v)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.MAX_STEPS or not self.steps & 4095:
            self.bound(node)
        if isinstance(f, BoundV):
            if isinstance(f.fn, PyFn):
                return f.fn.fn(self, [f.recv] + args, kwargs, node)
            return self.call_func(f.fn, [f.recv] + args, kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, PyFn):
            return f.fn(self, args, kwargs, node)
        if isinstance(f, BuiltinM):
            from .builtins_model import container_method
            return container_method(self, f.recv, f.name, args, kwargs, node)
        if isinstance(f, ExtV):
            return self.call_ext(f.path, args, kwargs, node)
        if isinstance(f, Sym):
            if f.op == "attr":
                return self.call_method_sym(f.args[0], f.args[1], args, kwargs, node)
            if f.op == "ext":
                return self.call_ext(f.args[0], args, kwargs, node)
            return self.opaque_call(f, args, kwargs, node)
        if isinstance(f, ObjV) and f.cls is not None:
            g, _ = f.cls.lookup("__call__")
            if g is not None:
                return self.call(BoundV(g, f), args, kwargs, node)
        if f is None:
            raise RaiseSig(ExcV("TypeError"), self.where(node))
        self.undecided(f"call of {show(f)}", node)

    def opaque_call(self, f, args, kwargs, node):
        name = show(f)
        r = self.dom.call(self, name, args, kwargs, node)
        if r is not _MISSING:
            return r
        r = Sym("call", name, *[freeze(a) for a in args], *[Sym("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
        self.unmodelled.add("?" + name)
        self.maybe_raise(name, r, node)
        self.event("call", name, args, kwargs, r, node)
        return r

    def call_method_sym(self, recv, name, args, kwargs, node):
        recv0 = recv
        if isinstance(recv, Sym) and recv.op == "obj":
            pass
        r = self.dom.mcall(self, recv, name, args, kwargs, node)
        if r is not _MISSING:
            self.event("mcall", name, [recv] + list(args), kwargs, r, node)
            return r
        from .builtins_model import sym_method
        r = sym_method(self, recv, name, args, kwargs, node)
        if r is not _MISSING:
            return r
        r = Sym("mcall", freeze(recv0), name, *[freeze(a) for a in args],
                *[Sym("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
        self.unmodelled.add("." + name)
        self.maybe_raise(name, r, node)
        self.event("mcall", name, [recv] + list(args), kwargs, r, node)
        return r

    def maybe_raise(self, name, term, node):
        if not self.try_stack:
            return
        ex = self.dom.may_raise(name)
        if ex is None:
            return
        if isinstance(ex, str):
            ex = [ex]
        for e in ex:
            b = B("raises", term, e)
            if b in self.assumed:
                r = self.assumed[b]
            else:
                d = self.dom.decide(b)
                r = self.choose(b, [False, True], node) if d is None else d
                self.assumed[b] = r
                if d is None:
                    self.conds.append((b, r, self.where(node)))
            if r:
                self.event("raise", e, (term,), node=node)
                raise RaiseSig(ExcV(e), self.where(node))

    def call_ext(self, path, args, kwargs, node):
        from .builtins_model import ext_call
        m = self.models.get(path)
        if m is not None:
            return m(self, args, kwargs, node)
        r = self.dom.call(self, path, args, kwargs, node)
        if r is not _MISSING:
            self.event("call", path, args, kwargs, r, node)
            return r
        r = ext_call(self, path, args, kwargs, node)
        if r is not _MISSING:
            return r
        r = Sym("call", path, *[freeze(a) for a in args], *[Sym("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
        self.unmodelled.add(path)
        self.maybe_raise(path, r, node)
        self.event("call", path, args, kwargs, r, node)
        return r

    def instantiate(self, c, args, kwargs, node):
        m = self.models.get(c.qual)
        if m is not None:
            return m(self, args, kwargs, node)
        if c.qual in self.opaque:
            r = Sym("call", c.qual, *[freeze(a) for a in args], *[Sym("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
            self.event("call", c.qual, args, kwargs, r, node)
            return r
        o = ObjV(c)
        self.event("new", c.qual, args, kwargs, o, node)
        f, _ = c.lookup("__init__")
        if f is not None:
            self.call(BoundV(f, o), args, kwargs, node)
        else:
            flds = dataclass_fields(self, c)
            if flds is not None:
                vals = dict(zip([n for n, _ in flds], args))
                vals.update(kwargs)
                for n, d in flds:
                    if n in vals:
                        o.attrs[n] = vals[n]
                    elif d is not None:
                        o.attrs[n] = self.eval(d, Frame(c.module))
                    else:
                        raise RaiseSig(ExcV("TypeError"), self.where(node))
            elif c.has_external_base():
                o.attrs["args"] = TupleV(args)
        return o

    def call_func(self, f, args, kwargs, node):
        q = f.qual
        m = self.models.get(q)
        if m is not None:
            return m(self, args, kwargs, node)
        if q in self.opaque:
            r = Sym("call", q, *[freeze(a) for a in args], *[Sym("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
            self.maybe_raise(q, r, node)
            self.event("call", q, args, kwargs, r, node)
            return r
        if self.depth > 60:
            self.undecided(f"recursion bound reached in {q}", node)
        self.visited.add(q)
        fr = Frame(f.module, f.env, f)
        self.bind_args(f, fr, args, kwargs, node)
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            self.cur.append((q, f.node, f.module))
            try:
                return self.eval(f.node.body, fr)
            finally:
                self.depth -= 1
                self.cur.pop()
        isgen = is_generator(f.node)
        if isgen:
            fr.yields = ListV()
        self.depth += 1
        self.cur.append((q, f.node, f.module))
        saved = self.term_mode
        self.term_mode = 0
        try:
            self.exec_block(f.node.body, fr)
            r = None
        except ReturnSig as s:
            r = s.val
        finally:
            self.depth -= 1
            self.cur.pop()
            self.term_mode = saved
        return fr.yields if isgen else r

    def bind_args(self, f, fr, args, kwargs, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if id(f) not in self.defcache:
            denv = Frame(f.module, f.env, None)
            if f.cls is not None:
                denv.vars.update({k: v for k, v in f.cls.ns.items() if not isinstance(v, FuncV)})
            self.defcache[id(f)] = ([self.eval(d, denv) for d in a.defaults],
                                    [None if d is None else self.eval(d, denv) for d in a.kw_defaults], f)
        defs, kwdefs, _ = self.defcache[id(f)]
        args = list(args)
        kwargs = dict(kwargs)
        vals = {}
        for i, n in enumerate(pos):
            if i < len(args):
                vals[n] = args[i]
            elif n in kwargs:
                vals[n] = kwargs.pop(n)
            elif i >= len(pos) - len(defs):
                vals[n] = defs[i - (len(pos) - len(defs))]
            elif "**" in kwargs:
                vals[n] = Sym("item", freeze(kwargs["**"]), n)
            else:
                raise RaiseSig(ExcV("TypeError", (f"missing argument {n} of {f.name}",)), self.where(node))
        extra = args[len(pos):]
        if a.vararg:
            vals[a.vararg.arg] = TupleV(extra)
        elif extra:
            raise RaiseSig(ExcV("TypeError", (f"too many arguments for {f.name}",)), self.where(node))
        for x, d, dn in zip(a.kwonlyargs, kwdefs, a.kw_defaults):
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif dn is not None:
                vals[x.arg] = d
            else:
                raise RaiseSig(ExcV("TypeError"), self.where(node))
        star = kwargs.pop("**", None)
        if a.kwarg:
            vals[a.kwarg.arg] = DictV(list(kwargs.items()), base=freeze(star) if star is not None else None)
        elif kwargs:
            raise RaiseSig(ExcV("TypeError", (f"unexpected keyword {list(kwargs)} for {f.name}",)), self.where(node))
        fr.vars.update(vals)

    # ------------------------------------------------------------ modules
    def exec_module(self, m):
        fr = Frame(m)
        fr.vars = m.env
        m.env["__name__"] = m.name
        self.cur.append(("<module>", m.tree, m))
        try:
            for st in m.tree.body:
                try:
                    self.exec(st, fr)
                except (Undecided, RaiseSig, CutPath):
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in m.env:
                            m.env[n.id] = Sym("global", m.name, n.id)
        finally:
            self.cur.pop()

    def do_import(self, node, fr):
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    fr.vars[al.asname] = self.prog.resolve_import(al.name)
                else:
                    top = al.name.split(".")[0]
                    fr.vars[top] = self.prog.resolve_import(top)
            return
        mod = node.module or ""
        if node.level:
            base = fr.module.name.split(".")
            if not fr.module.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (node.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for al in node.names:
            nm = al.asname or al.name
            if al.name == "*":
                if mod in self.prog.modules:
                    mi = self.prog.module(mod)
                    for k, v in mi.env.items():
                        if not k.startswith("_"):
                            fr.vars[k] = v
                continue
            if mod in self.prog.modules:
                mi = self.prog.modules[mod]
                if mod + "." + al.name in self.prog.modules and al.name not in mi.env:
                    fr.vars[nm] = ModV(self.prog.modules[mod + "." + al.name])
                    continue
                self.prog.load(mi)
                if al.name in mi.env:
                    fr.vars[nm] = mi.env[al.name]
                else:
                    fr.vars[nm] = Sym("global", mod, al.name)
            else:
                p = f"{mod}.{al.name}"
                c = self.const(p)
                fr.vars[nm] = ExtV(ALIAS.get(p, p)) if c is _MISSING else c

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS or not self.steps & 4095:
            self.bound(st)
        getattr(self, "x_" + type(st).__name__, self.x_unknown)(st, fr)

    def x_unknown(self, st, fr):
        self.undecided(f"statement {type(st).__name__}", st)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Import(self, st, fr):
        self.do_import(st, fr)

    def x_ImportFrom(self, st, fr):
        self.do_import(st, fr)

    def x_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def x_FunctionDef(self, st, fr):
        self.assign_name(st.name, self.make_func(st, fr), fr)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, st, fr, cls=None):
        kind = "function"
        others = []
        for d in st.decorator_list:
            n = dotted(d.func if isinstance(d, ast.Call) else d)
            last = n.split(".")[-1] if n else ""
            if last in ("staticmethod", "classmethod", "property"):
                kind = last
            elif last == "cached_property":
                kind = "property"
            elif last == "setter":
                kind = "setter"
            elif last in ("abstractmethod", "wraps", "lru_cache", "cache", "timed_call", "memory_trace", "njit", "jit",
                          "override", "final", "no_type_check", "overload"):
                pass
            else:
                others.append(d)
        env = fr if fr.fn is not None or fr.parent is not None else None
        f = FuncV(st.name, st, fr.module, env, cls, kind)
        if cls is None and kind in ("staticmethod", "classmethod", "property"):
            pass
        for d in reversed(others):
            dv = self.eval(d, fr)
            if isinstance(dv, FuncV):
                r = self.call(dv, [f], {}, st)
                if isinstance(r, (FuncV, PyFn)):
                    if isinstance(r, FuncV):
                        r.cls = r.cls
                    f = r
        return f

    def x_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            try:
                bases.append(self.eval(b, fr))
            except (Undecided, RaiseSig):
                bases.append(ExtV(dotted(b) or "?"))
        c = ClassV(st.name, fr.module, st, bases)
        cf = Frame(fr.module, fr if (fr.fn is not None) else None)
        cf.vars = c.ns
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.make_func(s, Frame(fr.module, fr if fr.fn is not None else None, None) if fr.fn is None else fr, cls=c)
                if isinstance(f, FuncV) and f.kind == "setter":
                    c.ns[s.name + ".setter"] = f
                    f.kind = "function"
                    continue
                c.ns[s.name] = f
            else:
                try:
                    self.exec(s, cf)
                except RaiseSig:
                    pass
        c.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in st.decorator_list]
        self.assign_name(st.name, c, fr)

    def x_Return(self, st, fr):
        raise ReturnSig(self.eval(st.value, fr) if st.value else None)

    def x_Break(self, st, fr):
        raise BreakSig()

    def x_Continue(self, st, fr):
        raise ContinueSig()

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            setter = lambda v: self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr, t)
            setter = lambda v: self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k, t)
            setter = lambda v: self.setitem(o, k, v, t)
        else:
            self.undecided("augmented assignment target", st)
        rhs = self.eval(st.value, fr)
        if isinstance(cur, ListV) and isinstance(st.op, ast.Add):
            its = self.items_of(rhs, st)
            if self.is_generic(rhs) or self.generic_depth:
                cur.generic = True
            cur.items.extend(its)
            self.event("append", "list", (cur,) + tuple(its), node=st)
            setter(cur)
            return
        if isinstance(cur, SetV) and isinstance(st.op, ast.BitOr):
            for i in self.items_of(rhs, st):
                if not self.member(i, cur):
                    cur.items.append(i)
            return
        if isinstance(cur, DictV) and isinstance(st.op, ast.BitOr):
            for k2, v2 in rhs.pairs():
                self.setitem(cur, k2, v2, st)
            return
        setter(self.binop(st.op, cur, rhs, st))

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                f = fr.find(t.id)
                if f:
                    f.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr), t)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, ObjV):
                    o.attrs.pop(t.attr, None)

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr), st):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr), st):
            self.event("raise", "AssertionError", (), node=st)
            raise RaiseSig(ExcV("AssertionError"), self.where(st))

    def x_Raise(self, st, fr):
        if st.exc is None:
            if self.exc_stack:
                raise RaiseSig(self.exc_stack[-1], self.where(st))
            raise RaiseSig(ExcV("RuntimeError"), self.where(st))
        n = dotted(st.exc.func) if isinstance(st.exc, ast.Call) else dotted(st.exc)
        if n in BUILTIN_EXC and fr.find(n) is None:
            v = ExcV(n)
        else:
            v = self.eval(st.exc, fr)
            if isinstance(v, ClassV):
                v = self.instantiate(v, [], {}, st)
            if isinstance(v, Sym):
                v = ExcV(v.args[0] if v.op == "call" else show(v))
            if isinstance(v, ExtV):
                v = ExcV(v.path.split(".")[-1])
        self.event("raise", exc_name(v), (), node=st)
        raise RaiseSig(v, self.where(st))

    def x_While(self, st, fr):
        n = nsym = 0
        broke = False
        while True:
            before = len(self.conds)
            if not self.truth(self.eval(st.test, fr), st):
                break
            n += 1
            if len(self.conds) > before:
                nsym += 1
            if nsym > self.max_while:
                self.notes.append("while-cut")
                raise CutPath()
            if n > 400:
                raise Runaway("loop bound exceeded", self.where(st))
            try:
                self.exec_block(st.body, fr)
            except BreakSig:
                broke = True
                break
            except ContinueSig:
                continue
        if not broke:
            self.exec_block(st.orelse, fr)

    def x_For(self, st, fr):
        v = self.eval(st.iter, fr)
        self.loop_over(v, st, lambda x: self.assign(st.target, x, fr), lambda: self.exec_block(st.body, fr),
                       lambda: self.exec_block(st.orelse, fr))

    x_AsyncFor = x_For

    def loop_over(self, v, st, bindx, body, orelse):
        if isinstance(v, WrapV):
            v = v.inner
        broke = False
        if isinstance(v, ListV) and not v.generic:
            i = 0
            while i < len(v.items):          # live view, as in Python
                x = v.items[i]
                i += 1
                if i > 3000:
                    self.undecided("loop bound exceeded", st)
                bindx(x)
                try:
                    body()
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    continue
        elif not self.is_generic(v):
            for x in self.items_of(v, st):
                bindx(x)
                try:
                    body()
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    continue
        else:
            b = B("nonempty", freeze(v))
            if self.decide(b, st):
                self.generic_depth += 1
                self.gen_coll.append(freeze(v))
                try:
                    for x in self.items_of(v, st):
                        bindx(x)
                        try:
                            body()
                        except BreakSig:
                            broke = True
                            break
                        except ContinueSig:
                            continue
                finally:
                    self.generic_depth -= 1
                    self.gen_coll.pop()
        if not broke:
            orelse()

    def x_With(self, st, fr):
        n0 = len(self.withs)
        for it in st.items:
            c = self.eval(it.context_expr, fr)
            if isinstance(c, ObjV) and c.cls is not None and c.cls.lookup("__enter__")[0] is not None:
                val = self.call(BoundV(c.cls.lookup("__enter__")[0], c), [], {}, st)
            else:
                val = c
            self.withs.append(freeze(c))
            self.event("with", "enter", (c,), node=st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fr)
        try:
            self.exec_block(st.body, fr)
        finally:
            while len(self.withs) > n0:
                c = self.withs.pop()
                self.event("with", "exit", (c,), node=st)

    x_AsyncWith = x_With

    def x_Try(self, st, fr):
        self.try_stack.append(st)
        handled = True
        try:
            try:
                self.exec_block(st.body, fr)
            finally:
                self.try_stack.pop()
        except RaiseSig as s:
            h = self.match_handler(st, s.val, fr)
            if h is None:
                self.exec_block(st.finalbody, fr)
                raise
            if h.name:
                fr.vars[h.name] = s.val
            self.exc_stack.append(s.val)
            try:
                self.exec_block(h.body, fr)
            except (RaiseSig, ReturnSig, BreakSig, ContinueSig):
                self.exec_block(st.finalbody, fr)
                raise
            finally:
                self.exc_stack.pop()
        except (ReturnSig, BreakSig, ContinueSig):
            self.exec_block(st.finalbody, fr)
            raise
        else:
            try:
                self.exec_block(st.orelse, fr)
            except (RaiseSig, ReturnSig, BreakSig, ContinueSig):
                self.exec_block(st.finalbody, fr)
                raise
        self.exec_block(st.finalbody, fr)

    def match_handler(self, st, val, fr):
        n = exc_name(val)
        for h in st.handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                tn = dotted(t) or ""
                tn = tn.split(".")[-1]
                if exc_sub(n, tn, val):
                    return h
        return None

    def x_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        for c in st.cases:
            ok = self.match_pat(c.pattern, subj, fr, c)
            if ok and (c.guard is None or self.truth(self.eval(c.guard, fr), st)):
                self.exec_block(c.body, fr)
                return

    def match_pat(self, p, v, fr, node):
        if isinstance(p, ast.MatchValue):
            return self.decide(self.v_eq(v, self.eval(p.value, fr)), p)
        if isinstance(p, ast.MatchSingleton):
            return self.decide(self.v_is(v, p.value), p)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr, node) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr, node):
                return False
            if p.name:
                self.assign_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchSequence) and isinstance(v, (TupleV, ListV)):
            if len(p.patterns) != len(v.items):
                return False
            return all(self.match_pat(q, x, fr, node) for q, x in zip(p.patterns, v.items))
        self.undecided("match pattern", p)

    # ------------------------------------------------------------ assignment
    def assign_name(self, name, v, fr):
        if name in fr.globals_decl:
            fr.module.env[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent.find(name) if fr.parent else None
            if f:
                f.vars[name] = v
                return
        fr.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            self.setitem(o, k, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.undecided("assignment target", t)

    def const(self, p):
        """value of a library constant"""
        if p in ("numpy.pi", "math.pi") and getattr(self.dom, "pi", None) is not None:
            return self.dom.pi
        return EXT_CONST.get(p, _MISSING)

    def unpack(self, t, v, fr):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, WrapV):
            v = v.inner
        if isinstance(v, Sym) and v.op in ("list", "tuple"):
            v = thaw(v)
        if isinstance(v, (ListV, TupleV, str)) and not getattr(v, "generic", False):
            items = list(v) if isinstance(v, str) else list(v.items)
            if star:
                i = star[0]
                k = n - i - 1
                if len(items) < n - 1:
                    raise RaiseSig(ExcV("ValueError"), self.where(t))
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, ListV(items[i:len(items) - k]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x, fr)
                return
            if len(items) != n:
                raise RaiseSig(ExcV("ValueError"), self.where(t))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
            return
        if isinstance(v, (Sym, Num)):
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, i, t), fr)
            return
        if isinstance(v, DictV):
            for e, x in zip(t.elts, v.keys):
                self.assign(e, x, fr)
            return
        if v is None or isinstance(v, (bool, int, Fraction)):
            raise RaiseSig(ExcV("TypeError"), self.where(t))
        if isinstance(v, ArrV) and len(v.shape) == 1 and not star:
            if len(v.cells) != n:
                raise RaiseSig(ExcV("ValueError"), self.where(t))
            for e, x in zip(t.elts, v.cells):
                self.assign(e, x, fr)
            return
        names = getattr(v, "vars", None) if type(v).__name__ == "DatasetV" else getattr(v, "cols", None) if type(v).__name__ == "FrameV" else None
        if names is not None and not star:
            if len(names) != n:
                raise RaiseSig(ExcV("ValueError"), self.where(t))
            for e, x in zip(t.elts, list(names)):
                self.assign(e, x, fr)
            return
        self.undecided(f"unpacking of {show(v)}", t)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.undecided(f"expression {type(e).__name__}", e)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        f = fr.find(e.id)
        if f is not None and not (e.id in fr.globals_decl):
            return f.vars[e.id]
        env = fr.module.env
        if e.id in env:
            return env[e.id]
        from .builtins_model import BUILTINS
        if e.id in BUILTINS:
            return PyFn(e.id, BUILTINS[e.id])
        if e.id in BUILTIN_EXC:
            return ExtV("builtins." + e.id)
        if hasattr(_bi, e.id):
            return ExtV("builtins." + e.id)
        if e.id in ("__file__", "__doc__"):
            return Sym("global", fr.module.name, e.id)
        raise RaiseSig(ExcV("UnboundLocalError" if fr.fn is not None else "NameError", (e.id,)), self.where(e))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, e)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr), e)

    def e_Slice(self, e, fr):
        g = lambda x: None if x is None else self.eval(x, fr)
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def e_Index(self, e, fr):
        return self.eval(e.value, fr)

    def e_List(self, e, fr):
        return ListV(self.elts(e.elts, fr)[0], self.elts_generic)

    def e_Tuple(self, e, fr):
        return TupleV(self.elts(e.elts, fr)[0])

    def e_Set(self, e, fr):
        return SetV(self.elts(e.elts, fr)[0])

    def elts(self, es, fr):
        out = []
        g = False
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if self.is_generic(v):
                    g = True
                out.extend(self.items_of(v, x))
            else:
                out.append(self.eval(x, fr))
        self.elts_generic = g
        return out, g

    def e_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, fr)
                if isinstance(x, DictV):
                    for kk, vv in x.pairs():
                        self.setitem_quiet(d, kk, vv)
                    if x.base is not None:
                        d.base = x.base
                elif isinstance(x, Sym):
                    d.base = x
                else:
                    self.undecided("dict unpacking", e)
            else:
                kk = self.eval(k, fr)
                vv = self.eval(v, fr)
                self.setitem_quiet(d, kk, vv)
        return d

    def setitem_quiet(self, d, k, v):
        i = self.dict_find(d, k)
        if i is not None:
            d.vals[i] = v
        else:
            d.keys.append(k)
            d.vals.append(v)

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return FuncV("<lambda>", e, fr.module, fr if fr.fn is not None or fr.parent is not None or fr.vars is not fr.module.env else None)

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            self.undecided("yield outside generator", e)
        f.yields.items.append(v)
        if self.generic_depth:
            f.yields.generic = True
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        fr.yields.items.extend(self.items_of(v, e))
        if self.is_generic(v):
            fr.yields.generic = True
        return None

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                    if isinstance(x, (int, str)) and isinstance(spec, str):
                        parts.append(format(x, spec))
                    elif isinstance(x, (float, Fraction)) and isinstance(spec, str):
                        parts.append(format(float(x), spec))
                    else:
                        parts.append(Sym("fmt", freeze(x), freeze(spec)))
                elif v.conversion == ord("r"):
                    parts.append(Sym("repr", freeze(x)))
                else:
                    parts.append(self.to_str(x))
        return concat(parts)

    def e_FormattedValue(self, e, fr):
        return self.to_str(self.eval(e.value, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truthterm(v)
            return bnot(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, float) and as_fraction(v) is None:
                return -v
            if isinstance(v, ArrV):
                return self.binop(ast.Mult(), -1, v, e)
            if isnan(v):
                return v
            if isinstance(v, ListV) and v.arr:
                return self.binop(ast.Mult(), -1, v, e)
            p = self.num(v)
            if p is None:
                self.undecided(f"negation of {show(v)}", e)
            return mknum({m: -c for m, c in p.items()})
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, ArrV):
                return v.map(lambda c: bnot(self.truthterm(c)))
            if isinstance(v, (bool,)):
                if isinstance(e.operand, ast.Call) and isinstance(e.operand.func, ast.Attribute) and dotted(e.operand.func) not in ("math.isnan", "math.isclose"):
                    return not v           # numpy booleans invert logically
                return ~int(v)
            if isinstance(v, int):
                return ~v
            if isinstance(v, ListV) and v.arr:
                return ListV([bnot(self.truthterm(x)) for x in v.items], arr=True)
            return bnot(self.truthterm(v))

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b, e)

    def e_BoolOp(self, e, fr):
        if self.term_mode:
            ts = [self.truthterm(self.eval(x, fr)) for x in e.values]
            return band(*ts) if isinstance(e.op, ast.And) else bor(*ts)
        v = None
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, x)
            if isinstance(v, B):
                v = t
            if isand and not t:
                return v if not isinstance(v, B) else False
            if not isand and t:
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            out.append(self.compare(op, left, right, e))
            left = right
        return band(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, node):
        if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            if isinstance(a, ArrV) and a.shape != ():
                return a.zip(self, b, lambda x, y: self.compare(op, x, y, node), node)
            if isinstance(b, ArrV) and b.shape != ():
                return b.zip(self, a, lambda x, y: self.compare(op, x, y, node), node, swap=True)
            r = self.elementwise(a, b, lambda x, y: self.compare(op, x, y, node), node)
            if r is not None:
                return r
        if isinstance(op, ast.Eq):
            return self.v_eq(a, b, node)
        if isinstance(op, ast.NotEq):
            return bnot(self.v_eq(a, b, node))
        if isinstance(op, ast.Lt):
            return self.v_lt(a, b, True, node)
        if isinstance(op, ast.LtE):
            return self.v_lt(a, b, False, node)
        if isinstance(op, ast.Gt):
            return self.v_lt(b, a, True, node)
        if isinstance(op, ast.GtE):
            return self.v_lt(b, a, False, node)
        if isinstance(op, ast.Is):
            return self.v_is(a, b, node)
        if isinstance(op, ast.IsNot):
            return bnot(self.v_is(a, b, node))
        if isinstance(op, ast.In):
            return self.v_in(a, b, node)
        if isinstance(op, ast.NotIn):
            return bnot(self.v_in(a, b, node))

    def e_IfExp(self, e, fr):
        t = self.truthterm(self.eval(e.test, fr))
        if self.term_mode and not isinstance(t, bool):
            a, b = self.eval(e.body, fr), self.eval(e.orelse, fr)
            fa, fb = freeze(a), freeze(b)
            return a if fa == fb else Sym("ite", t, fa, fb)
        return self.eval(e.body if self.decide(t, e) else e.orelse, fr)

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and fr.find("super") is None:
            f = fr
            while f is not None and (f.fn is None or f.fn.cls is None):
                f = f.parent
            if f is None:
                self.undecided("super() outside a method", e)
            if e.args:
                c = self.eval(e.args[0], fr)
                o = self.eval(e.args[1], fr)
                return SuperV(c, o)
            first = f.fn.node.args.args[0].arg
            return SuperV(f.fn.cls, f.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and fr.find(e.func.id) is None:
            if e.func.id == "locals":
                return DictV(list(fr.vars.items()))
            if e.func.id == "globals":
                return DictV(list(fr.module.env.items()))
            o = self.eval(e.args[0], fr)
            return DictV(list(o.attrs.items())) if isinstance(o, ObjV) else Sym("call", "vars", freeze(o))
        f = self.eval(e.func, fr)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if self.is_generic(v):
                    args.append(Sym("star", freeze(v)))
                else:
                    args.extend(self.items_of(v, a))
            elif isinstance(a, ast.GeneratorExp) and isinstance(f, PyFn):
                args.append(self.comprehend(a, fr, "list"))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, DictV):
                    for kk, vv in v.pairs():
                        if not isinstance(kk, str):
                            self.undecided("keyword unpacking", e)
                        kwargs[kk] = vv
                    if v.base is not None:
                        kwargs["**"] = v.base
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs, e)

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comprehend(e, fr, "list")

    def e_SetComp(self, e, fr):
        r = self.comprehend(e, fr, "list")
        if isinstance(r, ListV) and not r.generic:
            out = []
            for i in r.items:
                if not any(self.v_eq(i, j) is True for j in out):
                    out.append(i)
            return SetV(out)
        return Sym("setof", freeze(r))

    def e_GeneratorExp(self, e, fr):
        return self.comprehend(e, fr, "list")

    def e_DictComp(self, e, fr):
        return self.comprehend(e, fr, "dict")

    def comprehend(self, e, fr, kind):
        out = ListV() if kind == "list" else DictV()
        cf = Frame(fr.module, fr, None)
        st = {"generic": False}

        def emit():
            if kind == "list":
                out.items.append(self.eval(e.elt, cf))
            else:
                k = self.eval(e.key, cf)
                self.setitem_quiet(out, k, self.eval(e.value, cf))

        conds = []

        def rec(i, pending):
            if i == len(e.generators):
                if pending:
                    conds.append(pending)
                emit()
                return
            g = e.generators[i]
            v = self.eval(g.iter, fr if i == 0 else cf)
            gen = self.is_generic(v)
            if gen:
                st["generic"] = True
                self.gen_coll.append(freeze(v))
            for x in self.items_of(v, g.iter):
                self.assign(g.target, x, cf)
                pend = list(pending)
                ok = True
                for c in g.ifs:
                    if gen or self.term_mode:
                        self.term_mode += 1
                        try:
                            t = self.truthterm(self.eval(c, cf))
                        finally:
                            self.term_mode -= 1
                        if t is False:
                            ok = False
                            break
                        if t is not True:
                            pend.append(t)
                    else:
                        if not self.truth(self.eval(c, cf), c):
                            ok = False
                            break
                if ok:
                    if gen:
                        self.term_mode += 1
                    try:
                        rec(i + 1, pend)
                    finally:
                        if gen:
                            self.term_mode -= 1
            if gen:
                self.gen_coll.pop()

        rec(0, [])
        if st["generic"]:
            colls = [freeze(self.eval(g.iter, fr if i == 0 else cf)) for i, g in enumerate(e.generators[:1])]
            cnd = band(*[c for cs in conds for c in cs]) if conds else True
            if kind == "dict":
                if out.keys:
                    return Sym("dictcomp", colls[0], freeze(out.keys[0]), freeze(out.vals[0]), cnd)
                return DictV()
            if not out.items:
                return ListV()
            body = freeze(out.items[0])
            if isinstance(body, Sym) and body == self.generic_elem(colls[0]) and cnd is True:
                return Sym("tolist", colls[0])
            return Sym("comp", colls[0], body, cnd)
        return out


# ---------------------------------------------------------------------- helpers
def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return f"{b}.{n.attr}" if b else n.attr
    return None


def is_generator(fn):
    r = getattr(fn, "_is_gen", None)
    if r is None:
        r = fn._is_gen = _is_generator(fn)
    return r


def _is_generator(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def exc_name(v):
    if isinstance(v, ExcV):
        return v.tname
    if isinstance(v, ObjV) and v.cls is not None:
        return v.cls.name
    return show(v)


def exc_sub(n, t, val=None):
    if n == t or t in ("BaseException", "Exception"):
        return True
    a, b = getattr(_bi, n, None), getattr(_bi, t, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if isinstance(val, ObjV) and val.cls is not None:
        names = [c.name for c in val.cls.mro()] + [str(x).split(".")[-1] for x in val.cls.ext_bases()]
        return any(m == t or exc_sub(m, t) for m in names if m != n)
    return False


def dataclass_fields(it, c):
    decs = getattr(c, "decorators", [])
    if not any(d and d.split(".")[-1] == "dataclass" for d in decs):
        if any(str(b).split(".")[-1] in ("NamedTuple",) for b in c.bases):
            pass
        else:
            return None
    out = []
    for k in reversed(c.mro()):
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.append((s.target.id, s.value))
    return out


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, Sym) and p.op == "concat":
            sub = list(p.args)
        else:
            sub = [p]
        for s in sub:
            if isinstance(s, str) and out and isinstance(out[-1], str):
                out[-1] += s
            elif s == "":
                continue
            else:
                out.append(freeze(s))
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    if len(out) == 1 and isinstance(out[0], Sym) and out[0].op in ("str", "fmt"):
        return out[0]
    return Sym("concat", *out)


def thaw(t):
    """container view of a frozen term (fresh copy)"""
    if isinstance(t, Sym):
        if t.op == "list":
            return ListV([thaw(a) for a in t.args])
        if t.op == "tuple":
            return TupleV([thaw(a) for a in t.args])
        if t.op == "set":
            return SetV([thaw(a) for a in t.args])
        if t.op == "dict":
            return DictV([(thaw(p.args[0]), thaw(p.args[1])) for p in t.args])
    return t


def pdiv(pa, pb):
    """pa/pb as a term; exact when pb divides pa monomial-wise"""
    if len(pb) == 1:
        (mb, cb), = pb.items()
        out = {}
        ok = True
        for m, c in pa.items():
            d = dict(m)
            for at, e in mb:
                d[at] = d.get(at, 0) - e
                if d[at] < 0:
                    ok = False
            out[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (x[0].key, x[1])))] = c / cb
        if ok:
            return mknum(out)
    if not pa:
        return 0
    sa, na = canon(pa)
    sb, nb = canon(pb)
    ka = next(iter(sorted(pa.items(), key=lambda kv: (-sum(e for _, e in kv[0]), _mk(kv[0])))))[1]
    kb = next(iter(sorted(pb.items(), key=lambda kv: (-sum(e for _, e in kv[0]), _mk(kv[0])))))[1]
    if na == nb:
        return mknum({(): ka / kb})
    s = Sym("div", na, nb)
    return mknum({((s, 1),): ka / kb})


def _mk(m):
    return tuple((a.key, e) for a, e in m)


EXT_CONST = {
    "numpy.nan": Sym("nan"), "numpy.NaN": Sym("nan"), "math.nan": Sym("nan"),
    "numpy.inf": float("inf"), "math.inf": float("inf"),
    "numpy.pi": Sym("pi"), "math.pi": Sym("pi"),
    "numpy.newaxis": None,
}


# ---------------------------------------------------------------------- exploration
class Trace:
    __slots__ = ("outcome", "value", "conds", "events", "interp", "inputs", "where")

    def __init__(self, outcome, value, it, inputs, where=None):
        self.outcome = outcome      # 'return' | 'raise'
        self.value = value
        self.conds = it.conds
        self.events = it.events
        self.interp = it
        self.inputs = inputs
        self.where = where

    @property
    def exc(self):
        return exc_name(self.value) if self.outcome == "raise" else None


def explore(prog, setup, domain_factory=None, max_paths=4000, **kw):
    """Analyse every trace partition.

    setup(interp) -> (callable_value, args, kwargs, inputs)
    """
    stack = [[]]
    traces = []
    n = 0
    while stack:
        dec = stack.pop()
        n += 1
        if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            raise Undecided("time allowed for the check used up")
        if n > max_paths:
            raise Undecided(f"more than {max_paths} trace partitions")
        dom = domain_factory() if domain_factory else Domain()
        it = Interp(prog, dom, dec, **kw)
        inputs = None
        try:
            f, args, kwargs, inputs = setup(it)
            it.events.clear()
            v = it.call(f, args, kwargs, None)
            traces.append(Trace("return", v, it, inputs))
        except RaiseSig as s:
            traces.append(Trace("raise", s.val, it, inputs, s.where))
        except CutPath:
            pass
        for prefix, alt in it.alternatives:
            stack.append(prefix + [alt])
    return traces


from .tables import ALIAS, ArrV, NativeV  # noqa: E402
from .dates import DateV, arith, less  # noqa: E402

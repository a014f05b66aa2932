"""Abstract pandas / xarray / numpy data: finite tables of abstract cells.

A cell is an abstract number (symbol, polynomial, constant), a string, the
constant NaN (`Sym("nan")`) or a truth value.  Every operation below is the
library's element-wise / label-wise meaning applied to abstract cells; anything
not listed makes the obligation undecided instead of being guessed.
"""
import ast
import itertools
from fractions import Fraction

from .values import *
from .values import _MISSING, as_fraction, bnot

NAN = Sym("nan")

ALIAS = {
    "pandas.core.frame.DataFrame": "pandas.DataFrame", "pandas.core.series.Series": "pandas.Series",
    "pandas.core.api.DataFrame": "pandas.DataFrame", "pandas.core.api.Series": "pandas.Series",
    "xarray.core.dataset.Dataset": "xarray.Dataset", "xarray.core.dataarray.DataArray": "xarray.DataArray",
}


def nan(c):
    return isinstance(c, Sym) and c.op == "nan" or isinstance(c, float) and c != c


def boolcell(c):
    return isinstance(c, (bool, B))


class NativeV:
    """library object modelled by the analyser"""
    tname = "object"

    def attr(self, it, name, node):
        it.undecided(f"attribute {name} of {self.tname}", node)

    def meth(self, name, fn):
        return PyFn(f"{self.tname}.{name}", lambda it, a, k, n: fn(it, a, k, n))

    def item(self, it, k, node):
        it.undecided(f"subscript of {self.tname}", node)

    def setitem(self, it, k, v, node):
        it.undecided(f"item store on {self.tname}", node)

    def delitem(self, it, k, node):
        it.undecided(f"item deletion on {self.tname}", node)

    def contains(self, it, a, node):
        it.undecided(f"membership in {self.tname}", node)

    def length(self, it, node):
        it.undecided(f"length of {self.tname}", node)

    def iter(self, it, node):
        it.undecided(f"iteration over {self.tname}", node)

    def __repr__(self):
        return f"<{self.tname}>"


def _kw(it, k, allowed, node, what):
    for x in k:
        if x not in allowed:
            it.undecided(f"argument {x} of {what}", node)


def sq(it, x, node):
    return it.binop(ast.Mult(), x, x, node)


def add(it, a, b, node=None):
    return it.binop(ast.Add(), a, b, node)


def total(it, xs, node=None):
    r = 0
    for x in xs:
        r = add(it, r, x, node)
    return r


def sort_cells(it, xs, node=None):
    out = []
    for x in xs:
        for i, y in enumerate(out):
            if it.decide(it.v_lt(x, y, True, node), node):
                out.insert(i, x)
                break
        else:
            out.append(x)
    return out


def sqrt(it, x, node=None):
    if isnum(x):
        f = as_fraction(x)
        import math
        if f is not None and f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return mknum(poly(Fraction(a, b)))
    if nan(x):
        return NAN
    return Sym("sqrt", freeze(x))


def reduce_cells(it, name, cells, skipna, node, ddof=None, where="numpy"):
    """one of the reductions over a flat list of cells"""
    if name in ("any", "all"):
        ts = [it.truthterm(c) if not nan(c) else True for c in cells]
        return bor(*ts) if name == "any" else band(*ts)
    if name in ("min", "max") and cells and all(isinstance(c, bool) for c in cells):
        return any(cells) if name == "max" else all(cells)
    cells = [(1 if c else 0) if isinstance(c, bool) else (1 if it.decide(c, node) else 0) if isinstance(c, B) else c for c in cells]
    good = [c for c in cells if not nan(c)]
    if name == "count":
        return len(good)
    if name == "size":
        return len(cells)
    if not skipna and len(good) != len(cells):
        return NAN
    if name == "sum":
        return total(it, good, node)
    if not good:
        if where == "numpy" and not cells and name in ("min", "max"):
            from .interp import RaiseSig
            raise RaiseSig(ExcV("ValueError"), it.where(node))
        return NAN
    n = len(good)
    if name == "mean":
        return it.binop(ast.Div(), total(it, good, node), n, node)
    if name in ("min", "max"):
        b = good[0]
        for c in good[1:]:
            if it.decide(it.v_lt(c, b, True, node) if name == "min" else it.v_lt(b, c, True, node), node):
                b = c
        return b
    if name == "median":
        s = sort_cells(it, good, node)
        return s[n // 2] if n % 2 else it.binop(ast.Div(), add(it, s[n // 2 - 1], s[n // 2], node), 2, node)
    if name in ("std", "var"):
        if n - ddof <= 0:
            return NAN
        m = it.binop(ast.Div(), total(it, good, node), n, node)
        v = total(it, [sq(it, it.binop(ast.Sub(), c, m, node), node) for c in good], node)
        v = it.binop(ast.Div(), v, n - ddof, node)
        return v if name == "var" else sqrt(it, v, node)
    if name == "prod":
        r = 1
        for c in good:
            r = it.binop(ast.Mult(), r, c, node)
        return r
    it.undecided(f"reduction {name}", node)


def same_cell(it, x, y, node):
    if nan(x) or nan(y):
        return nan(x) and nan(y)
    if hasattr(x, "v") and hasattr(y, "v"):
        return x == y
    if isinstance(x, NativeV) or isinstance(y, NativeV):
        return x is y or (x.same(it, y, node) if hasattr(x, "same") else it.undecided("equality of objects in a table", node))
    return it.decide(it.v_eq(x, y, node), node)


def isnull_cell(it, v, node):
    if v is None:
        return True
    if isinstance(v, str) or isinstance(v, NativeV) or isinstance(v, Sym) and v.op == "dt":
        return False
    return isnan_cell(it, v, node)


def isnan_cell(it, v, node):
    from .builtins_model import np_call
    return np_call(it, "numpy.isnan", "isnan", [v], {}, node)


class ArrV(NativeV):
    """an n-dimensional array of cells: numpy array, Series or DataArray"""

    def __init__(self, cells, shape=None):
        self.cells = list(cells)
        self.shape = tuple(shape) if shape is not None else (len(self.cells),)

    def like(self, cells):
        return type(self)(cells, self.shape)

    # ---- element-wise
    def pair(self, it, o, node):
        """(structure, my cells, other's cells)"""
        if isinstance(o, (ListV, TupleV)):
            o = nested(it, o, node) if any(isinstance(x, ArrV) for x in o.items) else NDArr(o.items)
        if isinstance(o, NativeV) and not isinstance(o, ArrV):
            it.undecided(f"operation of {self.tname} with {o.tname}", node)
        if isinstance(o, ArrV):
            if isinstance(self, NDArr) and not isinstance(o, NDArr):
                s, ys, xs = o.pair(it, self, node)
                return s, xs, ys
            if self.shape == o.shape:
                return self, self.cells, o.cells
            if o.shape == () or o.shape == (1,):
                return self, self.cells, o.cells * len(self.cells)
            if self.shape == () or self.shape == (1,):
                return o, self.cells * len(o.cells), o.cells
            if len(self.shape) == 2 and len(o.shape) == 1 and self.shape[1] == o.shape[0]:
                return self, self.cells, o.cells * self.shape[0]
            if isinstance(self, NDArr) and isinstance(o, NDArr):
                x, y = broadcast(it, [self, o], node)
                return x, x.cells, y.cells
            it.undecided(f"broadcast of shapes {self.shape} and {o.shape}", node)
        return self, self.cells, [o] * len(self.cells)

    def zip(self, it, o, f, node, swap=False):
        s, xs, ys = self.pair(it, o, node)
        return s.like([f(y, x) if swap else f(x, y) for x, y in zip(xs, ys)])

    def map(self, f):
        return self.like([f(c) for c in self.cells])

    def length(self, it, node):
        return self.shape[0] if self.shape else it.undecided("len() of a scalar array", node)

    def truthterm(self, it):
        if len(self.cells) == 1:
            return it.truthterm(self.cells[0])
        from .interp import RaiseSig
        raise RaiseSig(ExcV("ValueError"), it.where(None))

    RED = ("min", "max", "mean", "median", "std", "var", "sum", "count", "any", "all", "prod")

    def reduction(self, it, name, a, k, node):
        _kw(it, k, ("skipna", "ddof", "axis", "dim"), node, name)
        if a or k.get("axis") not in (None, _MISSING) or k.get("dim") is not None:
            return self.reduce_axis(it, name, a, k, node)
        skip = k.get("skipna", self.skip_default)
        if skip is None:
            skip = self.skip_default
        skip = it.truth(skip, node)
        return reduce_cells(it, name, self.cells, skip, node, k.get("ddof", self.ddof), self.lib)

    def reduce_axis(self, it, name, a, k, node):
        it.undecided(f"reduction {name} along an axis", node)

    skip_default = False
    ddof = 0
    lib = "numpy"

    def common(self, it, name, node):
        if name in self.RED:
            return self.meth(name, lambda it, a, k, n: self.wrap0(self.reduction(it, name, a, k, n)))
        if name == "size":
            return len(self.cells)
        if name == "shape":
            return TupleV(self.shape)
        if name == "ndim":
            return len(self.shape)
        if name == "item":
            def item(it, a, k, n):
                if len(self.cells) != 1:
                    it.undecided("item() of a larger array", n)
                return self.cells[0]
            return self.meth(name, item)
        if name in ("isnull", "isna"):
            return self.meth(name, lambda it, a, k, n: self.map(lambda c: isnan_cell(it, c, n)))
        if name in ("notnull", "notna"):
            return self.meth(name, lambda it, a, k, n: self.map(lambda c: bnot(isnan_cell(it, c, n))))
        if name == "copy":
            return self.meth(name, lambda it, a, k, n: self.like(self.cells))
        if name == "astype":
            from .builtins_model import cast_cell
            return self.meth(name, lambda it, a, k, n: self.like([cast_cell(it, c, k.get("dtype", a[0] if a else None), n) for c in self.cells]))
        if name == "abs":
            from .builtins_model import b_abs
            return self.meth(name, lambda it, a, k, n: self.map(lambda c: b_abs(it, [c], {}, n)))
        if name == "tolist" and len(self.shape) == 1:
            return self.meth(name, lambda it, a, k, n: ListV(self.cells))
        if name in ("round",):
            return self.meth(name, lambda it, a, k, n: it.undecided("rounding", n))
        if name == "dtype":
            return DTypeV(self.cells)
        if name == "replace":
            def repl(it, a, k, n):
                if len(a) == 1 and not k and isinstance(a[0], DictV) and a[0].base is None:
                    a = [a[0], None]
                if k or len(a) != 2:
                    it.undecided("replace arguments", n)
                return self.like([replaced(it, c, a[0], a[1], n) for c in self.cells])
            return self.meth(name, repl)
        return _MISSING

    def wrap0(self, v):
        return v


def replaced(it, c, old, new, n):
    """one cell after replace(old, new)"""
    if isinstance(old, DictV) and new is None and not any(isinstance(x, (DictV, str)) for x in list(old.keys) + list(old.vals)):
        for o, v in zip(old.keys, old.vals):
            r = replaced(it, c, o, v, n)
            if r is not c:
                return r
        return c
    if isinstance(old, (DictV, NativeV)) or isinstance(new, (DictV, NativeV, ListV, TupleV)) or isinstance(old, (Sym, Num)):
        it.undecided("replace arguments", n)
    for o in it.items_of(old, n) if isinstance(old, (ListV, TupleV)) else [old]:
        if isinstance(c, (ListV, TupleV, DictV, NativeV)):
            continue
        if isinstance(c, bool) and not isinstance(o, bool) or isinstance(o, bool) and not isinstance(c, bool):
            it.undecided("replace of numbers by flags", n)
        if nan(o) and nan(c) or not nan(o) and it.truth(it.v_eq(c, o, n), n):
            return new
    return c


class DTypeV(NativeV):
    """element type of a column: 'bool', 'float', 'num' (whole or not), 'object' or None when it cannot be told"""
    tname = "dtype"

    def __init__(self, cells):
        self.kind = None
        num = [c for c in cells if isinstance(c, (int, Fraction, float, Num)) and not isinstance(c, bool) or nan(c) or isinstance(c, Sym) and c.op in ("val", "mag", "sqrt")]
        if cells and all(isinstance(c, bool) for c in cells):
            self.kind = "bool"
        elif cells and len(num) == len(cells):
            self.kind = "float" if any(nan(c) or isinstance(c, Fraction) and c.denominator != 1 for c in cells) else "num"
        elif any(isinstance(c, (str, bool, ListV, TupleV, DictV)) for c in cells):
            self.kind = "object"

    def eqtype(self, it, x, n):
        nm = x if isinstance(x, str) else getattr(x, "name", None) or getattr(x, "path", None) or (x.args[0] if isinstance(x, Sym) and x.args else None)
        nm = str(nm).split(".")[-1]
        if self.kind is None:
            it.undecided("type of a column", n)
        want = "object" if nm in ("list", "tuple", "dict", "str", "object", "object_", "O") else "bool" if nm in ("bool", "bool_") else "float" if nm in ("float", "float64") else "int" if nm in ("int", "int64") else None
        if want is None or self.kind == "num" and want in ("int", "float"):
            it.undecided(f"type of a column compared with {show(x)}", n)
        return want == self.kind

    def attr(self, it, name, node):
        if name == "kind" and self.kind in ("bool", "float", "object"):
            return self.kind[0] if self.kind != "object" else "O"
        if name == "name" and self.kind in ("bool", "object"):
            return self.kind
        it.undecided(f"attribute {name} of a column type", node)


def broadcast(it, xs, node):
    """the arrays (or scalars) at their common shape"""
    xs = [x if isinstance(x, ArrV) else NDArr([x], ()) for x in xs]
    n = max(len(x.shape) for x in xs)
    full = [(1,) * (n - len(x.shape)) + tuple(x.shape) for x in xs]
    shape = []
    for d in zip(*full):
        m = {v for v in d if v != 1}
        if len(m) > 1:
            from .interp import RaiseSig
            raise RaiseSig(ExcV("ValueError"), it.where(node))
        shape.append(m.pop() if m else 1)
    out = []
    for x, f in zip(xs, full):
        st = strides(f)
        out.append(NDArr([x.cells[sum(i * s for i, s, w in zip(t, st, f) if w != 1)] for t in itertools.product(*[range(m) for m in shape])], shape))
    return out


class NDArr(ArrV):
    tname = "numpy.ndarray"

    def setitem(self, it, k, v, node):
        if isinstance(k, ArrV) and k.shape == self.shape and all(boolcell(c) for c in k.cells) and not isinstance(v, (ArrV, ListV, TupleV)):
            self.cells = [v if it.truth(m, node) else c for c, m in zip(self.cells, k.cells)]
            return
        ks = list(k.items) if isinstance(k, TupleV) else [k]
        if len(ks) > len(self.shape) or not all(type(x) is int or isinstance(x, SliceV) and all(y is None or type(y) is int for y in (x.lo, x.hi, x.step)) for x in ks):
            it.undecided("array store", node)
        idx = []
        for x, n in zip(ks + [SliceV(None, None, None)] * (len(self.shape) - len(ks)), self.shape):
            if type(x) is int:
                if not -n <= x < n:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("IndexError"), it.where(node))
                idx.append([x % n])
            else:
                idx.append(list(range(n))[slice(x.lo, x.hi, x.step)])
        st = strides(self.shape)
        pos = [sum(i * m for i, m in zip(t, st)) for t in itertools.product(*idx)]
        if isinstance(v, (ListV, TupleV)):
            v = NDArr(v.items)
        sub = [len(i) for x, i in zip(ks + [None] * (len(self.shape) - len(ks)), idx) if type(x) is not int]
        vs = broadcast(it, [v, NDArr([0] * len(pos), sub)], node)[0].cells
        if len(vs) != len(pos):
            it.undecided("array store", node)
        for p, c in zip(pos, vs):
            self.cells[p] = c

    def attr(self, it, name, node):
        if name in ("flatten", "ravel"):
            return self.meth(name, lambda it, a, k, n: NDArr(self.cells))
        if name == "T":
            return self.permute(list(reversed(range(len(self.shape)))))
        if name == "swapaxes":
            return self.meth(name, lambda it, a, k, n: self.swap(a[0], a[1]))
        if name == "transpose":
            def tr(it, a, k, n):
                ax = a if len(a) != 1 or isinstance(a[0], int) else it.items_of(a[0], n)
                return self.permute(list(ax) if ax else list(reversed(range(len(self.shape)))))
            return self.meth(name, tr)
        if name == "reshape":
            def reshape(it, a, k, n):
                sh = list(a) if len(a) != 1 or isinstance(a[0], int) else list(it.items_of(a[0], n))
                if not all(type(x) is int for x in sh) or sh.count(-1) > 1:
                    it.undecided("reshape", n)
                if -1 in sh:
                    p = 1
                    for x in sh:
                        p *= x if x != -1 else 1
                    sh[sh.index(-1)] = len(self.cells) // p if p else 0
                return NDArr(self.cells, sh)
            return self.meth(name, reshape)
        if name == "values":
            return self
        if name == "to_numpy":
            return self.meth(name, lambda it, a, k, n: self)
        if name in ("argmin", "argmax"):
            def arg(it, a, k, n):
                b = reduce_cells(it, name[3:], self.cells, False, n)
                return next(i for i, c in enumerate(self.cells) if c is b or c == b)
            return self.meth(name, arg)
        r = self.common(it, name, node)
        if r is _MISSING:
            it.undecided(f"numpy array attribute {name}", node)
        return r

    def swap(self, i, j):
        ax = list(range(len(self.shape)))
        ax[i], ax[j] = ax[j], ax[i]
        return self.permute(ax)

    def permute(self, ax):
        shape = [self.shape[i] for i in ax]
        st = strides(self.shape)
        cells = [self.cells[sum(t[k] * st[a] for k, a in enumerate(ax))] for t in itertools.product(*[range(n) for n in shape])]
        return NDArr(cells, shape)

    def along(self, axis):
        """list of (positions) lines along an axis"""
        st = strides(self.shape)
        n = self.shape[axis]
        rest = [range(m) if i != axis else (0,) for i, m in enumerate(self.shape)]
        for t in itertools.product(*rest):
            b = sum(x * y for x, y in zip(t, st))
            yield [b + i * st[axis] for i in range(n)]

    def item(self, it, k, node):
        if isinstance(k, ListV) and k.arr:
            k = NDArr(k.items)
        if isinstance(k, ArrV) and k.shape == self.shape and all(boolcell(c) for c in k.cells):
            return NDArr([c for c, m in zip(self.cells, k.cells) if it.truth(m, node)])
        if isinstance(k, int) and not isinstance(k, bool):
            n = self.shape[0]
            if not -n <= k < n:
                from .interp import RaiseSig
                raise RaiseSig(ExcV("IndexError"), it.where(node))
            k %= n
            if len(self.shape) == 1:
                return self.cells[k]
            w = len(self.cells) // n
            return NDArr(self.cells[k * w:(k + 1) * w], self.shape[1:])
        if isinstance(k, SliceV) and len(self.shape) == 1 and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
            return NDArr(self.cells[slice(k.lo, k.hi, k.step)])
        if isinstance(k, TupleV) and any(x is Ellipsis for x in k.items):
            i = next(j for j, x in enumerate(k.items) if x is Ellipsis)
            k = TupleV(list(k.items[:i]) + [SliceV(None, None, None)] * (len(self.shape) - len([x for x in k.items if x is not None]) + 1) + list(k.items[i + 1:]))
        if isinstance(k, TupleV) and None not in k.items and 0 < len(k.items) < len(self.shape):
            k = TupleV(list(k.items) + [SliceV(None, None, None)] * (len(self.shape) - len(k.items)))
        if isinstance(k, SliceV) and len(self.shape) > 1:
            k = TupleV([k] + [SliceV(None, None, None)] * (len(self.shape) - 1))
        if isinstance(k, TupleV) and any(x is None for x in k.items) and all(x is None or isinstance(x, SliceV) and x.lo is x.hi is x.step is None for x in k.items) \
                and len([x for x in k.items if x is not None]) == len(self.shape):
            left = list(self.shape)
            return NDArr(self.cells, [1 if x is None else left.pop(0) for x in k.items])
        if isinstance(k, TupleV) and len(k.items) == len(self.shape):
            idx = []
            keep = []
            for x, n in zip(k.items, self.shape):
                if isinstance(x, int):
                    if not -n <= x < n:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("IndexError"), it.where(node))
                    idx.append([x % n])
                elif isinstance(x, SliceV) and all(y is None or isinstance(y, int) for y in (x.lo, x.hi, x.step)):
                    r = list(range(n))[slice(x.lo, x.hi, x.step)]
                    idx.append(r)
                    keep.append(len(r))
                else:
                    it.undecided("array subscript", node)
            out = []
            for t in itertools.product(*idx):
                p = 0
                for i, n in zip(t, self.shape):
                    p = p * n + i
                out.append(self.cells[p])
            return NDArr(out, keep) if keep else out[0]
        it.undecided(f"array subscript {show(k)}", node)

    def reduce_axis(self, it, name, a, k, node):
        ax = k.get("axis", a[0] if a else None)
        if isinstance(ax, int) and len(self.shape) == 2:
            r, c = self.shape
            if ax in (0, -2):
                cols = [[self.cells[i * c + j] for i in range(r)] for j in range(c)]
            else:
                cols = [self.cells[i * c:(i + 1) * c] for i in range(r)]
            return NDArr([reduce_cells(it, name, x, False, node, k.get("ddof", 0)) for x in cols])
        it.undecided(f"reduction {name} along {show(ax)}", node)

    def iter(self, it, node):
        return [self.item(it, i, node) for i in range(self.shape[0])]

    def contains(self, it, a, node):
        return bor(*[it.v_eq(a, c, node) for c in self.cells])


class IndexV(NDArr):
    """row or column labels"""
    tname = "pandas.Index"

    def __init__(self, cells, shape=None, name=None):
        super().__init__(cells, shape)
        self.name = name

    def like(self, cells):
        return NDArr(cells, self.shape)

    def attr(self, it, name, node):
        if name == "names":
            return ListV([self.name])
        if name == "name":
            return self.name
        if name in ("to_list", "tolist"):
            return self.meth(name, lambda it, a, k, n: ListV(self.cells))
        if name in ("month", "year", "day") and all(hasattr(getattr(c, "v", None), name) for c in self.cells):
            return IndexV([getattr(c.v, name) for c in self.cells])
        if name == "is_unique":
            return len(set(map(freeze, self.cells))) == len(self.cells)
        if name in ("difference", "intersection", "drop") and all(isinstance(c, str) for c in self.cells):
            def sub(it, a, k, n):
                o = [a[0]] if isinstance(a[0], str) else it.items_of(a[0], n)
                if k or not all(isinstance(x, str) for x in o):
                    it.undecided(f"index {name}", n)
                if name == "drop":
                    if any(x not in self.cells for x in o):
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("KeyError"), it.where(n))
                    return IndexV([c for c in self.cells if c not in o])
                if name == "intersection":
                    return IndexV([c for c in self.cells if c in o])
                return IndexV(sorted({c for c in self.cells if c not in o}))
            return self.meth(name, sub)
        return super().attr(it, name, node)


class SeriesV(ArrV):
    tname = "pandas.Series"
    skip_default = True
    ddof = 1
    lib = "pandas"

    def __init__(self, cells, shape=None, index=None, name=None):
        super().__init__(cells)
        self.index = list(index) if index is not None else list(range(len(self.cells)))
        self.name = name

    def like(self, cells):
        return SeriesV(cells, index=self.index, name=self.name)

    def pair(self, it, o, node):
        if isinstance(o, SeriesV) and o.index != self.index:
            it.undecided("operation on Series with different labels", node)
        return super().pair(it, o, node)

    def keep(self, rows):
        return SeriesV([self.cells[i] for i in rows], index=[self.index[i] for i in rows], name=self.name)

    def attr(self, it, name, node):
        if name == "values":
            return NDArr(self.cells)
        if name in ("to_numpy",):
            return self.meth(name, lambda it, a, k, n: NDArr(self.cells))
        if name == "dropna":
            def dropna(it, a, k, n):
                _kw(it, k, ("axis", "how"), n, name)
                return self.keep([i for i, c in enumerate(self.cells) if not it.truth(isnan_cell(it, c, n), n)])
            return self.meth(name, dropna)
        if name == "empty":
            return not self.cells
        if name == "index":
            return IndexV(self.index)
        if name == "name":
            return self.name
        if name in ("apply", "map"):
            def apply(it, a, k, n):
                if len(a) != 1 or k or isinstance(a[0], (DictV, NativeV)):
                    it.undecided(f"{name} arguments", n)
                return self.like([it.call(a[0], [c], {}, n) for c in self.cells])
            return self.meth(name, apply)
        if name in ("cumsum",):
            def cumsum(it, a, k, n):
                _kw(it, k, ("skipna",), n, name)
                out, t, bad = [], 0, False
                for c in self.cells:
                    if nan(c) or bad:
                        bad = bad or not it.truth(k.get("skipna", True), n)
                        out.append(NAN)
                    else:
                        t = add(it, t, c, n)
                        out.append(t)
                return self.like(out)
            return self.meth(name, cumsum)
        if name in ("nunique", "unique"):
            def uniq(it, a, k, n):
                _kw(it, k, ("dropna",), n, name)
                seen = []
                for c in self.cells:
                    if not any(same_cell(it, c, x, n) for x in seen) and not (name == "nunique" and nan(c)):
                        seen.append(c)
                return len(seen) if name == "nunique" else NDArr(seen)
            return self.meth(name, uniq)
        if name == "sort_values":
            def sortv(it, a, k, n):
                _kw(it, k, ("ascending",), n, name)
                r = rank_rows(it, [self.cells], n)
                return self.keep(r if k.get("ascending", True) is True else list(reversed(r)))
            return self.meth(name, sortv)
        if name in ("idxmin", "idxmax"):
            def idx(it, a, k, n):
                skip = it.truth(k.get("skipna", a[1] if len(a) > 1 else True), n)
                b = reduce_cells(it, name[3:], self.cells, skip, n, where="pandas")
                if nan(b):
                    if not self.cells:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                    return NAN
                return self.index[next(i for i, c in enumerate(self.cells) if c is b or (not nan(c) and c == b))]
            return self.meth(name, idx)
        if name == "between":
            def between(it, a, k, n):
                inc = k.get("inclusive", a[2] if len(a) > 2 else "both")
                lo, hi = a[0], a[1]
                ls, hs = inc in ("neither", "right"), inc in ("neither", "left")
                return self.map(lambda c: False if nan(c) else band(it.v_lt(lo, c, ls, n), it.v_lt(c, hi, hs, n)))
            return self.meth(name, between)
        if name in ("gt", "lt", "ge", "le", "eq", "ne"):
            op = {"gt": ast.Gt, "lt": ast.Lt, "ge": ast.GtE, "le": ast.LtE, "eq": ast.Eq, "ne": ast.NotEq}[name]()
            return self.meth(name, lambda it, a, k, n: it.compare(op, self, a[0], n))
        if name in ("loc", "iloc"):
            return Indexer(self, name == "iloc")
        if name == "fillna":
            return self.meth(name, lambda it, a, k, n: self.map(lambda c: a[0] if nan(c) else c))
        if name == "reset_index":
            def reset(it, a, k, n):
                if k.get("drop") is not True:
                    it.undecided("reset_index of a Series", n)
                return SeriesV(self.cells, name=self.name)
            return self.meth(name, reset)
        if name == "str":
            return StrV(self)
        r = self.common(it, name, node)
        if r is _MISSING and name in [l for l in self.index if isinstance(l, str)]:
            return self.item(it, name, node)
        if r is _MISSING:
            it.undecided(f"Series attribute {name}", node)
        return r

    def rows_for(self, it, k, node):
        if isinstance(k, ListV) and k.arr:
            k = NDArr(k.items)
        if isinstance(k, SeriesV) and k.index != self.index:
            it.undecided("mask with different labels", node)
        if isinstance(k, ArrV) and len(k.cells) == len(self.cells) and all(boolcell(c) for c in k.cells):
            return [i for i, m in enumerate(k.cells) if it.truth(m, node)]
        return None

    def item(self, it, k, node):
        r = self.rows_for(it, k, node)
        if r is not None:
            return self.keep(r)
        for i, l in enumerate(self.index):
            if type(l) is type(k) and l == k:
                return self.cells[i]
        if isinstance(k, (int, str)):
            from .interp import RaiseSig
            raise RaiseSig(ExcV("KeyError"), it.where(node))
        it.undecided(f"Series subscript {show(k)}", node)

    def iter(self, it, node):
        return list(self.cells)

    def contains(self, it, a, node):
        return bor(*[it.v_eq(a, c, node) for c in self.index])


class StrV(NativeV):
    """string methods of a Series"""
    tname = "pandas.StringMethods"

    def __init__(self, o):
        self.o = o

    def attr(self, it, name, node):
        if not all(isinstance(c, str) for c in self.o.cells) or name not in ("contains", "startswith", "endswith", "upper", "lower", "strip"):
            it.undecided(f"string method {name}", node)

        def f(it, a, k, n):
            if set(k) - {"regex"} or not all(isinstance(x, str) and (x.isalnum() or k.get("regex") is False) for x in a):
                it.undecided(f"string method {name}", n)
            return self.o.map((lambda c: a[0] in c) if name == "contains" else lambda c: getattr(c, name)(*a))
        return self.meth(name, f)


def label(x):
    return type(x) in (int, str) or type(getattr(x, "v", None)).__module__ == "datetime"


def as_label(it, x, like, node):
    """a text selecting among dates is read as a date"""
    if isinstance(x, str) and hasattr(like, "v"):
        import datetime
        try:
            d = datetime.datetime.fromisoformat(x)
        except ValueError:
            it.undecided(f"date label {x}", node)
        return type(like)(d)
    return x


def rank_rows(it, keys, node):
    """row numbers sorted by the key columns (stable), missing last"""
    n = len(keys[0]) if keys else 0

    def before(i, j):
        for k in keys:
            x, y = k[i], k[j]
            if nan(x) or nan(y):
                if nan(x) != nan(y):
                    return nan(y)
                continue
            if it.decide(it.v_lt(x, y, True, node), node):
                return True
            if it.decide(it.v_lt(y, x, True, node), node):
                return False
        return False
    out = []
    for i in range(n):
        j = len(out)
        while j > 0 and before(i, out[j - 1]):
            j -= 1
        out.insert(j, i)
    return out


class Indexer(NativeV):
    tname = "pandas.Indexer"

    def __init__(self, o, pos):
        self.o = o
        self.pos = pos

    def item(self, it, k, node):
        o = self.o
        cols = None
        if isinstance(k, TupleV) and len(k.items) == 2 and isinstance(o, FrameV):
            k, cols = k.items
        if isinstance(k, SliceV) and k.lo is None and k.hi is None and k.step is None:
            r = o
        else:
            rows = o.rows_for(it, k, node)
            if rows is None and self.pos and isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                rows = list(range(o.nrows if isinstance(o, FrameV) else len(o.cells)))[slice(k.lo, k.hi, k.step)]
            if rows is None and self.pos and isinstance(k, (ArrV, ListV)):
                ix = k.cells if isinstance(k, ArrV) else k.items
                if all(type(x) is int and 0 <= x < len(o.index) for x in ix):
                    rows = list(ix)
            if rows is None and not self.pos and isinstance(k, (ArrV, ListV)):
                ix = k.cells if isinstance(k, ArrV) else k.items
                if all(label(x) for x in ix) and all(label(x) for x in o.index):
                    if not all(x in o.index for x in ix):
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("KeyError"), it.where(node))
                    rows = [i for x in ix for i, l in enumerate(o.index) if l == x]
            if rows is None and not self.pos and isinstance(k, SliceV) and k.step is None and all(label(x) for x in o.index):
                ends = [as_label(it, x, o.index[0], node) if o.index else x for x in (k.lo, k.hi)]
                if not all(x is None or label(x) for x in ends) or any(it.decide(it.v_lt(y, x, True, node), node) for x, y in zip(o.index, o.index[1:])):
                    it.undecided("slice of labels", node)
                rows = [i for i, x in enumerate(o.index) if (ends[0] is None or it.decide(it.v_lt(ends[0], x, False, node), node)) and (ends[1] is None or it.decide(it.v_lt(x, ends[1], False, node), node))]
            if rows is None and self.pos and isinstance(k, int) and isinstance(o, SeriesV):
                if -len(o.cells) <= k < len(o.cells):
                    return o.cells[k]
                from .interp import RaiseSig
                raise RaiseSig(ExcV("IndexError"), it.where(node))
            if rows is None and not self.pos and isinstance(o, SeriesV):
                return o.item(it, k, node)
            if rows is None and self.pos and isinstance(o, FrameV) and type(k) is int:
                if not -o.nrows <= k < o.nrows:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("IndexError"), it.where(node))
                row = SeriesV([o.cols[c][k] for c in o.cols], index=list(o.cols), name=o.index[k])
                return row if cols is None or not isinstance(cols, str) else row.item(it, cols, node)
            if rows is None and not self.pos and isinstance(o, FrameV) and isinstance(k, (int, str)):
                if o.index.count(k) == 1:
                    i = o.index.index(k)
                    row = SeriesV([o.cols[c][i] for c in o.cols], index=list(o.cols), name=k)
                    return row if cols is None else row.item(it, cols, node)
            if rows is None:
                it.undecided(f"row selection by {show(k)}", node)
            r = o.keep(rows)
        if isinstance(cols, SliceV) and cols.lo is None and cols.hi is None and cols.step is None:
            cols = None
        return r if cols is None else r.item(it, cols, node)

    def setitem(self, it, k, v, node):
        o = self.o
        if not self.pos and isinstance(o, FrameV) and type(k) is int and k not in o.index and isinstance(v, (ListV, TupleV)):
            if len(v.items) != len(o.cols):
                from .interp import RaiseSig
                raise RaiseSig(ExcV("ValueError"), it.where(node))
            for c, x in zip(o.cols, v.items):       # a new row
                o.cols[c].append(x)
            o.index.append(k)
            o.nrows += 1
            return
        if not self.pos and isinstance(o, FrameV) and isinstance(v, (ListV, TupleV)) and len(v.items) == len(o.cols) and type(k) is int and o.index.count(k) == 1:
            at = o.index.index(k)
            for c, x in zip(o.cols, v.items):
                o.cols[c][at] = x
            return
        if not self.pos and isinstance(o, FrameV) and isinstance(k, TupleV) and len(k.items) == 2 and isinstance(k.items[1], str) and not isinstance(v, NativeV):
            rows = o.rows_for(it, k.items[0], node)
            if rows is not None and k.items[1] in o.cols:
                for i in rows:
                    o.cols[k.items[1]][i] = v
                return
        it.undecided(f"row store at {show(k)}", node)


class GroupV(NativeV):
    """a table grouped by columns of known values"""
    tname = "DataFrameGroupBy"

    def __init__(self, it, frame, keys, sort, node, col=None):
        self.frame, self.keys, self.sort, self.col_ = frame, keys, sort, col
        if not all(isinstance(x, str) and x in frame.cols for x in keys):
            it.undecided("groupby keys", node)
        self.groups = {}
        for i in range(frame.nrows):
            g = tuple(frame.cols[x][i] for x in keys)
            if any(nan(x) for x in g):
                continue                        # rows without a key are left out
            if not all(isinstance(x, (str, int, Fraction)) for x in g):
                it.undecided("groupby values", node)
            self.groups.setdefault(g, []).append(i)
        if sort is True and len({tuple(isinstance(x, str) for x in g) for g in self.groups}) <= 1:
            self.groups = {g: self.groups[g] for g in sorted(self.groups)}
        elif sort is not False:
            it.undecided("groupby order", node)

    def label(self, g):
        return g[0] if len(self.keys) == 1 else TupleV(list(g))

    def iter(self, it, node):
        if self.col_ is not None:
            return [TupleV([self.label(g), self.frame.keep(r).col(self.col_)]) for g, r in self.groups.items()]
        return [TupleV([self.label(g), self.frame.keep(r)]) for g, r in self.groups.items()]

    def length(self, it, node):
        return len(self.groups)

    def item(self, it, k, node):
        if isinstance(k, str) and k in self.frame.cols:
            return GroupV(it, self.frame, self.keys, self.sort, node, k)
        it.undecided("column of a grouped table", node)

    def attr(self, it, name, node):
        if name in self.frame.cols and self.col_ is None:
            return self.item(it, name, node)
        if name == "ngroups":
            return len(self.groups)
        if name in ("mean", "sum", "max", "min", "median", "count", "std", "var", "first", "last", "size"):
            def red(it, a, k, n):
                _kw(it, k, (), n, name)
                if a:
                    it.undecided(f"{name} of a grouped table", n)

                def one(c):
                    out = []
                    for r in self.groups.values():
                        s = self.frame.keep(r).col(c)
                        if name in ("first", "last"):
                            v = [x for x in s.cells if not nan(x)]
                            out.append((v[0] if name == "first" else v[-1]) if v else NAN)
                        else:
                            out.append(s.reduction(it, name, [], {}, n))
                    return out
                ix = [self.label(g) for g in self.groups]
                nm = self.keys[0] if len(self.keys) == 1 else None
                if name == "size":
                    return SeriesV([len(r) for r in self.groups.values()], index=ix)
                if self.col_ is not None:
                    return SeriesV(one(self.col_), index=ix, name=self.col_)
                if len(self.keys) != 1:
                    it.undecided("a table grouped by several columns", n)
                cs = [c for c in self.frame.cols if c not in self.keys]
                return FrameV({c: one(c) for c in cs}, ix, len(ix), nm)
            return self.meth(name, red)
        it.undecided(f"grouped table: {name}", node)


class FrameV(NativeV):
    tname = "pandas.DataFrame"

    def __init__(self, cols, index=None, nrows=None, iname=None):
        self.iname = iname
        self.cols = {k: list(v) for k, v in cols.items()}
        self.nrows = len(next(iter(self.cols.values()))) if self.cols else (nrows or 0)
        self.index = list(index) if index is not None else list(range(self.nrows))

    def keep(self, rows):
        return FrameV({k: [v[i] for i in rows] for k, v in self.cols.items()}, [self.index[i] for i in rows], len(rows), self.iname)

    def meth(self, name, fn):
        def f(it, a, k, n):
            if "inplace" not in k:
                return fn(it, a, k, n)
            k = dict(k)
            inplace = k.pop("inplace")
            r = fn(it, a, k, n)
            if not isinstance(r, FrameV) or not isinstance(inplace, bool):
                it.undecided(f"{name} in place", n)
            if not inplace:
                return r
            self.cols, self.index, self.nrows, self.iname = r.cols, r.index, r.nrows, r.iname
            return None
        return NativeV.meth(self, name, f)

    def col(self, k):
        return SeriesV(self.cols[k], index=self.index, name=k)

    rows_for = SeriesV.rows_for

    @property
    def cells(self):
        return self.index            # only its length is used by rows_for

    def length(self, it, node):
        return self.nrows

    def contains(self, it, a, node):
        return bor(*[it.v_eq(a, c, node) for c in self.cols])

    def iter(self, it, node):
        return list(self.cols)

    def item(self, it, k, node):
        if isinstance(k, str):
            if k in self.cols:
                return self.col(k)
            from .interp import RaiseSig
            raise RaiseSig(ExcV("KeyError", (k,)), it.where(node))
        r = self.rows_for(it, k, node)
        if r is not None:
            return self.keep(r)
        if isinstance(k, ListV) and all(isinstance(x, str) for x in k.items):
            for x in k.items:
                if x not in self.cols:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("KeyError", (x,)), it.where(node))
            return FrameV({x: self.cols[x] for x in k.items}, self.index, self.nrows, self.iname)
        it.undecided(f"DataFrame subscript {show(k)}", node)

    def setitem(self, it, k, v, node):
        if not isinstance(k, str):
            it.undecided(f"DataFrame store at {show(k)}", node)
        if isinstance(v, SeriesV):
            if v.index != self.index:
                it.undecided("column store with different labels", node)
            v = v.cells
        elif isinstance(v, (ArrV,)):
            v = v.cells
        elif isinstance(v, (ListV, TupleV)):
            v = list(v.items)
        elif isinstance(v, NativeV) and not hasattr(v, "geom_type") and not hasattr(v, "v"):
            it.undecided("column store", node)
        else:
            v = [v] * self.nrows
        if len(v) != self.nrows:
            from .interp import RaiseSig
            raise RaiseSig(ExcV("ValueError"), it.where(node))
        self.cols[k] = list(v)

    def delitem(self, it, k, node):
        del self.cols[k]

    def attr(self, it, name, node):
        if name in self.cols:
            return self.col(name)
        if name in ("loc", "iloc"):
            return Indexer(self, name == "iloc")
        if name == "columns":
            return IndexV(list(self.cols))
        if name == "index":
            return IndexV(self.index, name=self.iname)
        if name == "iterrows":
            return self.meth(name, lambda it, a, k, n: ListV([TupleV([l, SeriesV([v[i] for v in self.cols.values()], index=list(self.cols), name=l)]) for i, l in enumerate(self.index)]))
        if name == "groupby":
            def group(it, a, k, n):
                c = k.get("by", a[0] if a else None)
                if set(k) - {"by", "sort"}:
                    it.undecided("groupby arguments", n)
                return GroupV(it, self, [c] if isinstance(c, str) else it.items_of(c, n), k.get("sort", True), n)
            return self.meth(name, group)
        if name in ("agg", "aggregate"):
            def agg(it, a, k, n):
                f = k.get("func", a[0] if a else None)
                if isinstance(f, str) and not k:
                    return it.call(self.attr(it, f, n), [], {}, n)
                fs = list(f.items) if isinstance(f, (ListV, TupleV)) else []
                if set(k) - {"func"} or len(a) > 1 or not fs or not all(x in ("min", "max", "mean", "median", "sum", "count", "std") for x in fs):
                    it.undecided("DataFrame agg", n)
                return FrameV({c: [self.col(c).reduction(it, x, [], {}, n) for x in fs] for c in self.cols}, list(fs), len(fs))
            return self.meth(name, agg)
        if name == "set_index":
            def seti(it, a, k, n):
                c = k.get("keys", a[0] if a else None)
                if isinstance(c, (ListV, TupleV)) and len(c.items) > 1 and all(isinstance(x, str) for x in c.items) and not set(k) - {"keys"}:
                    for x in c.items:
                        if x not in self.cols:
                            from .interp import RaiseSig
                            raise RaiseSig(ExcV("KeyError"), it.where(n))
                    return MultiFrame({**{x: self.cols[x] for x in c.items}, **{x: v for x, v in self.cols.items() if x not in c.items}}, list(c.items))
                if set(k) - {"keys", "drop"} or not isinstance(c, str):
                    it.undecided("set_index arguments", n)
                if c not in self.cols:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("KeyError"), it.where(n))
                return FrameV({x: v for x, v in self.cols.items() if x != c or k.get("drop", True) is False}, self.cols[c], self.nrows, c)
            return self.meth(name, seti)
        if name == "sort_index":
            def sorti(it, a, k, n):
                _kw(it, k, (), n, name)
                return self.keep(rank_rows(it, [self.index], n))
            return self.meth(name, sorti)
        if name == "sort_values":
            def sortv(it, a, k, n):
                _kw(it, k, ("by", "ascending", "ignore_index"), n, name)
                by = k.get("by", a[0] if a else None)
                by = [by] if isinstance(by, str) else it.items_of(by, n)
                r = rank_rows(it, [self.cols[c] for c in by], n)
                if k.get("ascending", True) is not True:
                    if len(by) > 1 or any(nan(c) for c in self.cols[by[0]]):
                        it.undecided("descending sort", n)
                    r = list(reversed(r))
                r = self.keep(r)
                return FrameV(r.cols, None, r.nrows) if k.get("ignore_index") is True else r
            return self.meth(name, sortv)
        if name == "empty":
            return self.nrows == 0 or not self.cols
        if name == "shape":
            return TupleV([self.nrows, len(self.cols)])
        if name == "size":
            return self.nrows * len(self.cols)
        if name == "copy":
            return self.meth(name, lambda it, a, k, n: FrameV(self.cols, self.index, self.nrows, self.iname))
        if name in ("keys",):
            return self.meth(name, lambda it, a, k, n: ListV(list(self.cols)))
        if name == "dropna":
            def dropna(it, a, k, n):
                _kw(it, k, ("subset", "how", "axis"), n, name)
                cols = it.items_of(k["subset"], n) if k.get("subset") is not None else list(self.cols)
                how = k.get("how", "any")
                rows = []
                for i in range(self.nrows):
                    bad = [it.truth(isnull_cell(it, self.cols[c][i], n), n) for c in cols]
                    if not (any(bad) if how == "any" else all(bad)):
                        rows.append(i)
                return self.keep(rows)
            return self.meth(name, dropna)
        if name == "reset_index":
            def reset(it, a, k, n):
                _kw(it, k, ("drop",), n, name)
                c = dict(self.cols)
                if k.get("drop") is not True:
                    c = {self.iname or "index": list(self.index), **c}
                return FrameV(c, None, self.nrows)
            return self.meth(name, reset)
        if name == "rename":
            def rename(it, a, k, n):
                _kw(it, k, ("columns",), n, name)
                if "columns" not in k:
                    return FrameV(self.cols, self.index, self.nrows, self.iname)   # renames row labels only
                m = {x: y for x, y in k["columns"].pairs()}
                return FrameV({m.get(c, c): v for c, v in self.cols.items()}, self.index, self.nrows, self.iname)
            return self.meth(name, rename)
        if name == "drop":
            def drop(it, a, k, n):
                cs = k.get("columns")
                if cs is None and a and (k.get("axis") in (1, "columns") or len(a) > 1 and a[1] == 1):
                    cs = a[0]
                if cs is None:
                    rs = k.get("index", a[0] if a else None)
                    ix = [rs] if isinstance(rs, (int, str)) else it.items_of(rs, n)
                    if set(k) - {"index", "axis"} or not all(type(x) in (int, str) for x in ix):
                        it.undecided("drop of rows", n)
                    if any(x not in self.index for x in ix):
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("KeyError"), it.where(n))
                    return self.keep([i for i, l in enumerate(self.index) if l not in ix])
                cs = [cs] if isinstance(cs, str) else it.items_of(cs, n)
                for c in cs:
                    if c not in self.cols:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("KeyError", (c,)), it.where(n))
                return FrameV({c: v for c, v in self.cols.items() if c not in cs}, self.index, self.nrows, self.iname)
            return self.meth(name, drop)
        if name in ("pivot", "pivot_table"):
            def pivot(it, a, k, n):
                if set(k) - {"index", "columns", "values"} or not all(isinstance(k.get(x), str) for x in ("index", "columns", "values")):
                    it.undecided("pivot arguments", n)
                rows, cols = [[], []]
                for lst, c in ((rows, k["index"]), (cols, k["columns"])):
                    for x in sort_cells(it, self.cols[c], n):
                        if not any(it.truth(it.v_eq(x, z, n), n) for z in lst):
                            lst.append(x)
                grid = {}
                at = lambda lst, x: next(i for i, z in enumerate(lst) if it.truth(it.v_eq(x, z, n), n))
                for i in range(self.nrows):
                    p = (at(rows, self.cols[k["index"]][i]), at(cols, self.cols[k["columns"]][i]))
                    if p in grid:
                        if name == "pivot_table":
                            it.undecided("pivot_table of repeated points", n)
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                    grid[p] = self.cols[k["values"]][i]
                return NDArr([grid.get((i, j), NAN) for i in range(len(rows)) for j in range(len(cols))], (len(rows), len(cols)))
            return self.meth(name, pivot)
        if name in ("to_numpy",):
            return self.meth(name, lambda it, a, k, n: NDArr([v[i] for i in range(self.nrows) for v in self.cols.values()], (self.nrows, len(self.cols))))
        if name == "values":
            return NDArr([v[i] for i in range(self.nrows) for v in self.cols.values()], (self.nrows, len(self.cols)))
        if name == "replace":
            def repl(it, a, k, n):
                if len(a) == 1 and not k and isinstance(a[0], DictV) and a[0].base is None:
                    a = [a[0], None]
                if k or len(a) != 2:
                    it.undecided("replace arguments", n)
                return FrameV({c: [replaced(it, x, a[0], a[1], n) for x in xs] for c, xs in self.cols.items()}, self.index, self.nrows, self.iname)
            return self.meth(name, repl)
        if name == "pop":
            def pop(it, a, k, n):
                if not isinstance(a[0], str) or a[0] not in self.cols:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("KeyError"), it.where(n))
                r = self.col(a[0])
                del self.cols[a[0]]
                return r
            return self.meth(name, pop)
        if name == "dtypes":
            return SeriesV([DTypeV(v) for v in self.cols.values()], index=list(self.cols))
        if name == "fillna":
            def fillna(it, a, k, n):
                v = k.get("value", a[0] if a else None)
                if set(k) - {"value"} or isinstance(v, (NativeV, DictV)) or v is None:
                    it.undecided("fillna arguments", n)
                return FrameV({c: [v if it.truth(isnull_cell(it, x, n), n) else x for x in xs] for c, xs in self.cols.items()}, self.index, self.nrows, self.iname)
            return self.meth(name, fillna)
        if name in ("head", "tail"):
            def head(it, a, k, n):
                m = k.get("n", a[0] if a else 5)
                if set(k) - {"n"} or type(m) is not int or m < 0:
                    it.undecided(f"{name} arguments", n)
                return self.keep(list(range(self.nrows))[:m] if name == "head" else list(range(self.nrows))[max(0, self.nrows - m):])
            return self.meth(name, head)
        if name == "drop_duplicates":
            def dups(it, a, k, n):
                _kw(it, k, ("subset", "ignore_index", "keep"), n, name)
                if k.get("keep", "first") not in ("first", "last") or not all(isinstance(c, str) for c in self.cols):
                    it.undecided("drop_duplicates arguments", n)
                sub = k.get("subset", a[0] if a else None)
                cs = list(self.cols) if sub is None else [sub] if isinstance(sub, str) else it.items_of(sub, n)
                order = list(range(self.nrows))
                if k.get("keep", "first") == "last":
                    order.reverse()
                seen, rows = [], []
                for i in order:
                    row = [self.cols[c][i] for c in cs]
                    if not any(all(same_cell(it, x, y, n) for x, y in zip(row, s)) for s in seen):
                        seen.append(row)
                        rows.append(i)
                r = self.keep(sorted(rows))
                return FrameV(r.cols, None, r.nrows) if k.get("ignore_index") is True else r
            return self.meth(name, dups)
        if name == "assign":
            def assign(it, a, k, n):
                r = FrameV(self.cols, self.index, self.nrows, self.iname)
                for c, v in k.items():
                    if isinstance(v, (FuncV, BoundV, PyFn)):
                        v = it.call(v, [r], {}, n)
                    r.setitem(it, c, v, n)
                return r
            return self.meth(name, assign)
        if name in ArrV.RED and name not in ("any", "all"):
            def red(it, a, k, n):
                _kw(it, k, ("skipna", "numeric_only", "ddof"), n, name)
                skip = it.truth(k.get("skipna", True), n)
                return SeriesV([reduce_cells(it, name, v, skip, n, k.get("ddof", 1), "pandas") for v in self.cols.values()], index=list(self.cols))
            return self.meth(name, red)
        it.undecided(f"DataFrame attribute {name}", node)


# ------------------------------------------------------------------ xarray
def strides(shape):
    out = []
    p = 1
    for n in reversed(shape):
        out.append(p)
        p *= n
    return list(reversed(out))


class DataV(ArrV):
    tname = "xarray.DataArray"
    skip_default = True
    ddof = 0
    lib = "xarray"

    def __init__(self, cells, dims, coords, name=None):
        self.cells = list(cells)
        self.dims = tuple(dims)
        self.coords = {d: list(coords[d]) for d in self.dims}
        self.shape = tuple(len(self.coords[d]) for d in self.dims)
        self.name = name

    def like(self, cells):
        return DataV(cells, self.dims, self.coords, self.name)

    def at(self, idx):
        p = 0
        for d, n in zip(self.dims, self.shape):
            p = p * n + idx[d]
        return self.cells[p]

    def pair(self, it, o, node):
        if isinstance(o, DataV):
            dims = list(self.dims) + [d for d in o.dims if d not in self.dims]
            coords = {**o.coords, **self.coords}
            for d in self.dims:
                if d in o.coords and o.coords[d] != self.coords[d]:
                    it.undecided("operation on arrays with different coordinates", node)
            xs, ys = [], []
            for t in itertools.product(*[range(len(coords[d])) for d in dims]):
                i = dict(zip(dims, t))
                xs.append(self.at(i))
                ys.append(o.at(i))
            return DataV(xs, dims, coords, self.name), xs, ys
        return super().pair(it, o, node)

    def keep(self, dim, rows):
        """rows of one dimension"""
        if dim not in self.dims:
            return self
        coords = dict(self.coords)
        coords[dim] = [self.coords[dim][i] for i in rows]
        cells = []
        for t in itertools.product(*[rows if d == dim else range(n) for d, n in zip(self.dims, self.shape)]):
            cells.append(self.at(dict(zip(self.dims, t))))
        return DataV(cells, self.dims, coords, self.name)

    def wrap0(self, v):
        if isinstance(v, ArrV):
            return v
        return DataV([v], (), {}, self.name)

    def sel(self, it, k, node):
        return sel(it, self, k, node)

    def attr(self, it, name, node):
        if name in ("values", "data"):
            return NDArr(self.cells, self.shape)
        if name == "to_numpy":
            return self.meth(name, lambda it, a, k, n: NDArr(self.cells, self.shape))
        if name == "dims":
            return TupleV(self.dims)
        if name == "coords":
            return DictV([(d, DataV(c, (d,), {d: c}, d)) for d, c in self.coords.items()])
        if name in self.coords:
            return DataV(self.coords[name], (name,), {name: self.coords[name]}, name)
        if name == "to_dataset":
            def tods(it, a, k, n):
                x = k.get("name", self.name)
                if a or set(k) - {"name"} or not isinstance(x, str):
                    it.undecided("to_dataset arguments", n)
                return DatasetV({x: DataV(self.cells, self.dims, self.coords, x)}, self.coords, self.dims, {y: z for y, z in getattr(self, "aux", {}).items() if y != x})
            return self.meth(name, tods)
        if name == "reindex":
            return self.meth(name, lambda it, a, k, n: reindex(it, self, a, k, n))
        if name in ("compute", "load"):
            return self.meth(name, lambda it, a, k, n: self)
        if name in ("sortby", "reset_coords", "drop_vars", "assign_coords") and isinstance(self.name, str):
            def via(it, a, k, n):
                ds = DatasetV({self.name: self}, self.coords, self.dims, getattr(self, "aux", {}))
                return it.call(ds.attr(it, name, n), a, k, n).item(it, self.name, n)
            return self.meth(name, via)
        if name == "name":
            return self.name
        if name in ("sel", "isel"):
            return self.meth(name, lambda it, a, k, n: sel(it, self, {**(dict(a[0].pairs()) if a else {}), **k}, n, name == "isel"))
        if name == "loc":
            return XLoc(self)
        if name == "drop_sel":
            def dsel(it, a, k, n):
                o = self
                for d, v in k.items():
                    vs = v.cells if isinstance(v, ArrV) else v.items if isinstance(v, (ListV, TupleV)) else [v]
                    hit = [[it.truth(it.v_eq(c, x, n), n) for x in vs] for c in o.coords[d]]
                    for j in range(len(vs)):
                        if not any(h[j] for h in hit):
                            from .interp import RaiseSig
                            raise RaiseSig(ExcV("KeyError"), it.where(n))
                    o = o.keep(d, [i for i, h in enumerate(hit) if not any(h)])
                return o
            return self.meth(name, dsel)
        if name == "where":
            return self.meth(name, lambda it, a, k, n: where(it, self, a, k, n))
        if name in ("argmin", "argmax"):
            def arg(it, a, k, n):
                skip = it.truth(k.get("skipna", True), n)
                if not skip:
                    for i, c in enumerate(self.cells):
                        if nan(c):
                            return i
                b = reduce_cells(it, name[3:], self.cells, True, n)
                if nan(b):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                return next(i for i, c in enumerate(self.cells) if not nan(c) and (c is b or c == b))
            return self.meth(name, arg)
        if name == "transpose":
            def tr(it, a, k, n):
                ds = []
                for d in a:
                    if d is Ellipsis or isinstance(d, Sym) and d.op == "ellipsis":
                        ds += [x for x in self.dims if x not in a]
                    else:
                        ds.append(d)
                if not ds:
                    ds = list(reversed(self.dims))
                if sorted(map(str, ds)) != sorted(self.dims):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                cells = [self.at(dict(zip(ds, t))) for t in itertools.product(*[range(len(self.coords[d])) for d in ds])]
                return DataV(cells, ds, self.coords, self.name)
            return self.meth(name, tr)
        if name == "T":
            return it.call(self.attr(it, "transpose", node), [], {}, node)
        if name == "dropna":
            it.undecided("dropna of a DataArray", node)
        r = self.common(it, name, node)
        if r is _MISSING:
            it.undecided(f"DataArray attribute {name}", node)
        return r

    def item(self, it, k, node):
        if isinstance(k, TupleV) and len(k.items) == len(self.dims) and all(isinstance(x, int) for x in k.items):
            for x, n in zip(k.items, self.shape):
                if not -n <= x < n:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("IndexError"), it.where(node))
            return DataV([self.at(dict(zip(self.dims, k.items)))], (), {}, self.name)
        if isinstance(k, int) and len(self.dims) == 1:
            return DataV([self.cells[k]], (), {}, self.name)
        if isinstance(k, DataV) and len(k.dims) == 1 and k.dims == self.dims and all(boolcell(c) for c in k.cells):
            return self.keep(k.dims[0], [i for i, c in enumerate(k.cells) if it.truth(c, node)])
        if isinstance(k, str) and k in self.coords:
            return self.attr(it, k, node)
        if isinstance(k, SliceV) and self.dims:
            return self.keep(self.dims[0], list(range(self.shape[0]))[slice(k.lo, k.hi, k.step)])
        it.undecided(f"DataArray subscript {show(k)}", node)

    def reduce_axis(self, it, name, a, k, node):
        ds = k.get("dim", a[0] if a else None)
        if ds is None or k.get("axis") is not None or k.get("ddof", 0) != 0:
            it.undecided(f"reduction {name} along an axis", node)
        ds = [ds] if isinstance(ds, str) else it.items_of(ds, node)
        if any(d not in self.dims for d in ds):
            from .interp import RaiseSig
            raise RaiseSig(ExcV("ValueError"), it.where(node))
        return along(it, self, name, ds, k, node)

    def iter(self, it, node):
        if len(self.dims) == 1:
            return [DataV([c], (), {}) for c in self.cells]
        it.undecided("iteration over a DataArray", node)

    def contains(self, it, a, node):
        if isinstance(a, DataV) and len(a.cells) == 1:
            a = a.cells[0]
        return bor(*[it.v_eq(a, c, node) for c in self.cells])


def sel(it, o, k, node, pos=False):
    """label (or position) based selection along dimensions"""
    for d, s in k.items():
        if d not in o.coords:
            if d in ("method", "drop", "tolerance"):
                it.undecided(f"sel argument {d}", node)
            from .interp import RaiseSig
            raise RaiseSig(ExcV("KeyError", (d,)), it.where(node))
        c = o.coords[d]
        if isinstance(s, SliceV) and pos:
            o = o.keep(d, list(range(len(c)))[slice(s.lo, s.hi, s.step)])
            continue
        if pos and type(s) is int:
            if not -len(c) <= s < len(c):
                from .interp import RaiseSig
                raise RaiseSig(ExcV("IndexError"), it.where(node))
            o = point(o, d, s % len(c))
            continue
        if not pos and isinstance(s, (int, Fraction, str)) and not isinstance(s, bool):
            hit = [i for i, x in enumerate(c) if it.decide(it.v_eq(x, s, node), node)]
            if len(hit) != 1:
                from .interp import RaiseSig
                raise RaiseSig(ExcV("KeyError"), it.where(node))
            o = point(o, d, hit[0])
            continue
        if pos and isinstance(s, (ListV, NDArr)) and all(type(x) is int and -len(c) <= x < len(c) for x in it.items_of(s, node)):
            o = o.keep(d, [x % len(c) for x in it.items_of(s, node)])
            continue
        if isinstance(s, SliceV) and s.step in (1, -1) and s.lo is None and s.hi is None:
            o = o.keep(d, list(range(len(c)))[::s.step])
            continue
        if isinstance(s, SliceV):
            if s.step is not None:
                it.undecided("stepped label slice", node)
            up = all(it.decide(it.v_lt(x, y, True, node), node) for x, y in zip(c, c[1:]))
            down = len(c) > 1 and all(it.decide(it.v_lt(y, x, True, node), node) for x, y in zip(c, c[1:]))
            if not up and not down:
                if any(x is not None and not any(it.decide(it.v_eq(x, y, node), node) for y in c) for x in (s.lo, s.hi)):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("KeyError"), it.where(node))        # pandas: non-monotonic index, absent label
                it.undecided(f"label slice over unordered {d}", node)
            lo, hi = (s.lo, s.hi) if up else (s.hi, s.lo)
            rows = [i for i, x in enumerate(c)
                    if (lo is None or it.decide(it.v_lt(lo, x, False, node), node))
                    and (hi is None or it.decide(it.v_lt(x, hi, False, node), node))]
            o = o.keep(d, rows)
            continue
        if isinstance(s, ArrV) and all(boolcell(x) for x in s.cells) and len(s.cells) == len(c):
            o = o.keep(d, [i for i, m in enumerate(s.cells) if it.truth(m, node)])
            continue
        it.undecided(f"selection by {show(s)}", node)
    return o


def point(o, d, i):
    """one position of a dimension, which becomes a scalar coordinate"""
    def one(v):
        if d not in v.dims:
            return v
        w = v.keep(d, [i])
        return DataV(w.cells, [x for x in v.dims if x != d], v.coords, v.name)
    at = DataV([o.coords[d][i]], (), {}, d)
    if isinstance(o, DataV):
        r = one(o)
        r.aux = {**getattr(o, "aux", {}), d: at}
        return r
    r = o.each(one, {x: c for x, c in o.coords.items() if x != d}, [x for x in o.dims if x != d])
    r.aux[d] = at
    return r


def along(it, v, name, ds, k, node):
    """a DataArray reduced along dimensions"""
    if not ds:
        return v
    rest = [d for d in v.dims if d not in ds]
    skip = k.get("skipna")
    out = []
    for t in itertools.product(*[range(len(v.coords[d])) for d in rest]):
        i = dict(zip(rest, t))
        cells = [v.at({**i, **dict(zip(ds, u))}) for u in itertools.product(*[range(len(v.coords[d])) for d in ds])]
        out.append(reduce_cells(it, name, cells, True if skip is None else it.truth(skip, node), node, 0, "xarray"))
    return DataV(out, rest, v.coords, v.name)


def reindex(it, o, a, k, node):
    """the dataset at other labels of its dimensions"""
    for d, v in {**(dict(a[0].pairs()) if a else {}), **k}.items():
        if d not in o.coords or isinstance(o, DataV) and d not in o.dims:
            it.undecided(f"reindex argument {d}", node)
        want = v.cells if isinstance(v, ArrV) else it.items_of(v, node)
        rows = []
        for w in want:
            hit = [i for i, c in enumerate(o.coords[d]) if it.decide(it.v_eq(c, w, node), node)]
            if len(hit) != 1:
                it.undecided("reindex to other labels", node)
            rows.append(hit[0])
        o = o.keep(d, rows)
    return o


class XLoc(NativeV):
    tname = "xarray.loc"

    def __init__(self, o):
        self.o = o

    def item(self, it, k, node):
        if isinstance(k, DictV):
            return sel(it, self.o, dict(k.pairs()), node)
        it.undecided("loc subscript", node)


def where(it, o, a, k, node):
    """o.where(cond, drop=...)"""
    _kw(it, k, ("drop", "cond", "other"), node, "where")
    cond = k.get("cond", a[0] if a else None)
    if isinstance(cond, (FuncV, BoundV, PyFn)):
        cond = it.call(cond, [o], {}, node)
    other = k.get("other", a[1] if len(a) > 1 else NAN)
    drop = it.truth(k.get("drop", False), node)
    if not isinstance(cond, DataV):
        it.undecided(f"where condition {show(cond)}", node)
    m = cond.like([it.truth(c, node) for c in cond.cells])

    def one(v):
        s, xs, ms = v.pair(it, m, node)
        if set(s.dims) != set(v.dims):
            it.undecided("where condition adds a dimension", node)
        r = s.like([x if c else other for x, c in zip(xs, ms)])
        return r
    if isinstance(o, DataV):
        r = one(o)
    else:
        r = DatasetV({n: one(v) for n, v in o.vars.items()}, o.coords, o.dims, o.aux)
    if drop:
        for d in m.dims:
            rows = []
            for i in range(len(m.coords[d])):
                if any(c for t, c in zip(itertools.product(*[range(n) for n in m.shape]), m.cells) if t[m.dims.index(d)] == i):
                    rows.append(i)
            r = r.keep(d, rows)
    return r


class DatasetV(NativeV):
    tname = "xarray.Dataset"

    def __init__(self, vars, coords, dims=None, aux=None):
        self.vars = dict(vars)
        self.coords = {d: list(c) for d, c in coords.items()}
        self.dims = tuple(dims or self.coords)
        self.aux = dict(aux or {})          # coordinates that are no axis: scalars, or given per point

    def each(self, f, coords=None, dims=None):
        """the same dataset with every array mapped"""
        return DatasetV({n: f(v) for n, v in self.vars.items()}, self.coords if coords is None else coords, self.dims if dims is None else dims, {n: f(v) for n, v in self.aux.items()})

    def keep(self, dim, rows):
        coords = dict(self.coords)
        coords[dim] = [self.coords[dim][i] for i in rows]
        return self.each(lambda v: v.keep(dim, rows), coords)

    def arith(self, it, op, b, node, swap=False):
        """variable by variable, with a number, an array or a dataset of the same variables"""
        if isinstance(b, DatasetV):
            if set(b.vars) != set(self.vars) or any(b.coords.get(d, c) != c for d, c in self.coords.items()):
                it.undecided("arithmetic on datasets that differ", node)
            f = lambda n, v: it.binop(op, v, b.vars[n], node)
        elif isinstance(b, (int, Fraction, Num, Sym)) or isinstance(b, DataV) and set(b.dims) <= set(self.dims):
            f = lambda n, v: it.binop(op, b, v, node) if swap else it.binop(op, v, b, node)
        else:
            it.undecided("arithmetic on whole tables", node)
        return DatasetV({n: f(n, v) for n, v in self.vars.items()}, self.coords, self.dims, self.aux)

    def rarith(self, it, op, a, node):
        return self.arith(it, op, a, node, True)

    def contains(self, it, a, node):
        return bor(*[it.v_eq(a, c, node) for c in list(self.vars) + list(self.coords) + list(self.aux)])

    def length(self, it, node):
        return len(self.vars)

    def iter(self, it, node):
        return list(self.vars)

    def item(self, it, k, node):
        if isinstance(k, str):
            if k in self.vars or k in self.aux:
                v = self.vars[k] if k in self.vars else self.aux[k]
                if self.aux:
                    v = DataV(v.cells, v.dims, v.coords, v.name)
                    v.aux = {n: x for n, x in self.aux.items() if set(x.dims) <= set(v.dims)}
                return v
            if k in self.coords:
                return DataV(self.coords[k], (k,), {k: self.coords[k]}, k)
            from .interp import RaiseSig
            raise RaiseSig(ExcV("KeyError", (k,)), it.where(node))
        if isinstance(k, ListV) and k.items and all(isinstance(x, str) and (x in self.vars or x in self.coords or x in self.aux) for x in k.items):
            vs = {x: self.vars[x] for x in k.items if x in self.vars}
            used = {d for v in vs.values() for d in v.dims} | {x for x in k.items if x in self.coords}
            return DatasetV(vs, {d: c for d, c in self.coords.items() if d in used}, [d for d in self.dims if d in used], {n: x for n, x in self.aux.items() if set(x.dims) <= used})
        if isinstance(k, ListV) and any(isinstance(x, str) for x in k.items):
            from .interp import RaiseSig
            raise RaiseSig(ExcV("KeyError"), it.where(node))
        it.undecided(f"Dataset subscript {show(k)}", node)

    def setitem(self, it, k, v, node):
        if isinstance(k, str) and isinstance(v, TupleV) and len(v.items) == 2 and isinstance(v.items[1], ArrV):
            dims = [x for x in it.items_of(v.items[0], node)]
            if tuple(v.items[1].shape) != tuple(len(self.coords[d]) for d in dims):
                from .interp import RaiseSig
                raise RaiseSig(ExcV("ValueError"), it.where(node))
            self.vars[k] = DataV(v.items[1].cells, dims, self.coords, k)
            return
        if isinstance(k, str) and isinstance(v, DataV) and k not in self.coords:
            if any(d not in self.coords or v.coords[d] != self.coords[d] for d in v.dims):
                it.undecided(f"Dataset store at {k} with other coordinates", node)
            (self.aux if k in self.aux else self.vars)[k] = DataV(v.cells, v.dims, v.coords, k)
            return
        it.undecided(f"Dataset store at {show(k)}", node)

    def attr(self, it, name, node):
        if name in self.vars or name in self.coords or name in self.aux:
            return self.item(it, name, node)
        if name == "coords":
            return DictV([(d, DataV(c, (d,), {d: c}, d)) for d, c in self.coords.items()] + list(self.aux.items()))
        if name in ("data_vars", "variables"):
            return DictV(list(self.vars.items()) + ([(d, DataV(c, (d,), {d: c}, d)) for d, c in self.coords.items()] if name == "variables" else []))
        if name == "keys":
            return self.meth(name, lambda it, a, k, n: ListV(list(self.vars)))
        if name == "dims":
            return DictV([(d, len(self.coords[d])) for d in self.dims])
        if name == "sizes":
            return DictV([(d, len(self.coords[d])) for d in self.dims])
        if name in ("sel", "isel"):
            return self.meth(name, lambda it, a, k, n: sel(it, self, {**(dict(a[0].pairs()) if a else {}), **k}, n, name == "isel"))
        if name == "loc":
            return XLoc(self)
        if name == "drop_sel":
            def dsel(it, a, k, n):
                o = self
                for d, v in k.items():
                    vs = v.cells if isinstance(v, ArrV) else v.items if isinstance(v, (ListV, TupleV)) else [v]
                    hit = [[it.truth(it.v_eq(c, x, n), n) for x in vs] for c in o.coords[d]]
                    for j in range(len(vs)):
                        if not any(h[j] for h in hit):
                            from .interp import RaiseSig
                            raise RaiseSig(ExcV("KeyError"), it.where(n))
                    o = o.keep(d, [i for i, h in enumerate(hit) if not any(h)])
                return o
            return self.meth(name, dsel)
        if name == "where":
            return self.meth(name, lambda it, a, k, n: where(it, self, a, k, n))
        if name == "copy":
            return self.meth(name, lambda it, a, k, n: self.each(lambda v: v))
        if name in ("compute", "load", "close", "persist"):
            return self.meth(name, lambda it, a, k, n: self.each(lambda v: v) if not a and not k else it.undecided(f"{name} arguments", n))
        if name in ("__enter__", "__exit__"):
            return self.meth(name, lambda it, a, k, n: self if name == "__enter__" else None)
        if name == "reset_coords":
            def resetc(it, a, k, n):
                _kw(it, k, ("names", "drop"), n, name)
                xs = k.get("names", a[0] if a else None)
                xs = list(self.aux) if xs is None else [xs] if isinstance(xs, str) else it.items_of(xs, n)
                if any(x not in self.aux for x in xs):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                drop = it.truth(k.get("drop", False), n)
                return DatasetV({**self.vars, **({} if drop else {x: self.aux[x] for x in xs})}, self.coords, self.dims, {x: v for x, v in self.aux.items() if x not in xs})
            return self.meth(name, resetc)
        if name == "reindex":
            return self.meth(name, lambda it, a, k, n: reindex(it, self, a, k, n))
        if name in ("mean", "sum", "max", "min", "median"):
            def red(it, a, k, n):
                _kw(it, k, ("dim", "skipna", "keep_attrs"), n, name)
                ds = k.get("dim", a[0] if a else None)
                if ds is None:
                    it.undecided(f"{name} of a Dataset", n)
                ds = [ds] if isinstance(ds, str) else it.items_of(ds, n)
                for d in ds:
                    if d not in self.coords:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                kk = {x: y for x, y in k.items() if x == "skipna"}
                return DatasetV({x: along(it, v, name, [d for d in ds if d in v.dims], kk, n) for x, v in self.vars.items()}, {d: c for d, c in self.coords.items() if d not in ds}, [d for d in self.dims if d not in ds],
                                {x: v for x, v in self.aux.items() if not set(ds) & set(v.dims)})
            return self.meth(name, red)
        if name == "assign":
            def assign(it, a, k, n):
                o = self.each(lambda v: v)
                for x, v in {**(dict(a[0].pairs()) if a else {}), **k}.items():
                    if isinstance(v, (FuncV, BoundV, PyFn)):
                        v = it.call(v, [o], {}, n)
                    o.setitem(it, x, v, n)
                return o
            return self.meth(name, assign)
        if name == "transpose":
            def trd(it, a, k, n):
                ds = [d for d in a if isinstance(d, str)] + [d for d in self.dims if d not in a] if a else list(reversed(self.dims))
                return self.each(lambda v: it.call(v.attr(it, "transpose", n), [d for d in ds if d in v.dims], {}, n))
            return self.meth(name, trd)
        if name == "rename":
            def rename(it, a, k, n):
                m = dict(a[0].pairs()) if a else dict(k)
                for x in m:
                    if x not in self.vars and x not in self.coords and x not in self.aux:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                f = lambda d: m.get(d, d)
                cs = {f(d): c for d, c in self.coords.items()}
                al = [f(x) for x in list(self.coords) + list(self.vars) + list(self.aux)]
                if len(set(al)) < len(al):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                g = lambda vs: {f(v): DataV(x.cells, [f(d) for d in x.dims], cs, f(v)) for v, x in vs.items()}
                return DatasetV(g(self.vars), cs, [f(d) for d in self.dims], g(self.aux))
            return self.meth(name, rename)
        if name == "dropna":
            def dropna(it, a, k, n):
                d = k.get("dim", a[0] if a else None)
                how = k.get("how", "any")
                rows = []
                for i in range(len(self.coords[d])):
                    bad = []
                    for v in self.vars.values():
                        if d not in v.dims:
                            it.undecided("dropna", n)
                        bad += [it.truth(isnan_cell(it, c, n), n) for c in v.keep(d, [i]).cells]
                    if not (any(bad) if how == "any" else bad and all(bad)):
                        rows.append(i)
                return self.keep(d, rows)
            return self.meth(name, dropna)
        if name == "count":
            return self.meth(name, lambda it, a, k, n: DatasetV({v: DataV([reduce_cells(it, "count", x.cells, True, n)], (), {}, v) for v, x in self.vars.items()}, {}, ()))
        if name == "values":
            return self.meth(name, lambda it, a, k, n: ListV(list(self.vars.values())))
        if name == "items":
            return self.meth(name, lambda it, a, k, n: ListV([TupleV(p) for p in self.vars.items()]))
        if name == "sortby":
            def sortby(it, a, k, n):
                _kw(it, k, ("variables", "ascending"), n, "sortby")
                d = k.get("variables", a[0] if a else None)
                if isinstance(d, (ListV, TupleV)):
                    o = self
                    for x in reversed(it.items_of(d, n)):
                        o = it.call(o.attr(it, "sortby", n), [x], {y: z for y, z in k.items() if y != "variables"}, n)
                    return o
                if isinstance(d, DataV) and d.dims == (d.name,) and d.cells == self.coords.get(d.name):
                    d = d.name
                up = k.get("ascending", a[1] if len(a) > 1 else True)
                if not isinstance(d, str) or not isinstance(up, bool):
                    it.undecided("sortby", n)
                if d not in self.coords:
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("KeyError"), it.where(n))
                c = self.coords[d]
                order = []
                for i, x in enumerate(c):
                    p = len(order)
                    while p > 0 and it.decide(it.v_lt(x, c[order[p - 1]], True, n), n):
                        p -= 1
                    order.insert(p, i)
                return self.keep(d, order if up else order[::-1])
            return self.meth(name, sortby)
        if name == "assign_coords":
            def assign(it, a, k, n):
                m = dict(k)
                if a:
                    m.update(dict(a[0].pairs()))
                cs = dict(self.coords)
                aux = dict(self.aux)
                for d, v in m.items():
                    if isinstance(v, (FuncV, BoundV, PyFn)):
                        v = it.call(v, [self], {}, n)
                    if d not in cs and (isinstance(v, (str, int, Fraction)) or type(v).__name__ == "DateV"):
                        aux[d] = DataV([v], (), {}, d)
                        continue
                    if isinstance(v, TupleV):
                        v = v.items[1]
                    cells = v.cells if isinstance(v, ArrV) else it.items_of(v, n)
                    if d not in cs or len(cells) != len(cs[d]):
                        it.undecided("assign_coords", n)
                    cs[d] = list(cells)
                g = lambda vs: {x: DataV(v.cells, v.dims, cs, x) for x, v in vs.items()}
                return DatasetV(g(self.vars), cs, self.dims, g(aux))
            return self.meth(name, assign)
        if name in ("drop_vars", "drop"):
            def dv(it, a, k, n):
                xs = [a[0]] if isinstance(a[0], str) else it.items_of(a[0], n)
                if any(x in self.coords for x in xs) or set(k) - {"errors"}:
                    it.undecided("drop_vars of a coordinate", n)
                if any(x not in self.vars and x not in self.aux for x in xs) and k.get("errors", "raise") == "raise":
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                return DatasetV({x: v for x, v in self.vars.items() if x not in xs}, self.coords, self.dims, {x: v for x, v in self.aux.items() if x not in xs})
            return self.meth(name, dv)
        if name == "to_dataframe":
            def todf(it, a, k, n):
                dims = list(self.dims)
                cols = {d: [] for d in dims}
                if a or k:
                    it.undecided("to_dataframe arguments", n)
                vs = {**self.vars, **self.aux}
                for v in vs:
                    cols[v] = []
                for t in itertools.product(*[range(len(self.coords[d])) for d in dims]):
                    i = dict(zip(dims, t))
                    for d in dims:
                        cols[d].append(self.coords[d][i[d]])
                    for v, x in vs.items():
                        cols[v].append(x.at(i))
                return MultiFrame(cols, dims)
            return self.meth(name, todf)
        if name == "attrs":
            return DictV()
        if name == "coarsen":
            return self.meth(name, lambda it, a, k, n: Coarse(it, self, a, k, n))
        if name == "thin":
            def thin(it, a, k, n):
                o = self
                for d, m in {**(dict(a[0].pairs()) if a else {}), **k}.items():
                    if d not in o.coords:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                    if type(m) is not int or m < 1:
                        it.undecided("thin", n)
                    o = o.keep(d, list(range(0, len(o.coords[d]), m)))
                return o
            return self.meth(name, thin)
        it.undecided(f"Dataset attribute {name}", node)


class Coarse(NativeV):
    """blocks of a dataset, waiting for a reduction"""
    tname = "xarray.DatasetCoarsen"

    def __init__(self, it, ds, a, k, node):
        k = dict(k)
        self.ds, self.boundary, self.side = ds, k.pop("boundary", "exact"), k.pop("side", "left")
        if k.pop("coord_func", "mean") != "mean" or self.side != "left":
            it.undecided("coarsen arguments", node)
        w = dict(a[0].pairs()) if a else {}
        w.update(k.pop("dim").pairs() if "dim" in k else {})
        w.update(k)
        self.win = w
        for d, m in w.items():
            if d not in ds.coords:
                from .interp import RaiseSig
                raise RaiseSig(ExcV("ValueError"), it.where(node))
            if type(m) is not int or m < 1:
                it.undecided("coarsen window", node)

    def attr(self, it, name, node):
        if name not in ArrV.RED:
            it.undecided(f"coarsen attribute {name}", node)

        def red(it, a, k, n):
            _kw(it, k, ("skipna", "ddof"), n, name)
            skip = k.get("skipna")
            skip = True if skip is None else it.truth(skip, n)
            blocks, cs = {}, {}
            for d, c in self.ds.coords.items():
                m = self.win.get(d, 1)
                bs = [list(range(i, min(i + m, len(c)))) for i in range(0, len(c), m)]
                if bs and len(bs[-1]) < m:
                    if self.boundary == "trim":
                        bs.pop()
                    elif self.boundary != "pad":
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                blocks[d] = bs
                cs[d] = [reduce_cells(it, "mean", [c[i] for i in b], True, n, 0) if d in self.win else c[b[0]] for b in bs]
            vs = {}
            for v, x in self.ds.vars.items():
                out = []
                for t in itertools.product(*[blocks[d] for d in x.dims]):
                    full = 1
                    for d in x.dims:
                        full *= self.win.get(d, 1)
                    cells = [x.at(dict(zip(x.dims, ix))) for ix in itertools.product(*t)]
                    out.append(reduce_cells(it, name, cells + [NAN] * (full - len(cells)), skip, n, k.get("ddof", 0), "xarray"))
                vs[v] = DataV(out, x.dims, cs, v)
            return DatasetV(vs, cs, self.ds.dims)
        return self.meth(name, red)


class MultiFrame(NativeV):
    """the frame to_dataframe() gives: coordinates in the row labels"""
    tname = "pandas.DataFrame"

    def __init__(self, cols, idx):
        self.cols, self.idx = cols, idx

    def attr(self, it, name, node):
        if name == "reset_index":
            return self.meth(name, lambda it, a, k, n: FrameV(self.cols))
        if name == "dropna":
            def dropna(it, a, k, n):
                if a or k:
                    it.undecided("dropna arguments", n)
                vs = [c for c in self.cols if c not in self.idx]
                m = len(next(iter(self.cols.values())))
                rows = [i for i in range(m) if not any(it.truth(isnull_cell(it, self.cols[c][i], n), n) for c in vs)]
                return MultiFrame({c: [v[i] for i in rows] for c, v in self.cols.items()}, self.idx)
            return self.meth(name, dropna)
        if name == "to_xarray":
            def toxr(it, a, k, n):
                lev = {}
                for d in self.idx:
                    lev[d] = []
                    for x in sort_cells(it, self.cols[d], n):
                        if not lev[d] or not same_cell(it, x, lev[d][-1], n):
                            lev[d].append(x)
                at = {}
                for r in range(len(self.cols[self.idx[0]])):
                    p = tuple(next(i for i, z in enumerate(lev[d]) if same_cell(it, self.cols[d][r], z, n)) for d in self.idx)
                    if p in at:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                    at[p] = r
                pts = list(itertools.product(*[range(len(lev[d])) for d in self.idx]))
                return DatasetV({c: DataV([v[at[p]] if p in at else NAN for p in pts], self.idx, lev, c) for c, v in self.cols.items() if c not in self.idx}, lev)
            return self.meth(name, toxr)
        it.undecided(f"DataFrame attribute {name} before reset_index", node)


def concat_xr(it, parts, dim, node):
    parts = it.items_of(parts, node)
    if not all(isinstance(p, (DatasetV, DataV)) for p in parts) or len({type(p) for p in parts}) != 1:
        it.undecided("xarray.concat", node)
    first = parts[0]
    if isinstance(first, DatasetV) and all(dim in p.aux and p.aux[dim].dims == () for p in parts):
        # parts with one label each, a new first dimension
        if any(list(p.vars) != list(first.vars) or p.coords != first.coords for p in parts):
            it.undecided("xarray.concat of misaligned parts", node)
        cs = {dim: [p.aux[dim].cells[0] for p in parts], **first.coords}
        vs = {v: DataV([c for p in parts for c in p.vars[v].cells], (dim,) + x.dims, cs, v) for v, x in first.vars.items()}
        return DatasetV(vs, cs, (dim,) + first.dims, {n: v for n, v in first.aux.items() if n != dim})
    for p in parts:
        if not isinstance(p, DataV) and (list(p.vars) != list(first.vars) or set(p.coords) != set(first.coords)) or dim not in p.coords:
            it.undecided("xarray.concat of misaligned parts", node)
        for d in first.coords:
            if d != dim and p.coords[d] != first.coords[d]:
                it.undecided("xarray.concat of misaligned parts", node)
    cs = dict(first.coords)
    cs[dim] = [c for p in parts for c in p.coords[dim]]

    def join(xs):
        v = xs[0]
        if dim not in v.dims:
            if any(x.cells != v.cells for x in xs):
                it.undecided("xarray.concat of variables without the dimension", node)
            return v                        # the others' values are the same
        out = []
        dims = v.dims
        off = []
        for n, x in enumerate(xs):
            off += [(n, i) for i in range(len(x.coords[dim]))]
        for t in itertools.product(*[range(len(cs[d])) for d in dims]):
            i = dict(zip(dims, t))
            n, j = off[i[dim]]
            i[dim] = j
            out.append(xs[n].at(i))
        return DataV(out, dims, cs, v.name)
    if isinstance(first, DataV):
        return join(parts)
    return DatasetV({v: join([p.vars[v] for p in parts]) for v in first.vars}, cs, first.dims, {n: join([p.aux[n] for p in parts]) for n in first.aux if all(n in p.aux for p in parts)})


def by_coords(it, parts, node):
    """open_mfdataset: parts put together along the one dimension they differ in, in order of its labels"""
    if len(parts) == 1:
        return parts[0]
    first = parts[0]
    ds = [d for d in first.coords if any(p.coords.get(d) != first.coords[d] for p in parts)]
    if len(ds) != 1:
        it.undecided("files that differ in several coordinates", node)
    d = ds[0]
    down = [len(p.coords[d]) > 1 and it.decide(it.v_lt(p.coords[d][1], p.coords[d][0], True, node), node) for p in parts]
    out = []
    for p in parts:
        i = len(out)
        while i > 0 and it.decide(it.v_lt(p.coords[d][0], out[i - 1].coords[d][0], True, node), node):
            i -= 1
        out.insert(i, p)
    return concat_xr(it, ListV(out[::-1] if any(down) else out), d, node)


# ------------------------------------------------------------------ library calls
def frame(it, a, k, n):
    d = k.get("data", a[0] if a else None)
    if set(k) - {"data", "columns", "index"} or len(a) > 1:
        it.undecided("DataFrame arguments", n)
    if d is None and not set(k) & {"columns", "index"}:
        return FrameV({}, None, 0)
    if d is None and set(k) == {"columns"}:
        return FrameV({c: [] for c in it.items_of(k["columns"], n)}, None, 0)
    if isinstance(d, DictV) and set(k) <= {"data", "index"} and "index" in k and isinstance(k["index"], ListV) and d.keys and not any(isinstance(v, (ListV, TupleV, ArrV, DictV)) for _, v in d.pairs()):
        return FrameV({c: [v] * len(k["index"].items) for c, v in d.pairs()}, k["index"].items, len(k["index"].items))
    if isinstance(d, (ListV, TupleV)) and not getattr(d, "generic", False) and "index" not in k:
        rows = d.items
        if rows and all(isinstance(r, DictV) and list(r.keys) == list(rows[0].keys) for r in rows) and "columns" not in k:
            return FrameV({c: [dict(r.pairs())[c] for r in rows] for c in rows[0].keys}, None, len(rows))
        if rows and all(isinstance(r, DictV) and r.base is None and all(isinstance(c, str) for c in r.keys) for r in rows) and "columns" not in k:
            ks = list(dict.fromkeys(c for r in rows for c in r.keys))
            return FrameV({c: [dict(r.pairs()).get(c, NAN) for r in rows] for c in ks}, None, len(rows))
        if "columns" in k and all(isinstance(r, (ListV, TupleV)) for r in rows):
            cs = it.items_of(k["columns"], n)
            if all(len(r.items) == len(cs) for r in rows):
                return FrameV({c: [r.items[i] for r in rows] for i, c in enumerate(cs)}, None, len(rows))
    if isinstance(d, FrameV) and not set(k) & {"columns", "index"}:
        return FrameV(d.cols, d.index, d.nrows, d.iname)
    if isinstance(d, DictV) and not set(k) & {"columns", "index"} and all(isinstance(x, str) for x in d.keys):
        seq = {c: it.items_of(v, n) for c, v in d.pairs() if isinstance(v, (ListV, TupleV, ArrV))}
        if seq and len({len(v) for v in seq.values()}) == 1 and not any(isinstance(v, SeriesV) for _, v in d.pairs()):
            m = len(next(iter(seq.values())))
            return FrameV({c: seq[c] if c in seq else [v] * m for c, v in d.pairs()}, None, m)
    it.undecided("DataFrame arguments", n)


def date_range(it, a, k, n):
    import datetime
    from .dates import DateV
    lo, hi = k.get("start", a[0] if a else None), k.get("end", a[1] if len(a) > 1 else None)
    inc = k.get("inclusive", "both")
    if set(k) - {"start", "end", "freq", "inclusive"} or inc not in ("both", "left", "right", "neither") or k.get("freq", "D") != "D" or len(a) > 2 or not all(isinstance(x, str) for x in (lo, hi)):
        it.undecided("date_range arguments", n)
    x, y = (datetime.datetime.fromisoformat(t) for t in (lo, hi))
    days = [DateV(x + datetime.timedelta(days=i)) for i in range((y - x).days + 1)]
    if inc in ("right", "neither"):
        days = days[1:]
    if inc in ("left", "neither") and days and days[-1].v == y:
        days = days[:-1]
    return IndexV(days)


def dataset(it, a, k, n):
    vs, cs = k.get("data_vars", a[0] if a else None), k.get("coords", a[1] if len(a) > 1 else None)
    if not isinstance(vs, DictV) or not isinstance(cs, DictV) or set(k) - {"data_vars", "coords"} or len(a) > 2:
        it.undecided("xarray.Dataset arguments", n)
    co = {}
    for d, v in cs.pairs():
        if isinstance(v, TupleV) and len(v.items) == 2 and v.items[0] == d:
            v = v.items[1]
        co[d] = list(it.items_of(v, n))
    out = {}
    for x, v in vs.pairs():
        if not isinstance(v, TupleV) or len(v.items) != 2:
            it.undecided("xarray.Dataset arguments", n)
        dims = [v.items[0]] if isinstance(v.items[0], str) else it.items_of(v.items[0], n)
        arr = nested(it, v.items[1], n)
        if any(d not in co for d in dims) or list(arr.shape) != [len(co[d]) for d in dims]:
            it.undecided("xarray.Dataset arguments", n)
        out[x] = DataV(arr.cells, dims, {d: co[d] for d in dims}, x)
    return DatasetV(out, co)


TRIG = ("sin", "cos", "radians", "deg2rad", "degrees", "rad2deg")


def trig(it, last, c, n):
    """exact at the multiples of 30 and 45 degrees, a term elsewhere; pi is a constant of the domain"""
    pi = it.dom.pi
    if last in ("radians", "deg2rad"):
        return it.binop(ast.Mult(), c, pi / 180, n)
    if last in ("degrees", "rad2deg"):
        return it.binop(ast.Mult(), c, 180 / pi, n)
    f = as_fraction(c)
    if f is not None:
        d = f / pi * 180
        if d.denominator == 1 and (d % 30 == 0 or d % 45 == 0):
            d = int(d + (90 if last == "cos" else 0)) % 360
            sg, d = (-1, d - 180) if d > 180 else (1, d)
            d = min(d, 180 - d)
            return mknum(pmul(poly({0: 0, 30: Fraction(1, 2), 45: Sym("sqrt", Fraction(1, 2)), 60: Sym("sqrt", Fraction(3, 4)), 90: 1}[d]), poly(sg)))
    return Sym(last, freeze(c))


def atan2(it, p, q, n):
    pi = getattr(it.dom, "pi", None)
    fp, fq = as_fraction(p), as_fraction(q)
    if pi is not None and fp is not None and fq is not None and (fp == 0 or fq == 0 or abs(fp) == abs(fq)):
        sg = lambda x: (x > 0) - (x < 0)
        return pi * Fraction({(0, 0): 0, (0, 1): 0, (1, 1): 1, (1, 0): 2, (1, -1): 3, (0, -1): 4, (-1, -1): -3, (-1, 0): -2, (-1, 1): -1}[sg(fp), sg(fq)], 4)
    return Sym("atan2", freeze(p), freeze(q))


def nested(it, v, n):
    """an array from nested sequences"""
    if isinstance(v, ArrV):
        return NDArr(v.cells, v.shape)
    if isinstance(v, (ListV, TupleV)) and not it.is_generic(v):
        xs = [nested(it, x, n) for x in v.items]
        if len({x.shape for x in xs}) > 1:
            it.undecided("ragged array", n)
        return NDArr([c for x in xs for c in x.cells], (len(xs),) + (xs[0].shape if xs else ()))
    return NDArr([v], ())


def nd_call(it, path, last, a, k, n):
    """numpy functions that make arrays"""
    from .builtins_model import np_call
    if last in ("linspace", "arange"):
        if last == "linspace":
            if "num" in k:
                a, k = list(a) + [k["num"]], {x: y for x, y in k.items() if x != "num"}
            if set(k) - {"endpoint"} or len(a) != 3:
                it.undecided("linspace arguments", n)
        r = np_call(it, path, last, a, k, n)
        return NDArr(r.items) if isinstance(r, ListV) else it.undecided(f"{last} arguments", n)
    if last in ("array", "asarray") and a and isinstance(a[0], (ListV, TupleV)) and not set(k) - {"dtype"}:
        r = nested(it, a[0], n)
        return it.call(r.attr(it, "astype", n), [k["dtype"]], {}, n) if k.get("dtype") is not None else r
    if last == "reshape" and len(a) == 2 and not k and isinstance(a[0], (ArrV, ListV, TupleV)):
        x = a[0] if isinstance(a[0], NDArr) else NDArr(a[0].cells, a[0].shape) if isinstance(a[0], ArrV) else nested(it, a[0], n)
        return it.call(x.attr(it, "reshape", n), [a[1]], {}, n)
    if last in ("zeros", "ones", "full", "empty") and a and not set(k) - {"dtype"}:
        sh = [a[0]] if type(a[0]) is int else it.items_of(a[0], n)
        m = 1
        for x in sh:
            if type(x) is not int:
                return _MISSING
            m *= x
        v = a[1] if last == "full" else 0 if last == "zeros" else 1 if last == "ones" else NAN
        return NDArr([v] * m, sh)
    if last in ("zeros_like", "ones_like", "full_like") and a and isinstance(a[0], ArrV) and not set(k) - {"dtype"}:
        z = NDArr([a[1] if last == "full_like" else 0 if last == "zeros_like" else 1] * len(a[0].cells), a[0].shape)
        if k.get("dtype") is None and a[0].cells and all(type(c) is int for c in a[0].cells):
            z.whole = True                  # an array of whole numbers
        return z
    if last == "meshgrid" and len(a) == 2 and all(isinstance(x, ArrV) and len(x.shape) == 1 for x in a) and k.get("indexing", "xy") in ("xy", "ij") and not set(k) - {"indexing"}:
        p, q = a[0].cells, a[1].cells
        if k.get("indexing", "xy") == "xy":
            return ListV([NDArr([x for y in q for x in p], (len(q), len(p))), NDArr([y for y in q for x in p], (len(q), len(p)))])
        return ListV([NDArr([x for x in p for y in q], (len(p), len(q))), NDArr([y for x in p for y in q], (len(p), len(q)))])
    if last == "vstack" and len(a) == 1 and isinstance(a[0], ArrV) and len(a[0].shape) == 1:
        return NDArr(a[0].cells, (len(a[0].cells), 1))
    if last == "log10" and len(a) == 1 and isinstance(a[0], ArrV) and not set(k) - {"where", "out"}:
        x, w, o = a[0], k.get("where", True), k.get("out")
        if o is not None and (not isinstance(o, ArrV) or o.shape != x.shape) or o is None and w is not True:
            it.undecided("numpy.log10 arguments", n)
        if getattr(o, "whole", False):
            from .interp import RaiseSig
            raise RaiseSig(ExcV("TypeError"), it.where(n))       # a logarithm does not fit into an integer array
        from .builtins_model import digits_call
        ws = broadcast(it, [w, x], n)[0].cells if isinstance(w, ArrV) else [w] * len(x.cells)
        out = []
        for i, (c, m) in enumerate(zip(x.cells, ws)):
            if not it.truth(m, n):
                out.append(o.cells[i])
                continue
            r = NAN if nan(c) else digits_call(it, "log10", [c], {}, n)
            if r is _MISSING:
                it.undecided("logarithm of a number not above 0", n)
            out.append(r)
        if o is not None:
            o.cells = list(out)
            return o
        return NDArr(out, x.shape)
    if last in ("floor", "ceil") and len(a) == 1 and not isinstance(a[0], ArrV):
        return _MISSING
    if last in ("floor", "ceil") and len(a) == 1 and any(isinstance(c, Sym) and c.op == "log10" for c in a[0].cells):
        from .builtins_model import digits_call
        g = lambda c: c if nan(c) else digits_call(it, last, [c], {}, n)
        r = [g(c) for c in a[0].cells]
        if any(c is _MISSING for c in r):
            it.undecided(last, n)
        return NDArr(r, a[0].shape)
    if last in ("floor", "ceil") and len(a) == 1:
        f = lambda c: as_fraction(c) if isnum(c) and as_fraction(c) is not None else it.undecided(last, n)
        g = lambda c: f(c).__floor__() if last == "floor" else f(c).__ceil__()
        return a[0].map(g) if isinstance(a[0], ArrV) else g(a[0])
    if last in ("tile", "repeat") and len(a) == 2 and type(a[1]) is int and isinstance(a[0], ArrV) and len(a[0].shape) == 1 and not k:
        return NDArr(a[0].cells * a[1] if last == "tile" else [c for c in a[0].cells for _ in range(a[1])])
    if last == "where" and len(a) == 3 and isinstance(a[0], ArrV):
        m, x, y = broadcast(it, a, n)
        return NDArr([p if it.truth(c, n) else q for c, p, q in zip(m.cells, x.cells, y.cells)], m.shape)
    if last in ("outer",) and len(a) == 2 and all(isinstance(x, ArrV) for x in a):
        return NDArr([it.binop(ast.Mult(), p, q, n) for p in a[0].cells for q in a[1].cells], (len(a[0].cells), len(a[1].cells)))
    return _MISSING


def lib_call(it, path, last, a, k, n):
    """numpy / pandas / xarray functions over tables; _MISSING: not about tables"""
    top = path.split(".")[0]
    if top == "xarray" and last == "concat":
        dim = k.get("dim", a[1] if len(a) > 1 else None)
        if isinstance(dim, str):
            return concat_xr(it, a[0], dim, n)
    if top == "pandas" and last == "concat":
        parts = it.items_of(a[0], n)
        if len(parts) > 1 and all(isinstance(p, FrameV) for p in parts):
            parts = [p for p in parts if p.cols or p.nrows] or parts[:1]      # a table without columns adds nothing
        if not parts:
            from .interp import RaiseSig
            raise RaiseSig(ExcV("ValueError"), it.where(n))
        if all(isinstance(p, FrameV) for p in parts) and parts and all(list(p.cols) == list(parts[0].cols) for p in parts):
            _kw(it, k, ("ignore_index", "axis"), n, "concat")
            if k.get("axis", 0) != 0:
                it.undecided("concat of columns", n)
            ix = None if it.truth(k.get("ignore_index", False), n) else [x for p in parts for x in p.index]
            return FrameV({c: [x for p in parts for x in p.cols[c]] for c in parts[0].cols}, ix, None, parts[0].iname if ix is not None and len({p.iname for p in parts}) == 1 else None)
    if path in ("numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.median", "numpy.sum", "numpy.nanmax", "numpy.nanmin", "numpy.nanmedian", "numpy.nansum") and getattr(it.dom, "ndarrays", False) and len(a) == 1 and not k \
            and isinstance(a[0], (ListV, TupleV)) and not getattr(a[0], "generic", False) and a[0].items and all(isinstance(x, (bool, int, Fraction)) or nan(x) for x in a[0].items):
        return reduce_cells(it, last.replace("nan", "").replace("amax", "max").replace("amin", "min"), list(a[0].items), last.startswith("nan"), n)
    if path in ("numpy.mean", "numpy.nanmean", "numpy.average", "statistics.mean") and len(a) == 1 and not k and (nan(a[0]) or isinstance(a[0], (ListV, TupleV, bool, int, Fraction, float, str))) and not getattr(a[0], "generic", False):
        xs = it.items_of(a[0], n) if isinstance(a[0], (ListV, TupleV)) else [a[0]]
        if xs and any(isinstance(x, str) for x in xs):
            from .interp import RaiseSig
            raise RaiseSig(ExcV("TypeError"), it.where(n))
        if xs and all(isinstance(x, (bool, int, Fraction, float)) or nan(x) for x in xs):
            inf = [x for x in xs if isinstance(x, float) and x in (float("inf"), -float("inf"))]
            if inf and (last == "nanmean" or not any(nan(x) for x in xs)):
                return inf[0] if len(set(inf)) == 1 else NAN
            if not inf:
                return reduce_cells(it, "mean", xs, last == "nanmean", n)
    if path == "numpy.append" and len(a) == 2 and not k and getattr(it.dom, "ndarrays", False):
        parts = []
        for x in a:
            x = NDArr([c for y in x.items for c in (y.items if isinstance(y, (ListV, TupleV)) else y.cells if isinstance(y, ArrV) else [y])]) if isinstance(x, (ListV, TupleV)) and not getattr(x, "generic", False) else x
            if isinstance(x, ArrV):
                parts += x.cells
            elif isinstance(x, (bool, int, Fraction, float, Num, Sym)):
                parts.append(x)
            else:
                it.undecided("numpy.append", n)
        return NDArr(parts, (len(parts),))
    if path == "pandas.Series" and (not a or isinstance(a[0], (ListV, TupleV, ArrV))) and not set(k) - {"index", "name"}:
        return SeriesV(it.items_of(a[0], n) if a else [], index=it.items_of(k["index"], n) if k.get("index") is not None else None, name=k.get("name"))
    if path == "pandas.DataFrame":
        return frame(it, a, k, n)
    if path == "pandas.date_range":
        return date_range(it, a, k, n)
    if top == "numpy" and getattr(it.dom, "ndarrays", False):
        r = nd_call(it, path, last, a, k, n)
        if r is not _MISSING:
            return r
    if path == "xarray.Dataset" and getattr(it.dom, "ndarrays", False):
        return dataset(it, a, k, n)
    if not any(isinstance(x, NativeV) for x in a):
        if not (a and isinstance(a[0], (ListV, TupleV)) and any(isinstance(x, NativeV) for x in a[0].items)):
            return _MISSING
    if top == "numpy":
        x = a[0]
        if isinstance(x, (ListV, TupleV)):
            if all(isinstance(y, ArrV) and y.shape == x.items[0].shape for y in x.items):
                if last == "stack" and (set(k) <= {"axis"}) and len(a) == 1 and k.get("axis", 0) in (-1, len(x.items[0].shape)):
                    return NDArr([y.cells[i] for i in range(len(x.items[0].cells)) for y in x.items], x.items[0].shape + (len(x.items),))
                if last == "stack" and (set(k) <= {"axis"}) and len(a) == 1 and type(k.get("axis", 0)) is int:
                    sh = x.items[0].shape
                    ax = k.get("axis", 0)
                    ax = ax + len(sh) + 1 if ax < 0 else ax
                    if not 0 <= ax <= len(sh):
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                    import itertools as _it
                    out = []
                    ns = sh[:ax] + (len(x.items),) + sh[ax:]
                    for p in _it.product(*[range(z) for z in ns]):
                        q, o = p[:ax] + p[ax + 1:], 0
                        for z, w in zip(q, sh):
                            o = o * w + z
                        out.append(x.items[p[ax]].cells[o])
                    return NDArr(out, ns)
                if last == "column_stack" and not k and len(x.items[0].shape) == 1:
                    return NDArr([y.cells[i] for i in range(len(x.items[0].cells)) for y in x.items], x.items[0].shape + (len(x.items),))
                if last in ("array", "asarray", "vstack", "stack") and (not k or k == {"axis": 0} and last == "stack") and (last != "vstack" or len(x.items[0].shape) == 1):
                    return NDArr([c for y in x.items for c in y.cells], (len(x.items),) + x.items[0].shape)
                if path == "numpy.linalg.norm" and k.get("axis") == 0 and len(a) == 1:
                    return NDArr([sqrt(it, total(it, [sq(it, y.cells[i], n) for y in x.items], n), n) for i in range(len(x.items[0].cells))], x.items[0].shape)
                if last == "dstack" and len(x.items[0].shape) == 2:
                    return NDArr([y.cells[i] for i in range(len(x.items[0].cells)) for y in x.items], x.items[0].shape + (len(x.items),))
                if last == "hypot":
                    pass
            it.undecided(f"{path} of a list of tables", n)
        if isinstance(x, ArrV):
            if last in ("array", "asarray", "ravel"):
                return NDArr(x.cells, x.shape if last != "ravel" else None)
            if last == "swapaxes" and len(a) == 3:
                return NDArr(x.cells, x.shape).swap(a[1], a[2])
            if last == "transpose" and len(a) == 1 and not k:
                return NDArr(x.cells, x.shape).permute(list(reversed(range(len(x.shape)))))
            if last == "gradient" and len(a) == 1 and len(x.shape) > 1 and k.get("axis") is None and set(k) <= {"axis"}:
                return ListV([it.call(ExtV("numpy.gradient"), [x], {"axis": i}, n) for i in range(len(x.shape))])
            if last in ("gradient", "diff") and len(a) == 1 and isinstance(k.get("axis", 0 if len(x.shape) == 1 else None), int) and set(k) <= {"axis"}:
                ax = k.get("axis", 0) % len(x.shape)
                if last == "gradient":
                    if x.shape[ax] < 2:
                        from .interp import RaiseSig
                        raise RaiseSig(ExcV("ValueError"), it.where(n))
                    out = [None] * len(x.cells)
                    sub = lambda p, q, m: NAN if nan(p) or nan(q) else it.binop(ast.Div(), it.binop(ast.Sub(), p, q, n), m, n)
                    for line in NDArr(x.cells, x.shape).along(ax):
                        v = [x.cells[i] for i in line]
                        for j, i in enumerate(line):
                            out[i] = sub(v[1], v[0], 1) if j == 0 else sub(v[-1], v[-2], 1) if j == len(v) - 1 else sub(v[j + 1], v[j - 1], 2)
                    return NDArr(out, x.shape)
                it.undecided("numpy.diff", n)
            if last in ("isnan", "isnull"):
                return x.map(lambda c: isnan_cell(it, c, n))
            if last == "isfinite":
                return x.map(lambda c: False if isinstance(c, float) and c in (float("inf"), -float("inf")) else bnot(isnan_cell(it, c, n)))
            if last in ("abs", "absolute", "fabs"):
                from .builtins_model import b_abs
                return x.map(lambda c: NAN if nan(c) else b_abs(it, [c], {}, n))
            if last == "sqrt":
                return x.map(lambda c: sqrt(it, c, n))
            if last == "average" and set(k) <= {"weights"} and len(a) == 1 and len(x.shape) == 1:
                ws = it.items_of(k["weights"], n) if k.get("weights") is not None else [1] * len(x.cells)
                if len(ws) != len(x.cells):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                w = total(it, ws, n)
                if not nan(w) and not it.truth(it.compare(ast.NotEq(), w, 0, n), n):
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ZeroDivisionError"), it.where(n))
                unb = lambda c: int(c) if isinstance(c, bool) else c
                return it.binop(ast.Div(), total(it, [it.binop(ast.Mult(), unb(c), v, n) for c, v in zip(x.cells, ws)], n), w, n)
            if last == "power" and len(a) == 2 and not k and not isinstance(a[1], NativeV):
                return x.map(lambda c: NAN if nan(c) else it.binop(ast.Pow(), c, a[1], n))
            if last == "square":
                return x.map(lambda c: sq(it, c, n))
            if last in ("logical_not", "invert"):
                return x.map(lambda c: bnot(it.truthterm(c)))
            if last in ("logical_and", "logical_or"):
                op = ast.BitAnd() if last == "logical_and" else ast.BitOr()
                return it.binop(op, a[0], a[1], n)
            if last in ("flatnonzero", "nonzero") or last == "where" and len(a) == 1:
                if len(x.shape) == 1 and all(boolcell(c) for c in x.cells):
                    r = NDArr([i for i, c in enumerate(x.cells) if it.truth(c, n)])
                    return r if last == "flatnonzero" else TupleV([r])
            if last == "count_nonzero" and len(a) == 1 and not k:
                return len([c for c in x.cells if it.truth(c, n)])
            red = last[3:] if last.startswith("nan") else last
            red = {"amin": "min", "amax": "max"}.get(red, red)
            if red in ArrV.RED and (not k or set(k) <= {"ddof", "axis"}) and len(a) == 1:
                skip = last.startswith("nan")
                if k.get("axis") is not None:
                    return x.reduce_axis(it, red, [], k, n)
                if not skip and not isinstance(x, NDArr) and red not in ("any", "all"):
                    # numpy defers to the object's own method
                    return it.call(x.attr(it, red, n), [], dict(k), n)
                return reduce_cells(it, red, x.cells, skip, n, k.get("ddof", 0))
            if last in ("size",):
                return len(x.cells)
            if last == "ndim":
                return len(x.shape)
            if last == "shape":
                return TupleV(x.shape)
            if path == "numpy.linalg.norm" and isinstance(k.get("axis"), int) and len(x.shape) == 2:
                r, c = x.shape
                ax = k["axis"]
                rows = [x.cells[i * c:(i + 1) * c] for i in range(r)] if ax in (1, -1) else [[x.cells[i * c + j] for i in range(r)] for j in range(c)]
                return NDArr([sqrt(it, total(it, [sq(it, y, n) for y in row], n), n) for row in rows])
            if last == "unravel_index":
                pass
            if last in ("arctan2", "hypot") and len(a) == 2:
                if last == "hypot":
                    return x.zip(it, a[1], lambda p, q: sqrt(it, add(it, sq(it, p, n), sq(it, q, n), n), n), n)
                return x.zip(it, a[1], lambda p, q: NAN if nan(p) or nan(q) else atan2(it, p, q, n), n)
            if last == "clip" and len(a) == 3 and not k and not any(isinstance(b, NativeV) for b in a[1:]):
                def clip(c):
                    if nan(c):
                        return NAN
                    if a[1] is not None and it.decide(it.v_lt(c, a[1], True, n), n):
                        c = a[1]
                    return a[2] if a[2] is not None and it.decide(it.v_lt(a[2], c, True, n), n) else c
                return x.map(clip)
            if last == "ptp" and len(a) == 1 and not k:
                return it.binop(ast.Sub(), reduce_cells(it, "max", x.cells, False, n), reduce_cells(it, "min", x.cells, False, n), n)
            if last in ("mod", "remainder") and len(a) == 2 and not k:
                return x.zip(it, a[1], lambda p, q: NAN if nan(p) else it.binop(ast.Mod(), p, q, n), n)
            if last == "negative" and len(a) == 1:
                return x.map(lambda c: NAN if nan(c) else it.binop(ast.Mult(), -1, c, n))
            if last in TRIG and len(a) == 1 and not k and getattr(it.dom, "pi", None) is not None:
                return x.map(lambda c: NAN if nan(c) else trig(it, last, c, n))
            if last in ("subtract", "add", "multiply", "divide", "less", "greater", "less_equal", "greater_equal", "equal", "not_equal"):
                return _MISSING
            if last == "where" and len(a) == 3 and all(boolcell(c) for c in x.cells):
                p, q = a[1], a[2]
                pick = lambda v, i: v.cells[i] if isinstance(v, ArrV) else v
                return NDArr([pick(p, i) if it.truth(c, n) else pick(q, i) for i, c in enumerate(x.cells)], x.shape)
        if last == "power" and len(a) == 2 and not k and not isinstance(x, NativeV) and isinstance(a[1], ArrV):
            return a[1].map(lambda c: NAN if nan(c) else it.binop(ast.Pow(), x, c, n) if as_fraction(c) is not None else Sym("pow", freeze(x), freeze(c)))
        if isinstance(x, FrameV) and last == "isnan":
            return FrameV({c: [isnan_cell(it, y, n) for y in v] for c, v in x.cols.items()}, x.index)
    if path in ("pandas.isnull", "pandas.isna") and isinstance(a[0], ArrV):
        return a[0].map(lambda c: isnan_cell(it, c, n))
    if path in ("pandas.notnull", "pandas.notna") and isinstance(a[0], ArrV):
        return a[0].map(lambda c: bnot(isnan_cell(it, c, n)))
    if path == "pandas.api.types.is_bool_dtype" and isinstance(a[0], (ArrV, DTypeV)) and len(a) == 1 and not k:
        t = a[0] if isinstance(a[0], DTypeV) else DTypeV(a[0].cells)
        if t.kind is None:
            it.undecided("type of a column", n)
        return t.kind == "bool"
    if path == "pandas.to_numeric" and isinstance(a[0], ArrV):
        how = k.get("errors", "raise")

        def conv(c):
            if isinstance(c, str):
                try:
                    f = float(c)
                except ValueError:
                    if how == "coerce":
                        return NAN
                    if how == "ignore":
                        it.undecided("to_numeric ignoring errors", n)
                    from .interp import RaiseSig
                    raise RaiseSig(ExcV("ValueError"), it.where(n))
                return NAN if f != f else as_fraction(f) if f not in (float("inf"), -float("inf")) else f
            if c is None:
                return NAN
            if boolcell(c) or isinstance(c, (int, float, Fraction, Num, Sym)):
                return c
            it.undecided("to_numeric of a cell", n)
        return a[0].map(conv)
    it.undecided(f"{path} of a table", n)


def unravel(it, a, n):
    i, shape = a[0], a[1]
    if isinstance(i, DataV) and len(i.cells) == 1:
        i = i.cells[0]
    if isinstance(i, int) and isinstance(shape, TupleV):
        out = []
        for s in strides(shape.items):
            out.append(i // s)
            i %= s
        return TupleV(out)
    return _MISSING

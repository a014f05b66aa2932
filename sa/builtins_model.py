"""Abstract transfer functions of Python builtins, container methods and the
few library calls whose meaning the analysis needs."""
import ast
from fractions import Fraction

from .values import *
from .values import _MISSING, as_fraction, bnot
from .tables import NativeV, ArrV, lib_call, unravel
from .interp import (RaiseSig, concat, thaw, exc_name, EXT_CONST, BUILTIN_EXC)


def _lin(it, v):
    return it.num(v)


# ------------------------------------------------------------------ builtins
def b_len(it, a, k, n):
    v = a[0]
    if isinstance(v, WrapV):
        v = v.inner
    if isinstance(v, NativeV):
        return v.length(it, n)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, (ListV, TupleV, SetV)) and not getattr(v, "generic", False):
        return len(v.items)
    if isinstance(v, DictV) and v.base is None:
        return len(v.keys)
    if isinstance(v, ObjV) and v.cls:
        f, _ = v.cls.lookup("__len__")
        if f:
            return it.call(BoundV(f, v), [], {}, n)
    if isinstance(v, Sym) and v.op in ("list", "tuple", "dict", "set"):
        return len(v.args)
    if isinstance(v, Sym) and v.op == "tolist":
        return b_len(it, [v.args[0]], {}, n)
    if isinstance(v, Sym) and v.op == "comp" and v.args[2] is True:
        return b_len(it, [v.args[0]], {}, n)
    return Sym("len", freeze(v))


def b_str(it, a, k, n):
    return it.to_str(a[0]) if a else ""


def b_int(it, a, k, n):
    if a and isinstance(a[0], ArrV) and len(a[0].cells) == 1:
        a = [a[0].cells[0]] + list(a[1:])
    if not a:
        return 0
    v = a[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int,)):
        return v
    if isinstance(v, (float, Fraction)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise RaiseSig(ExcV("ValueError"), it.where(n))
    if isinstance(v, Sym) and v.op == "str":
        return b_int(it, [v.args[0]], k, n)
    if isinstance(v, (Sym, Num)):
        if it.dom.is_int(v):
            return v
        it.maybe_raise("int", Sym("call", "int", v), n)
        return Sym("int", v)
    if isinstance(v, B):
        return Sym("int", v)
    if v is None:
        raise RaiseSig(ExcV("TypeError"), it.where(n))
    return Sym("int", freeze(v))


def b_float(it, a, k, n):
    if a and isinstance(a[0], ArrV) and len(a[0].cells) == 1:
        a = [a[0].cells[0]] + list(a[1:])
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        return v
    if isinstance(v, str):
        if v and "\ue000" in v:
            from .shapes import untoken
            x = untoken(it, v)
            if x is not None:
                return x
        try:
            f = float(v)
        except ValueError:
            raise RaiseSig(ExcV("ValueError"), it.where(n))
        fr = as_fraction(f)
        return f if fr is None else (int(fr) if fr.denominator == 1 else fr)
    if v is None:
        raise RaiseSig(ExcV("TypeError"), it.where(n))
    if isinstance(v, (Sym, Num)):
        if isinstance(v, Sym) and v.op == "str":
            return b_float(it, [v.args[0]], k, n)
        it.maybe_raise("float", Sym("call", "float", v), n)
        if getattr(it.dom, "float_identity", True):
            return v
        return Sym("float", v)
    return Sym("float", freeze(v))


def b_bool(it, a, k, n):
    return it.truthterm(a[0]) if a else False


def b_abs(it, a, k, n):
    v = a[0]
    if isinstance(v, bool):
        return int(v)
    if isnum(v):
        return abs(v)
    if isinstance(v, Sym) and v.op == "nan":
        return v
    if type(v).__name__ == "DateV":
        from .dates import DateV
        import datetime
        return DateV(abs(v.v)) if isinstance(v.v, datetime.timedelta) else it.undecided("abs() of a date", n)
    if isinstance(v, NativeV):
        return v.map(lambda c: b_abs(it, [c], {}, n)) if hasattr(v, "map") else it.undecided(f"abs() of {v.tname}", n)
    p = it.num(v)
    if p is None:
        it.undecided(f"abs() of {show(v)}", n)
    if getattr(it.dom, "split_abs", False):
        d = it.decide(blt(it.simplify(p)), n)
        return mknum({m: -c for m, c in p.items()}) if d else v
    s, q = canon(p)
    c0 = abs(sorted(p.items(), key=lambda kv: (-sum(e for _, e in kv[0]), tuple((x.key, e) for x, e in kv[0])))[0][1])
    return mknum({((Sym("abs", q), 1),): c0})


def _minmax(name):
    def f(it, a, k, n):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, WrapV):
                v = v.inner
            if isinstance(v, Sym) and v.op in ("list", "tuple"):
                v = thaw(v)
            if isinstance(v, (ListV, TupleV, SetV)) and not getattr(v, "generic", False):
                items = list(v.items)
            elif isinstance(v, DictV) and v.base is None:
                items = list(v.keys)
            elif isinstance(v, NativeV):
                items = v.iter(it, n)
            else:
                r = Sym(name, freeze(v))
                if "default" in k:
                    return Sym(name, freeze(v), Sym("kw", "default", freeze(k["default"])))
                if "key" in k:
                    return Sym(name, freeze(v), Sym("kw", "key", freeze(k["key"])))
                return r
            if not items:
                if "default" in k:
                    return k["default"]
                raise RaiseSig(ExcV("ValueError"), it.where(n))
        else:
            items = list(a)
        keyf = k.get("key")
        kv = (lambda x: it.call(keyf, [x], {}, n)) if keyf is not None else (lambda x: x)
        if it.term_mode or (any(not isnum(kv(i)) for i in items) and not getattr(it.dom, "split_minmax", True)):
            return Sym(name, *sorted([freeze(i) for i in items], key=show))
        best = items[0]
        for x in items[1:]:
            lt = it.v_lt(kv(x), kv(best), True, n) if name == "min" else it.v_lt(kv(best), kv(x), True, n)
            if it.decide(lt, n):
                best = x
        return best
    return f


def b_sum(it, a, k, n):
    v = a[0]
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if it.is_generic(v):
        fv = freeze(v)
        if isinstance(fv, Sym) and fv.op == "comp" and fv.args[1] == 1:
            return Sym("count", fv.args[0], fv.args[2])
        return Sym("sum", fv)
    r = start
    for x in it.items_of(v, n):
        r = it.binop(ast.Add(), r, x, n)
    return r


def b_any(it, a, k, n):
    v = a[0]
    if it.is_generic(v):
        fv = freeze(v)
        return B("any", fv)
    return bor(*[it.truthterm(x) for x in it.items_of(v, n)])


def b_all(it, a, k, n):
    v = a[0]
    if it.is_generic(v):
        return B("all", freeze(v))
    return band(*[it.truthterm(x) for x in it.items_of(v, n)])


def b_range(it, a, k, n):
    a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 2000:
            return Sym("range", *a)
        return ListV(list(r))
    if len(a) == 1:
        a = [0, a[0]]
    return Sym("range", *[freeze(x) for x in a])


def b_enumerate(it, a, k, n):
    v = a[0]
    if isinstance(v, WrapV):
        v = v.inner
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if it.is_generic(v):
        if isinstance(v, ListV):
            return ListV([TupleV([Sym("idx", freeze(v)), x]) for x in v.items], True)
        return Sym("enumerate", freeze(v))
    if isinstance(v, ListV):
        out = LiveEnum(v, start)
        return out
    return ListV([TupleV([i + start, x]) for i, x in enumerate(it.items_of(v, n))])


class LiveEnum(ListV):
    """enumerate() over a list that may grow while it is iterated"""

    def __init__(self, src, start):
        self.src = src
        self.start = start
        self.generic = False
        self.origin = None

    @property
    def items(self):
        return [TupleV([i + self.start, x]) for i, x in enumerate(self.src.items)]


def b_zip(it, a, k, n):
    if any(it.is_generic(x) for x in a):
        return Sym("zip", *[freeze(x) for x in a])
    return ListV([TupleV(t) for t in zip(*[it.items_of(x, n) for x in a])])


def b_list(it, a, k, n):
    if not a:
        return ListV()
    v = a[0]
    if isinstance(v, WrapV):
        v = v.inner
    if it.is_generic(v):
        if isinstance(v, ListV):
            return ListV(v.items, True)
        if isinstance(v, DictV):
            return ListV(it.items_of(v, n), True)
        if isinstance(v, Sym) and v.op in ("comp", "tolist"):
            return v
        return Sym("tolist", freeze(v))
    return ListV(it.items_of(v, n))


def b_tuple(it, a, k, n):
    if not a:
        return TupleV([])
    if it.is_generic(a[0]):
        return Sym("tolist", freeze(a[0]))
    return TupleV(it.items_of(a[0], n))


def b_set(it, a, k, n):
    if not a:
        return SetV()
    if it.is_generic(a[0]):
        return Sym("setof", freeze(a[0]))
    out = []
    for x in it.items_of(a[0], n):
        if not any(it.v_eq(x, y) is True for y in out):
            out.append(x)
    return SetV(out)


def b_dict(it, a, k, n):
    d = DictV()
    if a:
        v = a[0]
        if isinstance(v, DictV):
            d = DictV(v.pairs(), v.base)
        elif isinstance(v, (ListV, TupleV)) and not getattr(v, "generic", False):
            for p in v.items:
                ps = it.items_of(p, n)
                it.setitem_quiet(d, ps[0], ps[1])
        elif isinstance(v, Sym) and v.op == "dict":
            d = thaw(v)
        elif isinstance(v, Sym):
            d = DictV((), base=v)
        else:
            it.undecided("dict()", n)
    for kk, vv in k.items():
        if kk == "**":
            d.base = freeze(vv)
        else:
            it.setitem_quiet(d, kk, vv)
    return d


def b_sorted(it, a, k, n):
    v = a[0]
    if it.is_generic(v):
        return Sym("sorted", freeze(v))
    items = it.items_of(v, n)
    keyf = k.get("key")
    rev = k.get("reverse", False)
    if keyf is None and all(isnum(i) for i in items):
        return ListV(sorted(items, reverse=bool(rev)))
    if keyf is None and all(isinstance(i, str) for i in items):
        return ListV(sorted(items, reverse=bool(rev)))
    return ListV(isort(it, items, keyf, rev, n))


def isort(it, items, keyf, rev, n):
    key = (lambda x: it.call(keyf, [x], {}, n)) if keyf is not None else (lambda x: x)
    rev = it.truth(rev) if not isinstance(rev, bool) else rev
    out = []
    for x in items:
        kx = key(x)
        j = len(out)
        while j > 0:
            ky = out[j - 1][0]
            lt = it.v_lt(ky, kx, True, n) if rev else it.v_lt(kx, ky, True, n)
            if it.decide(lt, n):
                j -= 1
            else:
                break
        out.insert(j, (kx, x))
    return [x for _, x in out]


def b_reversed(it, a, k, n):
    if it.is_generic(a[0]):
        return Sym("reversed", freeze(a[0]))
    return ListV(list(reversed(it.items_of(a[0], n))))


def b_map(it, a, k, n):
    f = a[0]
    if any(it.is_generic(x) for x in a[1:]):
        coll = freeze(a[1])
        it.term_mode += 1
        try:
            body = it.call(f, [it.items_of(x, n)[0] for x in a[1:]], {}, n)
        finally:
            it.term_mode -= 1
        return Sym("comp", coll, freeze(body), True)
    return ListV([it.call(f, list(t), {}, n) for t in zip(*[it.items_of(x, n) for x in a[1:]])])


def b_filter(it, a, k, n):
    f, v = a
    if it.is_generic(v):
        x = it.items_of(v, n)[0]
        it.term_mode += 1
        try:
            c = it.truthterm(it.call(f, [x], {}, n) if f is not None else x)
        finally:
            it.term_mode -= 1
        return Sym("comp", freeze(v), freeze(x), c)
    return ListV([x for x in it.items_of(v, n) if it.truth(it.call(f, [x], {}, n) if f is not None else x, n)])


TYPE_OF = {"list": ListV, "dict": DictV, "tuple": TupleV, "set": SetV, "str": str}


def type_names(it, t):
    if isinstance(t, (TupleV, ListV)):
        return [x for i in t.items for x in type_names(it, i)]
    if isinstance(t, PyFn):
        return [t.name]
    if isinstance(t, ExtV):
        return [t.path]
    if isinstance(t, ClassV):
        return [t]
    if isinstance(t, Sym) and t.op == "type":
        return [t]
    return [freeze(t)]


def inst_term(it, v, t):
    """isinstance(v, t) for one type"""
    if isinstance(v, WrapV):
        v = v.inner
    if isinstance(v, NativeV):
        return not isinstance(t, ClassV) and (t if isinstance(t, str) else show(t)) == v.tname
    if isinstance(t, ClassV):
        if isinstance(v, ObjV):
            if v.cls is None:
                return False
            if t in v.cls.mro():
                return True
            return False
        if isinstance(v, Sym) and v.op not in ("list", "dict", "tuple", "set", "concat", "str"):
            return B("isinst", v, t.qual)
        return False
    name = t if isinstance(t, str) else show(t)
    short = name.split(".")[-1]
    if isinstance(v, bool):
        return short in ("bool", "int")
    if isinstance(v, int):
        return short in ("int", "Number", "Real", "Integral")
    if isinstance(v, (float, Fraction)) or isinstance(v, Sym) and v.op == "nan":
        return short in ("float", "Number", "Real")
    if isinstance(v, str):
        return short == "str"
    if v is None:
        return short == "NoneType"
    if isinstance(v, ListV):
        if v.arr:
            return short in ("ndarray", "Iterable")
        return short in ("list", "Sequence", "Iterable", "MutableSequence")
    if isinstance(v, TupleV):
        return short in ("tuple", "Sequence", "Iterable")
    if isinstance(v, DictV):
        return short in ("dict", "Mapping", "Iterable", "MutableMapping")
    if isinstance(v, SetV):
        return short in ("set", "Set", "Iterable")
    if isinstance(v, (B,)):
        return short in ("bool", "int")
    if isinstance(v, ObjV):
        if v.cls and short in [str(b).split(".")[-1] for b in v.cls.ext_bases()]:
            return True
        return short == "object"
    if isinstance(v, (FuncV, BoundV, PyFn, BuiltinM)):
        return short in ("Callable", "FunctionType")
    if isinstance(v, ExcV):
        from .interp import exc_sub
        return exc_sub(v.tname, short)
    if isinstance(v, Sym):
        if v.op == "call" and isinstance(v.args[0], str) and v.args[0].startswith("numpy."):
            if short in ("list", "tuple", "dict", "str", "set"):
                return False
            if short == "ndarray" and v.args[0].split(".")[-1] in ("arange", "linspace", "array", "asarray", "zeros", "ones", "full", "concatenate"):
                return True
        if v.op in ("list", "tolist", "comp", "sorted"):
            return short in ("list", "Sequence", "Iterable")
        if v.op in ("dict",):
            return short == "dict"
        if v.op in ("concat", "str"):
            return short == "str"
        return B("isinst", v, name)
    if isinstance(v, Num):
        if short in ("list", "dict", "str", "tuple", "set"):
            return False
        f = getattr(it.dom, "num_isinst", None)
        if f is not None:
            r = f(v, name)
            if r is not None:
                return r
        return B("isinst", freeze(v), name)
    return False


def b_isinstance(it, a, k, n):
    return bor(*[inst_term(it, a[0], t) for t in type_names(it, a[1])])


def b_issubclass(it, a, k, n):
    c = a[0]
    if isinstance(c, ClassV):
        for t in type_names(it, a[1]):
            if isinstance(t, ClassV) and t in c.mro():
                return True
        return False
    return B("truth", Sym("call", "issubclass", freeze(a[0]), freeze(a[1])))


def b_type(it, a, k, n):
    v = a[0]
    if isinstance(v, WrapV):
        v = v.inner
    if isinstance(v, ObjV):
        return v.cls if v.cls is not None else Sym("type", freeze(v))
    if isinstance(v, ListV) and v.arr:
        return PyFn("numpy.ndarray", None)
    if isinstance(v, NativeV):
        return ExtV(v.tname)
    nm = {ListV: "list", DictV: "dict", TupleV: "tuple", SetV: "set", str: "str", bool: "bool", int: "int", float: "float",
          Fraction: "float"}.get(type(v))
    if isinstance(v, Sym) and v.op == "nan":
        nm = "float"
    if nm:
        return PyFn(nm, BUILTINS[nm])
    if v is None:
        return ExtV("builtins.NoneType")
    reals = getattr(it.dom, "reals", ())
    if reals and (isinstance(v, Sym) and v.op in reals or isinstance(v, Num) and all(isinstance(x, Sym) and x.op in reals for x in v.atoms())):
        return ExtV("numpy.float64")
    return Sym("type", freeze(v))


def b_hasattr(it, a, k, n):
    o, name = a
    if isinstance(o, ObjV) and isinstance(name, str):
        if name in o.attrs:
            return True
        if o.cls is not None and o.cls.lookup(name)[0] is not None:
            return True
        if o.lazy:
            return B("hasattr", freeze(o), name)
        return False
    if isinstance(o, ClassV):
        return o.lookup(name)[0] is not None
    if isinstance(o, (Sym, Num)):
        return B("hasattr", freeze(o), freeze(name))
    if hasattr(o, "has") and isinstance(name, str):
        return o.has(name)
    if isinstance(o, ListV):
        return hasattr([], name)
    if isinstance(o, DictV):
        return hasattr({}, name)
    if isinstance(o, str):
        return hasattr("", name)
    if isnum(o) or o is None:
        return hasattr(o if not isinstance(o, Fraction) else 0.5, name)
    return B("hasattr", freeze(o), freeze(name))


def b_getattr(it, a, k, n):
    o, name = a[0], a[1]
    if not isinstance(name, str):
        return Sym("attr", freeze(o), freeze(name))
    if len(a) > 2:
        h = b_hasattr(it, [o, name], {}, n)
        if not it.decide(h, n):
            return a[2]
    return it.getattr(o, name, n)


def b_setattr(it, a, k, n):
    o, name, v = a
    if isinstance(name, str):
        it.setattr(o, name, v, n)
    else:
        if isinstance(o, ObjV):
            o.lazy = True
        it.event("setattr", "*", (o, v), node=n)
    return None


def b_delattr(it, a, k, n):
    o, name = a
    if isinstance(o, ObjV) and isinstance(name, str):
        o.attrs.pop(name, None)


def b_print(it, a, k, n):
    it.event("print", "print", a, k, node=n)
    return None


def b_round(it, a, k, n):
    if all(isnum(x) for x in a) and not k:
        return round(*a)
    return Sym("round", *[freeze(x) for x in a])


def b_open(it, a, k, n):
    r = Sym("call", "open", *[freeze(x) for x in a], *[Sym("kw", kk, freeze(v)) for kk, v in sorted(k.items())])
    d = it.dom.call(it, "open", a, k, n)
    if d is not _MISSING:
        r = d
    elif getattr(it.dom, "text", False):
        from .shapes import open_model
        return open_model(it, a, k, n)
    it.maybe_raise("open", r, n)
    it.event("call", "open", a, k, r, n)
    return r


def b_next(it, a, k, n):
    v = a[0]
    if isinstance(v, WrapV):
        v = v.inner
    if isinstance(v, IterV):
        if v.pos < len(v.src.items):
            v.pos += 1
            return v.src.items[v.pos - 1]
        if len(a) > 1:
            return a[1]
        raise RaiseSig(ExcV("StopIteration"), it.where(n))
    if it.is_generic(v):
        fv = freeze(v)
        if len(a) > 1:
            b = B("nonempty", fv)
            if not it.decide(b, n):
                return a[1]
        return it.items_of(v, n)[0]
    items = it.items_of(v, n)
    if items:
        return items[0]
    if len(a) > 1:
        return a[1]
    raise RaiseSig(ExcV("StopIteration"), it.where(n))


class IterV(ListV):
    def __init__(self, src):
        self.src = src
        self.pos = 0
        self.generic = src.generic

    @property
    def items(self):
        return self.src.items[self.pos:]


def b_iter(it, a, k, n):
    v = a[0]
    if it.is_generic(v):
        return v
    return IterV(ListV(it.items_of(v, n)))


def b_id(it, a, k, n):
    return Sym("id", freeze(a[0]))


def b_divmod(it, a, k, n):
    return TupleV([it.binop(ast.FloorDiv(), a[0], a[1], n), it.binop(ast.Mod(), a[0], a[1], n)])


def b_pow(it, a, k, n):
    return it.binop(ast.Pow(), a[0], a[1], n)


def b_repr(it, a, k, n):
    return Sym("repr", freeze(a[0]))


def b_callable(it, a, k, n):
    if isinstance(a[0], (FuncV, BoundV, PyFn, ClassV, ExtV, BuiltinM)):
        return True
    return B("truth", Sym("call", "callable", freeze(a[0])))


def b_slice(it, a, k, n):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_object(it, a, k, n):
    return ObjV(None)


def b_frozenset(it, a, k, n):
    return b_set(it, a, k, n)


BUILTINS = {
    "len": b_len, "str": b_str, "int": b_int, "float": b_float, "bool": b_bool, "abs": b_abs,
    "min": _minmax("min"), "max": _minmax("max"), "sum": b_sum, "any": b_any, "all": b_all,
    "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "list": b_list, "tuple": b_tuple, "set": b_set,
    "frozenset": b_frozenset, "dict": b_dict, "sorted": b_sorted, "reversed": b_reversed, "map": b_map, "filter": b_filter,
    "isinstance": b_isinstance, "issubclass": b_issubclass, "type": b_type, "hasattr": b_hasattr, "getattr": b_getattr,
    "setattr": b_setattr, "delattr": b_delattr, "print": b_print, "round": b_round, "open": b_open, "next": b_next,
    "iter": b_iter, "id": b_id, "divmod": b_divmod, "pow": b_pow, "repr": b_repr, "callable": b_callable, "slice": b_slice,
    "object": b_object,
}


# ------------------------------------------------------------------ containers
def container_method(it, r, name, a, k, n):
    if isinstance(r, ListV):
        return list_method(it, r, name, a, k, n)
    if isinstance(r, DictV):
        return dict_method(it, r, name, a, k, n)
    if isinstance(r, SetV):
        return set_method(it, r, name, a, k, n)
    if isinstance(r, TupleV):
        if name == "index":
            return list_method(it, ListV(r.items), name, a, k, n)
        if name == "count":
            return list_method(it, ListV(r.items), name, a, k, n)
    if isinstance(r, str):
        return str_method(it, r, name, a, k, n)
    it.undecided(f"method {name} of {show(r)}", n)


def list_method(it, r, name, a, k, n):
    if r.arr:
        if name == "tolist":
            return ListV(r.items)
        if name in ("min", "max", "sum", "any", "all") and not a:
            return BUILTINS[name](it, [ListV(r.items)], {}, n)
        if name == "astype":
            return r
    if name == "append":
        r.items.append(a[0])
        if it.generic_depth:
            r.generic = True
        it.event("append", "list", (r, a[0]), node=n)
        return None
    if name == "extend":
        its = it.items_of(a[0], n)
        r.items.extend(its)
        if it.is_generic(a[0]) or it.generic_depth:
            r.generic = True
        it.event("append", "list", (r,) + tuple(its), node=n)
        return None
    if name == "insert":
        if isinstance(a[0], int):
            r.items.insert(a[0], a[1])
        else:
            it.undecided("insert at unknown position", n)
        it.event("append", "list", (r, a[1]), node=n)
        return None
    if name == "remove":
        for i, x in enumerate(r.items):
            if it.decide(it.v_eq(x, a[0], n), n):
                del r.items[i]
                it.event("remove", "list", (r, a[0]), node=n)
                return None
        if r.generic:
            it.event("remove", "list", (r, a[0]), node=n)
            return None
        raise RaiseSig(ExcV("ValueError"), it.where(n))
    if name == "index":
        if r.generic:
            return Sym("indexof", freeze(a[0]), freeze(r))
        for i, x in enumerate(r.items):
            if it.decide(it.v_eq(x, a[0], n), n):
                return i
        raise RaiseSig(ExcV("ValueError"), it.where(n))
    if name == "count":
        if r.generic:
            return Sym("count", freeze(r), freeze(a[0]))
        c = 0
        for x in r.items:
            if it.decide(it.v_eq(x, a[0], n), n):
                c += 1
        return c
    if name == "pop":
        i = a[0] if a else -1
        if isinstance(i, int) and not r.generic:
            if not r.items:
                raise RaiseSig(ExcV("IndexError"), it.where(n))
            return r.items.pop(i)
        if r.generic and r.items:
            return r.items[-1]
    if name == "copy":
        return ListV(r.items, r.generic)
    if name == "clear":
        r.items.clear()
        return None
    if name == "reverse":
        r.items.reverse()
        return None
    if name == "sort":
        r.items[:] = isort(it, r.items, k.get("key"), k.get("reverse", False), n)
        return None
    if name == "__contains__":
        return it.v_in(a[0], r, n)
    if name == "__len__":
        return b_len(it, [r], {}, n)
    it.undecided(f"list method {name}", n)


def dict_method(it, r, name, a, k, n):
    if name == "keys":
        return ListV(r.keys) if r.base is None else ListV(list(r.keys) + [Sym("elem", r.base)], True)
    if name == "values":
        return ListV(r.vals) if r.base is None else ListV(list(r.vals) + [Sym("item", r.base, Sym("elem", r.base))], True)
    if name == "items":
        ps = [TupleV([x, y]) for x, y in r.pairs()]
        if r.base is not None:
            e = Sym("elem", r.base)
            return ListV(ps + [TupleV([e, Sym("item", r.base, e)])], True)
        return ListV(ps)
    if name == "get":
        i = it.dict_find(r, a[0], n)
        if i is not None:
            return r.vals[i]
        d = a[1] if len(a) > 1 else k.get("default")
        if r.base is not None:
            if it.decide(B("in", freeze(a[0]), r.base), n):
                return it.getitem(r.base, a[0], n)
        return d
    if name == "update":
        if a:
            v = a[0]
            if isinstance(v, DictV):
                for kk, vv in v.pairs():
                    it.setitem(r, kk, vv, n)
                if v.base is not None:
                    if r.base is None and not r.keys:
                        r.base = v.base
                    else:
                        r.base = Sym("dictmerge", freeze(r), v.base)
            elif isinstance(v, Sym) and v.op == "dict":
                for p in v.args:
                    it.setitem(r, thaw(p.args[0]), thaw(p.args[1]), n)
            elif isinstance(v, (Sym, Num)):
                it.event("dictupdate", "dict", (r, v), node=n)
                if r.base is None:
                    r.base = v if not r.keys else Sym("dictover2", freeze(r), freeze(v))
                else:
                    r.base = Sym("dictmerge", r.base, freeze(v))
            else:
                it.undecided("dict.update argument", n)
        for kk, vv in k.items():
            it.setitem(r, kk, vv, n)
        return None
    if name == "pop":
        i = it.dict_find(r, a[0], n)
        if i is not None:
            v = r.vals[i]
            del r.keys[i], r.vals[i]
            it.event("delitem", "dict", (r, a[0]), node=n)
            return v
        if r.base is not None:
            return Sym("item", r.base, freeze(a[0]))
        if len(a) > 1:
            return a[1]
        raise RaiseSig(ExcV("KeyError", (a[0],)), it.where(n))
    if name == "copy":
        return DictV(r.pairs(), r.base)
    if name == "setdefault":
        i = it.dict_find(r, a[0], n)
        if i is not None:
            return r.vals[i]
        if r.base is not None and it.decide(B("in", freeze(a[0]), r.base), n):
            return it.getitem(r.base, a[0], n)
        v = a[1] if len(a) > 1 else None
        it.setitem(r, a[0], v, n)
        return v
    if name == "clear":
        r.keys.clear()
        r.vals.clear()
        r.base = None
        return None
    if name == "popitem" and r.base is None:
        if not r.keys:
            raise RaiseSig(ExcV("KeyError"), it.where(n))
        return TupleV([r.keys.pop(), r.vals.pop()])
    if name == "__contains__":
        return it.v_in(a[0], r, n)
    if name in ("__getitem__",):
        return it.getitem(r, a[0], n)
    it.undecided(f"dict method {name}", n)


def set_method(it, r, name, a, k, n):
    if name == "add":
        if not it.member(a[0], r):
            r.items.append(a[0])
        return None
    if name in ("discard", "remove"):
        for i, x in enumerate(r.items):
            if it.decide(it.v_eq(x, a[0], n), n):
                del r.items[i]
                return None
        if name == "remove":
            raise RaiseSig(ExcV("KeyError"), it.where(n))
        return None
    if name in ("union", "update"):
        out = SetV(r.items)
        for x in a:
            for i in it.items_of(x, n):
                if not it.member(i, out):
                    out.items.append(i)
        if name == "update":
            r.items[:] = out.items
            return None
        return out
    if name == "intersection":
        other = it.items_of(a[0], n)
        return SetV([i for i in r.items if any(it.decide(it.v_eq(i, j), n) for j in other)])
    if name == "difference":
        other = it.items_of(a[0], n)
        return SetV([i for i in r.items if not any(it.decide(it.v_eq(i, j), n) for j in other)])
    if name == "issubset":
        other = it.items_of(a[0], n)
        return band(*[bor(*[it.v_eq(i, j) for j in other]) for i in r.items])
    if name == "issuperset":
        other = it.items_of(a[0], n)
        return band(*[bor(*[it.v_eq(i, j) for j in r.items]) for i in other])
    if name == "isdisjoint" and not it.is_generic(a[0]):
        other = it.items_of(a[0], n)
        return bnot(bor(*[it.v_eq(i, j) for j in other for i in r.items]))
    if name == "symmetric_difference" and not it.is_generic(a[0]):
        other = it.items_of(a[0], n)
        out = [i for i in r.items if not any(it.decide(it.v_eq(i, j), n) for j in other)]
        return SetV(out + [j for j in other if not any(it.decide(it.v_eq(i, j), n) for i in r.items)])
    if name == "copy":
        return SetV(r.items)
    it.undecided(f"set method {name}", n)


STR_PURE = {"upper", "lower", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "replace", "isdigit", "title",
            "capitalize", "count", "find", "index", "rsplit", "zfill", "isnumeric", "isalpha", "splitlines", "partition",
            "rpartition", "removeprefix", "removesuffix", "casefold", "encode", "center", "ljust", "rjust", "swapcase"}


def str_method(it, r, name, a, k, n):
    if name == "format":
        args = list(a)
        import string
        parts = []
        idx = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(r):
                parts.append(lit)
                if fld is None:
                    continue
                if spec or conv:
                    return Sym("fmt", r, *[freeze(x) for x in args])
                if fld == "":
                    parts.append(it.to_str(args[idx]))
                    idx += 1
                elif fld.isdigit():
                    parts.append(it.to_str(args[int(fld)]))
                elif fld in k:
                    parts.append(it.to_str(k[fld]))
                else:
                    return Sym("fmt", r, *[freeze(x) for x in args])
        except (IndexError, ValueError):
            return Sym("fmt", r, *[freeze(x) for x in args])
        return concat(parts)
    if name == "join":
        v = a[0]
        if it.is_generic(v):
            return Sym("join", r, freeze(v))
        out = []
        for i, x in enumerate(it.items_of(v, n)):
            if i:
                out.append(r)
            out.append(x)
        return concat(out)
    if name in STR_PURE and all(isinstance(x, (str, int, type(None))) or isinstance(x, TupleV) for x in a):
        try:
            res = getattr(r, name)(*[tuple(x.items) if isinstance(x, TupleV) else x for x in a])
        except ValueError:
            raise RaiseSig(ExcV("ValueError"), it.where(n))
        if isinstance(res, list):
            return ListV(res)
        if isinstance(res, tuple):
            return TupleV(res)
        return res
    it.unmodelled.add("str." + name)
    return Sym("mcall", r, name, *[freeze(x) for x in a])


def cast_cell(it, c, t, n):
    """element of an array converted to another element type"""
    nm = t if isinstance(t, str) else getattr(t, "name", None) or (t.args[0] if isinstance(t, Sym) and t.args else None)
    nm = str(nm).split(".")[-1] if nm is not None else show(t)
    if nm.startswith("int") or nm.startswith("float"):
        if isinstance(c, bool):
            return 1 if c else 0
        if isinstance(c, B):
            return 1 if it.decide(c, n) else 0
    if nm.startswith("int"):
        f = as_fraction(c) if isinstance(c, (int, Fraction, float)) else None
        if f is None:
            it.undecided("conversion to whole numbers", n)
        return int(f)
    if nm == "bool":
        return it.truth(c, n)
    return c


def sym_method(it, recv, name, a, k, n):
    """methods on unknown values whose effect is independent of the type"""
    if isinstance(recv, (int, Fraction, float)) and not isinstance(recv, bool):
        if name == "item" and not a:
            return recv
        if name == "astype" and len(a) == 1:
            return cast_cell(it, recv, a[0], n)
    if name == "is_integer" and not a and not k and isinstance(recv, (int, Fraction, Num)):
        return it.compare(ast.Eq(), it.binop(ast.Mod(), recv, 1, n), 0, n)
    if isinstance(recv, Sym):
        if name == "item" and not a and recv.op in ("val", "mag", "nan", "sqrt"):
            return recv
        if recv.op == "dt":
            r = dt_method(it, recv, name, a, k, n)
            if r is not _MISSING:
                return r
        if recv.op in ("concat", "str", "fmt") and name in ("upper", "lower", "strip") and not a:
            if recv.op == "str":
                return recv
        if recv.op in ("list", "dict", "set", "tuple") and name in ("index", "count", "keys", "values", "items", "get", "copy"):
            return container_method(it, thaw(recv), name, a, k, n)
        if name == "get" and a:
            if it.decide(it.v_in(a[0], recv, n), n):
                return it.getitem(recv, a[0], n)
            return a[1] if len(a) > 1 else None
        if name == "setdefault" and a:
            if it.decide(it.v_in(a[0], recv, n), n):
                return it.getitem(recv, a[0], n)
            v = a[1] if len(a) > 1 else None
            it.setitem(recv, a[0], v, n)
            return v
        if name == "append" and len(a) == 1:
            it.event("append", "sym", (recv, a[0]), node=n)
            return None
        if name == "extend" and len(a) == 1:
            it.event("append", "sym", (recv,) + tuple(it.items_of(a[0], n)), node=n)
            return None
        if name == "remove" and len(a) == 1:
            it.event("remove", "sym", (recv, a[0]), node=n)
            return None
        if name == "update" and len(a) == 1 and isinstance(a[0], DictV) and a[0].base is None:
            for kk, vv in a[0].pairs():
                it.setitem(recv, kk, vv, n)
            return None
        if name in ("keys",) and not a:
            return Sym("mcall", recv, "keys")
        if name == "items" and not a:
            return Sym("mcall", recv, "items")
        if name == "values" and not a:
            return Sym("mcall", recv, "values")
    return _MISSING


# ------------------------------------------------------------------ libraries
def strptime(it, x, fmt, n):
    import datetime as _dt
    if isinstance(x, str) and isinstance(fmt, str):
        try:
            d = _dt.datetime.strptime(x, fmt)
        except ValueError:
            raise RaiseSig(ExcV("ValueError"), it.where(n))
        from .dates import DateV
        return DateV(d)
    r = Sym("dt", freeze(x)) if fmt == "%Y-%m-%d" else Sym("dt", freeze(x), freeze(fmt))
    it.maybe_raise("datetime.strptime", r, n)
    return r


def dt_method(it, recv, name, a, k, n):
    import datetime as _dt
    x = recv.args[0]
    if name == "date" and not a:
        if isinstance(x, str):
            return Sym("dt", _dt.datetime.fromisoformat(x).replace(hour=0, minute=0, second=0, microsecond=0).isoformat())
        return recv
    if name == "strftime" and len(a) == 1:
        if isinstance(x, str) and isinstance(a[0], str):
            return _dt.datetime.fromisoformat(x).strftime(a[0])
        if a[0] == "%Y-%m-%d" and len(recv.args) == 1:
            return x        # a canonical date string
    return _MISSING


def ext_call(it, path, a, k, n):
    top = path.split(".")[0]
    last = path.split(".")[-1]
    if path.startswith("builtins."):
        nm = last
        if nm in BUILTIN_EXC:
            return ExcV(nm, tuple(a))
        if nm in BUILTINS:
            return BUILTINS[nm](it, a, k, n)
    if top in ("logging", "warnings"):
        if last in ("debug", "info", "warning", "error", "critical", "exception", "log", "warn"):
            it.event("log", last, a, k, node=n)
            return None
        return Sym("call", path)
    if top == "shapely":
        from .shapes import shape_call
        return shape_call(it, path, last, a, k, n)
    if path.startswith("os.path.") and last in ("join", "basename", "dirname", "split", "splitext", "normpath", "isabs") and a and all(isinstance(x, str) for x in a) and not k:
        import posixpath
        r = getattr(posixpath, last)(*a)
        return TupleV(list(r)) if isinstance(r, tuple) else r
    if top == "jsonschema":
        from .schema import schema_call
        return schema_call(it, path, last, a, k, n)
    if top == "json":
        from .shapes import json_call
        r = json_call(it, path, last, a, k, n)
        if r is not _MISSING:
            return r
    if top == "tqdm":
        if last in ("write",):
            return None
        if not a:
            return WrapV(ListV())
        return WrapV(a[0])
    if top == "re" and last in ("match", "search", "fullmatch", "sub", "findall", "split") and not k and all(isinstance(x, str) for x in a):
        import re
        r = getattr(re, last)(*a)            # constant folding
        if last in ("match", "search", "fullmatch"):
            return None if r is None else ObjV(None, "match", {"group": r.group(0)}, lazy=True)
        if last == "sub":
            return r
        return ListV([x if isinstance(x, str) else TupleV(list(x)) for x in r])
    if top == "datetime" and last == "strptime" and len(a) == 2:
        return strptime(it, a[0], a[1], n)
    if top == "datetime" and last in ("strftime", "isoformat", "date", "timestamp") and a and type(a[0]).__name__ == "DateV":
        return it.call(it.getattr(a[0], last), list(a[1:]), k, n)
    if top in ("datetime", "calendar"):
        from .dates import date_call
        r = date_call(it, path, last, a, k, n)
        if r is not _MISSING:
            return r
    if top in ("numpy", "pandas", "xarray"):
        if path == "numpy.unravel_index":
            r = unravel(it, a, n)
            if r is not _MISSING:
                return r
        r = lib_call(it, path, last, a, k, n)
        if r is not _MISSING:
            return r
    if path in ("pandas.isnull", "pandas.isna", "pandas.notnull", "pandas.notna") and len(a) == 1:
        if a[0] is None or isinstance(a[0], str):
            r = a[0] is None
        else:
            r = np_call(it, "numpy.isnan", "isnan", a, {}, n)
        return r if last.startswith("is") else bnot(r)
    if top in ("numpy", "math") and last in ("log10", "floor", "ceil", "trunc", "modf", "fix"):
        r = digits_call(it, last, a, k, n)
        if r is not _MISSING:
            return r
    if path in ("numpy.sqrt", "math.sqrt") and len(a) == 1 and (isnum(a[0]) or isinstance(a[0], (Num, Sym))):
        from .tables import sqrt
        return sqrt(it, a[0], n)
    if top == "numpy":
        return np_call(it, path, last, a, k, n)
    if top == "math":
        if last in ("isnan",):
            return np_call(it, "numpy.isnan", "isnan", a, {}, n)
        if last == "fabs":
            return b_abs(it, a, k, n)
        if last == "fmod":
            return Sym("fmod", *[freeze(x) for x in a])
    if path == "operator.itemgetter" or path == "operator.attrgetter":
        key = a[0]
        if path.endswith("itemgetter"):
            return PyFn("itemgetter", lambda it2, aa, kk, nn: it2.getitem(aa[0], key, nn))
        return PyFn("attrgetter", lambda it2, aa, kk, nn: it2.getattr(aa[0], key, nn))
    if top == "operator":
        om = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "and_": ast.BitAnd, "or_": ast.BitOr}
        cm = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}
        if last in om and len(a) == 2:
            return it.binop(om[last](), a[0], a[1], n)
        if last in cm and len(a) == 2:
            return it.compare(cm[last](), a[0], a[1], n)
        if last == "neg":
            return it.binop(ast.Mult(), -1, a[0], n)
    if path in ("copy.deepcopy", "copy.copy"):
        return deepcopy_v(it, a[0], {}, path == "copy.deepcopy")
    if path == "functools.partial":
        f, pre, prek = a[0], list(a[1:]), dict(k)
        return PyFn("partial", lambda it2, aa, kk, nn: it2.call(f, pre + list(aa), {**prek, **kk}, nn))
    if path == "functools.reduce":
        f, v = a[0], a[1]
        if not it.is_generic(v):
            items = it.items_of(v, n)
            acc = a[2] if len(a) > 2 else items.pop(0)
            for x in items:
                acc = it.call(f, [acc, x], {}, n)
            return acc
    if path == "functools.wraps":
        return PyFn("wraps", lambda it2, aa, kk, nn: aa[0])
    if path in ("itertools.product",) and not any(it.is_generic(x) for x in a):
        import itertools
        return ListV([TupleV(t) for t in itertools.product(*[it.items_of(x, n) for x in a], repeat=k.get("repeat", 1))])
    if path in ("itertools.chain",) and not any(it.is_generic(x) for x in a):
        return ListV([y for x in a for y in it.items_of(x, n)])
    if path in ("itertools.chain.from_iterable",) and not it.is_generic(a[0]):
        return ListV([y for x in it.items_of(a[0], n) for y in it.items_of(x, n)])
    if path in ("itertools.combinations", "itertools.permutations") and not it.is_generic(a[0]):
        import itertools
        f = getattr(itertools, last)
        return ListV([TupleV(t) for t in f(it.items_of(a[0], n), *a[1:])])
    if path == "itertools.islice" and not it.is_generic(a[0]) and all(x is None or type(x) is int for x in a[1:]) and len(a) > 1:
        if any(x is not None and x < 0 for x in a[1:]):
            raise RaiseSig(ExcV("ValueError"), it.where(n))
        return ListV(it.items_of(a[0], n)[slice(*a[1:])])
    if path in ("itertools.takewhile", "itertools.dropwhile", "itertools.filterfalse") and not it.is_generic(a[1]):
        out, on = [], True
        for x in it.items_of(a[1], n):
            t = it.decide(it.truthterm(it.call(a[0], [x], {}, n)), n)
            if last == "filterfalse":
                out += [] if t else [x]
            else:
                on = on and t
                if on == (last == "takewhile"):
                    out.append(x)
        return ListV(out)
    if path == "itertools.zip_longest" and not any(it.is_generic(x) for x in a):
        cols = [it.items_of(x, n) for x in a]
        m = max([len(c) for c in cols], default=0)
        return ListV([TupleV([c[i] if i < len(c) else k.get("fillvalue") for c in cols]) for i in range(m)])
    if path == "itertools.pairwise" and not it.is_generic(a[0]):
        xs = it.items_of(a[0], n)
        return ListV([TupleV(list(t)) for t in zip(xs, xs[1:])])
    if path == "itertools.count":
        it.unmodelled.add(path)
        return Sym("call", path, *[freeze(x) for x in a])
    if path == "collections.defaultdict":
        d = b_dict(it, list(a[1:]), k, n)
        d.default = a[0] if a else None
        return d
    if path in ("collections.OrderedDict",):
        return b_dict(it, a, k, n)
    if path == "collections.Counter" and a and not it.is_generic(a[0]):
        d = DictV()
        for x in it.items_of(a[0], n):
            i = it.dict_find(d, x, n)
            if i is None:
                d.keys.append(x)
                d.vals.append(1)
            else:
                d.vals[i] += 1
        d.default, d.counter = PyFn("zero", lambda it2, aa, kk, nn: 0), True
        return d
    if path in ("typing.cast",):
        return a[1]
    if path == "sys.exit" or path in ("exit", "quit"):
        it.event("raise", "SystemExit", a, node=n)
        raise RaiseSig(ExcV("SystemExit"), it.where(n))
    if path.startswith("contextlib."):
        it.unmodelled.add(path)
        return Sym("call", path, *[freeze(x) for x in a])
    return _MISSING


def deepcopy_v(it, v, memo, deep):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, ListV):
        r = ListV([], v.generic)
        memo[id(v)] = r
        r.items = [deepcopy_v(it, x, memo, True) if deep else x for x in v.items]
        return r
    if isinstance(v, TupleV):
        return TupleV([deepcopy_v(it, x, memo, True) if deep else x for x in v.items])
    if isinstance(v, SetV):
        return SetV([deepcopy_v(it, x, memo, True) if deep else x for x in v.items])
    if isinstance(v, DictV):
        r = DictV((), v.base)
        memo[id(v)] = r
        r.keys = list(v.keys)
        r.vals = [deepcopy_v(it, x, memo, True) if deep else x for x in v.vals]
        return r
    if isinstance(v, ObjV):
        r = ObjV(v.cls, name=v.name + "'", lazy=v.lazy)
        memo[id(v)] = r
        r.attrs = {kk: (deepcopy_v(it, x, memo, True) if deep else x) for kk, x in v.attrs.items()}
        return r
    return v


def digits_call(it, last, a, k, n):
    """whole parts and decimal logarithms of known numbers; a logarithm is a term that knows its whole part"""
    if len(a) != 1 or k or isinstance(a[0], bool):
        return _MISSING
    x = a[0]
    if isinstance(x, Sym) and x.op == "log10" and last in ("floor", "ceil"):
        e = log10_floor(as_fraction(x.args[0]))
        return e if last == "floor" else e + 1
    x = as_fraction(x) if isnum(x) else None
    if x is None:
        return _MISSING
    if last in ("floor", "ceil"):
        return x.__floor__() if last == "floor" else x.__ceil__()
    if last == "log10":
        if x <= 0:
            return _MISSING
        e = log10_floor(x)
        return e if x == Fraction(10) ** e else Sym("log10", x)
    w = int(x)
    return w if last != "modf" else TupleV([mknum(poly(x - w)), w])


def log10_floor(x):
    e = 0
    while x >= 10:
        x, e = x / 10, e + 1
    while x < 1:
        x, e = x * 10, e - 1
    return e


def np_call(it, path, last, a, k, n):
    two = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
           "mod": ast.Mod, "remainder": ast.Mod, "floor_divide": ast.FloorDiv, "power": ast.Pow}
    cmp_ = {"less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE, "equal": ast.Eq,
            "not_equal": ast.NotEq}
    if last in two and len(a) == 2:
        return it.binop(two[last](), a[0], a[1], n)
    if last in cmp_ and len(a) == 2:
        return it.compare(cmp_[last](), a[0], a[1], n)
    if last == "logical_and":
        return band(it.truthterm(a[0]), it.truthterm(a[1]))
    if last == "logical_or":
        return bor(it.truthterm(a[0]), it.truthterm(a[1]))
    if last == "logical_not":
        return bnot(it.truthterm(a[0]))
    if last in ("round", "around", "round_") and a and isinstance(a[0], (int, Fraction)) and not isinstance(a[0], bool):
        d = k.get("decimals", a[1] if len(a) > 1 else 0)
        if isinstance(d, int):
            return round(Fraction(a[0]), d) + 0 if d else int(round(Fraction(a[0])))
    if last in ("round", "around", "round_") and a and (isinstance(a[0], float) and as_fraction(a[0]) is None or isinstance(a[0], Sym) and a[0].op == "nan"):
        return a[0]
    if last in ("abs", "absolute", "fabs"):
        if isinstance(a[0], ListV) and a[0].arr:
            return ListV([b_abs(it, [x], {}, n) for x in a[0].items], arr=True)
        return b_abs(it, a, k, n)
    if last == "negative":
        return it.binop(ast.Mult(), -1, a[0], n)
    if last == "count_nonzero" and len(a) == 1 and isinstance(a[0], (bool, B)):
        return 1 if it.truth(a[0], n) else 0
    if last == "isnan":
        v = a[0]
        if isnum(v) and as_fraction(v) is not None:
            return False
        if isinstance(v, float) and v != v or isinstance(v, Sym) and v.op == "nan":
            return True
        if isinstance(v, bool) or isinstance(v, Sym) and v.op in ("val", "sqrt", "atan2"):
            return False
        if isinstance(v, Num) and all(isinstance(x, Sym) and x.op in ("val", "sqrt", "atan2") or x in getattr(it.dom, "own", ()) for x in v.atoms()):
            return False
        if isinstance(v, Sym) and v in getattr(it.dom, "own", ()):
            return False
        if isinstance(v, ListV) and v.arr:
            return ListV([np_call(it, path, last, [x], {}, n) for x in v.items], arr=True)
        if v is None or isinstance(v, str):
            raise RaiseSig(ExcV("TypeError"), it.where(n))
        return B("truth", Sym("isnan", freeze(v)))
    if last in ("float64", "float32", "int64", "int32", "float_"):
        return b_float(it, a, k, n) if last.startswith("float") else b_int(it, a, k, n)
    if last in ("array", "asarray") and a and isinstance(a[0], (ListV, TupleV)) and not getattr(a[0], "generic", False) \
            and getattr(it.dom, "arrays_as_lists", False):
        return ListV(a[0].items, arr=True)
    if last == "arange" and 1 <= len(a) <= 3:
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        from .interp import pdiv
        pl, ph, ps = it.num(lo), it.num(hi), it.num(st)
        c = pdiv(padd(ph, pl, -1), ps) if ps else None
        if c is None or not isnum(c):
            return _MISSING
        c = as_fraction(c)
        cnt = max(0, -((-c) // 1))
        return ListV([mknum(padd(pl, pmul(ps, poly(i)))) for i in range(int(cnt))], arr=True)
    if last == "linspace" and len(a) >= 3 and isinstance(a[2], int):
        pl, ph = it.num(a[0]), it.num(a[1])
        end = k.get("endpoint", True)
        m = a[2] - 1 if end is True else a[2]
        d = padd(ph, pl, -1)
        return ListV([mknum(padd(pl, pmul(d, poly(Fraction(i, m or 1))))) for i in range(a[2])], arr=True)
    if last == "where" and len(a) == 3 and all(isinstance(x, ListV) and x.arr or isnum(x) or isinstance(x, (Sym, Num)) for x in a[1:]) \
            and isinstance(a[0], ListV) and a[0].arr:
        out = []
        for i, c in enumerate(a[0].items):
            x = a[1] if it.truth(c, n) else a[2]
            out.append(x.items[i] if isinstance(x, ListV) else x)
        return ListV(out, arr=True)
    if last in ("flatnonzero", "nonzero", "argwhere") and len(a) == 1 and isinstance(a[0], (ListV, TupleV)) and not it.is_generic(a[0]) \
            and not any(isinstance(x, (ListV, TupleV, ArrV)) for x in a[0].items):
        ix = [i for i, x in enumerate(a[0].items) if it.truth(x, n)]
        if last == "argwhere":
            return ListV([ListV([i], arr=True) for i in ix], arr=True)
        return ListV(ix, arr=True) if last == "flatnonzero" else TupleV([ListV(ix, arr=True)])
    if last == "where" and len(a) == 1 and isinstance(a[0], ListV) and not a[0].generic:
        return TupleV([ListV([i for i, x in enumerate(a[0].items) if it.truth(x, n)])])
    if last in ("any",) and len(a) == 1 and not it.is_generic(a[0]):
        return b_any(it, a, k, n)
    if last in ("all",) and len(a) == 1 and not it.is_generic(a[0]):
        return b_all(it, a, k, n)
    return _MISSING

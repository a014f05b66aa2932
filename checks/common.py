"""helpers shared by the checks"""
import os

from sa.interp import explore
from sa.program import AnchorLost
from sa.values import *
from sa.values import _MISSING

MG = "meshiphi.mesh_generation."


# terms standing for operations the analyser has no meaning for
OPAQUE = {"call", "mcall", "attr", "item", "elem", "len", "tolist", "comp", "dictcomp", "setof", "repeat", "catlist", "zip", "sorted", "sum", "reversed",
          "enumerate", "count", "indexof", "matmul", "global"}


class _Not:
    def __contains__(self, op):
        return op not in OPAQUE


NOT_OPAQUE = _Not()

# operations without a model that leave the values and tables of the program alone
BENIGN = {".trim_datapoints", "time.time", "time.perf_counter", "time.process_time", "time.monotonic", "time.sleep", "gc.collect",
          "sys.setrecursionlimit", "sys.getrecursionlimit", "matplotlib.use"}


def foreign(v, ops, depth=0):
    """a term in v the analyser does not interpret, or None; ops: interpreted symbols"""
    if isinstance(v, Sym):
        if v.op not in ops:
            return v
        return next((f for a in v.args if (f := foreign(a, ops, depth + 1)) is not None), None)
    if isinstance(v, Num):
        return next((f for a in v.atoms() if (f := foreign(a, ops, depth + 1)) is not None), None)
    if isinstance(v, B) or isinstance(v, (tuple, list)):
        return next((f for a in (v.args if isinstance(v, B) else v) if (f := foreign(a, ops, depth + 1)) is not None), None)
    if isinstance(v, (ListV, TupleV)) and depth < 20:
        return foreign(list(v.items), ops, depth + 1)
    if isinstance(v, DictV) and depth < 20:
        return foreign([x for p in v.pairs() for x in p], ops, depth + 1)
    return None


def decided(chk, rule, setup, domain_factory=None, max_paths=3000, ops=None, runaway=None, **kw):
    """traces of one obligation; an undecided one is recorded, not guessed"""
    try:
        ts = explore(chk.prog, setup, domain_factory, max_paths=max_paths, **kw)
    except Undecided as e:
        if runaway is not None and isinstance(e, Runaway):
            runaway(e)
        else:
            chk.undec(rule, str(e))
        return []
    except (AnchorLost, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        chk.undec(rule, f"analyser error {type(e).__name__}: {e}")
        return []
    chk.saw(ts)
    keep = []
    for t in ts:
        un = t.interp.unmodelled - BENIGN
        if un:
            chk.undec(rule, f"uses {', '.join(sorted(un))}, for which the analyser has no meaning")
            continue
        f = foreign([c[0] for c in t.conds], ops or NOT_OPAQUE)
        if f is None and ops is None and t.outcome == "return":
            f = foreign(t.value, NOT_OPAQUE)
        if f is None:
            keep.append(t)
        else:
            chk.undec(rule, f"depends on the uninterpreted term {show(f)}")
    return keep


def boundary(it, lat, long, time=None):
    B_ = it.prog.cls(MG + "boundary.Boundary")
    args = [ListV(list(lat)), ListV(list(long))]
    if time is not None:
        args.append(time)
    return it.call(B_, args, {})


def cellbox(it, bounds, cid):
    return it.call(it.prog.cls(MG + "cellbox.CellBox"), [bounds, cid], {})


def ch_show(ch):
    return " < ".join(show(p) for p in ch.points)


def eqv(x, y):
    """x and y denote the same number"""
    px, py = poly(x), poly(y)
    if px is None or py is None:
        return x == y
    return not padd(px, py, -1)

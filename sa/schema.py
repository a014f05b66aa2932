"""JSON Schema (draft 2020-12 vocabulary, the part with a fixed meaning) over abstract documents."""
import re
from fractions import Fraction

from .values import *
from .values import _MISSING

ANNOT = {"title", "description", "default", "examples", "$schema", "$id", "$comment", "$defs", "definitions", "deprecated", "readOnly", "writeOnly", "format"}
KNOWN = {"type", "required", "properties", "additionalProperties", "items", "$ref", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minItems", "maxItems",
         "minLength", "maxLength", "enum", "const", "anyOf", "allOf", "oneOf", "not", "minProperties", "maxProperties", "multipleOf", "dependentRequired", "pattern", "uniqueItems"}
# keywords of the vocabulary that are not modelled
OTHER = {"patternProperties", "propertyNames", "contains", "minContains", "maxContains", "prefixItems", "if", "then", "else", "dependentSchemas", "unevaluatedItems", "unevaluatedProperties",
         "$dynamicRef", "$anchor", "$recursiveRef", "dependencies", "additionalItems"}


def isnumber(v):
    return not isinstance(v, bool) and (isinstance(v, (int, float, Fraction, Num)) or isinstance(v, Sym) and v.op not in ("str", "concat"))


def has_type(it, v, t, n):
    if t == "object":
        return isinstance(v, DictV)
    if t == "array":
        return isinstance(v, ListV)
    if t == "string":
        return isinstance(v, str) or isinstance(v, Sym) and v.op in ("str", "concat")
    if t == "boolean":
        return isinstance(v, (bool, B))
    if t == "null":
        return v is None
    if t == "number":
        return isnumber(v)
    if t == "integer":
        if isinstance(v, (Sym, Num)):
            it.undecided(f"whether {show(v)} is an integer", n)
        return isnumber(v) and (isinstance(v, int) or (isinstance(v, Fraction) and v.denominator == 1) or (isinstance(v, float) and v.is_integer()))
    it.undecided(f"schema type {show(t)}", n)


def pairs(d):
    return {k: v for k, v in d.pairs()}


def valid(it, v, s, root, n, depth=0):
    """v satisfies schema s"""
    from .interp import RaiseSig
    if depth > 30:
        it.undecided("recursive schema", n)
    if isinstance(s, bool):
        return s
    if not isinstance(s, DictV) or s.base is not None:
        it.undecided(f"schema {show(s)}", n)
    S = pairs(s)
    rec = lambda x, t: valid(it, x, t, root, n, depth + 1)
    bad = [k for k in S if k in OTHER]
    if bad:
        it.undecided(f"schema keyword {bad[0]}", n)
    if "$ref" in S:
        r = S["$ref"]
        if not isinstance(r, str) or not r.startswith("#"):
            it.undecided(f"schema reference {show(r)}", n)
        t = root
        for part in [p for p in r[1:].split("/") if p]:
            t = pairs(t).get(part) if isinstance(t, DictV) else None
            if t is None:
                raise RaiseSig(ExcV("_WrappedReferencingError"), it.where(n))
        if not rec(v, t):
            return False
    if "type" in S:
        ts = S["type"].items if isinstance(S["type"], (ListV, TupleV)) else [S["type"]]
        if not any(has_type(it, v, t, n) for t in ts):
            return False
    if "enum" in S and not any(it.truth(same(it, v, x, n), n) for x in S["enum"].items):
        return False
    if "const" in S and not it.truth(same(it, v, S["const"], n), n):
        return False
    for k in ("allOf", "anyOf", "oneOf"):
        if k in S:
            hits = sum(1 for t in S[k].items if rec(v, t))
            if (k == "allOf" and hits != len(S[k].items)) or (k == "anyOf" and not hits) or (k == "oneOf" and hits != 1):
                return False
    if "not" in S and rec(v, S["not"]):
        return False
    if isinstance(v, DictV):
        d = pairs(v)
        if v.base is not None or not all(isinstance(k, str) for k in d):
            it.undecided("validation of a dict whose keys are not all known texts", n)
        if "required" in S and any(k not in d for k in S["required"].items):
            return False
        P = pairs(S["properties"]) if "properties" in S else {}
        for k, t in P.items():
            if k in d and not rec(d[k], t):
                return False
        ap = S.get("additionalProperties", True)
        if ap is not True:
            for k, x in d.items():
                if k not in P and not rec(x, ap):
                    return False
        if "minProperties" in S and len(d) < S["minProperties"] or "maxProperties" in S and len(d) > S["maxProperties"]:
            return False
        if "dependentRequired" in S:
            for k, req in pairs(S["dependentRequired"]).items():
                if k in d and any(x not in d for x in req.items):
                    return False
    if isinstance(v, ListV):
        if v.generic:
            it.undecided("validation of a list of unknown length", n)
        if "items" in S and not all(rec(x, S["items"]) for x in v.items):
            return False
        if "minItems" in S and len(v.items) < S["minItems"] or "maxItems" in S and len(v.items) > S["maxItems"]:
            return False
        if S.get("uniqueItems") is True:
            it.undecided("uniqueItems", n)
    if isinstance(v, str):
        if "minLength" in S and len(v) < S["minLength"] or "maxLength" in S and len(v) > S["maxLength"]:
            return False
        if "pattern" in S:
            import re
            if re.search(S["pattern"], v) is None:
                return False
    if isnumber(v):
        for k, f in (("minimum", lambda b: it.v_lt(b, v, False, n)), ("maximum", lambda b: it.v_lt(v, b, False, n)), ("exclusiveMinimum", lambda b: it.v_lt(b, v, True, n)), ("exclusiveMaximum", lambda b: it.v_lt(v, b, True, n))):
            if k in S and not it.truth(f(S[k]), n):
                return False
        if "multipleOf" in S:
            it.undecided("multipleOf", n)
    return True


def same(it, a, b, n):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return it.v_eq(a, b, n)


def schema_call(it, path, last, a, k, n):
    from .interp import RaiseSig
    if path == "jsonschema.validate":
        inst = k.get("instance", a[0] if a else None)
        sch = k.get("schema", a[1] if len(a) > 1 else None)
        if k.get("cls") is not None or set(k) - {"instance", "schema", "cls"}:
            it.undecided("jsonschema.validate with options", n)
        if not valid(it, inst, sch, sch, n):
            it.event("raise", "ValidationError", (), node=n)
            raise RaiseSig(ExcV("ValidationError"), it.where(n))
        return None
    if re.fullmatch(r"Draft(6|7|201909|202012)Validator", last) and len(a) == 1 and not k:
        sch = a[0]

        def validate(it2, aa, kk, nn=None):
            return schema_call(it2, "jsonschema.validate", "validate", [aa[0], sch], kk, nn)
        o = ObjV(None, last)
        o.attrs.update({"validate": PyFn("validate", validate), "is_valid": PyFn("is_valid", lambda it2, aa, kk, nn=None: valid(it2, aa[0], sch, sch, nn))})
        return o
    return _MISSING

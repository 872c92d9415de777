"""Finite model of a configuration (nlohmann::json): decides what a reader of the configuration does for a given document.

The reader itself has been reduced to guarded terms by the abstract interpreter; here the guards and the
resulting fields are looked up in the document, with the library's rules for missing keys and mismatching types."""
from evalt import evalt, Unknown
from terms import *
from ir import AnalysisBroken


class Rejects(Exception):
    """the library throws"""


class Undefined(Exception):
    """missing key read through operator[] of a constant document"""


class Null(object):
    def __repr__(self):
        return "null"


NULLJ = Null()


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def convert(v, t):
    if t in ("double", "float"):
        if is_num(v) or isinstance(v, bool):
            return float(v)
    elif t == "bool":
        if isinstance(v, bool):
            return v
    elif t in ("int", "unsigned int", "long", "unsigned long", "size_t", "long long", "short", "unsigned long long"):
        if is_num(v) or isinstance(v, bool):
            return int(v)
    elif t.startswith("std::string") or t.startswith("std::basic_string") or t == "const char *":
        if isinstance(v, str):
            return v
    elif t.startswith("std::vector<double"):
        if isinstance(v, list):
            return [convert(x, "double") for x in v]
    elif t == "json":
        return v
    else:
        raise Unknown("conversion of a configuration value to " + t)
    raise Rejects("%r is no %s" % (v, t))


KINDS = {"is_number": is_num, "is_string": lambda v: isinstance(v, str), "is_array": lambda v: isinstance(v, list), "is_object": lambda v: isinstance(v, dict),
         "is_boolean": lambda v: isinstance(v, bool), "is_null": lambda v: v is NULLJ, "is_number_float": lambda v: isinstance(v, float),
         "is_number_integer": lambda v: isinstance(v, int) and not isinstance(v, bool),
         "is_number_unsigned": lambda v: isinstance(v, int) and not isinstance(v, bool) and v >= 0,
         "is_primitive": lambda v: not isinstance(v, (dict, list)), "is_structured": lambda v: isinstance(v, (dict, list))}


def index(v, k, checked):
    if isinstance(v, dict) and isinstance(k, str):
        if k in v:
            return v[k]
        if checked:
            raise Rejects("no entry " + k)
        raise Undefined("entry %s of a constant document is read although it is missing" % k)
    if isinstance(v, list) and isinstance(k, (int, float)) and not isinstance(k, bool):
        if 0 <= int(k) < len(v):
            return v[int(k)]
        if checked:
            raise Rejects("no element %d" % k)
        raise Undefined("element %d of an array of %d" % (k, len(v)))
    raise Rejects("%r is not indexed by %r" % (v, k))


def hook(x, go):
    o, a = x.op, x.a
    if o == "call" and isinstance(a[0], str) and a[0].startswith("json::"):
        n = a[0][6:]
        v = go(a[1])
        if n in KINDS and len(a) == 2:
            return KINDS[n](v)
        if n in ("contains", "count") and len(a) == 3:
            return isinstance(v, dict) and go(a[2]) in v
        if n == "empty":
            return v is NULLJ or isinstance(v, (dict, list)) and not v
        if n == "size":
            return 0 if v is NULLJ else len(v) if isinstance(v, (dict, list)) else 1
        if n == "find" and len(a) == 3:
            k = go(a[2])
            return ("at", k) if isinstance(v, dict) and k in v else ("end",)
        if n in ("end", "cend"):
            return ("end",)
        raise Unknown("json::" + n)
    if o == "end":
        return ("end",)
    if o == "size":
        v = go(a[0])
        return 0 if v is NULLJ else len(v) if isinstance(v, (dict, list)) else 1
    if o == "jget":
        return convert(go(a[0]), a[1])
    if o == "jvalue":
        v = go(a[0])
        if not isinstance(v, dict):
            raise Rejects("no object")
        k = go(a[1])
        return convert(v[k], a[3]) if k in v else convert(go(a[2]), a[3])
    if o == "elem":
        if a[1].op == "jat":
            return index(go(a[0]), go(a[1].a[0]), True)
        k = go(a[1])
        if a[0].op == "mu":
            return pointwise(a[0], k, go)
        if a[0].op == "list":
            return go(a[0].a[int(k)])
        v = go(a[0])
        return index(v, k, False)
    return None


def pointwise(t, k, go):
    """element k of an array filled by a loop that writes only the element of its own index"""
    idx, lv, init, alts = t.a
    for facts, val in alts:
        m = {idx: num(k)}
        ok = True
        for f, p in facts:
            if bool(go(subst(f, m))) != p:
                ok = False
        if not ok:
            continue
        if val.op == "rec":
            d = dict(val.a[2])
            if val.a[1] is not None and val.a[1] is lv and len(d) == 1 and list(d)[0] is idx:
                return go(subst(list(d.values())[0], m))
        raise Unknown("loop filling an array")
    return go(mk("elem", init, num(k)))


def subst(t, m):
    from poly2 import subst_map
    return subst_map(t, m)


def outcome(outs, sym, doc, env=None):
    """-> ("throw", why) | ("undefined", why) | ("return", Outcome, value-of-term function)"""
    memo = {}
    e2 = {sym: doc}
    e2.update(env or {})

    def val(t):
        return evalt(t, e2, None, hook, memo)
    hits = []
    try:
        for o in outs:
            ok = True
            for f, p in o.st.facts.items():
                if f.op == "forall":
                    continue
                try:
                    if bool(val(f)) != p:
                        ok = False
                        break
                except Unknown as u:
                    raise AnalysisBroken("condition not decided for a given configuration: %s" % u)
            if ok:
                hits.append(o)
    except Rejects as r:
        return ("throw", str(r), None)
    except Undefined as r:
        return ("undefined", str(r), None)
    kinds = {o.kind for o in hits}
    if kinds == {"throw"}:
        return ("throw", "", hits[0])
    if len(hits) != 1:
        raise AnalysisBroken("%d paths for one configuration" % len(hits))
    # typed reads that are no part of a guard
    seen = set()
    for v in list(hits[0].st.store.values()) + [x for ev in hits[0].st.ev for x in terms_of(ev)]:
        for t in sub(v):
            if t.op in ("jget", "jvalue") and t not in seen:
                seen.add(t)
                try:
                    val(t)
                except Rejects as r:
                    return ("throw", str(r), None)
                except Undefined as r:
                    return ("undefined", str(r), None)
                except Unknown:
                    pass
    return ("return", hits[0], val)


def terms_of(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            for z in terms_of(y):
                yield z

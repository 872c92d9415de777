"""Path-sensitive dataflow over value-numbered terms.

The engine walks the resolved syntax tree of one function, inlines callees
defined in the tree, partitions control paths by their branch conditions and
keeps for every path: the facts (branch conditions that must hold), the values
stored in every location (as interned terms) and the ordered effects.  Loops
are summarised (induction variables, universally quantified facts, accumulator
terms).  Nothing is executed and no solver is involved."""
import re
from terms import *
from ir import AnalysisBroken, rel

MATH = {"sqrt": "sqrt", "exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "acos": "acos",
        "asin": "asin", "atan": "atan", "atan2": "atan2", "pow": "pow", "abs": "abs", "fabs": "abs",
        "log10": "log10", "log2": "log2", "floor": "floor", "ceil": "ceil", "round": "round", "cbrt": "cbrt",
        "log1p": "log1p", "expm1": "expm1", "erf": "erf", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
        "hypot": "hypot", "fmod": "fmod", "copysign": "copysign", "exp2": "exp2", "tgamma": "tgamma",
        "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "signbit": "signbit", "trunc": "trunc",
        "fmax": "max", "fmin": "min", "lgamma": "lgamma", "erfc": "erfc", "sqrtf": "sqrt", "powf": "pow",
        "lround": "round", "nearbyint": "round", "asinh": "asinh", "acosh": "acosh", "atanh": "atanh"}

SMART = ("std::unique_ptr<", "std::shared_ptr<")
PURE_METHODS = {"size", "length", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "count",
                "c_str", "str", "get", "at", "front", "back", "data", "lower_bound", "upper_bound", "substr",
                "what", "compare", "good", "fail", "eof", "contains", "is_array", "is_object", "is_string",
                "is_number", "value", "dump", "has_value", "type_name", "name", "key", "hash_code", "use_count"}


class Stop(Exception):
    pass


class St(object):
    __slots__ = ("store", "refs", "facts", "ev")

    def __init__(self, store=None, refs=None, facts=None, ev=()):
        self.store = store if store is not None else {}
        self.refs = refs if refs is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev

    def copy(self):
        return St(dict(self.store), dict(self.refs), dict(self.facts), self.ev)


class Frame(object):
    _n = 0

    def __init__(self, fn, this, dyn, depth):
        Frame._n += 1
        self.n = Frame._n
        self.fn = fn
        self.this = this
        self.dyn = dyn
        self.depth = depth


class Outcome(object):
    """One path through a function."""
    __slots__ = ("st", "kind", "value", "node")

    def __init__(self, st, kind, value, node=None):
        self.st = st
        self.kind = kind
        self.value = value
        self.node = node


def rec(cls, base, items):
    d = sorted(items.items(), key=lambda kv: (0, kv[0], 0) if isinstance(kv[0], str) else (1, "", kv[0].id))
    return mk("rec", cls, base, tuple(d))


def rget(v, key):
    """value of field/element `key` of object value v"""
    if isinstance(key, T) and key.op == "enum" and len(key.a) > 1 and v.op in ("list", "tuple"):
        key = num(key.a[1])
    if v.op == "rec":
        for k, x in v.a[2]:
            if k == key or k is key:
                return x
        if not isinstance(key, str) and any(not isinstance(k, str) for k, _ in v.a[2]):
            others = [k for k, _ in v.a[2] if not isinstance(k, str)]
            if not (isnum(key) and all(isnum(k) for k in others)):
                return mk("elem", v, key)
        if v.a[1] is None:
            return mk("undef", v.a[0], key)
        return rget(v.a[1], key)
    if isinstance(key, str):
        if v.op == "tuple" and key.startswith("get<"):
            i = int(key[4:-1])
            if i < len(v.a):
                return v.a[i]
        if v.op in ("list", "tuple") and key in ("first", "second"):
            i = 0 if key == "first" else 1
            if i < len(v.a):
                return v.a[i]
        if v.op == "cases":
            return mk("cases", tuple((f, rget(x, key)) for f, x in v.a[0]))
        return mk("fld", v, key)
    if v.op in ("list", "tuple") and isnum(key) and isinstance(key.a[0], int) and 0 <= key.a[0] < len(v.a):
        return v.a[key.a[0]]
    if v.op == "vpush" and isnum(key):
        n = vlen(v)
        if n is not None:
            w = v
            while w.op == "vpush":
                if n - 1 == key.a[0]:
                    return w.a[1]
                n -= 1
                w = w.a[0]
            return rget(w, key)
    return mk("elem", v, key)


def vlen(v):
    n = 0
    while v.op == "vpush":
        n += 1
        v = v.a[0]
    if v.op in ("list", "tuple"):
        return n + len(v.a)
    return None


def rset(v, path, val):
    if not path:
        return val
    k = path[0]
    if isinstance(k, T) and k.op == "enum" and len(k.a) > 1 and v.op in ("list", "tuple"):
        k = num(k.a[1])
    inner = rset(rget(v, k), path[1:], val)
    if v.op == "rec":
        items = dict(v.a[2])
        if not isinstance(k, str) and not (isnum(k) and all(isnum(x) or isinstance(x, str) for x in items)):
            if k not in items or len([x for x in items if not isinstance(x, str)]) > 1:
                return rec(v.a[0], v, {k: inner})
        items[k] = inner
        base = v.a[1]
        if base is not None:
            items = {kk: vv for kk, vv in items.items() if vv is not rget(base, kk)}
            if not items:
                return base
        return rec(v.a[0], base, items)
    if inner is rget(v, k):
        return v
    if isinstance(k, str) and v.op == "tuple" and k.startswith("get<"):
        i = int(k[4:-1])
        return mk("tuple", *[inner if j == i else x for j, x in enumerate(v.a)])
    if v.op == "list" and not isinstance(k, str) and isnum(k) and isinstance(k.a[0], int) and 0 <= k.a[0] < len(v.a):
        return mk("list", *[inner if j == k.a[0] else x for j, x in enumerate(v.a)])
    return rec("", v, {k: inner})


def lnot(t):
    if t.op == "bool":
        return boolt(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def norm_cond(t):
    """(term, polarity)"""
    pol = True
    while True:
        if t.op == "not":
            t = t.a[0]
            pol = not pol
        elif t.op == "tobool":
            t = t.a[0]
        else:
            return t, pol


def mkcmp(op, a, b):
    if op == ">":
        return mkcmp("<", b, a)
    if op == ">=":
        return mkcmp("<=", b, a)
    if op == "!=":
        return lnot(mkcmp("==", a, b))
    if isnum(a) and isnum(b):
        x, y = a.a[0], b.a[0]
        return boolt({"<": x < y, "<=": x <= y, "==": x == y}[op])
    if op == "==":
        if a is b:
            return TRUE
        if a.op == "enum" and b.op == "enum":
            return boolt(a.a[1] == b.a[1])
        if a.op == "bool" and b.op == "bool":
            return boolt(a.a[0] == b.a[0])
        if a.op == "str" and b.op == "str":
            return boolt(a.a[0] == b.a[0])
        if a.op == "bool":
            a, b = b, a
        if b.op == "bool" and a.op not in ("num", "enum", "str"):
            return a if b.a[0] else lnot(a)
        if a.op == "ptr" and b.op == "ptr" and a.a[0] != b.a[0] and (a.a[0][0] in "th" or b.a[0][0] in "th"):
            return FALSE        # a temporary or new object has no other name
        if a.op == "ptr" and b.op == "ptr" and a.a[1] == b.a[1] and a.a[1]:
            # the same member of two objects: one object or two
            return mkcmp("==", mk("ptr", a.a[0], ()), mk("ptr", b.a[0], ()))
        for x, y in ((a, b), (b, a)):
            if y.op == "null" and x.op in ("ptr",):
                return FALSE
            if y.op == "null" and x.op == "dyncast":
                return lnot(mk("isa", x.a[1], x.a[0]))
        for x, y in ((a, b), (b, a)):
            if isnum(y) and y.a[0] == 0 and x.op == "call" and len(x.a) == 3 and x.a[0].endswith("string::compare"):
                return mkcmp("==", x.a[1], x.a[2])
        if b.op in ("num", "str", "enum", "null", "bool"):
            return mk("==", a, b)
        if a.op in ("num", "str", "enum", "null", "bool") or a.id > b.id:
            a, b = b, a
        return mk("==", a, b)
    if op == "<" and a is b:
        return FALSE
    return mk(op, a, b)


_ARI = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}


def arith(op, a, b, integral=False):
    if op == "/" and integral:
        op = "idiv"
    if isnum(a) and isnum(b):
        x, y = a.a[0], b.a[0]
        if op in _ARI and isinstance(x, int) and isinstance(y, int):
            return num(_ARI[op](x, y))
        if op == "/" and isinstance(x, int) and isinstance(y, int) and y and x % y == 0:
            return num(x // y)
        if op == "idiv" and isinstance(x, int) and isinstance(y, int) and y:
            q = abs(x) // abs(y)
            return num(q if (x < 0) == (y < 0) else -q)
        if op == "%" and isinstance(x, int) and isinstance(y, int) and y > 0 and x >= 0:
            return num(x % y)
    if op == "+":
        if isnum(a, 0):
            return b
        if isnum(b, 0):
            return a
    if op == "-" and isnum(b, 0):
        return a
    if op in ("*",):
        if isnum(a, 1):
            return b
        if isnum(b, 1):
            return a
    if op in ("/", "idiv") and isnum(b, 1):
        return a
    return mk(op, a, b)


def integral_type(t):
    t = t.replace("const ", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char",
                 "signed char", "long long", "unsigned long long", "bool")


def strip_type(t):
    t = t.strip()
    while True:
        n = t
        if n.endswith("&&"):
            n = n[:-2].strip()
        elif n.endswith("&") or n.endswith("*"):
            n = n[:-1].strip()
        if n.startswith("const "):
            n = n[6:]
        if n.endswith(" const"):
            n = n[:-6]
        if n == t:
            return n
        t = n


def pointee(t):
    t = t.strip()
    for s in SMART:
        b = t[6:] if t.startswith("const ") else t
        if b.startswith(s):
            inner = b[len(s):]
            d = 0
            for i, c in enumerate(inner):
                if c == "<":
                    d += 1
                elif c == ">":
                    if d == 0:
                        return inner[:i]
                    d -= 1
                elif c == "," and d == 0:
                    return inner[:i]
    return t[:-1].strip() if t.endswith("*") else t


def is_ref(t):
    return t.endswith("&")


REARRANGE = set("std::" + x for x in ("sort", "stable_sort", "partial_sort", "nth_element", "reverse", "rotate", "fill", "fill_n", "iota",
                                     "generate", "shuffle", "random_shuffle", "remove", "remove_if", "unique", "replace", "replace_if", "partition"))


class Engine(object):
    def __init__(self, db, inline=None, dyn=None, limit=64, depth=8, events=None, opaque=None, const_names=True, unroll=0, peel=0):
        self.db = db
        self.peel = peel        # other loops: only executions that leave them after at most this many iterations
        self.unroll = unroll    # loops whose trip count is decided are followed iteration by iteration up to this bound
        self.inline = inline or (lambda f: True)
        self.limit = limit
        self.maxdepth = depth
        self.events = events  # None: all
        self.opaque = opaque or (lambda fn: None)
        self.const_names = const_names
        self.sinks = [[]]
        self.stack = []
        self.lambdas = {}
        self.ntmp = 0
        self.nfresh = 0
        self.dyncls = dict(dyn or {})  # object term -> dynamic class
        self.visited = set()
        self.quiet = 0
        self.fresh = set()   # function names returning a new value on each call
        self.unknown = set()
        self.loopdepth = 0
        self.merges = 0
        self.cur = None
        self._quiet_modified = []
        self.copied = {}     # root -> (class, source) of objects built by a copy constructor

    # ------------------------------------------------------------- plumbing
    def event(self, st, kind, *data):
        if self.quiet:
            return
        if self.events is not None and kind not in self.events:
            return
        st.ev = st.ev + ((kind,) + data,)

    def where(self, fr, node):
        if fr is None or node is None:
            return ("?", 0)
        return (rel(fr.fn.get("file", "?")), node.get("l", node.get("line", 0)))

    def tmp(self):
        self.ntmp += 1
        return ("t", self.ntmp)

    def load(self, st, lv):
        root, path = lv
        v = st.store.get(root)
        if v is None:
            v = self.initial(root)
        for k in path:
            v = rget(v, k)
        return v

    def initial(self, root):
        if root[0] == "o":
            return root[1]
        if root[0] == "g":
            return self.global_value(root[1])
        return mk("undef", str(root[0]), str(root[-1]))

    def global_value(self, name):
        g = self.db.globals.get(name)
        if g is not None and g.get("const") and "cv" in g:
            if self.const_names and not g.get("static_local") and "@" not in name:
                return mk("glob", name)
            return num(g["cv"])
        return mk("glob", name)

    def save(self, st, lv, val, fr=None, node=None):
        root, path = lv
        if path:
            old = st.store.get(root)
            if old is None:
                old = self.initial(root)
            nv = rset(old, path, val)
        else:
            nv = val
        st.store[root] = nv
        if root[0] in ("o", "g"):
            self.event(st, "write", lv, val, self.where(fr, node))

    def deref(self, st, p, fr=None, node=None):
        """pointer value -> lvalue"""
        if p.op == "ptr":
            return (p.a[0], p.a[1])
        if p.op == "dyncast":
            if st is not None and self.truth(st, mk("isa", p.a[1], p.a[0])) is not True:
                self.event(st, "baddyn", p, self.where(fr, node))
            q = p.a[1]
            return self.deref(st, q, fr, node)
        if p.op == "obj":
            return (("o", p), ())
        if p.op == "iter":
            return self.elem_lv(st, self.as_obj(st, p.a[0]), p.a[1])
        if p.op == "begin" and self.unroll and vlen(p.a[0]):
            return self.elem_lv(st, self.as_obj(st, p.a[0]), num(0))
        self.event(st, "deref", p, self.where(fr, node))
        return (("o", mk("deref", p)), ())

    def as_obj(self, st, v):
        """container value -> lvalue holding it"""
        if v.op == "cont":
            return (v.a[0], v.a[1])
        r = self.tmp()
        st.store[r] = v
        return (r, ())

    def elem_lv(self, st, lv, idx):
        return (lv[0], lv[1] + (idx,))

    def addr(self, lv):
        root, path = lv
        if root[0] == "o" and not path and root[1].op == "deref":
            return root[1].a[0]
        return mk("ptr", root, path)

    # ------------------------------------------------------------- facts
    def truth(self, st, t):
        t, pol = norm_cond(t)
        if t.op == "bool":
            return t.a[0] == pol
        r = st.facts.get(t)
        if r is None:
            a = t.a
            f = st.facts
            if t.op == "<":
                if f.get(mk("<=", a[1], a[0])) or f.get(mk("<", a[1], a[0])) or f.get(mkcmp("==", *a)):
                    r = False
                elif f.get(mk("<=", a[0], a[1])) and f.get(mkcmp("==", *a)) is False:
                    r = True
            elif t.op == "<=":
                if f.get(mk("<", a[1], a[0])):
                    r = False
                elif f.get(mk("<", a[0], a[1])) or f.get(mkcmp("==", *a)):
                    r = True
            elif t.op == "==":
                if f.get(mk("<", a[0], a[1])) or f.get(mk("<", a[1], a[0])):
                    r = False
                elif a[1].op in ("num", "enum", "str", "bool"):
                    # x == c1 known, c1 != c2
                    for u, p in f.items():
                        if p and u.op == "==" and u.a[0] is a[0] and u.a[1].op == a[1].op and u.a[1] is not a[1]:
                            r = False
                            break
        if r is None:
            return None
        return r == pol

    def assume(self, st, t, pol):
        """state in which t == pol, or None if contradictory"""
        t, p = norm_cond(t)
        pol = pol == p
        if t.op == "bool":
            return st if t.a[0] == pol else None
        k = self.truth(st, t)
        if k is not None:
            return st if k == pol else None
        st = st.copy()
        st.facts[t] = pol
        if t.op == "mu":
            self._assume_mu(st, t, pol)
        if t.op == "cases":
            # keep only what all compatible cases agree on
            comp = [f for f, v in t.a[0] if not (v.op == "bool" and v.a[0] != pol)]
            if not comp:
                return None
            common = set(comp[0])
            for c in comp[1:]:
                common &= set(c)
            for u, p2 in common:
                if st.facts.get(u, p2) != p2:
                    return None
                st.facts.setdefault(u, p2)
        return st

    def _assume_mu(self, st, t, pol):
        # boolean accumulator: init I, alternatives (facts, next)
        var, init, alts = t.a[1], t.a[2], t.a[3]
        if init.op != "bool" or init.a[0] != pol:
            return
        keep = []
        for facts, nxt in alts:
            if nxt.op == "bool" and nxt.a[0] != pol:
                continue
            keep.append(set(facts))
        if keep and len(keep) < len(alts):
            common = keep[0]
            for k in keep[1:]:
                common &= k
            for u, p in common:
                if u is t or u is var:
                    continue
                st.facts[mk("forall", t.a[0], u)] = p

    # ------------------------------------------------------------- merging
    def merge(self, sts):
        """join several states: facts intersect, differing values become cases"""
        if len(sts) == 1:
            return sts[0]
        self.merges += 1
        facts = {}
        f0 = sts[0].facts
        for t, p in f0.items():
            if all(s.facts.get(t) == p and t in s.facts for s in sts[1:]):
                facts[t] = p
        diffs = [tuple((t, p) for t, p in s.facts.items() if t not in facts) for s in sts]
        store = {}
        roots = set()
        for s in sts:
            roots |= set(s.store)
        for r in roots:
            vs = [s.store[r] if r in s.store else self.initial(r) for s in sts]
            store[r] = self.mergev(diffs, vs)
        refs = {}
        for k in sts[0].refs:
            if all(s.refs.get(k) == sts[0].refs[k] for s in sts[1:]):
                refs[k] = sts[0].refs[k]
        evs = [s.ev for s in sts]
        n = 0
        while all(len(e) > n for e in evs) and all(e[n] == evs[0][n] for e in evs[1:]):
            n += 1
        ev = evs[0][:n]
        rests = []
        for e in evs:
            if e[n:] not in rests:
                rests.append(e[n:])
        if any(rests):
            ev = ev + (("alt", tuple(rests)),)
        return St(store, refs, facts, ev)

    def mergev(self, diffs, vs):
        if all(v is vs[0] for v in vs[1:]):
            return vs[0]
        if all(v.op == "rec" for v in vs) and all(v.a[1] is vs[0].a[1] and v.a[0] == vs[0].a[0] for v in vs):
            keys = {}
            for v in vs:
                for k, _ in v.a[2]:
                    keys[k] = 1
            if all(isinstance(k, str) for k in keys):
                return rec(vs[0].a[0], vs[0].a[1], {k: self.mergev(diffs, [rget(v, k) for v in vs]) for k in keys})
        if self.unroll and all(v.op == "list" and len(v.a) == len(vs[0].a) for v in vs):
            return mk("list", *[self.mergev(diffs, [v.a[i] for v in vs]) for i in range(len(vs[0].a))])
        cs, seen = [], set()
        for d, v in zip(diffs, vs):
            if (d, v) in seen:
                continue
            seen.add((d, v))
            cs.append((d, v))
        return mk("cases", tuple(cs))

    def bound(self, sts):
        if len(sts) > self.limit:
            return [self.merge(sts)]
        return sts

    def bound_vals(self, rs):
        if len(rs) <= self.limit:
            return rs
        st = self.merge([s for s, _ in rs])
        diffs = [tuple((t, p) for t, p in s.facts.items() if t not in st.facts) for s, _ in rs]
        return [(st, self.mergev(diffs, [v for _, v in rs]))]

    # ------------------------------------------------------------- functions
    def run(self, fn, this=None, args=None, dyn=None, st=None):
        """analyse fn from a symbolic entry; -> [Outcome]"""
        st = st or St()
        if "ctor" in fn or "cls" in fn:
            if not fn.get("static"):
                if this is None:
                    this = (("o", mk("this")), ())
                if fn.get("ctor") and st.store.get(this[0]) is None and this[0] == ("o", mk("this")):
                    st.store[this[0]] = rec(fn["cls"], None, {})
        avals = []
        for i, p in enumerate(fn["params"]):
            if args is not None and i < len(args) and args[i] is not None:
                avals.append(args[i])
            else:
                avals.append(self.param(p))
        sinks = self.sinks
        self.sinks = [[]]
        try:
            outs = self.invoke(fn, this, avals, st, dyn, 0)
            thrown = [Outcome(s, "throw", v, n) for s, v, n in self.sinks[0]]
        finally:
            self.sinks = sinks
        return [Outcome(s, "return", v, n) for s, v, n in outs] + thrown

    def param(self, p):
        s = mk("sym", p["n"] or "_")
        if is_ref(p["t"]):
            return ("lv", (("o", s), ()))
        return ("val", s)

    def invoke(self, fn, this, avals, st, dyn, depth):
        """-> [(st, value, node)]; throws go to the current sink"""
        fr = Frame(fn, this, dyn, depth)
        self.visited.add(fn["fn"])
        st = st.copy()
        for p, a in zip(fn["params"], avals):
            self.bind_param(fr, p, a, st)
        self.stack.append(fn["fn"])
        saved = self.cur
        self.cur = fr
        try:
            outs = [(st, "next", None, None)]
            if fn.get("ctor"):
                outs = self.ctor_inits(fn, fr, st)
            if "body" in fn:
                res = []
                nxt = [o[0] for o in outs if o[1] == "next"]
                res += [o for o in outs if o[1] != "next"]
                for s in self.bound(nxt):
                    res += self.ex(fn["body"], s, fr)
                outs = res
        finally:
            self.stack.pop()
            self.cur = saved
        out = []
        for s, kind, v, node in outs:
            if kind == "next":
                out.append((s, VOID, None))
            elif kind == "return":
                out.append((s, v if v is not None else VOID, node))
            elif kind == "throw":
                self.sinks[-1].append((s, v, node))
        if depth > 0:
            for s, v, n in out:
                self.drop_frame(s, fr)
        return out

    def drop_frame(self, s, fr):
        for r in [r for r in s.store if r[0] == "v" and r[1] == fr.n]:
            # keep storage still referenced by address (lambda captures)
            del s.store[r]
        for k in [k for k in s.refs if k[0] == fr.n]:
            del s.refs[k]

    def bind_param(self, fr, p, a, st):
        kind, x = a
        if is_ref(p["t"]):
            if kind == "lv":
                st.refs[(fr.n, p["id"])] = x
            else:
                r = ("v", fr.n, p["id"])
                st.store[r] = x
        else:
            v = self.load(st, x) if kind == "lv" else x
            st.store[("v", fr.n, p["id"])] = v

    def ctor_inits(self, fn, fr, st):
        outs = [st]
        db = self.db
        for i in fn.get("inits", []):
            nxt = []
            for s in outs:
                if "m" in i:
                    lv = (fr.this[0], fr.this[1] + (i["m"],))
                    nxt += self.init_at(i["init"], lv, s, fr)
                else:
                    nxt += self.init_at(i["init"], fr.this, s, fr, base=True)
            outs = self.bound(nxt)
        return [(s, "next", None, None) for s in outs]

    def init_at(self, e, lv, st, fr, base=False):
        """evaluate initialiser e into location lv -> [st]"""
        if e is None:
            return [st]
        if e["k"] == "Construct":
            return [s for s, _ in self.construct(e, st, fr, at=lv, base=base)]
        if e["k"] == "CXXInheritedCtorInitExpr":
            return [st]
        out = []
        if is_ref_member(self.db, fr, lv):
            for s, l in self.lv(e, st, fr):
                s = s.copy()
                self.save(s, lv, mk("ref", self.addr(l)), fr, e)
                out.append(s)
            return out
        for s, v in self.ev(e, st, fr):
            s = s.copy()
            if base and v.op != "rec":
                self.save(s, lv, v, fr, e)
            else:
                self.save(s, lv, v, fr, e)
            out.append(s)
        return out

    # ------------------------------------------------------------- statements
    def ex(self, n, st, fr):
        """-> [(st, kind, value, node)] kind in next/return/break/continue/throw"""
        if n is None:
            return [(st, "next", None, None)]
        m = getattr(self, "x_" + n["k"], None)
        if m is not None:
            return m(n, st, fr)
        # expression statement
        sink = []
        self.sinks.append(sink)
        try:
            rs = self.ev(n, st, fr, discard=True)
        finally:
            self.sinks.pop()
        return [(s, "next", None, None) for s, _ in rs] + [(s, "throw", v, nd) for s, v, nd in sink]

    def with_sink(self, f):
        sink = []
        self.sinks.append(sink)
        try:
            r = f()
        finally:
            self.sinks.pop()
        return r, [(s, "throw", v, nd) for s, v, nd in sink]

    def x_Block(self, n, st, fr):
        cur = [st]
        out = []
        for c in n["c"]:
            nxt = []
            for s in cur:
                for o in self.ex(c, s, fr):
                    if o[1] == "next":
                        nxt.append(o[0])
                    else:
                        out.append(o)
            cur = self.bound(nxt)
            if not cur:
                break
        return out + [(s, "next", None, None) for s in cur]

    def x_Nop(self, n, st, fr):
        return [(st, "next", None, None)]

    def x_Decl(self, n, st, fr):
        cur = [st]
        out = []
        for v in n["c"]:
            nxt = []
            for s in cur:
                r, th = self.with_sink(lambda: self.declare(v, s, fr))
                nxt += r
                out += th
            cur = self.bound(nxt)
        return out + [(s, "next", None, None) for s in cur]

    def declare(self, v, st, fr):
        key = ("v", fr.n, v["id"])
        if v.get("static"):
            s = st.copy()
            s.refs[(fr.n, v["id"])] = (("g", v["g"]), ())
            self.event(s, "staticvar", v["g"], v["t"], self.where(fr, v))
            if "init" in v and v["g"] not in self.stack:
                if not v.get("const"):
                    return [s]
                out = []
                for s2, val in self.ev(v["init"], s, fr):
                    s2 = s2.copy()
                    s2.store.setdefault(("g", v["g"]), val)
                    out.append(s2)
                return out
            return [s]
        if "init" not in v or v["init"] is None:
            s = st.copy()
            s.store[key] = mk("undef", v["t"], v["n"])
            return [s]
        init = v["init"]
        out = []
        if is_ref(v["t"]) and init["k"] not in ("InitList",):
            for s, l in self.lv(init, st, fr):
                s = s.copy()
                s.refs[(fr.n, v["id"])] = l
                self._bindings(v, s, fr, l)
                out.append(s)
            return out
        for s in self.init_at(init, (key, ()), self._scratch(st, key), fr):
            s = s.copy()
            if key in s.store:
                x = s.store[key]
                if x.op == "list" and strip_type(v["t"]) in self.db.records:
                    s.store[key] = self.aggregate(strip_type(v["t"]), x)
            self._bindings(v, s, fr, (key, ()))
            out.append(s)
        return out

    def _scratch(self, st, key):
        s = st.copy()
        s.store.pop(key, None)
        return s

    def aggregate(self, cls, lst):
        fs = self.db.fields(cls)
        return rec(cls, None, {f["n"]: x for f, x in zip(fs, lst.a)})

    def _bindings(self, v, s, fr, lv):
        for i, b in enumerate(v.get("bindings", [])):
            cur = self.load(s, lv)
            if cur.op == "rec" and all(isinstance(k, str) for k, _ in cur.a[2]) and "first" in dict(cur.a[2]):
                k = ("first", "second")[i]
            elif cur.op in ("tuple",):
                k = "get<%d>" % i
            else:
                k = ("first", "second")[i] if i < 2 and len(v["bindings"]) == 2 else "get<%d>" % i
            s.refs[(fr.n, b["id"])] = (lv[0], lv[1] + (k,))

    def x_Return(self, n, st, fr):
        if not n["c"]:
            return [(st, "return", None, n)]
        e = n["c"][0]

        def go():
            if is_ref(fr.fn.get("ret", "")) and not fr.fn.get("lambda"):
                return [(s, mk("lvref", l[0], l[1])) for s, l in self.lv(e, st, fr)]
            if e["k"] == "InitList" and strip_type(fr.fn.get("ret", "")) in self.db.records:
                return [(s, self.aggregate(strip_type(fr.fn["ret"]), v) if v.op == "list" else v)
                        for s, v in self.ev(e, st, fr)]
            return self.ev(e, st, fr)
        r, th = self.with_sink(go)
        return [(s, "return", v, n) for s, v in r] + th

    def x_Break(self, n, st, fr):
        return [(st, "break", None, n)]

    def x_Continue(self, n, st, fr):
        return [(st, "continue", None, n)]

    def x_Throw(self, n, st, fr):
        r, th = self.with_sink(lambda: self.ev(n, st, fr))
        return th

    def x_If(self, n, st, fr):
        pre = [st]
        out = []
        if n.get("init"):
            nx = []
            for s in pre:
                for o in self.ex(n["init"], s, fr):
                    (nx.append(o[0]) if o[1] == "next" else out.append(o))
            pre = nx
        if n.get("var"):
            nx = []
            for s in pre:
                r, th = self.with_sink(lambda: self.declare(n["var"], s, fr))
                nx += r
                out += th
            pre = nx
        c, then, els = n["c"]
        for s in pre:
            r, th = self.with_sink(lambda: self.cond(c, s, fr))
            out += th
            for s2, b in r:
                out += self.ex(then if b else els, s2, fr)
        return self.bound_outs(out)

    def bound_outs(self, outs):
        nx = [o[0] for o in outs if o[1] == "next"]
        if len(nx) <= self.limit:
            return outs
        return [o for o in outs if o[1] != "next"] + [(self.merge(nx), "next", None, None)]

    def x_Switch(self, n, st, fr):
        body = n["c"][1]
        items = body["c"] if body["k"] == "Block" else [body]
        # flatten nested case labels
        flat = []

        def add(x):
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Case":
                    flat.append(("case", x["c"][0]))
                    x = x["c"][1]
                else:
                    flat.append(("default", None))
                    x = x["c"][0]
            if x is not None:
                flat.append(("stmt", x))
        for x in items:
            add(x)
        out = []
        r, th = self.with_sink(lambda: self.ev(n["c"][0], st, fr))
        out += th
        for s, v in r:
            rest = s
            entries = []
            default = None
            for i, (k, x) in enumerate(flat):
                if k == "case" and rest is not None:
                    (_, cv), = self.ev(x, s, fr)
                    t = mkcmp("==", v, cv)
                    s1 = self.assume(rest, t, True)
                    if s1 is not None:
                        entries.append((i, s1))
                    rest = self.assume(rest, t, False)
                elif k == "default":
                    default = i
            if rest is not None:
                if default is not None:
                    entries.append((default, rest))
                else:
                    out.append((rest, "next", None, None))
            for i, s1 in entries:
                cur = [s1]
                for k, x in flat[i:]:
                    if k != "stmt":
                        continue
                    nx = []
                    for c in cur:
                        for o in self.ex(x, c, fr):
                            if o[1] == "next":
                                nx.append(o[0])
                            elif o[1] == "break":
                                out.append((o[0], "next", None, None))
                            else:
                                out.append(o)
                    cur = nx
                    if not cur:
                        break
                out += [(c, "next", None, None) for c in cur]
        return self.bound_outs(out)

    def x_Try(self, n, st, fr):
        out = []
        for o in self.ex(n["c"][0], st, fr):
            if o[1] != "throw":
                out.append(o)
                continue
            s = o[0]
            caught = False
            for h in n["handlers"]:
                ct = strip_type(h["var"]["t"]) if "var" in h else None
                m = self.catches(ct, o[2])
                if m is False:
                    continue
                s2 = s.copy()
                if "var" in h:
                    s2.store[("v", fr.n, h["var"]["id"])] = o[2]
                self.event(s2, "catch", ct, o[2], self.where(fr, h["body"]))
                out += self.ex(h["body"], s2, fr)
                caught = m is True
                if caught:
                    break
            if not caught:
                out.append(o)
        return out

    def catches(self, ct, exc):
        if ct is None:
            return True
        et = exc.a[0] if exc is not None and exc.op == "exc" else None
        if et is None:
            return None
        if et == ct or ct == "std::exception":
            return True
        std = {"std::invalid_argument": ["std::logic_error"], "std::out_of_range": ["std::logic_error"],
               "std::domain_error": ["std::logic_error"], "std::range_error": ["std::runtime_error"],
               "std::overflow_error": ["std::runtime_error"]}
        return ct in std.get(et, [])

    # ------------------------------------------------------------- loops
    def x_For(self, n, st, fr):
        init, c, inc, body = n["c"]
        out = []
        pre = [st]
        if init is not None:
            nx = []
            for o in self.ex(init, st, fr):
                (nx.append(o[0]) if o[1] == "next" else out.append(o))
            pre = nx
        for s in pre:
            out += self.loop(n, s, fr, c, inc, body)
        return self.bound_outs(out)

    def x_While(self, n, st, fr):
        return self.loop(n, st, fr, n["c"][0], None, n["c"][1])

    def x_Do(self, n, st, fr):
        body, c = n["c"]
        out = []
        first = self.ex(body, st, fr)
        nx = []
        for o in first:
            if o[1] in ("next", "continue"):
                nx.append(o[0])
            elif o[1] == "break":
                out.append((o[0], "next", None, None))
            else:
                out.append(o)
        if c["k"] == "Bool" and c["v"] is False or (c["k"] == "Int" and c["v"] == "0"):
            return out + [(s, "next", None, None) for s in nx]
        if c["k"] == "Cast" and c["c"][0]["k"] in ("Int",) and c["c"][0]["v"] == "0":
            return out + [(s, "next", None, None) for s in nx]
        if not nx:
            return out
        out += self.loop(n, self.merge(nx), fr, c, None, body)
        return self.bound_outs(out)

    def iterate(self, st, fr, c, inc, body, pre=None):
        """one iteration from st: -> (backs, exits, others)"""
        backs, exits, other = [], [], []
        starts = [st]
        if pre is not None:
            starts = pre(st)
        for s0 in starts:
            if c is None:
                cs, th = [(s0, True)], []
            else:
                cs, th = self.with_sink(lambda: self.cond(c, s0, fr))
            other += th
            for s, b in cs:
                if not b:
                    exits.append(s)
                    continue
                for o in self.ex(body, s, fr):
                    if o[1] in ("next", "continue"):
                        if inc is not None:
                            r, th2 = self.with_sink(lambda: self.ev(inc, o[0], fr, discard=True))
                            other += th2
                            backs += [x for x, _ in r]
                        else:
                            backs.append(o[0])
                    elif o[1] == "break":
                        exits_b = (o[0], "next", None, None)
                        other.append(("brk", exits_b))
                    else:
                        other.append(o)
        return backs, exits, other

    def diff(self, old, new, path=()):
        """paths at which two values differ"""
        if old is new:
            return []
        if new.op == "rec":
            base = new
            keys = {}
            o_items = {}
            x = new
            while x is not None and x.op == "rec" and x is not old:
                for k, _ in x.a[2]:
                    keys[k] = 1
                x = x.a[1]
            if old.op == "rec" and x is not old:
                if x is not None or old.a[1] is not None:
                    y = old
                    while y is not None and y.op == "rec":
                        for k, _ in y.a[2]:
                            keys[k] = 1
                        y = y.a[1]
                    if y is not x:
                        return [path]
                else:
                    for k, _ in old.a[2]:
                        keys[k] = 1
            elif x is not old:
                return [path]
            out = []
            for k in keys:
                if not isinstance(k, str):
                    return [path]
                out += self.diff(rget(old, k), rget(new, k), path + (k,))
            return out
        return [path]

    def modified(self, st, ends):
        mods = {}
        for e in ends:
            for r, v in e.store.items():
                old = st.store.get(r)
                if old is None:
                    if r[0] in ("t", "h") or (r[0] == "v"):
                        if r[0] == "v" and r not in st.store:
                            continue
                        continue
                    old = self.initial(r)
                for p in self.diff(old, v):
                    mods[(r, p)] = 1
        # drop paths covered by prefixes
        out = []
        for r, p in mods:
            if not any(r2 == r and len(p2) < len(p) and p[:len(p2)] == p2 for r2, p2 in mods):
                out.append((r, p))
        return out

    def unrolled(self, st, fr, c, inc, body):
        """a loop whose condition is decided in every iteration; None if it is not"""
        cur, out = [st.copy()], []
        saved = (self.ntmp, self.nfresh)
        for _k in range(self.unroll + 1):
            go = []
            for s in cur:
                cs, th = self.with_sink(lambda: self.cond(c, s.copy(), fr))
                if th or len(cs) != 1:
                    return None
                s1, b = cs[0]
                if b:
                    go.append(s1)
                else:
                    out.append((s1, "next", None, None))
            if not go:
                return out
            cur = []
            for s in go:
                for o in self.ex(body, s, fr):
                    if o[1] in ("next", "continue"):
                        if inc is None:
                            cur.append(o[0])
                            continue
                        r, th = self.with_sink(lambda: self.ev(inc, o[0], fr, discard=True))
                        out += th
                        cur += [x for x, _ in r]
                    elif o[1] == "break":
                        out.append((o[0], "next", None, None))
                    else:
                        out.append(o)
            cur = self.bound(cur)
            if not cur:
                return out
        return None

    def peeled(self, st, fr, c, inc, body):
        cur, out = [st.copy()], []
        for _k in range(self.peel + 1):
            backs = []
            for s in cur:
                b, exits, other = self.iterate(s, fr, c, inc, body)
                backs += b
                out += [(x, "next", None, None) for x in exits]
                out += [o[1] if o[0] == "brk" else o for o in other]
            cur = self.bound(backs)
            if not cur:
                break
        return out

    def loop(self, n, st, fr, c, inc, body, pre=None, elem=None):
        """summarised loop. pre(st)->[st] runs before the condition (range-for)."""
        if self.unroll and c is not None and pre is None:
            r = self.unrolled(st, fr, c, inc, body)
            if r is not None:
                return r
        if self.peel and c is not None and pre is None:
            return self.peeled(st, fr, c, inc, body)
        self.loopdepth += 1
        depth = self.loopdepth
        lid = "%d" % depth
        out = []
        try:
            # --- phase A: what does the body change, and how
            self.quiet += 1
            mods = []
            nodyn = None
            for _round in range(4):
                hst = st.copy()
                syms = {}
                for (r, p) in mods:
                    s = mk("lv", lid, str(r[0]) + str(r[1]) if r[0] != "v" else self.vname(fr, r), p)
                    syms[(r, p)] = s
                    self.save(hst, (r, p), s)
                backs, exits, other = self.iterate(hst, fr, c, inc, body, pre)
                ends = backs + [o[1][0] for o in other if o[0] == "brk"]
                new = [m for m in self.modified(hst, ends) if m not in mods]
                if not new:
                    break
                mods = [m for m in mods + new if not any(
                    x[0] == m[0] and len(x[1]) < len(m[1]) and m[1][:len(x[1])] == x[1] for x in mods + new)]
            self.quiet -= 1
            # --- induction variables
            hst = st.copy()
            syms = {}
            induct = {}
            for (r, p) in mods:
                s = mk("lv", lid, str(r[0]) + str(r[1]) if r[0] != "v" else self.vname(fr, r), p)
                syms[(r, p)] = s
                init = self.load(st, (r, p))
                nexts = [self.load(b, (r, p)) for b in backs]
                up = [self.step_of(x, s) for x in nexts]
                if backs and all(u == 1 for u in up):
                    induct[(r, p)] = (s, init)
            # domain from the condition: i < N / it != end
            dom = None
            bounds = {}
            if c is not None and backs:
                for (r, p), (s, init) in induct.items():
                    hi = self.upper_from(backs[0].facts, s)
                    if hi is not None and not any(x is q for q in syms.values() for x in sub(hi)):
                        bounds[(r, p)] = hi
            key = None
            for k, hi in bounds.items():
                s, init = induct[k]
                if isinstance(hi, T) and hi.op == "end":
                    if init.op == "begin" and init.a[0] is hi.a[0]:
                        key = (num(0), mk("size", hi.a[0]))
                        break
                elif key is None:
                    key = (init, hi)
            if elem is not None:
                key = (num(0), mk("size", elem))
            idx = mk("idx", lid, key[0] if key else None, key[1] if key else None)
            final = {}
            for (r, p) in mods:
                s = syms[(r, p)]
                if (r, p) in induct and key is not None:
                    init = induct[(r, p)][1]
                    if init.op == "begin":
                        v = mk("iter", init.a[0], idx)
                    elif key is not None and init is key[0]:
                        v = idx
                    else:
                        v = arith("+", init, arith("-", idx, key[0]))
                    final[(r, p)] = v
                    self.save(hst, (r, p), v)
                else:
                    self.save(hst, (r, p), s)
            pre2 = pre
            # --- phase B: final pass
            ev0 = st.ev
            hst.ev = ()
            base_facts = set(hst.facts.items())
            if key is not None and bounds:
                hst = self._assume_in(hst, idx, key)
            if pre is not None:
                backs, exits, other = self.iterate(hst, fr, c, inc, body, lambda s: pre(s, idx))
            else:
                backs, exits, other = self.iterate(hst, fr, c, inc, body, None)
            loopev = ("loop", idx, tuple(b.ev for b in backs), tuple(
                o[1][0].ev if o[0] == "brk" else o[0].ev for o in other))
            # effects of iterations that precede the last (or leave normally)
            iter_ev = (("loop", idx, tuple(b.ev for b in backs)),) if any(b.ev for b in backs) else ()
            # facts common to every completed iteration
            common = None
            for b in backs:
                d = {(t, p) for t, p in b.facts.items() if (t, p) not in base_facts}
                common = d if common is None else common & d
            common = common or set()
            # --- exits through the condition / exhaustion
            alts = []
            for b in backs:
                d = tuple((t, p) for t, p in b.facts.items() if (t, p) not in base_facts)
                alts.append((d, b))
            # facts of skipped iterations (continue) are alternatives as well
            ex_states = []
            if elem is not None or c is None:
                if elem is not None:
                    ex_states = [hst.copy()]
                    for t in list(ex_states[0].facts):
                        if (t, ex_states[0].facts[t]) not in base_facts:
                            del ex_states[0].facts[t]
            else:
                ex_states = exits
                if key is not None:
                    # inside the range the loop is left by the rest of its condition, like by a break
                    early = [x for x in exits if bounds and not self.at_bound(x, base_facts, idx, key)]
                    other += [("brk", (x, "next", None, None)) for x in early]
                    ex_states = [x for x in exits if x not in early]
                if not ex_states and key is not None:
                    e = hst.copy()
                    e.facts = dict(st.facts)
                    ex_states = [e]
            for e in ex_states:
                e = e.copy()
                if elem is None:
                    # keep exit condition facts, drop those about idx
                    e.facts = {t: p for t, p in e.facts.items() if (t, p) in base_facts or not self.mentions(t, idx)}
                for (r, p) in mods:
                    init = self.load(st, (r, p))
                    if (r, p) in final and key is not None:
                        v = final[(r, p)]
                        endv = self.at_end(v, idx, key)
                        self.save(e, (r, p), endv)
                        continue
                    s = syms[(r, p)]
                    nx = tuple((d, self.load(b, (r, p))) for d, b in alts)
                    cond_e = tuple()
                    mu = mk("mu", idx, s, init, nx)
                    mu = self.mu_simplify(mu)
                    self.save(e, (r, p), mu)
                e.facts = {self.refacts(t, syms, e): p for t, p in e.facts.items()}
                for t, p in common:
                    if self.mentions(t, idx) or any(self.mentions(t, s) for s in syms.values()):
                        e.facts[mk("forall", idx, t)] = p
                    elif t not in e.facts:
                        e.facts[mk("forall", idx, t)] = p
                e.ev = ev0 + iter_ev
                out.append((e, "next", None, None))
            for o in other:
                if o[0] == "brk":
                    s = o[1][0]
                    kind = ("next", None, None)
                else:
                    s = o[0]
                    kind = o[1:]
                s = s.copy()
                # effects before the leaving iteration are those of completed iterations
                s.ev = ev0 + iter_ev + s.ev
                out.append((s,) + tuple(kind))
        finally:
            self.loopdepth -= 1
        return self.bound_outs(out)

    def at_bound(self, x, base, idx, key):
        """was the loop left because its range was used up?"""
        for t, p in x.facts.items():
            if (t, p) not in base and p and t.op == "==" and len(t.a) == 2:
                for a, b in (t.a, t.a[::-1]):
                    if a is idx and b is key[1] or a.op == "iter" and a.a[1] is idx and b.op == "end":
                        return True
        return False

    def vname(self, fr, r):
        return "v%d" % r[2]

    def refacts(self, t, syms, e):
        return t

    def mu_simplify(self, mu):
        # push-only vectors, plain sums stay as they are
        s, init, alts = mu.a[1], mu.a[2], mu.a[3]
        if alts and all(v is s for _, v in alts):
            return init
        return mu

    def at_end(self, v, idx, key):
        if v is idx:
            return key[1]
        if v.op == "iter":
            return mk("end", v.a[0])
        return subst(v, {idx: key[1]})

    def mentions(self, t, x):
        return any(y is x for y in sub(t))

    def _assume_in(self, st, idx, key):
        st = st.copy()
        st.facts[mk("<", idx, key[1])] = True
        st.facts[mk("<=", key[0], idx)] = True
        return st

    def step_of(self, x, s):
        if x is s:
            return 0
        if x.op == "+" and x.a[0] is s and isnum(x.a[1]):
            return x.a[1].a[0]
        if x.op == "+" and x.a[1] is s and isnum(x.a[0]):
            return x.a[0].a[0]
        if x.op == "-" and x.a[0] is s and isnum(x.a[1]):
            return -x.a[1].a[0]
        return None

    def upper_from(self, facts, s):
        for t, p in facts.items():
            if p and t.op == "<" and t.a[0] is s:
                return t.a[1]
            if p and t.op == "<=" and t.a[0] is s:
                return arith("+", t.a[1], num(1))
            if not p and t.op == "==" and (t.a[0] is s or t.a[1] is s):
                return t.a[1] if t.a[0] is s else t.a[0]
            if not p and t.op == "<=" and t.a[1] is s:
                return t.a[0]
        return None

    def x_RangeFor(self, n, st, fr):
        rng, body = n["c"]
        out = []
        r, th = self.with_sink(lambda: self.obj(rng, st, fr))
        out += th
        var = n["var"]
        for s, lv in r:
            cv = self.load(s, lv)
            count = len(cv.a) if cv.op in ("list",) else None
            if count is None and self.unroll:
                ar = re.search(r"std::array<[^<>]*, (\d+)>|\[(\d+)\]", str(rng.get("t", "")))
                if ar and int(ar.group(1) or ar.group(2)) <= self.unroll:
                    count = int(ar.group(1) or ar.group(2))
            if count is not None and count <= 24:
                # literal list: visit every element
                cur = [s]
                for i in range(count):
                    nx = []
                    for c in cur:
                        c = c.copy()
                        self.bind_loopvar(var, c, fr, (lv[0], lv[1] + (num(i),)))
                        for o in self.ex(body, c, fr):
                            if o[1] in ("next", "continue"):
                                nx.append(o[0])
                            elif o[1] == "break":
                                out.append((o[0], "next", None, None))
                            else:
                                out.append(o)
                    cur = self.bound(nx)
                out += [(c, "next", None, None) for c in cur]
                continue

            def pre(s0, idx=None, lv=lv, cv=cv):
                s1 = s0.copy()
                i = idx if idx is not None else mk("idx", "%d" % self.loopdepth, num(0), mk("size", cv))
                self.bind_loopvar(var, s1, fr, (lv[0], lv[1] + (i,)))
                return [s1]
            out += self.loop(n, s, fr, None, None, body, pre=pre, elem=cv)
        return self.bound_outs(out)

    def bind_loopvar(self, var, s, fr, lv):
        if is_ref(var["t"]) or var.get("bindings"):
            s.refs[(fr.n, var["id"])] = lv
        else:
            s.store[("v", fr.n, var["id"])] = self.load(s, lv)
        self._bindings(var, s, fr, lv)

    # ------------------------------------------------------------- conditions
    def cond(self, e, st, fr):
        """-> [(st, bool)]"""
        k = e["k"]
        if k == "Un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["c"][0], st, fr)]
        if k == "Bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["c"][0], st, fr):
                if b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e["c"][1], s, fr)
            return out
        if k == "Cond":
            out = []
            for s, b in self.cond(e["c"][0], st, fr):
                out += self.cond(e["c"][1 if b else 2], s, fr)
            return out
        if k == "Cast" and e.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            out = []
            for s, v in self.ev(e["c"][0], st, fr):
                out += self.branch(s, self.tobool(v, e["ck"]))
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.branch(s, v)
        return out

    def tobool(self, v, ck):
        if v.op == "bool":
            return v
        if ck == "PointerToBoolean":
            return lnot(mkcmp("==", v, NULL))
        return lnot(mkcmp("==", v, num(0)))

    def branch(self, st, v):
        t, pol = norm_cond(v)
        r = self.truth(st, t)
        if r is not None:
            return [(st, r == pol)]
        out = []
        for b in (True, False):
            s = self.assume(st, t, b)
            if s is not None:
                out.append((s, b == pol))
        return out

    # ------------------------------------------------------------- lvalues
    def obj(self, e, st, fr):
        """object expression -> [(st, lvalue)] (materialises rvalues)"""
        return self.lv(e, st, fr)

    def lv(self, e, st, fr):
        k = e["k"]
        if k == "Ref":
            dk = e["dk"]
            if dk in ("var", "parm", "binding"):
                key = (fr.n, e["id"])
                if key in st.refs:
                    return [(st, st.refs[key])]
                return [(st, (("v", fr.n, e["id"]), ()))]
            if dk == "global":
                if "id" in e and (fr.n, e["id"]) in st.refs:
                    return [(st, st.refs[(fr.n, e["id"])])]
                return [(st, (("g", e["q"]), ()))]
        elif k == "This":
            return [(st, fr.this)]
        elif k == "Member":
            out = []
            b = e["c"][0]
            for s, l in (self.ptr_lv(b, st, fr) if e.get("arrow") else self.lv(b, st, fr)):
                l2 = (l[0], l[1] + (e["n"],))
                v = self.load(s, l2)
                if v.op == "ref":
                    l2 = self.deref(s, v.a[0])
                elif is_ref(self.field_type(e)):
                    l2 = (("o", mk("refto", v)), ())
                out.append((s, l2))
            return out
        elif k == "Subscript":
            out = []
            for s, b in self.ev(e["c"][0], st, fr):
                for s2, i in self.ev(e["c"][1], s, fr):
                    if b.op == "ptr":
                        out.append((s2, (b.a[0], b.a[1] + (i,))))
                    else:
                        self.event(s2, "deref", b, self.where(fr, e))
                        out.append((s2, (("o", mk("deref", b)), (i,))))
            return out
        elif k == "Un":
            op = e["op"]
            if op == "*":
                return [(s, self.deref(s, v, fr, e)) for s, v in self.ev(e["c"][0], st, fr)]
            if op in ("++", "--") and not e.get("post"):
                return self.incdec_lv(e, st, fr)
            if op in ("__extension__", "+") and False:
                pass
        elif k == "Assign":
            return self.assign_lv(e, st, fr)
        elif k == "Cast":
            if e.get("dyn") and is_ref(e.get("ct", "")):
                pass
            if e.get("ck") in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived",
                               "Dynamic", "ConstructorConversion", "UserDefinedConversion", "ToVoid"):
                if e.get("dyn"):
                    if not e["t"].rstrip().endswith("*"):
                        out = []
                        for s, l in self.lv(e["c"][0], st, fr):
                            s2 = self.dyn_ref(s, l, strip_type(e["t"]), fr, e)
                            if s2 is not None:
                                out.append((s2, l))
                        return out
                elif not e["t"].rstrip().endswith("*"):
                    return self.lv(e["c"][0], st, fr)
        elif k == "Cond":
            out = []
            for s, b in self.cond(e["c"][0], st, fr):
                out += self.lv(e["c"][1 if b else 2], s, fr)
            return out
        elif k == "Bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(e["c"][0], st, fr, discard=True):
                out += self.lv(e["c"][1], s, fr)
            return out
        elif k in ("MCall", "OpCall", "Call"):
            out = []
            for s, v in self.ev(e, st, fr, want_lv=True):
                if v.op == "lvref":
                    out.append((s, (v.a[0], v.a[1])))
                else:
                    s = s.copy()
                    r = self.tmp()
                    s.store[r] = v
                    out.append((s, (r, ())))
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if v.op == "lvref":
                out.append((s, (v.a[0], v.a[1])))
                continue
            s = s.copy()
            r = self.tmp()
            s.store[r] = v
            out.append((s, (r, ())))
        return out

    def dyn_ref(self, st, l, cls, fr, node):
        k = self.known_class(l)
        if k is not None:
            if cls in self.db.bases(k):
                return st
            self.sinks[-1].append((st, mk("exc", "std::bad_cast"), node))
            return None
        t = mk("isa", self.addr(l), cls)
        ok = self.assume(st, t, True)
        bad = self.assume(st, t, False)
        if bad is not None:
            self.sinks[-1].append((bad, mk("exc", "std::bad_cast"), node))
        return ok

    def field_type(self, e):
        q = e.get("q", "")
        cls = q.rsplit("::", 1)[0]
        r = self.db.records.get(cls)
        if r:
            for f in r["fields"]:
                if f["n"] == e["n"]:
                    return f["t"]
        return ""

    def ptr_lv(self, e, st, fr):
        if e["k"] == "This":
            return [(st, fr.this)]
        return [(s, self.deref(s, v, fr, e)) for s, v in self.ev(e, st, fr)]

    def incdec_lv(self, e, st, fr):
        out = []
        for s, l in self.lv(e["c"][0], st, fr):
            s = s.copy()
            v = self.load(s, l)
            self.save(s, l, self.add1(v, 1 if e["op"] == "++" else -1), fr, e)
            out.append((s, l))
        return out

    def add1(self, v, d):
        if v.op == "iter":
            return mk("iter", v.a[0], arith("+", v.a[1], num(d)))
        if v.op == "begin" and self.unroll and vlen(v.a[0]) is not None:
            return mk("iter", v.a[0], num(d))
        return arith("+", v, num(d))

    def assign_lv(self, e, st, fr):
        l_e, r_e = e["c"]
        out = []
        op = e["op"]
        for s, rv in self.ev(r_e, st, fr):
            for s2, l in self.lv(l_e, s, fr):
                s2 = s2.copy()
                if op != "=":
                    old = self.load(s2, l)
                    rv2 = self.binop(op[:-1], old, rv, e["t"])
                else:
                    rv2 = rv
                if rv2.op == "list" and strip_type(e["t"]) in self.db.records:
                    rv2 = self.aggregate(strip_type(e["t"]), rv2)
                self.save(s2, l, rv2, fr, e)
                out.append((s2, l))
        return out

    def binop(self, op, a, b, t):
        if op in ("+", "-", "*", "/", "%"):
            return arith(op, a, b, integral_type(t))
        return mk("op" + op, a, b)

    # ------------------------------------------------------------- values
    def ev(self, e, st, fr, discard=False, want_lv=False):
        """-> [(st, value)]"""
        if e is None:
            return [(st, VOID)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.e_default(e, st, fr)
        rs = m(e, st, fr)
        if want_lv:
            return rs
        out = []
        for s, v in rs:
            if v.op == "lvref":
                if discard:
                    out.append((s, VOID))
                    continue
                v = self.load(s, (v.a[0], v.a[1]))
            out.append((s, v))
        return self.bound_vals(out)

    def evs(self, es, st, fr):
        cur = [(st, ())]
        for e in es:
            nx = []
            for s, vs in cur:
                for s2, v in self.ev(e, s, fr):
                    nx.append((s2, vs + (v,)))
            if len(nx) > self.limit:
                ms = self.merge([s for s, _ in nx])
                diffs = [tuple((t, p) for t, p in s.facts.items() if t not in ms.facts) for s, _ in nx]
                nx = [(ms, tuple(self.mergev(diffs, [v[i] for _, v in nx]) for i in range(len(nx[0][1]))))]
            cur = nx
        return cur

    def e_default(self, e, st, fr):
        self.unknown.add(e["k"])
        out = []
        for s, vs in self.evs([c for c in e.get("c", []) if c is not None], st, fr):
            out.append((s, mk("unknown", e["k"], *vs)))
        return out

    def e_Int(self, e, st, fr):
        if e["t"] == "bool":
            return [(st, boolt(e["v"] != "0"))]
        return [(st, num(int(e["v"])))]

    def e_Float(self, e, st, fr):
        return [(st, num(float(e["v"])))]

    def e_Bool(self, e, st, fr):
        return [(st, boolt(e["v"]))]

    def e_Str(self, e, st, fr):
        return [(st, mk("str", e.get("v", "")))]

    def e_Null(self, e, st, fr):
        return [(st, NULL)]

    def e_This(self, e, st, fr):
        return [(st, self.addr(fr.this))]

    def e_ZeroInit(self, e, st, fr):
        if e["t"].rstrip().endswith("*"):
            return [(st, NULL)]
        if e["t"] == "bool":
            return [(st, FALSE)]
        return [(st, num(0))]

    def e_SizeOf(self, e, st, fr):
        return [(st, mk("sizeof", e["ty"]))]

    def e_Ref(self, e, st, fr):
        if e["dk"] == "enum":
            return [(st, mk("enum", e["q"], int(e["v"])))]
        if e["dk"] == "func":
            return [(st, mk("fnptr", e["callee"]["fn"]))]
        if e["dk"] == "other":
            return [(st, mk("other", e["n"]))]
        (s, l), = self.lv(e, st, fr)
        if e["dk"] == "global" and "cv" in e and l[0] not in s.store and "id" in e:
            return [(s, num(e["cv"]))]
        return [(s, self.load(s, l))]

    def e_Member(self, e, st, fr):
        return [(s, self.load(s, l)) for s, l in self.lv(e, st, fr)]

    e_Subscript = e_Member

    def e_MethodRef(self, e, st, fr):
        return [(st, mk("fnptr", e["callee"]["fn"]))]

    def e_Assign(self, e, st, fr):
        return [(s, mk("lvref", l[0], l[1])) for s, l in self.assign_lv(e, st, fr)]

    def e_Bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s, boolt(b)) for s, b in self.cond(e, st, fr)]
        if op == ",":
            out = []
            for s, _ in self.ev(e["c"][0], st, fr, discard=True):
                out += self.ev(e["c"][1], s, fr)
            return out
        out = []
        for s, (a, b) in self.evs(e["c"], st, fr):
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if a.op == "dyncast" or b.op == "dyncast":
                    pass
                out.append((s, mkcmp(op, a, b)))
            elif op in ("+", "-", "*", "/", "%"):
                if op in "+-" and a.op == "ptr" and isnum(b):
                    out.append((s, mk("ptrop" + op, a, b)))
                else:
                    out.append((s, arith(op, a, b, integral_type(e["t"]))))
            else:
                out.append((s, mk("op" + op, a, b)))
        return out

    def e_Un(self, e, st, fr):
        op = e["op"]
        c = e["c"][0]
        if op == "!":
            return [(s, boolt(b)) for s, b in self.cond(e, st, fr)]
        if op == "&":
            if c["k"] == "Ref" and c["dk"] == "func":
                return self.ev(c, st, fr)
            if c["k"] in ("MethodRef",):
                return self.ev(c, st, fr)
            return [(s, self.addr(l)) for s, l in self.lv(c, st, fr)]
        if op == "*":
            return [(s, self.load(s, l)) for s, l in self.lv(e, st, fr)]
        if op in ("++", "--"):
            if e.get("post"):
                out = []
                for s, l in self.lv(c, st, fr):
                    s = s.copy()
                    v = self.load(s, l)
                    self.save(s, l, self.add1(v, 1 if op == "++" else -1), fr, e)
                    out.append((s, v))
                return out
            return [(s, self.load(s, l)) for s, l in self.lv(e, st, fr)]
        out = []
        for s, v in self.ev(c, st, fr):
            if op == "-":
                v = num(-v.a[0]) if isnum(v) else (v.a[0] if v.op == "neg" else mk("neg", v))
            elif op == "~":
                v = mk("bitnot", v)
            out.append((s, v))
        return out

    def e_Cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e["c"][0], st, fr):
            out += self.ev(e["c"][1 if b else 2], s, fr)
        return out

    def e_Cast(self, e, st, fr):
        ck = e.get("ck")
        c = e["c"][0]
        if e.get("dyn"):
            if e["t"].rstrip().endswith("*"):
                return [(s, self.dyncast(s, v, strip_type(e["t"]))) for s, v in self.ev(c, st, fr)]
            return [(s, self.load(s, l)) for s, l in self.lv(e, st, fr)]
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
            return [(s, self.tobool(v, ck)) for s, v in self.ev(c, st, fr)]
        if ck == "ToVoid":
            return [(s, VOID) for s, v in self.ev(c, st, fr, discard=True)]
        out = []
        for s, v in self.ev(c, st, fr):
            if ck == "FloatingToIntegral":
                v = num(int(v.a[0])) if isnum(v) else mk("trunc", v)
            elif ck == "IntegralCast":
                ft, tt = c.get("t", ""), e["t"]
                if isnum(v) and isinstance(v.a[0], int):
                    if tt.startswith("unsigned") and v.a[0] < 0:
                        bits = 64 if "long" in tt else 32
                        v = num(v.a[0] % (1 << bits))
                elif v.op == "bool" and integral_type(tt) and tt != "bool":
                    v = num(1 if v.a[0] else 0)
            elif ck == "IntegralToFloating" and v.op == "bool":
                v = num(1 if v.a[0] else 0)
            elif ck == "IntegralToFloating" and v.op == "enum":
                v = num(v.a[1])
            out.append((s, v))
        return out

    def dyncast(self, st, p, cls):
        if p.op == "dyncast":
            p = p.a[1]
        if p.op == "null":
            return NULL
        if p.op == "ptr":
            k = self.known_class((p.a[0], p.a[1]))
            if k is not None:
                return p if cls in self.db.bases(k) else NULL
        return mk("dyncast", cls, p)

    def known_class(self, lv):
        """dynamic class fixed by the caller of the analysis, if any"""
        if lv[0][0] == "o" and not lv[1]:
            return self.dyncls.get(lv[0][1])
        return None

    def e_Typeid(self, e, st, fr):
        if "ty" in e:
            return [(st, mk("typeid", e["ty"]))]
        out = []
        for s, l in self.lv(e["c"][0], st, fr):
            k = self.known_class(l)
            out.append((s, mk("str", "typeid " + k) if k is not None else mk("typeid", self.addr(l))))
        return out

    def e_InitList(self, e, st, fr):
        t = strip_type(e.get("t", ""))
        out = []
        for s, vs in self.evs([c for c in e["c"] if c is not None], st, fr):
            if t in self.db.records and not e.get("std"):
                out.append((s, self.aggregate(t, mk("list", *vs))))
            else:
                if len(vs) == 1 and not e.get("std") and not e["t"].startswith(("std::", "std::initializer")) \
                        and "[" not in e["t"]:
                    out.append((s, vs[0]))
                elif len(vs) == 1 and vs[0].op == "list" and t.startswith("std::array<"):
                    out.append((s, vs[0]))
                else:
                    out.append((s, mk("list", *vs)))
        return out

    def e_Throw(self, e, st, fr):
        c = e["c"]
        if not c:
            self.sinks[-1].append((st, mk("exc", "rethrow"), e))
            return []
        for s, v in self.ev(c[0], st, fr):
            t = strip_type(c[0].get("t", "?"))
            self.sinks[-1].append((s, mk("exc", t, v), e))
        return []

    def e_New(self, e, st, fr):
        out = []
        if e.get("array"):
            for s, vs in self.evs([e["size"]] if e.get("size") else [], st, fr):
                s = s.copy()
                self.ntmp += 1
                root = ("h", self.ntmp)
                s.store[root] = mk("newarr", e["ty"], *vs)
                self.event(s, "new", root, e["ty"], self.where(fr, e))
                out.append((s, mk("ptr", root, ())))
            return out
        self.ntmp += 1
        root = ("h", self.ntmp)
        for s in (self.init_at(e["c"][0], (root, ()), st, fr) if e["c"] else [st]):
            s = s.copy()
            self.event(s, "new", root, e["ty"], self.where(fr, e))
            p = mk("ptr", root, ())
            self.dyncls[root] = strip_type(e["ty"])
            out.append((s, p))
        return out

    def e_Delete(self, e, st, fr):
        out = []
        for s, v in self.ev(e["c"][0], st, fr):
            s = s.copy()
            self.event(s, "delete", v, e.get("array", False), self.where(fr, e))
            out.append((s, VOID))
        return out

    def e_Lambda(self, e, st, fr):
        caps = []
        s = st
        this = False
        for c in e["caps"]:
            if c.get("this"):
                this = True
                continue
            if "id" not in c:
                continue
            if "init" in c:
                (s, v), = self.ev(c["init"], s, fr)[:1]
                caps.append((c["id"], "val", v))
                continue
            key = (fr.n, c["id"])
            lv = s.refs.get(key, (("v", fr.n, c["id"]), ()))
            if c.get("ref"):
                caps.append((c["id"], "ref", self.addr_raw(lv)))
                # keep the current value for use after the frame is gone
            else:
                caps.append((c["id"], "val", self.load(s, lv)))
        key = "%s:%d:%d" % (fr.fn["fn"], e["l"], id(e))
        self.lambdas[key] = (e, fr)
        return [(s, mk("lambda", key, tuple(caps), mk("ptr", fr.this[0], fr.this[1]) if fr.this and this else None))]

    def addr_raw(self, lv):
        return mk("ptr", lv[0], lv[1])

    def call_lambda(self, lam, avals, st, depth=1):
        e, dfr = self.lambdas[lam.a[0]]
        fn = {"fn": dfr.fn["fn"] + "::lambda", "name": "lambda", "params": e["params"], "body": e["body"],
              "file": dfr.fn.get("file"), "line": e["l"], "ret": "", "lambda": True}
        fr = Frame(fn, (lam.a[2].a[0], lam.a[2].a[1]) if lam.a[2] is not None else None, dfr.dyn, depth)
        st = st.copy()
        for cid, kind, v in lam.a[1]:
            if kind == "ref":
                st.refs[(fr.n, cid)] = (v.a[0], v.a[1])
            else:
                st.store[("v", fr.n, cid)] = v
        for p, a in zip(e["params"], avals):
            self.bind_param(fr, p, a, st)
        self.stack.append(fn["fn"])
        saved = self.cur
        self.cur = fr
        try:
            outs = self.ex(e["body"], st, fr)
        finally:
            self.stack.pop()
            self.cur = saved
        res = []
        for s, kind, v, node in outs:
            if kind == "throw":
                self.sinks[-1].append((s, v, node))
            else:
                res.append((s, v if v is not None else VOID))
        for s, v in res:
            self.drop_frame(s, fr)
        return res

    def call_value(self, f, avals, st, fr, node):
        """call of a function value; avals: [('val'|'lv', x)]"""
        if f.op == "lambda" and len(self.stack) < 40:
            return self.bound_vals(self.call_lambda(f, avals, st, fr.depth + 1))
        if f.op == "bind":
            vals = []
            for a in f.a[1]:
                if a.op == "placeholder":
                    i = a.a[0] - 1
                    vals.append(avals[i] if i < len(avals) else ("val", mk("missing")))
                else:
                    vals.append(("val", a))
            return self.call_fnptr(f.a[0], vals, st, fr, node)
        if f.op == "fnptr":
            return self.call_fnptr(f, avals, st, fr, node)
        vs = [self.load(st, x) if k == "lv" else x for k, x in avals]
        return [(st, mk("callv", self.reify(f, st, fr), *[self.reify(v, st, fr) for v in vs]))]

    def call_fnptr(self, f, vals, st, fr, node):
        if f.op == "lambda":
            return self.call_value(f, vals, st, fr, node)
        if f.op != "fnptr":
            return [(st, mk("callv", f, *[self.load(st, x) if k == "lv" else x for k, x in vals]))]
        fn = self.db.functions.get(f.a[0])
        if fn is None:
            vs = [self.load(st, x) if k == "lv" else x for k, x in vals]
            nm = f.a[0].split("(")[0].replace("std::", "")
            if nm in MATH:
                return [(st, mk(MATH[nm], *vs))]
            # virtual member through pointer
            return [(st, mk("call", f.a[0], *vs))]
        if "cls" in fn and not fn.get("static"):
            k, o = vals[0]
            lvo = o if k == "lv" else (self.deref(st, o, fr, node) if o.op in ("ptr", "deref", "sym", "fld", "this") else
                                       self.as_obj(st, o))
            return self.dispatch(fn["fn"], {"fn": fn["fn"], "name": fn["name"], "virtual": fn.get("virtual"),
                                            "const": fn.get("const"), "repo": True, "cls": fn["cls"]},
                                 lvo, vals[1:], st, fr, node)
        return self.call_repo(fn, None, vals, st, fr, node, None)

    def reify(self, v, st, fr):
        """replace closures inside a value passed to an opaque callee by the term they compute"""
        if v.op in ("lambda", "bind") or (v.op == "fnptr" and v.a[0] in self.db.functions):
            if v.op == "lambda":
                n = len(self.lambdas[v.a[0]][0]["params"])
            elif v.op == "bind":
                ph = [a.a[0] for a in v.a[1] if a.op == "placeholder"]
                n = max(ph) if ph else 0
            else:
                return v
            d = len(self.stack)
            if d > 24:
                return mk("closure", v.a[0])
            self.nlam = getattr(self, "nlam", 0) + 1
            args = [mk("arg", self.nlam, i) for i in range(n)]
            sink = []
            self.sinks.append(sink)
            self.quiet += 1
            try:
                rs = self.call_value(v, [("val", a) for a in args], st, fr, None)
            finally:
                self.quiet -= 1
                self.sinks.pop()
                self.nlam -= 1
            base = set(st.facts.items())
            cases = tuple((tuple((t, p) for t, p in s.facts.items() if (t, p) not in base),
                           self.load(s, (x.a[0], x.a[1])) if x.op == "lvref" else x) for s, x in rs)
            cases += tuple((tuple((t, p) for t, p in s.facts.items() if (t, p) not in base), mk("throw"))
                           for s, x, _ in sink)
            body = cases[0][1] if len(cases) == 1 else mk("cases", cases)
            return mk("lam", n, body)
        return v

    # ------------------------------------------------------------- construct
    def construct(self, e, st, fr, at=None, base=False):
        """-> [(st, value)]; when `at` is given the object is built there"""
        t = strip_type(e["t"])
        cal = e.get("callee", {})
        args = e["c"]
        if e.get("unresolved"):
            return [(s, mk("unknown", "construct", *vs)) for s, vs in self.evs(args, st, fr)]
        fn = self.db.functions.get(cal.get("fn"))
        user = fn is not None and not fn.get("defaulted") and "body" in fn
        if (e.get("copy") or e.get("move")) and args and not user:
            out = []
            for s, v in self.ev(args[0], st, fr):
                if at is not None:
                    s = s.copy()
                    if base:
                        self.copy_base(s, at, v, cal.get("cls"), fr, e)
                    else:
                        self.save(s, at, v, fr, e)
                out.append((s, v))
            return out
        if (e.get("copy") or e.get("move")) and args and self.inline(fn) is False and at is None:
            return self.ev(args[0], st, fr)
        if cal.get("repo") and fn is not None and ("body" in fn or "inits" in fn) and self.inline(fn) \
                and self.stack.count(fn["fn"]) < 2 and len(self.stack) < 40:
            out = []
            for s, avals in self.args(fn["params"], args, st, fr):
                s = s.copy()
                if at is None:
                    root = self.tmp()
                    lv = (root, ())
                else:
                    lv = at
                if not base:
                    # start from an empty object
                    if lv[1]:
                        self.save(s, lv, rec(t, None, {}), fr, e)
                    else:
                        s.store[lv[0]] = rec(t, None, {})
                self.event(s, "construct", fn["fn"], lv, tuple(self.aval(s, a) for a in avals), self.where(fr, e))
                if e.get("copy") and not lv[1] and not base:
                    src = self.aval(s, avals[0])
                    if src.op == "lvref":
                        src = self.load(s, (src.a[0], src.a[1]))
                    self.copied[lv[0]] = (t, src)
                for s2, _v, _n in self.invoke(fn, lv, avals, s, t, fr.depth + 1):
                    val = self.load(s2, lv)
                    if at is None:
                        s2.store.pop(lv[0], None)
                    out.append((s2, val))
            return self.bound_vals(out)
        if cal.get("repo") and fn is None and not args and t in self.db.records:
            # implicit default constructor that was never needed by the front end
            out = []
            v = rec(t, None, {})
            if at is not None and not base:
                st = st.copy()
                self.save(st, at, v, fr, e)
            return [(st, v)]
        if cal.get("repo") and fn is not None and fn.get("defaulted") and not args and t in self.db.records:
            items = {}
            s = st
            for f in self.db.fields(t):
                if "init" in f and f["init"] is not None:
                    (s, v), = self.ev(f["init"], s, fr)[:1]
                    items[f["n"]] = v
            v = rec(t, None, items)
            if at is not None and not base:
                s = s.copy()
                self.save(s, at, v, fr, e)
            return [(s, v)]
        # library types
        out = []
        for s, vs in self.evs(args, st, fr):
            v = self.lib_construct(t, cal, vs, s, fr, e)
            if at is not None:
                s = s.copy()
                if not (base and not cal.get("repo")):
                    self.save(s, at, v, fr, e)
            out.append((s, v))
        return out

    def aval(self, st, a):
        return self.load(st, a[1]) if a[0] == "lv" else a[1]

    def copy_base(self, s, at, v, cls, fr, e):
        cls = strip_type(cls or "")
        if cls in self.db.records:
            for f in self.db.fields(cls):
                self.save(s, (at[0], at[1] + (f["n"],)), rget(v, f["n"]), fr, e)

    def lib_construct(self, t, cal, vs, st, fr, e):
        if t.startswith(SMART):
            if not vs:
                return NULL
            return vs[0]
        if t == "std::string":
            if not vs:
                return mk("str", "")
            if len(vs) == 1:
                return vs[0]
            if len(vs) == 2 and vs[1].op in ("newallocator", "construct"):
                return vs[0]
        if t.startswith("std::pair<"):
            if len(vs) == 2:
                return rec("pair", None, {"first": vs[0], "second": vs[1]})
            if len(vs) == 1:
                return vs[0]
            return rec("pair", None, {"first": num(0), "second": num(0)})
        if t.startswith("std::tuple<") and vs:
            if len(vs) == 1 and vs[0].op in ("tuple", "tie"):
                return vs[0]
            return mk("tuple", *vs)
        if t.startswith(("std::vector<", "std::deque<", "std::list<", "std::set<")):
            if len(vs) > 1 and vs[-1].op == "construct" and str(vs[-1].a[0]).startswith("std::allocator"):
                vs = vs[:-1]
            if not vs:
                return mk("list")
            if len(vs) == 2 and vs[0].op == "ptr":
                n = self.ptrdiff(vs[0], vs[1])
                v = self.load(st, (vs[0].a[0], vs[0].a[1])) if n is not None else None
                if v is not None and v.op == "list" and isnum(n) and 0 <= n.a[0] <= len(v.a):
                    return mk("list", *v.a[:n.a[0]])
            if len(vs) == 1 and vs[0].op == "list":
                return vs[0]
            if len(vs) == 1 and isnum(vs[0]) and vs[0].a[0] <= 64 and isinstance(vs[0].a[0], int):
                return mk("list", *([num(0)] * vs[0].a[0]))
            if len(vs) >= 2 and vs[0].op in ("begin",) and vs[1].op == "end" and vs[0].a[0] is vs[1].a[0]:
                return self.content(st, vs[0].a[0])
            if len(vs) == 1 and vs[0].op == "list":
                return vs[0]
        if t.startswith(("std::map<", "std::unordered_map<", "std::multimap<")):
            if not vs:
                return mk("list")
            if len(vs) == 1 and vs[0].op == "list":
                return vs[0]
        if t.startswith(("std::function<", "std::reference_wrapper<", "std::initializer_list<", "std::array<")):
            if len(vs) == 1:
                return vs[0]
            if not vs:
                return NULL if t.startswith("std::function<") else mk("list")
        if len(vs) == 1 and t.startswith("__gnu_cxx::__normal_iterator"):
            return vs[0]
        if t in self.db.records:
            return mk("construct", t, *[self.reify(v, st, fr) for v in vs])
        return mk("construct", t, *[self.reify(v, st, fr) for v in vs])

    def content(self, st, c):
        return c

    @staticmethod
    def ptrdiff(a, b):
        """number of elements between two pointers into one array"""
        if b is a:
            return num(0)
        if b.op in ("+", "ptrop+") and b.a[0] is a:
            return b.a[1]
        return None

    def e_Construct(self, e, st, fr):
        return self.construct(e, st, fr)

    def e_CXXTemporaryObjectExpr(self, e, st, fr):
        return self.construct(e, st, fr)

    # ------------------------------------------------------------- calls
    def args(self, params, args, st, fr):
        """evaluate arguments for the given parameters -> [(st, [('val'|'lv', x)])]"""
        cur = [(st, [])]
        for i, a in enumerate(args):
            p = params[i] if i < len(params) else None
            nx = []
            for s, av in cur:
                if p is not None and is_ref(p["t"]):
                    for s2, l in self.lv(a, s, fr):
                        nx.append((s2, av + [("lv", l)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        if v.op == "list" and p is not None and strip_type(p["t"]) in self.db.records:
                            v = self.aggregate(strip_type(p["t"]), v)
                        nx.append((s2, av + [("val", v)]))
            cur = nx
            if len(cur) > self.limit:
                if all(k == "val" for _, av in cur for k, _ in av):
                    ms = self.merge([s for s, _ in cur])
                    diffs = [tuple((t, p2) for t, p2 in s.facts.items() if t not in ms.facts) for s, _ in cur]
                    cur = [(ms, [("val", self.mergev(diffs, [av[j][1] for _, av in cur]))
                                 for j in range(len(cur[0][1]))])]
        return cur

    def call_repo(self, fn, this, avals, st, fr, node, dyn):
        if len(avals) < len(fn["params"]):
            avals = list(avals)
            for p in fn["params"][len(avals):]:
                d = p.get("def")
                if d is not None:
                    (st, v), = self.ev(d, st, fr)[:1]
                    avals.append(("val", v))
                else:
                    avals.append(("val", mk("missing")))
        self.event(st, "enter", fn["fn"], tuple(self.aval(st, a) for a in avals), self.where(fr, node))
        rs = self.invoke(fn, this, avals, st, dyn, fr.depth + 1)
        out = []
        for s, v, _ in rs:
            if v.op == "lvref" and v.a[0][0] == "v" and v.a[0] not in s.store:
                v = mk("dangling", str(v.a[0]))
            out.append((s, v))
        return self.bound_vals(out)

    def can_inline(self, fn):
        return (fn is not None and "body" in fn and fn.get("cls") != "PROPOSAL::Logging" and self.stack.count(fn["fn"]) < 1 + (1 if fn.get("inst") else 0)
                and len(self.stack) < self.maxdepth + 24 and self.inline(fn))

    def dispatch(self, name, cal, olv, avals, st, fr, node, qual=False):
        """method call on the object at olv"""
        fn = self.db.functions.get(name)
        dyn = None
        if cal.get("virtual") and not qual:
            dyn = self.dynamic_class(st, olv, fr)
            if dyn is not None:
                rn, m = self.db.resolve(name, dyn)
                if rn is None:
                    fn = None
                else:
                    fn = self.db.functions.get(rn)
            else:
                # a method without overriders is what it is
                if self.db.overriders_of(name) or fn is None:
                    fn = None
        elif fr.this == olv:
            dyn = fr.dyn
        r = self.opaque(name)
        if r is not None:
            return r(self, name, cal, olv, avals, st, fr, node)
        if self.can_inline(fn):
            return self.call_repo(fn, olv, avals, st, fr, node, dyn or (fr.dyn if olv == fr.this else None))
        return self.opaque_method(name, cal, olv, avals, st, fr, node)

    def dynamic_class(self, st, olv, fr):
        if olv == fr.this and fr.dyn is not None:
            return fr.dyn
        if olv[0] in self.dyncls and not olv[1]:
            return self.dyncls[olv[0]]
        if olv[0][0] == "o" and not olv[1]:
            t = olv[0][1]
            if t in self.dyncls:
                return self.dyncls[t]
        return self.value_class(self.load(st, olv))

    def value_class(self, v):
        if v.op == "rec" and v.a[0] in self.db.records:
            return v.a[0]
        if v.op == "cases":       # the same class whichever path was taken
            cs = {self.value_class(x) for _, x in v.a[0]}
            if len(cs) == 1:
                return cs.pop()
        return None

    def opaque_method(self, name, cal, olv, avals, st, fr, node):
        st = st.copy()
        vs = [self.reify(self.aval(st, a), st, fr) for a in avals]
        ov = self.load(st, olv)
        self.event(st, "call", name, olv, ov, tuple(vs), self.where(fr, node))
        if name in self.fresh or cal.get("name") in self.fresh:
            self.nfresh += 1
            return [(st, mk("fresh", name, self.nfresh))]
        t = mk("call", name, ov, *vs)
        if not cal.get("const"):
            self.save(st, olv, mk("mut", name, ov, *vs), fr, node)
        self.havoc_args(st, cal, avals, t, fr, node)
        return [(st, t)]

    def havoc_args(self, st, cal, avals, t, fr, node):
        mut = cal.get("mut")
        if not mut:
            return
        for i, (m, a) in enumerate(zip(mut, avals)):
            if not m:
                continue
            if a[0] == "lv":
                self.save(st, a[1], mk("out", t, i), fr, node)
            elif a[1].op == "ptr":
                self.save(st, (a[1].a[0], a[1].a[1]), mk("out", t, i), fr, node)

    def e_MCall(self, e, st, fr):
        cal = e["callee"]
        name = cal["fn"]
        out = []
        objs = self.ptr_lv(e["obj"], st, fr) if e.get("arrow") else self.obj(e["obj"], st, fr)
        for s, olv in objs:
            lib = None
            if not cal.get("repo"):
                if name.startswith("spdlog::logger::"):     # logging reads its arguments
                    for s2, vs in self.evs(e["c"], s, fr):
                        s2 = s2.copy()
                        self.event(s2, "log", name, self.where(fr, e))
                        out.append((s2, VOID))
                    continue
                out += self.lib_method(e, cal, olv, s, fr)
                continue
            fn = self.db.functions.get(name)
            params = fn["params"] if fn else self.params_from_name(name)
            for s2, avals in self.args(params, e["c"], s, fr):
                out += self.dispatch(name, cal, olv, avals, s2, fr, e, qual=e.get("qual"))
        return out

    def params_from_name(self, name):
        i = name.find("(")
        body = name[i + 1:name.rfind(")")]
        out, d, cur = [], 0, ""
        for ch in body:
            if ch in "<(":
                d += 1
            elif ch in ">)":
                d -= 1
            if ch == "," and d == 0:
                out.append({"t": cur.strip()})
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append({"t": cur.strip()})
        return out

    def e_PMCall(self, e, st, fr):
        out = []
        for s, f in self.ev(e["obj"], st, fr):
            for s2, vs in self.evs(e["c"], s, fr):
                out.append((s2, mk("callv", f, *vs)))
        return out

    def e_Call(self, e, st, fr):
        if "callee" not in e:
            out = []
            for s, f in self.ev(e["fnexpr"], st, fr):
                for s2, vs in self.evs(e["c"], s, fr):
                    out += self.call_value(f, [("val", v) for v in vs], s2, fr, e)
            return out
        cal = e["callee"]
        name = cal["fn"]
        fn = self.db.functions.get(name)
        if cal.get("repo"):
            params = fn["params"] if fn else self.params_from_name(name)
            out = []
            for s, avals in self.args(params, e["c"], st, fr):
                r = self.opaque(name)
                if r is None and cal["name"] == "hash_combine":
                    r = model_hash_combine
                if r is not None:
                    out += r(self, name, cal, None, avals, s, fr, e)
                elif self.can_inline(fn):
                    out += self.call_repo(fn, None, avals, s, fr, e, None)
                else:
                    s = s.copy()
                    vs = [self.reify(self.aval(s, a), s, fr) for a in avals]
                    self.event(s, "call", name, None, None, tuple(vs), self.where(fr, e))
                    if name in self.fresh or cal["name"] in self.fresh:
                        self.nfresh += 1
                        out.append((s, mk("fresh", name, self.nfresh)))
                        continue
                    t = mk("call", name, *vs)
                    self.havoc_args(s, cal, avals, t, fr, e)
                    out.append((s, t))
            return out
        return self.lib_call(e, cal, st, fr)

    # ------------------------------------------------------------- library
    def lib_call(self, e, cal, st, fr):
        name = cal["name"]
        q = cal.get("qn") or (cal.get("cls", "") + "::" + name)
        a = e["c"]
        if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof") and len(a) == 1:
            r = [(s, l) for s, l in self.lv(a[0], st, fr)]
            if name == "addressof":
                return [(s, self.addr(l)) for s, l in r]
            return [(s, mk("lvref", l[0], l[1])) for s, l in r]
        if name in MATH and (q.startswith("std::") or "::" not in q):
            return [(s, self.math(MATH[name], vs)) for s, vs in self.evs(a, st, fr)]
        if q in ("std::max", "std::min"):
            out = []
            for s, vs in self.evs(a, st, fr):
                if len(vs) == 1 and vs[0].op == "list":
                    vs = vs[0].a
                v = vs[0]
                for w in vs[1:]:
                    if len(vs) > 2 or True:
                        v = self.math(name, (v, w))
                out.append((s, v))
            return out
        if q == "std::swap" and len(a) == 2:
            out = []
            for s, l1 in self.lv(a[0], st, fr):
                for s2, l2 in self.lv(a[1], s, fr):
                    s2 = s2.copy()
                    v1, v2 = self.load(s2, l1), self.load(s2, l2)
                    self.save(s2, l1, v2, fr, e)
                    self.save(s2, l2, v1, fr, e)
                    self.event(s2, "swap", l1, l2, self.where(fr, e))
                    out.append((s2, VOID))
            return out
        if q in ("std::make_unique", "std::make_shared"):
            return self.make_ptr(e, cal, st, fr)
        if q == "std::tie":
            cur = [(st, ())]
            for x in a:
                cur = [(s2, ls + (self.addr_raw(l),)) for s, ls in cur for s2, l in self.lv(x, s, fr)]
            return [(s, mk("tie", *ls)) for s, ls in cur]
        if q in ("std::make_tuple", "std::make_pair", "std::forward_as_tuple"):
            out = []
            for s, vs in self.evs(a, st, fr):
                out.append((s, rec("pair", None, {"first": vs[0], "second": vs[1]}) if name == "make_pair"
                            else mk("tuple", *vs)))
            return out
        if q == "std::get" and len(a) == 1:
            m = re.match(r"std::get<(\d+)[uUlL]*[,>]", cal["fn"])
            if m:
                t = strip_type(a[0].get("t", ""))
                out = []
                for s, l in self.lv(a[0], st, fr):
                    if t.startswith("std::array"):
                        k = num(int(m.group(1)))
                    elif t.startswith("std::pair"):
                        k = ("first", "second")[int(m.group(1))]
                    else:
                        k = "get<%s>" % m.group(1)
                    out.append((s, mk("lvref", l[0], l[1] + (k,))))
                return out
        if q in ("std::begin", "std::cbegin", "std::end", "std::cend") and len(a) == 1:
            out = []
            for s, l in self.lv(a[0], st, fr):
                out.append((s, mk("begin" if "begin" in name else "end", self.load(s, l))))
            return out
        if q in ("std::next", "std::prev", "std::distance"):
            out = []
            for s, vs in self.evs(a, st, fr):
                if name == "next" and len(vs) == 2:
                    out.append((s, arith("+", vs[0], vs[1])))
                elif name == "distance" and vs[0].op == "begin" and vs[1].op == "end" and vs[0].a[0] is vs[1].a[0]:
                    out.append((s, mk("size", vs[0].a[0])))
                else:
                    out.append((s, mk("call", q, *vs)))
            return out
        if q == "std::bind":
            out = []
            for s, vs in self.evs(a, st, fr):
                vs = [placeholder(x, v) for x, v in zip(a, vs)]
                f = vs[0]
                out.append((s, mk("bind", f, tuple(vs[1:]))))
            return out
        if q in ("std::equal",):
            return self.m_equal(e, st, fr)
        if q in ("std::copy", "std::copy_n", "memcpy", "std::memcpy") and len(a) == 3:
            r = self.m_copy(q, e, st, fr)
            if r is not None:
                return r
        if q in ("std::all_of", "std::any_of", "std::none_of", "std::find_if", "std::find_if_not", "std::for_each",
                 "std::transform", "std::accumulate", "std::count_if"):
            r = self.m_algo(name, e, st, fr)
            if r is not None:
                return r
        if q in REARRANGE and a:
            return self.m_rearrange(q, name, cal, e, st, fr)
        if q == "std::isnan" or name == "__builtin_isnan":
            return [(s, mk("isnan", *vs)) for s, vs in self.evs(a, st, fr)]
        if name in ("__builtin_nan", "__builtin_nanf", "__builtin_huge_val", "__builtin_inf"):
            return [(st, mk("num", float("nan") if "nan" in name else float("inf")))]
        if cal.get("noreturn"):
            out = []
            for s, vs in self.evs(a, st, fr):
                self.sinks[-1].append((s, mk("exc", "noreturn:" + q), e))
                self.event(s, "noreturn", q, self.where(fr, e))
            return []
        # generic
        params = self.params_from_name(cal["fn"])
        out = []
        mut = cal.get("mut") or []
        for s, avals in self.args_generic(a, mut, st, fr):
            s = s.copy()
            vs = [self.reify(self.aval(s, x), s, fr) for x in avals]
            nm = cal["fn"].split("(")[0] if q.startswith("std::numeric_limits") else q
            self.event(s, "call", q, None, None, tuple(vs), self.where(fr, e))
            t = mk("call", nm, *vs)
            self.havoc_args(s, cal, avals, t, fr, e)
            out.append((s, t))
        return out

    def m_rearrange(self, q, name, cal, e, st, fr):
        """an algorithm that writes through the iterators it is given changes the container they point into"""
        x = e["c"][0]
        while x["k"] in ("Construct", "Cast") and len(x.get("c", [])) == 1:
            x = x["c"][0]
        if x["k"] not in ("MCall", "Call") or x.get("callee", {}).get("name") not in ("begin", "end", "rbegin"):
            raise AnalysisBroken("%s: the range %s works on is not recognised" % (self.where(fr, e), q))
        obj = x["obj"] if x["k"] == "MCall" else x["c"][0]
        out = []
        for s, l in self.lv(obj, st, fr):
            for s2, vs in self.evs(e["c"], s, fr):
                h = self.opaque(q)
                if h is not None:
                    out += h(self, q, cal, l, [("val", v) for v in vs], s2, fr, e)
                    continue
                s2 = s2.copy()
                v = mk("mut", q, self.load(s2, l), *vs)
                self.event(s2, "call", q, None, None, tuple(vs), self.where(fr, e))
                self.save(s2, l, v, fr, e)
                out.append((s2, mk("call", q, *vs)))
        return out

    def args_generic(self, args, mut, st, fr):
        cur = [(st, [])]
        for i, a in enumerate(args):
            nx = []
            for s, av in cur:
                if i < len(mut) and mut[i] and not a.get("t", "").rstrip().endswith("*") and a["k"] != "Lambda":
                    for s2, l in self.lv(a, s, fr):
                        nx.append((s2, av + [("lv", l)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nx.append((s2, av + [("val", v)]))
            cur = nx
        return cur

    def math(self, op, vs):
        if op in ("max", "min") and len(vs) == 2:
            a, b = vs
            if a is b:
                return a
            if isnum(a) and isnum(b):
                return a if (a.a[0] < b.a[0]) == (op == "min") else b
            if (isnum(a) and not isnum(b)) or (not isnum(b) and a.id > b.id):
                a, b = b, a
            return mk(op, a, b)
        if op == "pow" and isnum(vs[1], 1):
            return vs[0]
        if op == "abs" and isnum(vs[0]):
            return num(abs(vs[0].a[0]))
        return mk(op, *vs)

    def make_ptr(self, e, cal, st, fr):
        t = e["t"]
        cls = strip_type(pointee(t))
        out = []
        cands = [m for m in self.db.records.get(cls, {}).get("methods", []) if m.get("ctor")]
        fn = None
        for m in cands:
            f = self.db.functions.get(m["fn"])
            if f is None:
                continue
            n = len(e["c"])
            if len(f["params"]) >= n and all("def" in p for p in f["params"][n:]):
                if n == 1:
                    at = strip_type(e["c"][0].get("t", ""))
                    isc = f.get("copyctor") or f.get("movector")
                    if bool(isc) != (at == cls):
                        continue
                    if f.get("movector"):
                        continue
                if n and not isc_match(f["params"], e["c"]):
                    continue
                fn = f
                break
        if fn is not None and not fn.get("defaulted") and self.inline(fn):
            for s, avals in self.args(fn["params"], e["c"], st, fr):
                s = s.copy()
                self.ntmp += 1
                root = ("h", self.ntmp)
                s.store[root] = rec(cls, None, {})
                self.dyncls[root] = cls
                self.event(s, "construct", fn["fn"], (root, ()), tuple(self.aval(s, a) for a in avals),
                           self.where(fr, e))
                for s2, _v in [(x, y) for x, y in self.call_repo(fn, (root, ()), avals, s, fr, e, cls)]:
                    out.append((s2, mk("ptr", root, ())))
            return out
        for s, vs in self.evs(e["c"], st, fr):
            s = s.copy()
            self.ntmp += 1
            root = ("h", self.ntmp)
            copy = len(vs) == 1 and strip_type(e["c"][0].get("t", "")) == cls
            s.store[root] = vs[0] if copy else mk("construct", cls, *[self.reify(v, s, fr) for v in vs])
            self.dyncls[root] = cls
            out.append((s, mk("ptr", root, ())))
        return out

    def m_equal(self, e, st, fr):
        out = []
        for s, vs in self.evs(e["c"], st, fr):
            its = [v for v in vs if v.op in ("begin", "end")]
            pred = vs[-1] if vs[-1].op in ("lambda", "fnptr", "bind") else None
            n = len(vs) - (1 if pred is not None else 0)
            if n in (3, 4) and vs[0].op == "begin" and vs[2].op == "begin":
                A, B = vs[0].a[0], vs[2].a[0]
                idx = mk("idx", "%d" % (self.loopdepth + 1), num(0), mk("size", A))
                ea, eb = rget(A, idx), rget(B, idx)
                st1 = s
                if n == 4:
                    t = mkcmp("==", mk("size", A), mk("size", B))
                    f = self.assume(s, t, False)
                    if f is not None:
                        out.append((f, FALSE))
                    st1 = self.assume(s, t, True)
                    if st1 is None:
                        continue
                self.loopdepth += 1
                if pred is None:
                    rs = [(st1, mkcmp("==", ea, eb))]
                else:
                    rs = self.call_value(pred, [("val", ea), ("val", eb)], st1, fr, e)
                self.loopdepth -= 1
                tt = []
                for s2, v in rs:
                    for s3, b in self.branch(s2, v):
                        if b:
                            tt.append(s3)
                        else:
                            s3 = s3.copy()
                            out.append((s3, FALSE))
                if tt:
                    r = self.forall(st1, tt, idx)
                    r.facts[mk("forall", idx, mk("<=", num(0), idx))] = True
                    r.facts[mk("forall", idx, mk("<", idx, mk("size", A)))] = True
                    out.append((r, TRUE))
            else:
                out.append((s, mk("call", "std::equal", *vs)))
        return out

    def forall(self, st, good, idx):
        """state after all elements satisfied one of the `good` states"""
        r = st.copy()
        common = None
        for g in good:
            d = {(t, p) for t, p in g.facts.items() if st.facts.get(t) != p}
            common = d if common is None else common & d
        for t, p in common or ():
            r.facts[mk("forall", idx, t)] = p
        return r

    def m_copy(self, q, e, st, fr):
        """copying into memory: the destination holds copyof(source, length)"""
        out = []
        for s, vs in self.evs(e["c"], st, fr):
            if q == "std::copy":
                first, last, dst = vs
                if self.ptrdiff(first, last) is not None:
                    n = self.ptrdiff(first, last)
                elif first.op == "begin" and last.op == "end" and first.a[0] is last.a[0]:
                    n = mk("size", first.a[0])
                    if first.a[0].op in ("list", "tuple"):
                        n = num(len(first.a[0].a))
                else:
                    return None
            elif q == "std::copy_n":
                first, n, dst = vs
            else:
                dst, first, n = vs
            src = first.a[0] if first.op == "begin" else mk("deref", first)
            s = s.copy()
            v = mk("copyof", src, n)
            if dst.op == "ptr" and isnum(n):
                w = self.load(s, (first.a[0], first.a[1])) if first.op == "ptr" else src
                if w.op == "list" and 0 <= n.a[0] <= len(w.a):
                    v = mk("list", *w.a[:n.a[0]])
            if dst.op == "ptr":
                self.save(s, (dst.a[0], dst.a[1]), v, fr, e)
            elif dst.op in ("begin", "fld"):
                pass
            else:
                return None
            self.event(s, "memcopy", dst, v, self.where(fr, e))
            out.append((s, dst))
        return out

    def m_algo(self, name, e, st, fr):
        out = []
        for s, vs in self.evs(e["c"], st, fr):
            if not (len(vs) >= 3 and vs[0].op == "begin" and vs[1].op == "end" and vs[0].a[0] is vs[1].a[0]):
                return None
            C = vs[0].a[0]
            if name in ("find_if", "find_if_not") and C.op == "list" and len(C.a) <= self.unroll:
                # one element after the other
                todo = [s]
                for i, x in enumerate(C.a):
                    nxt = []
                    for s1 in todo:
                        for s2, v in self.call_value(vs[2], [("val", x)], s1, fr, e):
                            for s3, b in self.branch(s2, v):
                                if b == (name == "find_if"):
                                    out.append((s3, mk("iter", C, num(i))))
                                else:
                                    nxt.append(s3)
                    todo = nxt
                out += [(s1, vs[1]) for s1 in todo]
                continue
            idx = mk("idx", "%d" % (self.loopdepth + 1), num(0), mk("size", C))
            el = rget(C, idx)
            if name in ("all_of", "any_of", "none_of"):
                rs = self.call_value(vs[2], [("val", el)], s, fr, e)
                yes, no = [], []
                for s2, v in rs:
                    for s3, b in self.branch(s2, v):
                        (yes if b else no).append(s3)
                if name == "all_of":
                    out.append((self.forall(s, yes, idx), TRUE))
                    out += [(x, FALSE) for x in no]
                else:
                    out.append((self.forall(s, no, idx), boolt(name == "none_of")))
                    out += [(x, boolt(name != "none_of")) for x in yes]
            elif name == "accumulate" and len(vs) in (3, 4):
                accs = mk("lv", "%d" % (self.loopdepth + 1), "acc", ())
                if len(vs) == 3:
                    rs = [(s, arith("+", accs, el))]
                else:
                    rs = self.call_value(vs[3], [("val", accs), ("val", el)], s, fr, e)
                base = set(s.facts.items())
                alts = tuple((tuple((t, p) for t, p in s2.facts.items() if (t, p) not in base), v) for s2, v in rs)
                out.append((s, mk("mu", idx, accs, vs[2], alts)))
            elif name in ("for_each",):
                sub_ = self.call_value(vs[2], [("val", el)], s, fr, e)
                for s2, v in sub_:
                    out.append((s2, VOID))
            else:
                return None
        return out

    def json_method(self, e, cal, olv, st, fr):
        """typed reads of a configuration: jget(value, type), jvalue(object, key, default, type); at() is told from operator[]"""
        name, a = cal["name"], e["c"]
        t = strip_type(e.get("t", ""))
        if name == "at" and len(a) == 1:
            return [(s, mk("lvref", olv[0], olv[1] + (mk("jat", vs[0]),))) for s, vs in self.evs(a, st, fr)]
        if (name == "get" or name.startswith("operator ") and name != "operator basic_json") and not a:
            return [(st, mk("jget", self.load(st, olv), t))]
        if name == "get_to" and len(a) == 1:
            out = []
            for s, l in self.lv(a[0], st, fr):
                s = s.copy()
                self.save(s, l, mk("jget", self.load(s, olv), t), fr, e)
                out.append((s, mk("lvref", l[0], l[1])))
            return out
        if name == "value" and len(a) == 2:
            return [(s, mk("jvalue", self.load(s, olv), vs[0], vs[1], t)) for s, vs in self.evs(a, st, fr)]
        return None

    def lib_method(self, e, cal, olv, st, fr):
        name = cal["name"]
        cls = cal.get("cls", "")
        a = e["c"]
        out = []
        if name in ("operator bool", "operator basic_json"):
            v = self.load(st, olv)
            if cls.startswith(SMART) or cls.startswith("std::__shared_ptr") or cls.startswith("std::function"):
                return [(st, lnot(mkcmp("==", v, NULL)))]
            return [(st, mk("tobool", v))]
        if name in ("get",) and (cls.startswith(SMART) or cls.startswith("std::__shared_ptr")):
            return [(st, self.load(st, olv))]
        if name == "get" and cls.startswith("std::reference_wrapper"):
            return [(st, mk("lvref", olv[0], olv[1]))]
        if cls.startswith("std::reference_wrapper") and name.startswith("operator"):
            return [(st, mk("lvref", olv[0], olv[1]))]
        if name in ("reset", "release") and (cls.startswith(SMART) or cls.startswith("std::__shared_ptr")):
            for s, vs in self.evs(a, st, fr):
                s = s.copy()
                old = self.load(s, olv)
                self.save(s, olv, vs[0] if vs else NULL, fr, e)
                out.append((s, old if name == "release" else VOID))
            return out
        if name == "swap" and len(a) == 1:
            for s, l in self.lv(a[0], st, fr):
                s = s.copy()
                v1, v2 = self.load(s, olv), self.load(s, l)
                self.save(s, olv, v2, fr, e)
                self.save(s, l, v1, fr, e)
                self.event(s, "swap", olv, l, self.where(fr, e))
                out.append((s, VOID))
            return out
        if name in ("size", "length"):
            v = self.load(st, olv)
            n = vlen(v)
            return [(st, num(n) if n is not None else mk("size", v))]
        if name == "empty":
            v = self.load(st, olv)
            n = vlen(v)
            return [(st, boolt(n == 0) if n is not None else mkcmp("==", mk("size", v), num(0)))]
        if name in ("begin", "cbegin"):
            return [(st, mk("begin", self.load(st, olv)))]
        if name in ("end", "cend"):
            return [(st, mk("end", self.load(st, olv)))]
        if cls == "json":
            r = self.json_method(e, cal, olv, st, fr)
            if r is not None:
                return r
        if name in ("at", "operator[]"):
            for s, vs in self.evs(a, st, fr):
                if name == "at":
                    self.event(s, "at", self.load(s, olv), vs[0], self.where(fr, e))
                else:
                    self.event(s, "index", self.load(s, olv), vs[0], self.where(fr, e))
                out.append((s, mk("lvref", olv[0], olv[1] + (vs[0],))))
            return out
        if name == "front":
            return [(st, mk("lvref", olv[0], olv[1] + (num(0),)))]
        if name == "back":
            v = self.load(st, olv)
            n = vlen(v)
            i = num(n - 1) if n is not None else arith("-", mk("size", v), num(1))
            if v.op == "vpush" and n is None:
                s = st.copy()
                r = self.tmp()
                s.store[r] = v.a[1]
                # element just pushed: reads are exact, writes go through the container
                return [(s, mk("lvref", olv[0], olv[1] + (i,)))] if not v.a[1] else [(s, mk("lvref", r, ()))]
            return [(st, mk("lvref", olv[0], olv[1] + (i,)))]
        if name == "insert" and len(a) == 3:
            res = []
            for s, vs in self.evs(a, st, fr):
                v = self.load(s, olv)
                if not (vs[0].op == "end" and vs[0].a[0] is v and v.op == "list" and vs[1].op == "begin" and vs[2].op == "end" and vs[1].a[0] is vs[2].a[0] and vs[1].a[0].op == "list"):
                    res = None
                    break
                s = s.copy()
                self.save(s, olv, mk("list", *(v.a + vs[1].a[0].a)), fr, e)
                res.append((s, VOID))
            if res is not None:
                return res
        if name in ("push_back", "emplace_back"):
            ct = strip_type(e["obj"].get("t", ""))
            for s, vs in self.evs(a, st, fr):
                s = s.copy()
                if name == "emplace_back" and len(vs) != 1:
                    for s3, v in self.emplace_value(ct, e, vs, s, fr):
                        s3 = s3.copy()
                        self.push(s3, olv, v, fr, e)
                        out.append((s3, VOID))
                    continue
                v = vs[0]
                self.push(s, olv, v, fr, e)
                out.append((s, VOID))
            return out
        if name == "clear":
            s = st.copy()
            self.save(s, olv, mk("list"), fr, e)
            return [(s, VOID)]
        if name in ("reserve", "shrink_to_fit"):
            return [(s, VOID) for s, _ in self.evs(a, st, fr)]
        if name in ("str", "c_str", "data") and not a:
            return [(st, self.load(st, olv))]
        if name.startswith("operator ") and not a:
            return [(st, self.load(st, olv))]
        # default: const methods are pure, others mutate the object
        if name in ("emplace", "try_emplace", "emplace_hint", "insert_or_assign"):      # forwarding references: lvalues are copied
            cal = dict(cal, mut=[])
        for s, avals in self.args_generic(a, cal.get("mut") or [], st, fr):
            s = s.copy()
            vs = [self.reify(self.aval(s, x), s, fr) for x in avals]
            ov = self.load(s, olv)
            self.event(s, "call", cls.split("<")[0] + "::" + name, olv, ov, tuple(vs), self.where(fr, e))
            t = mk("call", cls.split("<")[0] + "::" + name, ov, *vs)
            if not cal.get("const") and name not in PURE_METHODS:
                self.save(s, olv, mk("mut", cls.split("<")[0] + "::" + name, ov, *vs), fr, e)
            self.havoc_args(s, cal, avals, t, fr, e)
            out.append((s, t))
        return out

    def emplace_value(self, ct, e, vs, st, fr):
        m = re.match(r"std::(?:vector|deque|list)<(.*)", ct)
        if m:
            inner = pointee("std::unique_ptr<" + m.group(1))
            cls = strip_type(inner)
            if cls in self.db.records:
                for mth in self.db.records[cls]["methods"]:
                    f = self.db.functions.get(mth["fn"])
                    if mth.get("ctor") and f is not None and len(f["params"]) == len(vs) and self.inline(f) \
                            and isc_match(f["params"], e["c"]):
                        root = self.tmp()
                        s = st.copy()
                        s.store[root] = rec(cls, None, {})
                        res = []
                        for s2, _ in self.call_repo(f, (root, ()), [("val", v) for v in vs], s, fr, e, cls):
                            res.append((s2, self.load(s2, (root, ()))))
                        return res
            if inner.startswith("std::pair<") and len(vs) == 2:
                return [(st, rec("pair", None, {"first": vs[0], "second": vs[1]}))]
            if inner.startswith("std::tuple<"):
                return [(st, mk("tuple", *vs))]
            return [(st, mk("construct", inner, *vs))]
        return [(st, mk("emplaced", *vs))]

    def push(self, s, olv, v, fr, e):
        old = self.load(s, olv)
        if old.op == "list" and len(old.a) < 64:
            nv = mk("list", *(old.a + (v,)))
        else:
            nv = mk("vpush", old, v)
        self.event(s, "push", olv, v, self.where(fr, e))
        self.save(s, olv, nv, fr, e)

    # ------------------------------------------------------------- operators
    def e_OpCall(self, e, st, fr):
        op = e["op"]
        cal = e.get("callee", {})
        a = e["c"]
        name = cal.get("fn")
        if cal.get("repo") and not (op == "()" and "(lambda" in a[0].get("t", "")):
            fn = self.db.functions.get(name)
            if "cls" in cal and not cal.get("smethod"):
                out = []
                for s, olv in self.obj(a[0], st, fr):
                    params = fn["params"] if fn else self.params_from_name(name)
                    for s2, avals in self.args(params, a[1:], s, fr):
                        if op == "=" and (fn is None or fn.get("defaulted") or "body" not in fn):
                            s2 = s2.copy()
                            self.save(s2, olv, self.aval(s2, avals[0]), fr, e)
                            out.append((s2, mk("lvref", olv[0], olv[1])))
                            continue
                        if op in ("==", "!=") and not self.can_inline(fn) and self.opaque(name) is None:
                            x, y = self.load(s2, olv), self.aval(s2, avals[0])
                            out.append((s2, mkcmp(op, x, y)))
                            continue
                        out += self.dispatch(name, cal, olv, avals, s2, fr, e)
                return out
            if self.can_inline(fn) and self.opaque(name) is None:
                out = []
                for s, avals in self.args(fn["params"], a, st, fr):
                    out += self.call_repo(fn, None, avals, s, fr, e, None)
                return out
            out = []
            params = fn["params"] if fn else self.params_from_name(name)
            for s, avals in self.args(params, a, st, fr):
                vs = [self.aval(s, x) for x in avals]
                r = self.opaque(name)
                if r is not None:
                    out += r(self, name, cal, None, avals, s, fr, e)
                    continue
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    out.append((s, mkcmp(op, *vs)))
                else:
                    s = s.copy()
                    self.event(s, "call", name, None, None, tuple(vs), self.where(fr, e))
                    t = mk("call", name, *vs)
                    self.havoc_args(s, cal, avals, t, fr, e)
                    out.append((s, t))
            return out
        # library operators
        if op == "=":
            out = []
            for s, rv in self.ev(a[1], st, fr):
                for s2, l in self.lv(a[0], s, fr):
                    s2 = s2.copy()
                    cur = self.load(s2, l)
                    if cur.op == "tie":
                        for i, p in enumerate(cur.a):
                            key = ("first", "second")[i] if rv.op == "rec" and "first" in dict(
                                (k, 1) for k, _ in rv.a[2] if isinstance(k, str)) else "get<%d>" % i
                            if rv.op not in ("rec", "tuple") and "pair" in a[1].get("t", ""):
                                key = ("first", "second")[i]
                            self.save(s2, (p.a[0], p.a[1]), rget(rv, key), fr, e)
                        out.append((s2, VOID))
                        continue
                    if rv.op == "rec" and False:
                        pass
                    self.save(s2, l, rv, fr, e)
                    out.append((s2, mk("lvref", l[0], l[1])))
            return out
        if op == "()":
            out = []
            for s, f in self.ev(a[0], st, fr):
                lamp = self.lambdas[f.a[0]][0]["params"] if f.op == "lambda" else None
                if lamp is not None:
                    for s2, avals in self.args(lamp, a[1:], s, fr):
                        out += self.call_value(f, avals, s2, fr, e)
                    continue
                if strip_type(a[0].get("t", "")).startswith("std::hash<"):
                    for s2, vs in self.evs(a[1:], s, fr):
                        out.append((s2, mk("hash1", strip_type(a[0]["t"]), *vs)))
                    continue
                for s2, vs in self.evs(a[1:], s, fr):
                    if f.op in ("bind", "fnptr"):
                        out += self.call_value(f, [("val", v) for v in vs], s2, fr, e)
                        continue
                    s2 = s2.copy()
                    self.event(s2, "callv", f, tuple(vs), self.where(fr, e))
                    if strip_type(a[0].get("t", "")).startswith(("std::uniform", "std::normal", "std::exponential",
                                                                  "std::mersenne")):
                        self.nfresh += 1
                        out.append((s2, mk("fresh", strip_type(a[0]["t"]).split("<")[0], self.nfresh)))
                        continue
                    out.append((s2, mk("callv", f, *[self.reify(v, s2, fr) for v in vs])))
            return out
        if op == "[]":
            out = []
            for s, l in self.obj(a[0], st, fr):
                for s2, i in self.ev(a[1], s, fr):
                    self.event(s2, "index", self.load(s2, l), i, self.where(fr, e))
                    out.append((s2, mk("lvref", l[0], l[1] + (i,))))
            return out
        if op in ("*", "->") and len(a) == 1:
            out = []
            for s, v in self.ev(a[0], st, fr):
                if op == "->":
                    out.append((s, v if v.op != "iter" else self.addr_raw(self.deref(s, v, fr, e))))
                else:
                    l = self.deref(s, v, fr, e)
                    out.append((s, mk("lvref", l[0], l[1])))
            return out
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(a[0], st, fr):
                s = s.copy()
                v = self.load(s, l)
                self.save(s, l, self.add1(v, 1 if op == "++" else -1), fr, e)
                out.append((s, v if len(a) == 2 else mk("lvref", l[0], l[1])))
            return out
        if op in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for s, (x, y) in self.evs(a, st, fr):
                if self.unroll and x.op in ("iter", "begin", "end") and y.op in ("iter", "begin", "end") and x.a[0] is y.a[0] and vlen(x.a[0]) is not None:
                    x, y = [num(0) if z.op == "begin" else num(vlen(z.a[0])) if z.op == "end" else z.a[1] for z in (x, y)]
                    out.append((s, mkcmp(op, x, y)))
                    continue
                if x.op in ("iter", "begin") and y.op == "end" and x.a[0] is y.a[0] and op in ("!=", "=="):
                    if x.op == "iter":
                        out.append((s, boolt(op == "!=")) if self.truth(s, mk("<", x.a[1], mk("size", x.a[0]))) else
                                   (s, mkcmp(op, x, y)))
                        continue
                if op in ("==", "!=") and x.op == "tie" and y.op == "tie":
                    out += self.tie_cmp(op, x, y, s)
                    continue
                out.append((s, mkcmp(op, x, y)))
            return out
        if op == "<<" or op == ">>":
            out = []
            for s, l in self.obj(a[0], st, fr):
                for s2, v in (self.ev(a[1], s, fr) if op == "<<" else [(x, None) for x in [s]]):
                    s2 = s2.copy()
                    ov = self.load(s2, l)
                    if op == ">>":
                        out += self.stream_in(a, ov, l, s2, fr, e)
                        continue
                    self.event(s2, "out", l, v, self.where(fr, e))
                    self.save(s2, l, mk("stream<<", ov, self.reify(v, s2, fr)), fr, e)
                    out.append((s2, mk("lvref", l[0], l[1])))
            return out
        if op in ("+=", "-=", "*=", "/="):
            out = []
            for s, v in self.ev(a[1], st, fr):
                for s2, l in self.lv(a[0], s, fr):
                    s2 = s2.copy()
                    self.save(s2, l, arith(op[0], self.load(s2, l), v), fr, e)
                    out.append((s2, mk("lvref", l[0], l[1])))
            return out
        out = []
        for s, vs in self.evs(a, st, fr):
            if op in ("+", "-") and len(vs) == 2:
                out.append((s, arith(op, *vs)))
            else:
                out.append((s, mk("op" + op, *vs)))
        return out

    def stream_in(self, a, ov, l, s, fr, e):
        out = []
        for s2, tl in self.lv(a[1], s, fr):
            s2 = s2.copy()
            self.event(s2, "in", l, tl, self.where(fr, e))
            self.save(s2, tl, mk("streamed", ov), fr, e)
            self.save(s2, l, mk("stream>>", ov), fr, e)
            out.append((s2, mk("lvref", l[0], l[1])))
        return out

    def tie_cmp(self, op, x, y, st):
        out = []
        cur = [st]
        for p, q in zip(x.a, y.a):
            nx = []
            for s in cur:
                t = mkcmp("==", self.load(s, (p.a[0], p.a[1])), self.load(s, (q.a[0], q.a[1])))
                for s2, b in self.branch(s, t):
                    if b:
                        nx.append(s2)
                    else:
                        out.append((s2, boolt(op == "!=")))
            cur = nx
        return out + [(s, boolt(op == "==")) for s in cur]


def isc_match(params, args):
    """cheap overload filter: argument and parameter kinds agree"""
    for p, a in zip(params, args):
        pt, at = strip_type(p["t"]), strip_type(a.get("t", ""))
        if pt == at:
            continue
        num_p = integral_type(pt) or pt in ("double", "float")
        num_a = integral_type(at) or at in ("double", "float")
        if num_p != num_a:
            if num_a and pt == "json":
                continue
            return False
        if at == "json" and pt != "json":
            return False
        if pt == "json" and at != "json":
            return False
    return True


def placeholder(node, v):
    if v.op == "glob" and "placeholders::_" in v.a[0]:
        return mk("placeholder", int(v.a[0].split("::_")[1].split("@")[0]))
    return v


def is_ref_member(db, fr, lv):
    cls = fr.fn.get("cls")
    if not cls or not lv[1] or not isinstance(lv[1][-1], str):
        return False
    for b in db.bases(cls):
        for f in db.records[b]["fields"]:
            if f["n"] == lv[1][-1]:
                return is_ref(f["t"])
    return False


def model_hash_combine(eng, name, cal, olv, avals, st, fr, node):
    """hash_combine(seed, v...): seed := hash(seed, v...)"""
    st = st.copy()
    vs = [eng.aval(st, a) for a in avals]
    t = vs[0]
    for v in vs[1:]:
        t = mk("hash", t, v)
    eng.event(st, "hash", tuple(vs), eng.where(fr, node))
    if avals[0][0] == "lv":
        eng.save(st, avals[0][1], t, fr, node)
    return [(st, VOID)]

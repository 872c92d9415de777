"""Definite assignment of scalar members (in constructors) and of scalar local variables (in every function).

State: set of names certainly assigned; None = unreachable.  Handing a variable to somebody who may write it (non-const reference,
address, stream extraction, capture by a closure) counts as an assignment."""
import re
from tree import fnodes

SCALAR = re.compile(r"^(const )?(bool|char|signed char|unsigned char|wchar_t|int|short|long|long long|unsigned( int| long| short| long long)?|float|double|long double|"
                    r"(std::)?size_t|u?int\d+_t|ptrdiff_t|[^()]*\*)( const)?$")


def scalar_type(db, t):
    t = t.strip()
    return bool(SCALAR.match(t)) or t.replace("const ", "") in db.enums


def is_this(n):
    while isinstance(n, dict) and n["k"] in ("Cast", "Paren") and n.get("c"):
        n = n["c"][0]
    if isinstance(n, dict) and n["k"] == "Un" and n.get("op") == "*" and n.get("c"):
        return is_this(n["c"][0])
    return isinstance(n, dict) and n["k"] == "This"


def const_true(c):
    while isinstance(c, dict) and c["k"] in ("Cast", "Paren") and c.get("c"):
        c = c["c"][0]
    return isinstance(c, dict) and c["k"] in ("Int", "Bool") and str(c.get("v")).lower() not in ("0", "false")


def int_const(n):
    while isinstance(n, dict) and n["k"] in ("Cast", "Paren") and n.get("c"):
        n = n["c"][0]
    if isinstance(n, dict) and n["k"] == "Int":
        try:
            return int(n["v"])
        except ValueError:
            return None
    return None


class DefAssign(object):
    def __init__(self, db):
        self.db = db
        self.memo = {}
        self.lo = {}
        self.busy = set()
        self.exp, self.exits, self.loops, self.cur, self.locals, self.aggr = {}, [], [], {}, {}, {}

    # ---------------------------------------------------------------------------------------------------- classes
    def own(self, cls):
        return [x for x in self.db.fields(cls) if x.get("owner", cls) == cls]

    def tracked(self, cls):
        """scalar members of the complete object, inherited ones included"""
        seen, out, todo = set(), [], [cls]
        while todo:
            k = todo.pop()
            if k in seen or k not in self.db.records:
                continue
            seen.add(k)
            out += [x for x in self.own(k) if x.get("scalar") or self.loose(x["t"])]
            todo += [b if isinstance(b, str) else b.get("n", b.get("name")) for b in self.db.records[k].get("bases", [])]
        return out

    def loose(self, t):
        """default initialisation leaves (part of) an object of this type indeterminate"""
        t = t.replace("const ", "").strip()
        m = re.match(r"std::array<(.*), \d+>$", t) or re.match(r"(.*?) ?\[\d+\]$", t)
        if m:
            return scalar_type(self.db, m.group(1)) or self.loose(m.group(1))
        if t not in self.db.records or t in self.lo:
            return self.lo.get(t, False)
        self.lo[t] = False
        self.lo[t] = bool(frozenset(y["n"] for y in self.tracked(t)) - frozenset(y[1] for y in self.default_init(t))) and any(
            g.get("cls") == t and g.get("ctor") and not g["params"] for g in self.db.functions.values())
        return self.lo[t]

    def nsdmi(self, cls):
        return frozenset(("f", x["n"]) for x in self.own(cls) if x.get("init") is not None)

    def default_init(self, cls, depth=0):
        """members certainly assigned after default initialisation of a (sub)object"""
        if cls not in self.db.records or depth > 20:
            return frozenset()
        c = [g for g in self.db.functions.values() if g.get("cls") == cls and g.get("ctor") and not g["params"]]
        if c and ("body" in c[0] or not c[0].get("defaulted")):
            return self.summary(c[0]["fn"])[0] or frozenset()
        W = self.nsdmi(cls)
        for b in self.db.records[cls].get("bases", []):
            W |= self.default_init(b if isinstance(b, str) else b.get("n", b.get("name")), depth + 1)
        return W

    # -------------------------------------------------------------------------------------------------- functions
    def summary(self, fn):
        """(assigned on every return or None, exposed reads {name: node}, assigned at each exit [(node, set)])"""
        if fn in self.memo:
            return self.memo[fn]
        if fn in self.busy:
            return frozenset(), {}, []
        self.busy.add(fn)
        saved = {k: self.__dict__.get(k) for k in ("exp", "exits", "loops", "cur", "locals", "aggr")}
        try:
            r = self.analyse(self.db.functions[fn])
        finally:
            self.__dict__.update(saved)
            self.busy.discard(fn)
        self.memo[fn] = r
        return r

    def analyse(self, f):
        self.exp, self.exits, self.loops, self.cur, self.locals, self.aggr = {}, [], [], f, {}, {}
        W = frozenset()
        if f.get("ctor"):
            inits = f.get("inits") or []
            loose = {y["n"] for y in self.own(f["cls"]) if not y.get("scalar") and self.loose(y["t"])}
            named = {i["m"] for i in inits if "m" in i and i.get("written")}
            if not any(i.get("deleg") for i in inits):
                for b in self.db.records.get(f["cls"], {}).get("bases", []):
                    b = b if isinstance(b, str) else b.get("n", b.get("name"))
                    if not any(i.get("base") == b for i in inits):
                        W |= self.default_init(b)
            for i in inits:
                if i.get("deleg") or i.get("base"):
                    W = self.construct(i.get("init"), W, i.get("base") or f["cls"])
                    continue
                if "m" in i:
                    x = i.get("init")
                    W = self.expr(x, W)
                    if W is not None and x is not None and (i.get("written") or i["m"] not in loose or not bare(x)):
                        W = W | {("f", i["m"])}
            if not any(i.get("deleg") for i in inits):
                W = W | frozenset(y for y in self.nsdmi(f["cls"]) if y[1] not in named) if W is not None else W
        outs = frozenset()
        for p in f.get("params") or []:
            t = p["t"].strip()
            if t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and scalar_type(self.db, t[:-1].strip()) and p.get("id"):
                self.locals[("v", p["id"])] = p
                outs |= {("v", p["id"])}
        W = self.stmt(f.get("body"), W)
        if W is not None:
            self.exits.append((f.get("body"), W))
        must = None
        for n, x in self.exits:
            x = frozenset(y for y in x if y[0] == "f" or y in outs)
            must = x if must is None else must & x
        return must, self.exp, self.exits

    def construct(self, n, W, cls):
        """base or delegated constructor"""
        x = n
        while isinstance(x, dict) and x["k"] != "Construct" and x.get("c"):
            x = x["c"][0]
        if isinstance(x, dict) and x["k"] == "Construct":
            for a in x.get("c") or []:
                W = self.expr(a, W)
            fn = (x.get("callee") or {}).get("fn")
            if fn in self.db.functions:
                g = self.db.functions[fn]
                if "body" in g or not g.get("defaulted"):
                    return W | (self.summary(fn)[0] or frozenset()) if W is not None else None
            if not (x.get("c") or []):
                return W | self.default_init(cls)
            return W | frozenset(("f", y["n"]) for y in self.tracked(cls))      # copies, library bases
        W = self.expr(n, W)
        return W | frozenset(("f", y["n"]) for y in self.tracked(cls)) if W is not None else None

    # -------------------------------------------------------------------------------------------------- statements
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def stmt(self, n, W):
        if n is None or W is None:
            return W
        if isinstance(n, list):
            for x in n:
                W = self.stmt(x, W)
            return W
        k = n["k"]
        c = n.get("c") or []
        if k in ("Block", "Decl"):
            for x in c:
                W = self.stmt(x, W)
            return W
        if k == "If":
            W = self.stmt(n.get("init"), W) if isinstance(n.get("init"), dict) else W
            W = self.stmt(n.get("var"), W) if isinstance(n.get("var"), dict) else W
            wt, wf = self.cond(c[0], W)
            a = self.stmt(c[1], wt) if len(c) > 1 else wt
            b = self.stmt(c[2], wf) if len(c) > 2 else wf
            return self.join(a, b)
        if k in ("While", "For", "Do", "RangeFor"):
            return self.loop(n, k, c, W)
        if k in ("Break", "Continue"):
            if self.loops:
                self.loops[-1].append((k.lower(), W))
            return None
        if k == "Switch":
            W = self.expr(c[0], W)
            self.loops.append([])
            out, cur, hasdef = None, None, False
            labels = set()
            for x in self.flat(c[1:]):
                if x["k"] in ("Case", "Default"):
                    cur = W if cur is None else self.join(cur, W)
                    d = x["k"] == "Default" or not x.get("c")
                    hasdef |= d
                    labels.add(str((x.get("c") or [{}])[0].get("n")))
                    for y in (x.get("c") or [])[1 if x["k"] == "Case" and x.get("c") else 0:]:
                        cur = self.stmt(y, cur)
                else:
                    cur = self.stmt(x, cur)
            t = (c[0].get("t") or "").replace("const ", "")
            if t in self.db.enums and {y[0] for y in self.db.enums[t]["c"]} <= {l.split("::")[-1] for l in labels}:
                hasdef = True
            out = cur if hasdef else self.join(cur, W)
            for kind, w in self.loops.pop():
                if kind == "break":
                    out = self.join(out, w)
                elif self.loops:
                    self.loops[-1].append((kind, w))
            return out
        if k == "Return":
            for x in c:
                W = self.expr(x, W)
            self.exits.append((n, W)) if W is not None else None
            return None
        if k == "Throw":
            for x in c:
                self.expr(x, W)
            return None
        if k == "Try":
            w1 = W
            for x in c:
                w1 = self.stmt(x, w1)
            for h in n.get("handlers", []):
                w1 = self.join(w1, self.stmt(h.get("body") or h.get("c") or [], W))
            return w1
        if k == "Var":
            return self.var(n, W)
        return self.expr(n, W)

    def flat(self, xs):
        for x in xs:
            if x["k"] == "Block":
                for y in self.flat(x.get("c") or []):
                    yield y
            else:
                yield x

    def var(self, n, W):
        x = n.get("init")
        key = ("v", n.get("id"))
        if x is None or x.get("k") == "Construct" and False:
            if scalar_type(self.db, n.get("t", "")) and not n.get("static") and not n.get("g"):
                self.locals[key] = n
                return W - {key}
            return W | {key}
        parts = self.partly(x)
        if parts:
            ks = frozenset(("v", n.get("id"), y) for y in parts)
            self.locals.update((y, n) for y in ks)
            self.aggr[n.get("id")] = ks
            return W - ks
        if n.get("t", "").rstrip().endswith("&"):
            W = self.lend(x, W)
        else:
            W = self.expr(x, W)
        return W | {key} if W is not None else None

    def partly(self, x):
        """scalar members a default initialised object of a class without constructors leaves indeterminate"""
        if x.get("k") != "Construct" or x.get("c") or x.get("zero"):
            return frozenset()
        cls = (x.get("callee") or {}).get("cls")
        g = self.db.functions.get((x.get("callee") or {}).get("fn"), {})
        if cls not in self.db.records or not (g.get("implicit") or g.get("defaulted")):
            return frozenset()
        return frozenset(y["n"] for y in self.tracked(cls)) - frozenset(y[1] for y in self.default_init(cls))

    def loop(self, n, k, c, W):
        self.loops.append([])
        if k == "Do":
            body, cond = c[0], c[1] if len(c) > 1 else None
            w1 = self.stmt(body, W)
            for kind, w in self.loops[-1]:
                if kind == "continue":
                    w1 = self.join(w1, w)
            out = self.cond(cond, w1)[1] if w1 is not None and cond is not None else w1
            if const_true(cond):
                out = None
        else:
            ini, cond, inc, body = self.parts(n, k, c)
            for x in ini:
                W = self.stmt(x, W)
            if k == "RangeFor":
                if isinstance(n.get("var"), dict) and W is not None:
                    W = W | {("v", n["var"].get("id"))}
                wt = wf = W
            else:
                wt, wf = self.cond(cond, W) if cond is not None else (W, None)
            if const_true(cond):
                wf = None
            w2 = self.stmt(body, wt)
            for kind, w in self.loops[-1]:
                if kind == "continue":
                    w2 = self.join(w2, w)
            if inc is not None and w2 is not None:
                w2 = self.expr(inc, w2)
            out = wf
            if self.runs(ini, cond):
                out = w2
        for kind, w in self.loops.pop():
            if kind == "break":
                out = self.join(out, w)
        return out

    def runs(self, ini, cond):
        """a counting loop whose first iteration is certain"""
        if len(ini) != 1 or cond is None:
            return False
        v = ini[0]
        while v["k"] == "Decl" and len(v.get("c") or []) == 1:
            v = v["c"][0]
        a = int_const(v.get("init")) if v["k"] == "Var" else None
        if a is None or cond["k"] != "Bin" or len(cond.get("c") or []) != 2:
            return False
        b = int_const(cond["c"][1])
        if b is None:
            return False
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "!=": a != b}.get(cond.get("op"), False)

    def parts(self, n, k, c):
        if k == "While":
            return [], c[0], None, c[1] if len(c) > 1 else None
        if k == "RangeFor":
            return [c[0]], None, None, c[1] if len(c) > 1 else None
        return [c[0]] if c[0] else [], c[1], c[2], c[3]

    # ------------------------------------------------------------------------------------------------- expressions
    def name(self, n):
        """tracked name an lvalue denotes"""
        while isinstance(n, dict) and n["k"] in ("Cast", "Paren") and n.get("c"):
            n = n["c"][0]
        if not isinstance(n, dict):
            return None
        if n["k"] == "Member" and (not n.get("c") or is_this(n["c"][0])):
            return ("f", n["n"])
        if n["k"] == "Ref" and n.get("dk") in ("var", "parm"):
            return ("v", n.get("id"))
        if n["k"] == "Member" and n.get("c"):
            b = n["c"][0]
            if b["k"] == "Ref" and ("v", b.get("id"), n["n"]) in self.locals:
                return ("v", b.get("id"), n["n"])
        return None

    def read(self, key, n, W):
        for k in self.aggr.get(key[1], ()) if len(key) == 2 and key[0] == "v" else ():
            self.read(k, n, W)
        if W is not None and key not in W and key not in self.exp and (key[0] == "f" or key in self.locals):
            self.exp[key] = n

    def cond(self, n, W):
        """(assigned if true, assigned if false)"""
        x = n
        while isinstance(x, dict) and x["k"] in ("Paren", "Cast") and x.get("c"):
            x = x["c"][0]
        if isinstance(x, dict) and W is not None:
            c = x.get("c") or []
            if x["k"] == "Bin" and x.get("op") in ("&&", "||") and len(c) == 2:
                t, f = self.cond(c[0], W)
                if x["op"] == "&&":
                    t2, f2 = self.cond(c[1], t)
                    return t2, self.join(f, f2)
                t2, f2 = self.cond(c[1], f)
                return self.join(t, t2), f2
            if x["k"] == "Un" and x.get("op") == "!":
                t, f = self.cond(c[0], W)
                return f, t
        W = self.expr(n, W)
        return W, W

    def lend(self, n, W):
        """somebody may write through this"""
        k = self.name(n)
        if k is not None and W is not None:
            return W | {k} | self.aggr.get(k[1], frozenset())
        x = n
        while isinstance(x, dict) and x["k"] in ("Cast", "Paren") and x.get("c"):
            x = x["c"][0]
        if isinstance(x, dict) and is_this(x) and W is not None:
            return W | frozenset(("f", y["n"]) for y in self.tracked(self.cur.get("cls")))
        if isinstance(x, dict) and x["k"] == "Member" and x.get("c"):
            return self.lend(x["c"][0], W) if not x.get("arrow") else self.expr(n, W)
        return self.expr(n, W)

    def outparam(self, cal, i, key, n, W):
        """the called function of the library does not assign this reference parameter on every way out (and its reads count here)"""
        g = self.db.functions.get(cal.get("fn"))
        if g is None or "body" not in g or cal.get("virtual") or g.get("ctor") or i >= len(g["params"]):
            return False
        p = g["params"][i]
        if g["fn"] in self.busy:
            return False
        t = p["t"].strip()
        if t.startswith("const ") or not t.endswith("&") or t.endswith("&&") or not scalar_type(self.db, t[:-1].strip()):
            return False
        must, exp, _ = self.summary(g["fn"])
        if ("v", p.get("id")) in exp:
            self.read(key, n, W)
        return must is not None and ("v", p.get("id")) not in must

    def expr(self, n, W):
        if n is None or W is None:
            return W
        if isinstance(n, list):
            for x in n:
                W = self.expr(x, W)
            return W
        k = n["k"]
        c = n.get("c") or []
        if k in ("Block", "Decl", "Var", "If", "For", "While", "Do", "Return", "Switch", "Try", "RangeFor"):
            return self.stmt(n, W)
        if k == "Assign":
            op = n.get("op", "=")
            key = self.name(c[0])
            W = self.expr(c[1], W)
            if key is not None:
                if op != "=":
                    self.read(key, n, W)
                return W | {key} | self.aggr.get(key[1], frozenset()) if W is not None else None
            return self.expr(c[0], W)
        if k == "Un" and n.get("op") in ("++", "--"):
            key = self.name(c[0])
            if key is not None:
                self.read(key, n, W)
                return W | {key}
        if k == "Un" and n.get("op") == "&":
            return self.lend(c[0], W)
        if k == "Bin" and n.get("op") in ("&&", "||"):
            t, f = self.cond(n, W)
            return self.join(t, f)
        if k == "Cond":
            t, f = self.cond(c[0], W)
            return self.join(self.expr(c[1], t), self.expr(c[2], f) if len(c) > 2 else f)
        if k == "Lambda":
            for x in nodes(n):
                key = self.name(x) if x["k"] in ("Ref", "Member") else None
                if key is not None:
                    W = W | {key} | self.aggr.get(key[1], frozenset())
            return W
        if k in ("Ref", "Member"):
            key = self.name(n)
            if key is not None:
                if n.get("dk") != "CXXMethod":
                    self.read(key, n, W)
                return W
            if k == "Member" and c and c[0]["k"] == "Ref" and c[0].get("id") in self.aggr:
                return W
        if k in ("MCall", "Call", "Construct", "OpCall", "New"):
            cal = n.get("callee") if isinstance(n.get("callee"), dict) else {}
            mut = cal.get("mut") or []
            if k == "MCall":
                obj = n.get("obj")
                if obj is not None and not is_this(obj):
                    W = self.expr(obj, W)
            for i, x in enumerate(c):
                m = mut[i] if i < len(mut) else 0
                if k == "OpCall":
                    m = m or (n.get("op") == ">>")
                    if n.get("op") == "=" and i == 0:
                        m = 1
                key = self.name(x) if m else None
                if m and key is not None and (key in self.locals or key[0] == "f" and self.cur.get("ctor")) and k in ("MCall", "Call") and self.outparam(cal, i, key, n, W):
                    continue
                W = self.lend(x, W) if m else self.expr(x, W)
            if k == "MCall" and (n.get("obj") is None or is_this(n.get("obj"))) and cal.get("repo") and W is not None:
                fn = cal.get("fn")
                r = self.db.resolve(fn, self.cur["cls"]) if cal.get("virtual") and self.cur.get("ctor") else None
                fn = r[0] if r else fn
                if fn in self.db.functions and "body" in self.db.functions[fn]:
                    must, exp, _ = self.summary(fn)
                    if self.cur.get("ctor"):
                        for e, node in exp.items():
                            if e[0] == "f":
                                self.read(e, n, W)
                    return W | must if must is not None else None
            return W
        for x in c:
            W = self.expr(x, W)
        if isinstance(n.get("obj"), dict):
            W = self.expr(n["obj"], W)
        return W


def bare(x):
    """default initialisation"""
    while isinstance(x, dict) and x["k"] != "Construct" and len(x.get("c") or []) == 1:
        x = x["c"][0]
    return isinstance(x, dict) and x["k"] == "Construct" and not x.get("c") and not x.get("zero")


def nodes(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            todo += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            todo += x

"""Flow-insensitive side-effect (mod) analysis over the call graph.

effects(f) = set of locations outside f's own frame that f may write:
  ("this", field) | ("param", index) | ("glob", name) | ("static", name)
Locations reached through pointers and references are attributed to the variable they were reached from."""
import re
from tree import *

PURELIB = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "operator[]", "operator*", "operator->", "front", "back", "find", "get", "data", "size", "empty",
           "lower_bound", "upper_bound", "equal_range", "operator()", "count", "c_str", "str", "operator bool", "first", "second", "value", "key", "items",
           "operator->*", "lock", "what", "length", "substr", "target", "operator-", "operator+", "base"}
REFRET = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "operator[]", "operator*", "operator->", "front", "back", "find", "get", "data", "lower_bound",
          "upper_bound", "equal_range", "insert", "emplace", "items", "value", "operator++", "base", "operator+", "operator-"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "++", "--"}
ALGO = {"sort", "copy", "fill", "transform", "reverse", "iota", "swap", "for_each", "partial_sum", "shuffle", "unique", "remove_if", "rotate", "generate"}
LOGGING = re.compile(r"spdlog|PROPOSAL::Logging|fmt::")


def is_ref(t):
    return t.rstrip().endswith(("&", "*")) or "iterator" in t or t.startswith("std::shared_ptr") or "unique_ptr<" in t and t.rstrip().endswith(("&", "*"))


class Effects(object):
    def __init__(self, db, stop=None):
        """stop(f): the object effects of f are judged at f itself and not attributed to its callers"""
        self.db = db
        self.stop = stop or (lambda f: False)
        self.g = Graph(db)
        self.eff = {}
        self.why = {}
        self.solve()

    # -------------------------------------------------------------------------------------------- lvalue roots
    def roots(self, n, ctx, depth=0):
        if not isinstance(n, dict) or depth > 40:
            return set()
        k = n["k"]
        c = n.get("c") or []
        if k == "This":
            return {("this", None)}
        if k == "Ref":
            if n.get("dk") in ("Function", "CXXMethod", "EnumConstant"):
                return set()
            i = n.get("id")
            if i in ctx["params"]:
                p, t = ctx["params"][i]
                return {("param", p)} if ctx["refparam"][p] else {("local", i)}
            if i in ctx["statics"]:
                return {("static", ctx["statics"][i])}
            if i in ctx["locals"]:
                v = ctx["locals"][i]
                if v is not None:
                    r = set()
                    for x in v:
                        if x is not n:
                            r |= self.roots(x, ctx, depth + 1)
                    return r | {("local", i)}
                return {("local", i)}
            if "q" in n:
                return {("glob", n["q"])}
            if n.get("id") is not None and n.get("dk") in ("Var", "ParmVar", "Binding"):
                return {("local", i)}
            return {("glob", n["n"])} if n.get("dk") == "Var" else set()
        if k == "Member":
            if not c and "q" in n:
                b = {("this", None)} if n.get("arrow") else set()
            else:
                b = set()
                for x in c[:1]:
                    b |= self.roots(x, ctx, depth + 1)
            if not c:
                return {("this", n["n"])}
            out = set()
            for r in b:
                out.add(("this", n["n"]) if r == ("this", None) else r)
            return out
        if k in ("Cast", "Un", "Subscript", "Cond", "Paren", "InitList"):
            r = set()
            for x in (c if k in ("Cond", "InitList") else c[:1]):
                r |= self.roots(x, ctx, depth + 1)
            return r
        if k == "Construct" and (n.get("copy") or n.get("move")) or k == "Construct" and is_ref(n.get("t", "")):
            r = set()
            for x in c:
                r |= self.roots(x, ctx, depth + 1)
            return r
        if k == "Assign":
            return self.roots(c[0], ctx, depth + 1)
        if k == "OpCall":
            return self.roots(c[0], ctx, depth + 1) if c else set()
        if k == "MCall":
            cal = n.get("callee") or {}
            t = n.get("t", "")
            if cal.get("repo"):
                fn = cal["fn"]
                r = set()
                ret = (self.db.functions.get(fn) or {}).get("ret", "")
                if is_ref(ret):
                    r |= self.roots(n["obj"], ctx, depth + 1)
                return r
            if cal.get("name") in REFRET:
                return self.roots(n["obj"], ctx, depth + 1)
            return set()
        if k == "Call":
            cal = n.get("callee") or {}
            nm = cal.get("name")
            if nm in ("begin", "end", "get", "ref", "forward", "move", "addressof", "next", "prev", "find_if", "find", "min_element", "max_element", "tie", "min", "max"):
                r = set()
                for x in c:
                    r |= self.roots(x, ctx, depth + 1)
                return r
            return set()
        return set()

    def context(self, f):
        ctx = {"params": {}, "refparam": [], "locals": {}, "statics": {}, "types": {}}
        for i, p in enumerate(f["params"]):
            ctx["params"][p.get("id")] = (i, p["t"])
            ctx["refparam"].append(is_ref(p["t"]))
        for n, anc in fnodes(f):
            if n["k"] == "Var":
                ctx["types"][n["id"]] = n.get("t", "")
                if n.get("static"):
                    ctx["statics"][n["id"]] = n.get("g") or n["n"]
                elif is_ref(n.get("t", "")) or "iterator" in n.get("t", ""):
                    src = [n["init"]] if n.get("init") else []
                    ctx["locals"][n["id"]] = src
                else:
                    ctx["locals"][n["id"]] = None
            if n["k"] == "RangeFor":
                v = n.get("var") or {}
                if is_ref(v.get("t", "")):
                    ctx["locals"][v.get("id")] = (n.get("c") or [])[:1]
        for n, anc in fnodes(f):
            if n["k"] == "Lambda":
                for p in n.get("params", []):
                    ctx["locals"].setdefault(p.get("id"), None)
            if n["k"] == "RangeFor":
                v = n.get("var") or {}
                if is_ref(v.get("t", "")):
                    ctx["locals"][v.get("id")] = (n.get("c") or [])[:1]
        return ctx

    def target(self, n, ctx):
        """roots of a written lvalue: assigning a pointer or iterator variable changes the variable, not what it points to"""
        x = n
        while x["k"] in ("Cast", "Paren") and x.get("c"):
            x = x["c"][0]
        if x["k"] == "Ref":
            i = x.get("id")
            if i in ctx["params"]:
                p, t = ctx["params"][i]
                return {("param", p)} if t.rstrip().endswith("&") else {("local", i)}
            if i in ctx["locals"] and not ctx["types"].get(i, "").rstrip().endswith("&"):
                return {("local", i)}
        return self.roots(n, ctx)

    # -------------------------------------------------------------------------------------------- local writes
    def direct(self, fn):
        """[(roots, node)], [(callee, object roots, [argument roots], node)]"""
        f = self.db.functions[fn]
        ctx = self.context(f)
        w, calls = [], []
        for n, anc in fnodes(f):
            k = n["k"]
            c = n.get("c") or []
            if k == "Assign" or k == "Un" and n["op"] in ("++", "--"):
                w.append((self.target(c[0], ctx), n))
            elif k == "Delete":
                w.append((self.roots(c[0], ctx), n)) if c else None
            elif k in ("OpCall", "MCall", "Call", "Construct"):
                cal = n.get("callee")
                if not isinstance(cal, dict):
                    continue
                if LOGGING.search(cal.get("fn", "")) and not cal.get("repo") or cal.get("fn", "").startswith("PROPOSAL::Logging"):
                    continue
                if k == "MCall":
                    obj, args = n["obj"], c
                elif k == "OpCall" and "cls" in cal and not cal.get("smethod"):
                    obj, args = (c[0] if c else None), c[1:]
                else:
                    obj, args = None, c
                if cal.get("repo"):
                    ts = self.g.targets(cal, n)
                    if ts:
                        aroots = [self.roots(a, ctx) for a in args]
                        oroots = self.roots(obj, ctx) if obj is not None else {("local", "new")} if k == "Construct" else set()
                        for t in ts:
                            calls.append((t, oroots, aroots, n))
                        continue
                    if obj is not None and not cal.get("const") and "cls" in cal and cal["name"].startswith("operator="):
                        w.append((self.roots(obj, ctx), n))
                    continue
                if obj is not None and not cal.get("const") and cal["name"] not in PURELIB and "cls" in cal:
                    w.append((self.target(obj, ctx), n))
                elif obj is not None and k == "MCall" and cal.get("name") == "operator()" and not cal.get("const"):
                    w.append((self.roots(obj, ctx), n))
                mut = cal.get("mut") or []
                for a, m in zip(args, mut):
                    if m and k != "Construct":
                        y = a
                        while y["k"] in ("Cast", "Paren") and y.get("c"):
                            y = y["c"][0]
                        if y["k"] == "Un" and y.get("op") == "&" and obj is not None and cal.get("name") in ("push_back", "push_front", "insert", "push"):
                            continue        # a container of pointers receives an address
                        if "iterator" in cal.get("fn", "").split("(")[0]:
                            continue
                        if cal.get("name") in ("begin", "end", "forward", "move", "get", "make_pair", "make_tuple", "tie", "ref", "make_shared", "make_unique", "min", "max", "bind") \
                                or cal.get("name", "").startswith(("emplace", "make_")) or cal.get("name") in ALGO:
                            continue
                        w.append((self.roots(a, ctx), n))
                if cal.get("name") in ALGO and obj is None:
                    for a in {"copy": args[-1:], "partial_sum": args[2:3], "transform": args[-2:-1]}.get(cal["name"], args[:2]):
                        if a["k"] not in ("Lambda",):
                            w.append((self.roots(a, ctx), n))
        return w, calls

    def solve(self):
        d = {fn: self.direct(fn) for fn in self.db.functions}
        callers = {}
        for fn, (w, calls) in d.items():
            s = self.eff.setdefault(fn, set())
            for r, n in w:
                for x in r:
                    if x[0] in ("this", "param", "glob", "static"):
                        if x not in s:
                            s.add(x)
                            self.why[fn, x] = (n, None)
            for t, o, a, n in calls:
                callers.setdefault(t, []).append((fn, o, a, n))
        todo = list(self.eff)
        while todo:
            t = todo.pop()
            st = self.stop(self.db.functions[t])
            for fn, o, a, n in callers.get(t, ()):
                s = self.eff[fn]
                add = set()
                for x in self.eff[t]:
                    if st and x[0] != "param":
                        continue
                    if x[0] in ("glob", "static"):
                        add.add((x, x))
                    elif x[0] == "this":
                        for r in o:
                            if r == ("this", None):
                                add.add((x, x))
                            elif r[0] != "local":
                                add.add((r, x))
                    else:
                        if x[1] < len(a):
                            for r in a[x[1]]:
                                if r[0] != "local":
                                    add.add((r, x))
                new = [(r, x) for r, x in add if r not in s]
                if new:
                    for r, x in new:
                        s.add(r)
                        self.why[fn, r] = (n, (t, x))
                    todo.append(fn)

    def path(self, fn, x, limit=12):
        out = []
        while limit:
            n, nx = self.why.get((fn, x), (None, None))
            f = self.db.functions[fn]
            out.append("%s (%s:%s)" % (fn.split("(")[0], rel(f["file"]), (n or {}).get("l")))
            if nx is None:
                break
            fn, x = nx
            limit -= 1
        return " -> ".join(out)

"""Which fields of *this a method reads before it has written them (upward-exposed reads), interprocedurally.

State: set of fields certainly written so far (None = unreachable).  Element writes of array fields count as writes of the field
(scratch arrays are filled before they are read; element granularity is not decided)."""
import re
from tree import *


class Expose(object):
    def __init__(self, db, cls):
        """arrays: fields with elements; a loop that fills them counts as a definition"""
        self.db, self.cls = db, cls
        self.arrays = {x["n"] for x in db.fields(cls) if re.search(r"vector<|array<|\[", x["t"])}
        self.g = Graph(db)
        self.sum = {}       # fn -> (must, exposed{field: node})
        fns = [fn for fn, f in db.functions.items() if f.get("cls") == cls and not f.get("static") and f.get("body")]
        self.fns = fns
        for fn in fns:
            self.sum[fn] = (None, {})
        ch = True
        rounds = 0
        while ch and rounds < 30:
            ch = False
            rounds += 1
            for fn in fns:
                r = self.method(fn)
                if (r[0], set(r[1])) != (self.sum[fn][0], set(self.sum[fn][1])):
                    self.sum[fn] = r
                    ch = True

    def method(self, fn):
        f = self.db.functions[fn]
        self.exp = {}
        self.exits = []
        self.loops = []
        self.cur = f
        W = frozenset()
        if f.get("ctor"):
            W = frozenset(x["n"] for x in self.db.fields(self.cls))
        W = self.stmt(f["body"], W)
        ex = [x for x in self.exits if x is not None]
        if W is not None:
            ex.append(W)
        must = None
        for x in ex:
            must = x if must is None else must & x
        return must, self.exp

    # -------------------------------------------------------------------------------------------- statements
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def stmt(self, n, W):
        if n is None or W is None:
            return W
        if isinstance(n, list):
            for x in n:
                W = self.stmt(x, W)
            return W
        k = n["k"]
        c = n.get("c") or []
        if k in ("Block", "Decl"):
            for x in c:
                W = self.stmt(x, W)
            return W
        if k == "If":
            W = self.stmt(n.get("init"), W) if n.get("init") else W
            cond, rest = c[0], c[1:]
            W = self.expr(cond, W)
            a = self.stmt(rest[0], W) if rest else W
            b = self.stmt(rest[1], W) if len(rest) > 1 else W
            return self.join(a, b)
        if k in ("While", "For", "Do", "RangeFor"):
            self.loops.append([])
            if k == "Do":
                body, cond = c[0], c[1] if len(c) > 1 else None
                W1 = self.stmt(body, W)
                for kind, w in self.loops[-1]:
                    if kind == "continue":
                        W1 = self.join(W1, w)
                out = self.expr(cond, W1) if W1 is not None else None
            else:
                ini, cond, inc, body = self.loop_parts(n)
                for x in ini:
                    W = self.stmt(x, W)
                if cond is not None:
                    W = self.expr(cond, W)
                out = W
                if const_true(cond) and k != "RangeFor":
                    out = None
                w2 = self.stmt(body, W)
                if w2 is not None and out is not None:
                    out = out | (w2 & self.arrays)
                for kind, w in self.loops[-1]:
                    if kind == "continue":
                        w2 = self.join(w2, w)
                if inc is not None and w2 is not None:
                    self.expr(inc, w2)
            for kind, w in self.loops.pop():
                if kind == "break":
                    out = self.join(out, w)
            return out
        if k in ("Break", "Continue"):
            if self.loops:
                self.loops[-1].append((k.lower(), W))
            return None
        if k == "Switch":
            W = self.expr(c[0], W)
            self.loops.append([])
            out = None
            cur = None
            hasdef = False
            for x in self.flat(c[1:]):
                if x["k"] in ("Case", "Default"):
                    cur = W if cur is None else self.join(cur, W)
                    hasdef |= x["k"] == "Default" or not x.get("c")
                    for y in (x.get("c") or [])[1 if x["k"] == "Case" and x.get("c") else 0:]:
                        cur = self.stmt(y, cur)
                else:
                    cur = self.stmt(x, cur)
            out = cur if hasdef else self.join(cur, W)
            for kind, w in self.loops.pop():
                if kind == "break":
                    out = self.join(out, w)
                elif self.loops:
                    self.loops[-1].append((kind, w))
            return out
        if k == "Return":
            for x in c:
                W = self.expr(x, W)
            self.exits.append(W)
            return None
        if k == "Throw":
            for x in c:
                self.expr(x, W)
            return None
        if k == "Try":
            out = W
            w1 = W
            for x in c:
                w1 = self.stmt(x, w1)
            for h in n.get("handlers", []):
                w1 = self.join(w1, self.stmt((h.get("c") or []), W))
            return w1
        if k == "Var":
            return self.expr(n["init"], W) if n.get("init") else W
        return self.expr(n, W)

    def flat(self, xs):
        for x in xs:
            if x["k"] == "Block":
                for y in self.flat(x.get("c") or []):
                    yield y
            else:
                yield x

    def loop_parts(self, n):
        c = n.get("c") or []
        if n["k"] == "While":
            return [], c[0], None, c[1] if len(c) > 1 else None
        if n["k"] == "RangeFor":
            return [c[0]], None, None, c[1] if len(c) > 1 else None
        ini = [n["init"]] if isinstance(n.get("init"), dict) else []
        cond, inc = n.get("cond"), n.get("inc")
        body = n.get("body")
        if body is None:
            body = c[-1] if c else None
            if len(c) == 4:
                ini, cond, inc, body = [x for x in [c[0]] if x], c[1], c[2], c[3]
        return ini, cond, inc, body

    # -------------------------------------------------------------------------------------------- expressions
    def field(self, n):
        """field name if n is a member (or element of a member) of *this"""
        x = n
        elem = False
        while isinstance(x, dict):
            k = x["k"]
            c = x.get("c") or []
            if k in ("Cast", "Paren") and c:
                x = c[0]
            elif k == "Subscript" or k == "OpCall" and x.get("op") == "[]":
                x = c[0]
                elem = True
            elif k == "MCall" and (x.get("callee") or {}).get("name") in ("at", "operator[]"):
                x = x["obj"]
                elem = True
            elif k == "Member" and (not c or base_this(c[0])):
                return x["n"]
            else:
                return None
        return None

    def indices(self, n, W):
        """evaluate the index expressions of an lvalue"""
        x = n
        while isinstance(x, dict):
            c = x.get("c") or []
            k = x["k"]
            if k in ("Cast", "Paren") and c:
                x = c[0]
            elif k in ("Subscript", "OpCall"):
                for y in c[1:]:
                    W = self.expr(y, W)
                x = c[0]
            elif k == "MCall":
                for y in c:
                    W = self.expr(y, W)
                x = x["obj"]
            else:
                return W
        return W

    def read(self, name, n, W):
        if W is not None and name not in W and name not in self.exp:
            self.exp[name] = n

    def expr(self, n, W):
        if n is None or W is None:
            return W
        if isinstance(n, list):
            for x in n:
                W = self.expr(x, W)
            return W
        k = n["k"]
        c = n.get("c") or []
        if k in ("Block", "Decl", "Var", "If", "For", "While", "Do", "Return"):
            return self.stmt(n, W)
        if k == "Assign":
            op = n.get("op", "=")
            W = self.expr(c[1], W)
            f = self.field(c[0])
            if f is not None:
                W = self.indices(c[0], W)
                if op != "=":
                    self.read(f, n, W)
                return W | {f} if W is not None else None
            return self.expr(c[0], W)
        if k == "OpCall" and n.get("op") == "=" and len(c) == 2:
            f = self.field(c[0])
            if f is not None:
                W = self.expr(c[1], W)
                W = self.indices(c[0], W)
                return W | {f} if W is not None else None
        if k == "Un" and n.get("op") in ("++", "--"):
            f = self.field(c[0])
            if f is not None:
                W = self.indices(c[0], W)
                self.read(f, n, W)
                return W | {f} if W is not None else None
        if k == "Bin" and n.get("op") in ("&&", "||"):
            W = self.expr(c[0], W)
            self.expr(c[1], W)
            return W
        if k == "Cond":
            W = self.expr(c[0], W)
            a = self.expr(c[1], W)
            b = self.expr(c[2], W) if len(c) > 2 else W
            return self.join(a, b)
        if k == "Lambda":
            body = n.get("body")
            if body is not None:
                s = (self.exits, self.loops)
                self.exits, self.loops = [], []
                self.stmt(body, W)
                self.exits, self.loops = s
            return W
        if k == "Member" and (not c or base_this(c[0])):
            if n.get("dk") == "CXXMethod" or n.get("method"):
                return W
            self.read(n["n"], n, W)
            return W
        if k in ("MCall", "Call", "Construct", "OpCall"):
            cal = n.get("callee") if isinstance(n.get("callee"), dict) else {}
            if k == "MCall":
                obj = n.get("obj")
                own = obj is None or base_this(obj)
                f = self.field(obj) if obj is not None else None
                if not own and obj is not None:
                    if f is not None and cal.get("name") in ("assign", "resize", "clear", "reset") and not cal.get("repo"):
                        W = self.indices(obj, W)
                        for x in c:
                            W = self.expr(x, W)
                        return W | {f} if W is not None else None
                    W = self.expr(obj, W)
                for x in c:
                    W = self.arg(x, W)
                if own and cal.get("repo"):
                    W = self.call(cal, n, W)
                return W
            for x in c:
                W = self.arg(x, W)
            return W
        if k == "Ref" and n.get("dk") == "CXXMethod" and isinstance(n.get("callee"), dict):
            self.call(n["callee"], n, W)
            return W
        for x in c:
            W = self.expr(x, W)
        if isinstance(n.get("obj"), dict):
            W = self.expr(n["obj"], W)
        return W

    def arg(self, x, W):
        return self.expr(x, W)

    def call(self, cal, n, W):
        ts = [t for t in self.g.targets(cal, n) if t in self.sum]
        out = None
        for t in ts:
            must, exp = self.sum[t]
            for f in exp:
                self.read(f, n, W)
            w = None if must is None else W | must
            out = self.join(out, w)
        return out if ts else W


def base_this(n):
    while isinstance(n, dict) and n["k"] in ("Cast", "Paren", "Un") and n.get("c"):
        n = n["c"][0]
    return isinstance(n, dict) and n["k"] == "This"


def const_true(c):
    return isinstance(c, dict) and (c["k"] in ("Int", "Bool") and c.get("v") in (1, True, "1", "true") or c["k"] == "Cast" and c.get("c") and const_true(c["c"][0]))

"""Syntax-tree queries over the extracted program: walks, call graph, where."""
from ir import rel


def nodes(n, inside=()):
    """preorder walk: (node, ancestors)"""
    stack = [(n, inside)]
    while stack:
        x, anc = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x, anc
                anc = anc + (x,)
            kids = [v for k, v in x.items() if isinstance(v, (dict, list)) and k not in ("callee",)]
            for v in reversed(kids):
                stack.append((v, anc))
        elif isinstance(x, list):
            for v in reversed(x):
                stack.append((v, anc))


def parts(f):
    for k in ("inits", "body"):
        if f.get(k):
            yield f[k]


def fnodes(f):
    for p in parts(f):
        for x in nodes(p):
            yield x


def fwhere(f, n=None):
    return (rel(f["file"]), (n or {}).get("l") or f["line"])


def callee_of(n):
    if n["k"] in ("Call", "MCall", "OpCall", "Construct", "Ref") and isinstance(n.get("callee"), dict):
        return n["callee"]
    return None


class Graph(object):
    """call graph; virtual calls reach every overrider"""
    def __init__(self, db):
        self.db = db
        self.out = {}

    def calls(self, fn):
        """[(callee function name, node, ancestors)]"""
        if fn in self.out:
            return self.out[fn]
        r = []
        f = self.db.functions[fn]
        for n, anc in fnodes(f):
            c = callee_of(n)
            if c is None:
                continue
            for t in self.targets(c, n):
                r.append((t, n, anc))
        self.out[fn] = r
        return r

    def targets(self, c, n=None):
        fn = c.get("fn")
        out = []
        if fn in self.db.functions:
            out.append(fn)
        if c.get("virtual") and not (n or {}).get("qual"):
            todo = [fn]
            seen = set()
            while todo:
                x = todo.pop()
                for o in self.db.overriders_of(x):
                    if o not in seen:
                        seen.add(o)
                        todo.append(o)
                        if o in self.db.functions:
                            out.append(o)
        return out

"""Copies: what copy constructors, assignments, swaps and clones transfer.

Each operation is run by the dataflow engine on symbolic objects; the value
left in every field of the result is compared with the corresponding field of
the source: the same value, or an independent deep copy where the class owns
the pointee, or the callback re-bound to the new object where the class binds
callbacks to itself.
"""
import re

from absint import *
from eq import OTHER, THIS, targs, clean, Facts, full_range
from ir import AnalysisBroken, rel, SRC


def is_copy_param(f, cls):
    ps = [p["t"] for p in f["params"]]
    return len(ps) == 1 and clean(ps[0]).rstrip("&").strip() == cls and ps[0].rstrip().endswith("&")


def operations(db):
    """user-provided copy/move constructors, assignments and swaps of all classes"""
    out = []
    for f in db.functions.values():
        c = f.get("cls")
        if not c or f.get("defaulted") or f.get("dep") or "body" not in f or c not in db.records or f.get("lambda"):
            continue
        if is_copy_param(f, c):
            mv = f["params"][0]["t"].rstrip().endswith("&&")
            if f.get("ctor"):
                out.append(("move" if mv else "copy", c, f))
            elif f["name"] == "operator=":
                out.append(("moveassign" if mv else "assign", c, f))
            elif f["name"] == "swap":
                out.append(("swap", c, f))
    # free swap functions
    for f in db.functions.values():
        if f.get("cls") or "body" not in f or f["name"] != "swap" or len(f["params"]) != 2 or f.get("dep"):
            continue
        t = clean(f["params"][0]["t"])
        if t in db.records and clean(f["params"][1]["t"]) == t:
            out.append(("freeswap", t, f))
    return sorted(out, key=lambda x: (x[1], x[0], x[2]["fn"]))


class Classes(object):
    """what the classes own and what they bind to themselves"""

    def __init__(self, db):
        self.db = db
        self._owned = {}
        self._bound = {}

    def owned(self, cls):
        """fields of cls (own ones) whose pointees its destructor deletes"""
        if cls in self._owned:
            return self._owned[cls]
        self._owned[cls] = set()
        res = set()
        for m in self.db.record(cls)["methods"]:
            if m.get("dtor"):
                f = self.db.functions.get(m["fn"])
                if f is None or "body" not in f:
                    continue
                e = Engine(self.db, dyn={THIS: cls}, limit=100)
                for o in e.run(f):
                    for ev in o.st.ev:
                        if ev[0] == "delete":
                            for t in sub(ev[1]):
                                if t.op == "fld" and t.a[0] is THIS:
                                    res.add(t.a[1])
                        if ev[0] == "loop":
                            pass
        self._owned[cls] = res
        return res

    def bound(self, cls):
        """function fields some constructor binds to the object under construction:
        field -> [(callee, boolean fields of that state, other function fields set by the caller)]"""
        if cls in self._bound:
            return self._bound[cls]
        self._bound[cls] = {}
        rec_ = self.db.record(cls)
        ff = [f["n"] for f in rec_["fields"] if targs(f["t"])[0] == "std::function"]
        if not ff:
            return {}
        flags = [f["n"] for f in rec_["fields"] if clean(f["t"]) == "bool"]
        res = {}
        for f in self.db.functions.values():
            if f.get("cls") != cls or not f.get("ctor") or "body" not in f or is_copy_param(f, cls):
                continue
            # only the functions that handle the callbacks matter
            e = Engine(self.db, dyn={THIS: cls}, limit=300,
                       inline=lambda g: g.get("cls") == cls and (g.get("ctor") or mentions(g, ff))
                       or g.get("ret", "").startswith("std::function"))
            for o in e.run(f):
                if o.kind != "return":
                    continue
                vals = {n: e.load(o.st, (("o", THIS), (n,))) for n in ff}
                for n in ff:
                    if self_bound(vals[n], THIS):
                        st = {}
                        for b in flags:
                            v = e.load(o.st, (("o", THIS), (b,)))
                            if v.op == "bool":
                                st[b] = v.a[0]
                        user = {m for m in ff if m != n and vals[m].op in ("sym", "param", "fld") and vals[m] is not NULL}
                        res.setdefault(n, []).append((vals[n].a[0] if vals[n].op == "bind" else vals[n], st, user))
        self._bound[cls] = res
        return res


def mentions(f, fields):
    todo = [f.get("body"), f.get("inits")]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "Member" and (x.get("n") in fields or x.get("name") in fields):
                return True
            todo += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            todo += x
    return False


def self_bound(v, obj):
    """the value refers to the object itself (address or reference to it or to its members)"""
    for t in sub(v):
        if t.op in ("ptr", "lvref") and isinstance(t.a[0], tuple) and t.a[0] == ("o", obj):
            return True
        if t.op == "addr" and any(x is obj for x in sub(t.a[0])):
            return True
    return False


def refers(v, obj):
    return self_bound(v, obj)


class Copier(object):
    def __init__(self, db, classes, eng, st, dst, src, why, exempt, allow_same=False):
        self.db, self.cl, self.e, self.st = db, classes, eng, st
        self.dst, self.src = dst, src
        self.why = why
        self.exempt = exempt
        self.F = Facts(st.facts)
        self.allow_same = allow_same    # swap: ownership moves along with the pointer

    def bad(self, path, msg):
        self.why.append((path, msg))

    def same(self, v, o):
        """v is the value o of the source"""
        if v is o:
            return True
        if v.op == "copyof" and False:
            return True
        if o.op == "fld" and eqflat(self.F, v, o):
            return True
        return False

    def field(self, cls, f, v, o, path):
        """field f of class cls: v must carry over o"""
        if path in self.exempt or f["n"] in self.exempt.get(("class", cls), ()):
            return
        t = f["t"]
        base, args = targs(t)
        owned = f["n"] in self.cl.owned(cls)
        if base == "std::function":
            b = self.cl.bound(cls).get(f["n"])
            if refers(v, self.src):
                return self.bad(path, "callback still refers to the source object")
            if b:
                if v is o:
                    # verbatim copy is right only for a state in which the callback is not bound to the object
                    if all(self.contradicts(x) for x in b):
                        return
                    return self.bad(path, "callback bound to the source object is copied as it is")
                if self_bound(v, self.dst):
                    f_ = v.a[0] if v.op == "bind" else v
                    if any(x[0] is f_ and not self.flagdiff(x) for x in b):
                        return
                    return self.bad(path, "callback bound to another function than in the source")
            elif self.same(v, o):
                return
            elif self_bound(v, self.dst) and v.op == "bind":
                # bound by a helper the constructors do not use directly
                return
            return self.bad(path, "callback %s is not the one of the source" % show(v)[:80])
        self.value(t, v, o, path, owned, cls)

    def contradicts(self, x):
        fn, flags, user = x
        for u in user:
            k = self.st.facts.get(mkcmp("==", mk("fld", self.src, u), NULL))
            if k is True:
                return True
        return self.flagdiff(x)

    def flagdiff(self, x):
        for b, val in x[1].items():
            k = self.st.facts.get(mk("fld", self.src, b))
            if k is not None and k != val:
                return True
        return False

    def value(self, t, v, o, path, owned, cls=None):
        if path in self.exempt:
            return
        base, args = targs(t)
        ptr = base.endswith("*") or (base in ("std::unique_ptr",))
        if ptr and owned and not self.allow_same:
            if v is o:
                return self.bad(path, "shares memory that both objects free")
            return self.deep(t, v, o, path)
        if self.same(v, o):
            if base in ("std::vector", "std::map", "std::multimap", "std::list") and owned and not self.allow_same:
                return self.bad(path, "shares the elements that both objects free")
            if base in self.db.records and not self.allow_same:
                if any(self.cl.owned(b) for b in self.db.bases(base)) and not user_copy(self.db, base):
                    return self.bad(path, "copies an owning member bitwise")
            return
        if base in self.db.records and v.op in ("rec",):
            for f in self.db.fields(base):
                self.field(f["owner"], f, rget(v, f["n"]), rget(o, f["n"]), path + "." + f["n"])
            return
        if base in self.db.records and v.op == "construct" and len(v.a) == 2 and v.a[1] is o:
            return
        if ptr or base in ("std::shared_ptr",):
            return self.deep(t, v, o, path)
        if base in ("std::vector", "std::map", "std::multimap", "std::list", "std::deque", "std::array"):
            return self.container(t, base, args, v, o, path, owned)
        self.bad(path, "is %s instead of the value of the source" % show(v)[:120])

    def deep(self, t, v, o, path):
        """v points to an independent copy of *o"""
        pt = pointee_of(t)
        do = mk("deref", o)
        if v.op == "call" and len(v.a) == 2 and v.a[1] is do and re.search(r"::(clone|create)(\(|$)", str(v.a[0])):
            return
        if v.op == "ptr" and v.a[0][0] == "h":
            c = self.st.store.get(v.a[0])
            if c is not None:
                c = self.e.load(self.st, (v.a[0], v.a[1]))
            else:
                # built inside a loop: by the copy constructor, which is checked by itself
                k = self.e.copied.get(v.a[0])
                if k is not None and k[0] == pt and k[1] is do and not self.db.derived.get(pt):
                    return
            return self.pointee(pt, c, o, do, path)
        if v is NULL and self.st.facts.get(mkcmp("==", o, NULL)):
            return
        self.bad(path, "is %s, not a copy of what the source points to" % show(v)[:120])

    def pointee(self, pt, c, o, do, path):
        if c is None:
            return self.bad(path, "points to memory that was never filled from the source")
        if c.op == "copyof":
            n = self.length(path)
            if c.a[0] is do and (n is None or c.a[1] is n):
                return
            return self.bad(path, "only part of the array of the source is copied")
        if c is do or (c.op == "construct" and c.a[-1] is do):
            return
        if pt in self.db.records and c.op == "rec":
            for f in self.db.fields(pt):
                self.field(f["owner"], f, rget(c, f["n"]), rget(do, f["n"]), path + "->" + f["n"])
            return
        if c.op == "mu":
            n = self.length(path)
            if n is not None and self.mu_elements(pt, c, o, path, n):
                return
        self.bad(path, "points to %s, not to a copy of the array or object of the source" % show(c)[:120])

    def length(self, path):
        from eq import LENGTH
        return self._len.get(path) if hasattr(self, "_len") else None

    def mu_elements(self, et, c, o, path, n):
        """array filled by a loop over all elements"""
        idx, lvt, init, alts = c.a
        hi = idx.a[2] if len(idx.a) > 2 else None
        ok = False
        for facts, val in alts:
            G = Facts({t: p for t, p in facts})
            lo = any(t.op == "<=" and isnum(t.a[0], 0) and t.a[1] is idx for t in G.flat)
            up = any(t.op == "<" and t.a[0] is idx and t.a[1] is n for t in G.flat)
            if not (lo and up):
                return False
            w = rget(val, idx)
            do = mk("elem", o, idx)
            dd = mk("elem", mk("deref", o), idx)
            if w is do or w is dd or w is mk("deref", mk("+", o, idx)):
                ok = True
            else:
                return False
        return ok

    def container(self, t, base, args, v, o, path, owned):
        if v.op == "list" and not v.a and is_empty(self.F, o):
            return
        if v.op != "mu":
            return self.bad(path, "is %s instead of the elements of the source" % show(v)[:120])
        idx, lvt, init, alts = v.a
        if not (init.op == "list" and not init.a) and not (init.op == "mut" and "resize" in init.a[0] or init.op == "construct"):
            return self.bad(path, "old elements %s are kept" % show(init)[:80])
        if init.op == "mut" and not (init.a[1].op == "list" and not init.a[1].a and init.a[2] is mk("size", o)):
            return self.bad(path, "is resized to %s" % show(init)[:80])
        for facts, val in alts:
            G = Facts({t_: p for t_, p in facts})
            if not full_range(G, idx, o, o, (mk("size", o), mk("size", o))):
                return self.bad(path, "not all elements of the source are copied")
            oe = mk("elem", o, idx)
            if base in ("std::map", "std::multimap"):
                k, w = map_insert(val, lvt, o, idx)
                if k is None:
                    return self.bad(path, "an element of the source is not inserted (%s)" % show(val)[:160])
                if k is not mk("fld", oe, "first"):
                    return self.bad(path, "an element is stored under another key")
                self.value(args[1], w, mk("fld", oe, "second"), path + "[]", owned)
            elif val.op == "vpush" and val.a[0] is lvt:
                self.value(args[0], val.a[1], oe, path + "[]", owned)
            elif init.op != "list" or val.op == "rec":
                w = rget(val, idx)
                self.value(args[0], w, oe, path + "[]", owned)
            else:
                return self.bad(path, "an element of the source is not copied")


def map_insert(val, lvt, o, idx):
    oe = mk("elem", o, idx)
    if val.op == "mut" and re.search(r"map::(emplace|insert|emplace_hint|insert_or_assign|try_emplace)", val.a[0]) and val.a[1] is lvt:
        a = val.a[2:]
        if len(a) == 2:
            return a
        if len(a) == 1 and a[0].op == "rec":
            return rget(a[0], "first"), rget(a[0], "second")
        return None, None
    k = mk("fld", oe, "first")
    if val.op == "rec":
        w = rget(val, k)
        if w is not rget(lvt, k):
            return k, w
    return None, None


def eqflat(F, a, b):
    return any(t.op == "==" and len(t.a) == 2 and {t.a[0], t.a[1]} == {a, b} for t in F.flat)


def is_empty(F, o):
    return eqflat(F, mk("size", o), num(0))


def pointee_of(t):
    base, args = targs(t)
    return clean(base[:-1]) if base.endswith("*") else clean(args[0])


def user_copy(db, cls):
    for b in db.bases(cls):
        for f in db.functions.values():
            if f.get("cls") == b and f.get("ctor") and not f.get("defaulted") and is_copy_param(f, b):
                return True
    return False


ARRAYS = {"PROPOSAL::Polynom": {"coeff_": "N_"}}


def check_operation(db, c, cl, kind, cls, f, exempt):
    label = "%s %s" % (cls.split("PROPOSAL::")[-1], {"copy": "copy constructor", "move": "move constructor", "assign": "assignment",
                                                    "moveassign": "move assignment", "swap": "swap", "freeswap": "swap"}[kind])
    where = (rel(f["file"]), f["line"])
    c.saw("operations", f["fn"])
    lv = lambda o: ("lv", (("o", o), ()))
    swap = kind in ("swap", "freeswap")
    runs = [(False,)]
    if kind in ("assign",):
        runs.append((True,))
    for (self_,) in runs:
        e = Engine(db, dyn={THIS: cls, OTHER: cls}, limit=400)
        if kind == "freeswap":
            outs = e.run(f, args=[lv(THIS), lv(OTHER)])
        else:
            outs = e.run(f, args=[lv(THIS if self_ else OTHER)])
        for v in e.visited:
            c.saw("functions", v)
        done = 0
        for o in outs:
            if o.kind != "return":
                continue
            same = o.st.facts.get(mkcmp("==", mk("ptr", ("o", THIS), ()), mk("ptr", ("o", OTHER), ())))
            if not self_ and same is True:
                continue        # covered by the run on one object
            done += 1
            ev = o.st.ev
            if self_:
                check_self(db, c, cl, e, o, cls, label, where, exempt)
                continue
            fields = db.fields(cls)
            why = []
            k = Copier(db, cl, e, o.st, THIS, OTHER, why, exempt, allow_same=swap or kind.startswith("move"))
            k._len = lengths(db, cls, OTHER)
            for fl in fields:
                v = e.load(o.st, (("o", THIS), (fl["n"],)))
                k.field(fl["owner"], fl, v, mk("fld", OTHER, fl["n"]), fl["n"])
            report(c, label, where, why, len(fields))
            why = []
            if swap:
                k = Copier(db, cl, e, o.st, OTHER, THIS, why, exempt, allow_same=True)
                for fl in fields:
                    v = e.load(o.st, (("o", OTHER), (fl["n"],)))
                    k.field(fl["owner"], fl, v, mk("fld", THIS, fl["n"]), fl["n"])
                report(c, label + " (other operand)", where, why, len(fields))
            elif not kind.startswith("move"):
                for fl in fields:
                    if fl.get("mutable"):
                        continue
                    v = e.load(o.st, (("o", OTHER), (fl["n"],)))
                    if v is not mk("fld", OTHER, fl["n"]):
                        why.append((fl["n"], "the source is modified: %s" % show(v)[:100]))
                for x in ev:
                    if x[0] == "delete" and any(t is OTHER for t in sub(x[1])):
                        why.append(("delete", "memory of the source is freed"))
                report(c, label + " leaves the source alone", where, why, 1)
        c.ob("%s: completes" % label, done > 0, where, "no path completes")


def lengths(db, cls, obj, prefix="", depth=0):
    """field path -> term holding the number of elements of the raw array there"""
    out = {}
    for b in db.bases(cls):
        for a, n in ARRAYS.get(b, {}).items():
            out[prefix + a] = mk("fld", obj, n)
    if depth < 2:
        for f in db.fields(cls):
            t = clean(f["t"])
            if t in db.records:
                out.update(lengths(db, t, mk("fld", obj, f["n"]), prefix + f["n"] + ".", depth + 1))
    return out


def check_self(db, c, cl, e, o, cls, label, where, exempt):
    why = []
    dels = [x for x in o.st.ev if x[0] == "delete"]
    k = Copier(db, cl, e, o.st, THIS, THIS, why, exempt)
    k._len = lengths(db, cls, THIS)
    for fl in db.fields(cls):
        v = e.load(o.st, (("o", THIS), (fl["n"],)))
        old = mk("fld", THIS, fl["n"])
        if v is old:
            if any(any(t is old for t in sub(x[1])) for x in dels):
                why.append((fl["n"], "freed by assigning an object to itself"))
            continue
        if targs(fl["t"])[0] == "std::function" and self_bound(v, THIS):
            continue
        # the new value must have been copied before the old one was freed
        k.field(fl["owner"], fl, v, old, fl["n"])
        for i, x in enumerate(o.st.ev):
            if x[0] == "delete" and any(t is old for t in sub(x[1])):
                later = [y for y in o.st.ev[i + 1:] if any(isinstance(t, T) and any(z is mk("deref", old) or z is old for z in sub(t))
                                                             for t in flat(y)) and y[0] in ("call", "memcopy", "deref", "construct")]
                if later:
                    why.append((fl["n"], "read after it was freed when an object is assigned to itself"))
    report(c, label + " to itself", where, why, 1)


def flat(ev):
    out = []
    for x in ev[1:]:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            out += [y for y in x if isinstance(y, T)]
    return out


def report(c, label, where, why, n):
    if not why:
        c.ob("%s: every field carried over" % label, True, where)
    for path, msg in why:
        c.ob("%s: %s" % (label, path), False, where, "%s: %s" % (path, msg))
    c.counts = getattr(c, "counts", 0) + n


def check_implicit(db, c, cl):
    """classes that own memory or bind callbacks to themselves must not use generated copies"""
    n = 0
    for cls, r in sorted(db.records.items()):
        if r.get("dep") or not r.get("file", "").startswith(SRC):
            continue
        own = set(cl.owned(cls))
        bnd = set(cl.bound(cls)) if not r.get("lambda") else set()
        if not own and not bnd:
            continue
        n += 1
        short = cls.split("PROPOSAL::")[-1]
        where = (rel(r["file"]), r["line"])
        decl = {"copy constructor": None, "assignment": None}
        move = False
        for m in r["methods"]:
            if m.get("movector") or m.get("moveassign"):
                move = move or not m.get("implicit")
            elif m.get("copyctor"):
                decl["copy constructor"] = m
            elif m.get("copyassign"):
                decl["assignment"] = m
        nocopy = any(targs(f["t"])[0] in ("std::unique_ptr", "std::mutex") for f in db.fields(cls))
        noassign = nocopy or any(f["t"].rstrip().endswith("&") or f["t"].startswith("const ") for f in db.fields(cls))
        for k, m in decl.items():
            if m is None:
                ok = (k == "assignment" and noassign) or (k == "copy constructor" and nocopy) or move
            else:
                ok = bool(m.get("deleted")) or not (m.get("implicit") or m.get("defaulted")) \
                    or (k == "assignment" and noassign) or nocopy
            c.ob("%s: %s is not the generated one" % (short, k), ok, where,
                 "%s owns %s / binds %s to itself, but its %s is generated by the compiler" % (
                     short, ", ".join(sorted(own)) or "nothing", ", ".join(sorted(bnd)) or "nothing", k))
    return n


def check_clones(db, c, cl, exempt):
    n = 0
    for f in sorted(db.functions.values(), key=lambda f: f["fn"]):
        cls = f.get("cls")
        if f["name"] not in ("clone", "create") or not cls or f["params"] or "body" not in f or f.get("dep") or cls not in db.records:
            continue
        n += 1
        label = "%s %s" % (cls.split("PROPOSAL::")[-1], f["name"])
        where = (rel(f["file"]), f["line"])
        c.saw("clones", f["fn"])
        e = Engine(db, dyn={THIS: cls}, limit=200)
        for o in e.run(f):
            if o.kind != "return":
                continue
            v = o.value
            if v.op == "lvref":
                v = e.load(o.st, (v.a[0], v.a[1]))
            if v.op == "construct" and len(v.a) >= 2:
                v = v.a[-1]
            if v.op != "ptr" or v.a[0][0] != "h":
                c.ob("%s: returns a new object" % label, False, where, "returns %s" % show(v)[:100])
                continue
            k = e.dyncls.get(v.a[0])
            content = o.st.store.get(v.a[0])
            if content is not None and content.op == "rec" and content.a[0]:
                k = k or content.a[0]
            c.ob("%s: same kind" % label, k == cls, where, "clone of %s is a %s" % (cls, k))
            if content is not None and (content is THIS or (content.op == "construct" and content.a[-1] is THIS)):
                c.ob("%s: every field carried over" % label, True, where)
                continue
            why = []
            cp = Copier(db, cl, e, o.st, mk("none"), THIS, why, exempt)
            cp.dst = None
            cp.root = v.a[0]
            cp._len = lengths(db, cls, THIS)
            for fl in db.fields(cls):
                w = e.load(o.st, (v.a[0], (fl["n"],)))
                if targs(fl["t"])[0] == "std::function" and cl.bound(fl["owner"]).get(fl["n"]) and not refers(w, THIS) and w is not mk("fld", THIS, fl["n"]):
                    continue    # re-bound by the copy constructor, which is checked by itself
                cp.field(fl["owner"], fl, w, mk("fld", THIS, fl["n"]), fl["n"])
            report(c, label, where, why, 1)
    # classes below a cloneable base must not inherit the clone of their parent
    for cls, r in sorted(db.records.items()):
        if r.get("dep") or r.get("abstract") or not r.get("file", "").startswith(SRC):
            continue
        for b in db.bases(cls):
            for m in db.records[b]["methods"]:
                if m["n"] == "clone" and m.get("virtual"):
                    fn, mm = db.resolve(m["fn"], cls)
                    owner = fn.split("::clone(")[0] if fn else None
                    c.ob("%s: has its own clone" % cls.split("PROPOSAL::")[-1], owner == cls, (rel(r["file"]), r["line"]),
                         "clone of a %s is inherited from %s and slices it" % (cls, owner))
                    break
    return n

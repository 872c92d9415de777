"""P16: failed lookups, failed downcasts and absent optional parts are never dereferenced."""
import re
from absint import *
from common import AnalysisBroken
from data import N, global_value, unlist
from kinematics import where
from tree import Graph, fnodes
from ir import rel

RULE = ("Abstract interpretation of every function that dereferences the result of a lookup, a downcast or a pointer that may be absent. Where a pointer or iterator is dereferenced "
        "its value is a term; if the term is the result of std::find, map::find and relatives the path must have established that it differs from the end of the same container, "
        "or that the key is in it; a downcast pointer must have been compared with null; a registry, an optional part (energy cut, scattering, decay, continuous randomization, "
        "tables, LPM correction) or the result of a function that may return null must be known to be non-null. What counts as optional is the documented set, every pointer the "
        "program itself compares with null, and every function with a path returning null; a part that every constructor of its owner rejects when null is not optional.")

FIND = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "equal_range", "adjacent_find", "search", "find_first_of"}
PARTS = {        # documented as optional: the class is usable without them
    N + "PropagationUtility::Collection": {"cont_rand", "decay_calc", "scattering", "interaction_calc", "displacement_calc", "time_calc"},
    N + "Scattering": {"m_scatter_ptr"},
    N + "CrossSectionDNDX": {"cut"},
    N + "CrossSection": {"dndx", "dedx", "de2dx"},
    N + "crosssection::Bremsstrahlung": {"lpm_"},
    N + "crosssection::EpairProduction": {"lpm_"},
    N + "crosssection::PhotoPairProduction": {"lpm_"},
    N + "InteractionBuilder": {"rate_interpolant_"},
    N + "Propagator::GlobalSettings": {"cuts", "medium"},
    N + "secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin": {"dndx"},
    N + "secondaries::PhotoPairProductionInterpolant": {"dndx"},
    N + "secondaries::WeakCooperSarkarMertsch": {"dndx"},
}
MAYBE = {N + "CrossSectionBase::GetEnergyCutSettings", N + "Secondaries::GetEntryPoint", N + "Secondaries::GetExitPoint"}
REGISTRY = {N + "Component::component_map", N + "Medium::medium_map", N + "ParticleDef::Type_Particle_Map"}


def isptr(t):
    t = (t or "").replace("const ", "").strip(" &")
    return t.endswith("*") or t.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr"))


def peel(n):
    while n["k"] in ("Cast", "Construct", "Temp") and len(n.get("c", [])) == 1 and not n.get("dyn"):
        n = n["c"][0]
    return n


def base(q):
    """qualified name without template arguments and parameters"""
    out, d = "", 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "(" and d == 0:
            break
        elif d == 0:
            out += ch
    return out


def null_tests(f):
    """operands compared with null in f"""
    for n, anc in fnodes(f):
        k = n["k"]
        if k == "MCall" and (n.get("callee") or {}).get("name") == "operator bool" and isptr(n["obj"].get("t")):
            yield peel(n["obj"])
        elif k == "Cast" and n.get("ck") == "PointerToBoolean":
            yield peel(n["c"][0])
        elif k in ("OpCall", "Bin") and n.get("op") in ("==", "!=") and len(n["c"]) == 2:
            a, b = [peel(x) for x in n["c"]]
            for x, y in ((a, b), (b, a)):
                if "nullptr" in (y.get("t") or "") and "nullptr" not in (x.get("t") or ""):
                    yield x


class Optional(object):
    """what may be absent"""
    def __init__(self, db):
        self.db = db
        self.fields = {}            # field name -> owners
        for o, ns in PARTS.items():
            for x in ns:
                self.fields.setdefault(x, set()).add(o)
        self.calls = set(MAYBE)
        self.globs = set(REGISTRY)
        self.syms = {}              # (file, line) -> names tested in that function
        owner = {}
        for cls in db.records:
            for x in db.fields(cls):
                owner.setdefault(x["n"], set()).add(base(x.get("owner", cls)))
        for fn, f in db.functions.items():
            if "body" not in f:
                continue
            for x in null_tests(f):
                if not isptr(x.get("t")):
                    continue
                if x["k"] == "Member":
                    o = base(x.get("q") or "").rsplit("::", 1)[0]
                    if o.startswith(N) and isptr(x.get("t")):
                        self.fields.setdefault(x["n"], set()).add(o)
                elif x["k"] == "Ref" and x.get("dk") in ("param", "var", "local") and not x.get("q"):
                    self.syms.setdefault((f["file"], f["line"]), set()).add(x["n"])
                elif x["k"] == "Ref" and (x.get("q") or "").startswith(N):
                    self.globs.add(base(x["q"]))
                elif x["k"] in ("Call", "MCall") and (x.get("callee") or {}).get("repo"):
                    self.calls.add(base(x["callee"]["fn"]))
            if isptr(f.get("ret")):
                for n, anc in fnodes(f):
                    if n["k"] == "Return" and n.get("c") and not any(a["k"] == "Lambda" for a in anc) and "nullptr" in (peel(n["c"][0]).get("t") or ""):
                        self.calls.add(base(fn))
        # parts a constructor of their owner rejects when they are null
        self.mandatory = set()
        self.rejected(N + "PropagationUtility", "collection")

    def touched(self, f):
        """f itself looks something up, casts or mentions an optional part"""
        for n, anc in fnodes(f):
            k = n["k"]
            if k in ("MCall", "Call"):
                cal = n.get("callee") or {}
                if cal.get("name") in FIND and not cal.get("repo") or base(cal.get("fn", "")) in self.calls:
                    return True
            elif k == "Cast" and n.get("dyn"):
                return True
            elif k == "Member" and n.get("n") in self.fields and isptr(n.get("t")):
                return True
            elif k == "Ref" and (base(n.get("q") or "") in self.globs or isptr(n.get("t")) and n.get("n") in self.syms.get((f["file"], f["line"]), ())):
                return True
        return False

    def rejected(self, cls, member):
        db = self.db
        names = {x for x, o in self.fields.items() if N + "PropagationUtility::Collection" in o}
        for x in db.fields(N + "PropagationUtility::Collection"):
            if x["n"] not in names:
                continue
            good = None
            for f in db.functions.values():
                if f.get("cls") == cls and f.get("ctor") and "body" in f and not f.get("copyctor") and not f.get("movector"):
                    e = Engine(db)
                    for o in e.run(f):
                        if o.kind == "return":
                            v = e.load(o.st, (("o", mk("this")), (member, x["n"])))
                            good = (good is not False) and e.truth(o.st, mkcmp("==", v, mk("null"))) is False
            if good:
                self.mandatory.add((N + "PropagationUtility::Collection", x["n"]))


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            yield x
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)


def find_term(p):
    return p.op == "call" and isinstance(p.a[0], str) and (p.a[0].startswith("std::") or "::" not in p.a[0]) and p.a[0].split("(")[0].split("::")[-1] in FIND


class Lookup(Engine):
    def __init__(self, db, opt, full, **k):
        Engine.__init__(self, db, **k)
        self.opt = opt
        self.full = full
        self.sites = {}         # (where, text) -> [held, detail]
        self.syms = set()
        self.byidx = set()

    # -------------------------------------------------------------- what is dereferenced
    def deref(self, st, p, fr=None, node=None):
        if st is not None and fr is not None and node is not None and p.op not in ("ptr", "iter", "obj", "this"):
            self.judge(st, p, fr, node)
        return Engine.deref(self, st, p, fr, node)

    def site(self, fr, node, what, ok, detail):
        k = (self.where(fr, node), what)
        old = self.sites.get(k)
        if old is None or (old[0] and not ok):
            self.sites[k] = [ok, detail]

    def known(self, st, p):
        """the path has established that p is not null"""
        return self.truth(st, mkcmp("==", p, mk("null"))) is False

    def judge(self, st, p, fr, node, depth=0):
        if p.op == "construct" and len(p.a) == 2 and isinstance(p.a[1], T):
            p = p.a[1]
        if p.op == "null":
            if self.feasible(st):
                self.site(fr, node, "null pointer", False, "a pointer that is null on this path is dereferenced")
            return
        if p.op == "cases" and depth < 3:
            if self.known(st, p):
                return
            for facts, v in p.a[0]:
                s = st.copy()
                ok = True
                for t, pol in facts:
                    s2 = self.assume(s, t, pol)
                    if s2 is None:
                        ok = False
                        break
                    s = s2
                if ok:
                    self.judge(s, v, fr, node, depth + 1)
            return
        if find_term(p):
            self.site(fr, node, "lookup", self.found(st, p), "the result of %s is dereferenced on a path that has not excluded the end of the container" % show(p)[:120])
            return
        if p.op == "dyncast":
            self.site(fr, node, "cast", self.truth(st, mk("isa", p.a[1], p.a[0])) is True or self.known(st, p) or self.sametype(st, p, fr),
                      "a cast to %s is dereferenced on a path that has not checked that it succeeded" % str(p.a[0]).replace(N, ""))
            return
        w = self.optional(p, fr, node, st)
        if w:
            self.site(fr, node, w, self.known(st, p), "%s (%s) is dereferenced on a path that has not established that it is present" % (show(p)[:100], w))

    def sametype(self, st, p, fr):
        """the path has compared the type of the object with one that derives from the class cast to"""
        for t, pol in st.facts.items():
            if pol and t.op == "==" and len(t.a) == 2:
                for x, y in (t.a, t.a[::-1]):
                    if x.op == "typeid" and x.a[0] is p.a[1]:
                        if y.op == "typeid" and fr.this is not None and y.a[0] is self.addr(fr.this) and p.a[0] in self.db.bases(fr.fn.get("cls") or p.a[1]):
                            return True         # the type of the object whose method this is
                        k = str(y.a[0]).replace("typeid ", "", 1) if y.op in ("str", "typeid") else None
                        if k in self.db.records and p.a[0] in self.db.bases(k):
                            return True
        return False

    def feasible(self, st):
        return True

    def optional(self, p, fr, node, fst):
        if p.op == "fld":
            n = p.a[-1]
            t = self.ntype(node)
            own = self.opt.fields.get(n)
            if own and not any((o, n) in self.opt.mandatory for o in own):
                if self.owned(p, own, node):
                    return "optional part %s" % n
        if p.op == "glob":
            g = base(str(p.a[0]).split("@")[0])
            return "registry %s" % g.replace(N, "") if g in self.opt.globs else None
        if p.op == "call" and isinstance(p.a[0], str) and base(p.a[0]) in self.opt.calls:
            return "result of %s" % base(p.a[0]).replace(N, "")
        if p.op == "sym" and isinstance(p.a[0], str) and p.a[0] in self.syms:
            return "parameter %s" % p.a[0]
        r = p
        while r.op in ("fld",) and isinstance(r.a[0], T):
            r = r.a[0]
        if r.op in ("elem", "idx") and r in self.byidx:
            m, k = r.a[0], r.a[1]
            if any(x.op == "elem" and x.a[0] is m for x in subterms(k)):        # the key of an element of the same map
                return None
            if self.found(fst, mk("call", "std::map::find", m, k)):
                return None
            return "element of a map"
        return None

    def ntype(self, node):
        x = node.get("obj") or (node.get("c") or [{}])[0]
        return x.get("t", "")

    def owned(self, p, own, node):
        """the member dereferenced belongs to one of the owners (names are not unique)"""
        x = node.get("obj") if node["k"] == "MCall" else (node.get("c") or [None])[0]
        if x is None:
            return False
        x = peel(x)
        if x["k"] == "Member" and x.get("n") == p.a[-1]:
            o = base(x.get("q") or "").rsplit("::", 1)[0]
            return o in own
        # reached through a reference or a local copy: the declared type of the member decides
        return any(y["n"] == p.a[-1] and strip_type(y["t"]) == strip_type(x.get("t", "")) for o in own for c in self.db.records if base(c) == o for y in self.db.fields(c))

    def found(self, st, p):
        q, args = p.a[0], p.a[1:]
        name = q.split("(")[0].split("::")[-1]
        conts = []
        if q.startswith("std::find") or q.startswith("std::lower") or q.startswith("std::upper") or q.startswith("std::adj") or q.startswith("std::search"):
            conts = [args[1]] if len(args) > 1 else []
        elif args:
            conts = [mk("end", args[0])]
        for e in conts:
            if self.truth(st, mkcmp("==", p, e)) is False:
                return True
        if args and any(self.truth(st, mkcmp("==", x, mk("end", args[0]))) is False for u in st.facts for x in (u.a if u.op == "==" else ())
                        if isinstance(x, T) and find_term(x) and x.a[1:] == args):
            return True
        if len(args) >= 2 and name == "find" and not q.startswith("std::find"):
            m, k = args[0], args[1]
            for t, pol in st.facts.items():
                for x in (t,) + tuple(y for y in t.a if isinstance(y, T)):
                    if x.op == "call" and isinstance(x.a[0], str) and x.a[0].split("(")[0].split("::")[-1] in ("count", "contains") and x.a[1:] == (m, k):
                        if self.truth(st, mkcmp("==", x, num(0))) is False or (x is t and pol):
                            return True
            if k in self.full.get(m, ()) or k.op == "enum" and (k in self.full.get(m, ())):
                return True
        return False

    # -------------------------------------------------------------- operator[] of a map inserts a null pointer for a new key
    def e_OpCall(self, e, st, fr):
        r = Engine.e_OpCall(self, e, st, fr)
        if e["op"] == "[]" and re.match(r"(const )?std::(unordered_)?map<", e["c"][0].get("t", "")) and re.search(r"(unique|shared)_ptr<|\*(,|>)", e["c"][0]["t"]):
            for s, v in r:
                if v.op == "lvref":
                    x = self.load(s, (v.a[0], v.a[1]))
                    while x.op == "fld":
                        x = x.a[0]
                    if x.op in ("elem", "idx"):
                        self.byidx.add(x)
        return r


def candidates(f):
    for n, anc in fnodes(f):
        k = n["k"]
        if k in ("MCall", "Call") and (n.get("callee") or {}).get("name") in FIND and not n["callee"].get("repo"):
            return True
        if k == "Cast" and n.get("dyn"):
            return True
        if k == "OpCall" and n.get("op") in ("*", "->") and len(n["c"]) == 1:
            return True
        if k == "Un" and n.get("op") == "*":
            return True
        if k == "MCall" and n.get("arrow") and n["obj"]["k"] != "This" and isptr(n["obj"].get("t")):
            return True
    return False


def enums_in(db):
    """constant maps keyed by an enumeration -> the keys they contain"""
    full = {}
    for g, x in db.globals.items():
        if x.get("const") and re.search(r"std::(unordered_)?map<", x.get("t", "")):
            try:
                v = global_value(db, g.split("@")[0])[0][0]
                l = unlist(v)
            except Exception:
                continue
            if l:
                full[mk("glob", g.split("@")[0])] = {rget(y, "first") for y in l}
    return full


def p16(db, c):
    opt = Optional(db)
    full = enums_in(db)
    G = Graph(db)
    size = {}

    def nn(f):
        if f["fn"] not in size:
            size[f["fn"]] = sum(1 for _ in fnodes(f))
        return size[f["fn"]]

    access = {}
    for cls, r in db.records.items():
        for m in r["methods"]:
            access[m["fn"]] = m.get("access", 0)
    called = set()
    for fn, f in db.functions.items():
        if "body" in f and not f.get("dep"):
            for t, n, anc in G.calls(fn):
                if t != fn:
                    called.add(t)
    cand = [f for fn, f in sorted(db.functions.items()) if "body" in f and not f.get("dep") and not f.get("implicit") and not f.get("defaulted") and candidates(f)]
    helper = {f["fn"] for f in cand if access.get(f["fn"], 0) in (1, 2) and f["fn"] in called and not f.get("virtual") and opt.touched(f) and nn(f) < 150}

    # overriders only reachable through their base class: analysed in the context of its callers, for an object of their class
    hidden = {f["fn"] for f in cand if access.get(f["fn"], 0) in (1, 2) and f.get("virtual") and opt.touched(f)}
    callers = {}
    for fn, f in db.functions.items():
        if "body" in f and not f.get("dep"):
            for t, n, anc in G.calls(fn):
                if t in hidden and f.get("cls") and f["cls"] in db.bases(db.functions[t]["cls"]) and fn != t:
                    callers.setdefault(t, set()).add(fn)

    def inline(g):
        return "body" in g and (not g.get("virtual") and (nn(g) < 80 or g["fn"] in helper) or g["fn"] in hidden)

    seen = set()
    sites = {}
    reached = set()
    cand += [f for fn, f in sorted(db.functions.items()) if "body" in f and not f.get("dep") and not f.get("implicit") and not candidates(f) and any(t in helper for t, n, anc in G.calls(fn))]
    roots = [f for f in cand if f["fn"] not in helper]
    nroots = 0
    while roots:
        for f in roots:
            key = (f["file"], f["line"], f.get("cls"))
            if key in seen:
                continue
            seen.add(key)
            nroots += 1
            e = Lookup(db, opt, full, inline=inline, limit=60)
            e.syms = opt.syms.get((f["file"], f["line"]), set())
            if f["fn"] in hidden and f["fn"] in callers:
                for g in sorted(callers[f["fn"]]):
                    c.part(base(f["fn"]), lambda: e.run(db.functions[g], dyn=f["cls"]))
                e.sites = {k: v for k, v in e.sites.items() if k[0][0] == rel(f["file"]) or not v[0]}
            else:
                c.part(base(f["fn"]), e.run, f)
            reached |= {(db.functions[x]["file"], db.functions[x]["line"]) for x in e.visited if x in db.functions}
            c.saw("functions", base(f["fn"]).replace(N, ""))
            for k, v in e.sites.items():
                old = sites.get(k)
                if old is None or (old[0] and not v[0]) or old[0] == v[0] and rel(old[2]["file"]) != k[0][0] == rel(f["file"]):
                    sites[k] = v + [f]
        # helpers no caller was followed into stand for themselves
        roots = [f for f in cand if f["fn"] in helper and (f["file"], f["line"]) not in reached and (f["file"], f["line"], f.get("cls")) not in seen]
    kinds = {}
    for (w, what), (ok, detail, f) in sorted(sites.items(), key=lambda x: str(x[0])):
        kinds[what.split()[0]] = kinds.get(what.split()[0], 0) + 1
        c.ob("%s in %s" % (what, base(f["fn"]).replace(N, "")), ok, (rel(w[0]), w[1]), detail)
        if ok:
            c.saw("guarded dereferences (%s)" % what.split()[0], "%s:%s" % (rel(w[0]), w[1]))
    c.notes.append("optional parts %s; functions that may return null: %s; mandatory by construction: %s" % (
        sorted(opt.fields), sorted(x.replace(N, "") for x in opt.calls), sorted(x[1] for x in opt.mandatory)))
    c.need("functions analysed", nroots, 200)
    c.need("dereferenced lookups", kinds.get("lookup", 0), 20)
    c.need("dereferenced casts", kinds.get("cast", 0), 10)
    c.need("dereferenced optional parts", kinds.get("optional", 0), 15)


CHECKS = {"P16": (RULE, p16)}

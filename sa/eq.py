"""Equality: what a `true`/`false` answer of operator== / compare establishes.

The operator is run by the dataflow engine on two symbolic objects (`this`,
`other`) of given dynamic class; every abstract path that answers `true` must
carry, as must-facts, the equality of every leaf of the object, every path
that answers `false` must carry at least one mirrored disagreement.
"""
import re

from absint import *
from ir import AnalysisBroken, rel

OTHER = mk("sym", "other")
THIS = mk("this")


# ------------------------------------------------------------------ types
def targs(t):
    """'std::vector<A, B<C>>' -> ('std::vector', ['A', 'B<C>'])"""
    t = clean(t)
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    args, depth, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    args.append(cur.strip())
    return t[:i], args


def clean(t):
    t = re.sub(r"\b(const|volatile|class|struct)\b ?", "", t).strip()
    t = t.rstrip("&").strip()
    return t


class Facts(object):
    """true facts of one path, and those under each `forall`"""

    def __init__(self, facts):
        self.flat = {t for t, p in facts.items() if p and t.op != "forall"}
        self.under = {}
        for t, p in facts.items():
            if p and t.op == "forall":
                self.under.setdefault(t.a[0], set()).add(t.a[1])

    def sub(self, idx):
        return Facts({t: True for t in self.under[idx]})


def eqfact(F, a, b):
    """a == b holds by some fact (value equality or an equality predicate)"""
    for t in F.flat:
        if t.op == "==" and len(t.a) == 2 and {t.a[0], t.a[1]} == {a, b}:
            return True
        if t.op == "call" and len(t.a) == 3 and {t.a[1], t.a[2]} == {a, b}:
            return True
    return False


SCALAR = re.compile(r"^(unsigned |signed )?(int|long|double|float|bool|char|short|long long|unsigned|unsigned long)$")


# arrays whose length is another field (kept equal to it by the constructors)
LENGTH = {
    ("PROPOSAL::Medium", "components_"): "numComponents_",
    ("PROPOSAL::ManyBodyPhaseSpace", "daughters_"): "number_of_daughters_",
    ("PROPOSAL::Polynom", "coeff_"): "N_",
}


def length_of(db, t):
    """field holding the length of the array field t, as a term"""
    if t.op != "fld":
        return None
    for (cls, f), n in LENGTH.items():
        if f == t.a[1]:
            return mk("fld", t.a[0], n)
    return None


def uncovered(db, F, a, b, t, path, exempt, depth=0):
    """leaves of type t whose equality is not implied by F -> [path]"""
    if path in exempt:
        return []
    if eqfact(F, a, b):
        return []
    ref = t.rstrip().endswith("&")
    if ref:
        if eqfact(F, mk("refto", a), mk("refto", b)):
            return []
    base, args = targs(t)
    if base.endswith("*") or base in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr"):
        n = length_of(db, a)
        if n is not None:
            m = length_of(db, b)
            for idx in F.under:
                G = F.sub(idx)
                if not eqfact(F, n, m) or not full_range(G, idx, a, b, (n, m)):
                    continue
                for u in G.flat:
                    if u.op == "==" and mirror2(u.a[0], u.a[1]) and any(x is a for x in sub(u)) and any(x is idx for x in sub(u)):
                        return []
            return [path]
        pt = clean(base[:-1]) if base.endswith("*") else clean(args[0])
        da, dbb = mk("deref", a), mk("deref", b)
        if eqfact(F, da, dbb):
            return []
        # a pointee of a hierarchy whose members add no state is covered by its base
        if pt in db.records and all(not db.records[k]["fields"] for k in db.all_derived(pt)):
            return uncovered(db, F, da, dbb, pt, path, exempt, depth + 1)
        return [path]
    if base in ("std::vector", "std::map", "std::multimap", "std::array", "std::list", "std::unordered_map", "std::set"):
        return uncovered_container(db, F, a, b, base, args, path, exempt, depth)
    if base in ("std::pair",):
        out = []
        for n, at in zip(("first", "second"), args):
            out += uncovered(db, F, mk("fld", a, n), mk("fld", b, n), at, path + "." + n, exempt, depth + 1)
        return out
    if base in db.records and depth < 6:
        fl = db.fields(base)
        if not fl:
            return []
        out = []
        for f in fl:
            out += uncovered(db, F, mk("fld", a, f["n"]), mk("fld", b, f["n"]), f["t"], (path + "." if path else "") + f["n"], exempt, depth + 1)
        return out
    return [path]


def uncovered_container(db, F, a, b, base, args, path, exempt, depth):
    n = None
    if base == "std::array":
        n = int(args[1].rstrip("UL"))
    else:
        if not eqfact(F, mk("size", a), mk("size", b)):
            n = length_of(db, a)
            if n is None or not eqfact(F, n, length_of(db, b)):
                return [path + ".size"]
            n = (n, length_of(db, b))
    if base in ("std::map", "std::multimap", "std::unordered_map"):
        et = "std::pair<%s, %s>" % (args[0], args[1])
    else:
        et = args[0]
    best = None
    for idx in F.under:
        G = F.sub(idx)
        if not full_range(G, idx, a, b, n):
            continue
        ea = [t for u in G.flat for t in sub(u) if t.op == "elem" and t.a[0] is a and t.a[1] is idx]
        eb = [t for u in G.flat for t in sub(u) if t.op == "elem" and t.a[0] is b and t.a[1] is idx]
        if not ea or not eb:
            continue
        r = uncovered(db, G, ea[0], eb[0], et, path + "[]", exempt, depth + 1)
        if best is None or len(r) < len(best):
            best = r
    if best is None:
        # element by element with constant subscripts
        if isinstance(n, int):
            out = []
            for i in range(n):
                out += uncovered(db, F, mk("elem", a, num(i)), mk("elem", b, num(i)), et, path + "[%d]" % i, exempt, depth + 1)
            return out
        return [path + "[]"]
    return best


def full_range(G, idx, a, b, n):
    """idx runs from 0 to the number of elements"""
    lo = hi = False
    for t in G.flat:
        if t.op == "<=" and isnum(t.a[0]) and t.a[0].a[0] == 0 and t.a[1] is idx:
            lo = True
        if t.op == "<" and t.a[0] is idx:
            u = t.a[1]
            if isnum(u) and isinstance(n, int) and u.a[0] == n:
                hi = True
            if isinstance(n, tuple) and u in n:
                hi = True
            if u.op == "size" and u.a[0] in (a, b):
                hi = True
    return lo and hi


# ------------------------------------------------------------------ running
def swap_sides(t):
    return subst(t, {THIS: OTHER, OTHER: THIS})


def is_mirror(a, b):
    """a reads from one object what b reads from the other"""
    return a is not b and swap_sides(a) is b and (any(x is THIS for x in sub(a)) or any(x is OTHER for x in sub(a)))


def deptr(t):
    """ptr(o, X) -> addr(X) so that substitution reaches the object"""
    def f(x):
        if x.op == "ptr" and isinstance(x.a[0], tuple) and x.a[0][0] == "o":
            r = x.a[0][1]
            for k in x.a[1]:
                r = mk("fld", r, k) if isinstance(k, str) else mk("elem", r, k)
            return mk("addr", r)
        return None
    return rewrite(t, f)


def canon_idx(t):
    """forget the bound an induction variable was derived from"""
    return rewrite(t, lambda x: mk("idx", x.a[0], None, None) if x.op == "idx" and x.a[2] is not None else None)


def mirror2(a, b):
    a, b = canon_idx(a), canon_idx(b)
    return is_mirror(a, b) or is_mirror(deptr(a), deptr(b))


def disagreement(t, p, identity=()):
    """a fact stating that corresponding parts of the two objects differ"""
    if t.op == "forall":
        return False
    if not p:
        if t.op == "==" and len(t.a) == 2 and mirror2(t.a[0], t.a[1]):
            return True
        if t.op == "call" and len(t.a) == 3 and mirror2(t.a[1], t.a[2]):
            return True
        if t.op == "isa":
            return True
        if t.op == "mu":
            # accumulator that turned false: the alternatives that set it false must be justified
            for facts, v in t.a[3]:
                if v.op == "bool" and v.a[0] is False and not any(disagreement(x, q) for x, q in facts):
                    return False
            return True
    else:
        if t.op == "<" and is_mirror(t.a[0], t.a[1]):
            return True
    return False


def same_object(facts):
    for t, p in facts.items():
        if p and t.op == "==" and {deptr(t.a[0]), deptr(t.a[1])} == {mk("addr", THIS), mk("addr", OTHER)}:
            return True
    return False


def run_eq(db, fn, cls=None, cls2=None, limit=600):
    """-> engine, [(st, bool|None, outcome)]"""
    dyn = {}
    if cls:
        dyn = {THIS: cls, OTHER: cls2 or cls}
    e = Engine(db, dyn=dyn, limit=limit)
    if fn.get("cls") and not fn.get("static"):
        outs = e.run(fn, args=[("lv", (("o", OTHER), ()))])
    else:
        outs = e.run(fn, args=[("lv", (("o", THIS), ())), ("lv", (("o", OTHER), ()))])
    res = []
    for o in outs:
        if o.kind != "return":
            res.append((o.st, None, o))
            continue
        v = o.value
        if v.op == "lvref":
            v = e.load(o.st, (v.a[0], v.a[1]))
        for s, b in e.branch(o.st, v):
            res.append((s, b, o))
    return e, res


def check_eq(db, c, label, fn, cls, exempt=None, neg=False, where=None):
    """obligations for one operator and one (dynamic) class"""
    exempt = exempt or {}
    e, paths = run_eq(db, fn, cls)
    where = where or (rel(fn["file"]), fn["line"])
    c.saw("operators", fn["fn"])
    for v in e.visited:
        c.saw("functions", v)
    ntrue = 0
    for s, b, o in paths:
        if b is None:
            c.ob("%s: comparison does not throw" % label, False, where, "a path of %s leaves by exception" % fn["fn"])
            continue
        for ev in s.ev:
            if ev[0] == "baddyn" or (ev[0] == "deref" and ev[1] is NULL):
                c.ob("%s: unchecked cast" % label, False, where, "cast result dereferenced without a check")
        if b != neg:    # answers "equal"
            ntrue += 1
            if same_object(s.facts):
                continue
            miss = uncovered(db, Facts(s.facts), THIS, OTHER, cls, "", exempt)
            miss = sorted(set(miss))
            c.ob("%s: 'equal' implies every field equal" % label + "".join(" !" + m for m in miss), not miss, where,
                 "operands compare equal although these may differ: %s" % ", ".join(miss))
        else:
            ok = any(disagreement(t, p) for t, p in s.facts.items())
            c.ob("%s: 'unequal' only for a difference" % label, ok, where,
                 "a path answers 'unequal' without any corresponding parts found different; facts: " +
                 "; ".join(("" if p else "not ") + show(t) for t, p in list(s.facts.items())[-4:]))
    c.ob("%s: equality is attainable" % label, ntrue > 0, where, "no path answers 'equal'")


def check_distinct(db, c, label, fn, cls, cls2):
    e, paths = run_eq(db, fn, cls, cls2)
    where = (rel(fn["file"]), fn["line"])
    for s, b, o in paths:
        nul = any(ev[0] == "deref" and ev[1] is NULL for ev in s.ev)
        c.ob("%s: %s and %s are different kinds" % (label, cls.split("::")[-1], cls2.split("::")[-1]), b is False and not nul, where,
             "comparison of objects of different kinds answers %s" % ("by dereferencing a null cast result" if nul else b))

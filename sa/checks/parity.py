"""P05: electromagnetic processes do not see the sign of the charge.  P06: per-target functions do not see the stoichiometry."""
from absint import *
from common import AnalysisBroken
from evalt import Unknown
from ident import Ident
from data import N
from ir import rel
from kinematics import ptypes, where, qname
from tree import fnodes, callee_of, Graph

RULE5 = ("Call-graph reachability from every differential cross section, kinematic limit, energy limit, continuous-loss function and scattering angle of the electromagnetic "
         "parametrizations (virtual calls, bound member functions and closures included) to the functions that read charge, name, type, weak partner or identity of the "
         "projectile; each of those is abstractly interpreted and the parity of its result in the charge is derived by induction over the term (even, odd, undetermined), with "
         "callees even by their own obligation; members holding an odd value (set in constructors) are odd. Every result and every branch condition must be even.")
RULE6 = ("Call-graph reachability from every function of the per-nucleus parametrizations that is evaluated for one component to the functions that read the number of atoms "
         "per molecule; each of those is abstractly interpreted and neither its result nor a branch condition may contain that number.")

ENTRY = {"DifferentialCrossSection", "GetKinematicLimits", "GetLowerEnergyLim", "FunctionToDEdxIntegral", "FunctionToDE2dxIntegral", "IonizationLoss", "FunctionToIntegral",
         "CalculateRandomAngle", "CalculateTheta0", "CalculateScatteringAngle2D", "CalculateStochasticDeflection"}
IDENT = {"charge", "name", "particle_type", "weak_partner", "decay_table"}
PD = N + "ParticleDef"


def edges(db, g, fn):
    f = db.functions[fn]
    for t, n, anc in g.calls(fn):
        yield t, n
    for n, anc in fnodes(f):
        if n["k"] == "Ref" and n.get("dk") == "CXXMethod":
            q = (n.get("callee") or {}).get("fn") or n.get("fn")
            if q in db.functions:
                yield q, n
            elif q is None and n.get("q"):
                for k in db.functions:
                    if k.split("(")[0] == n["q"]:
                        yield k, n


def reach(db, g, roots, stop):
    """fn -> how it was reached"""
    how = {r: None for r in roots}
    todo = list(roots)
    while todo:
        x = todo.pop()
        if "body" not in db.functions[x]:
            continue
        for y, n in edges(db, g, x):
            if y in how or stop(db.functions[y]):
                continue
            how[y] = x
            todo.append(y)
    return how


def path(how, fn):
    out = []
    while fn is not None:
        out.append(short(fn))
        fn = how[fn]
    return " <- ".join(out[:6])


def short(fn):
    return qname({"fn": fn}).replace(N, "")


def of_particle(db, n):
    """the member access is one of a ParticleDef"""
    c = n.get("c") or []
    t = c[0].get("t", "") if c else ""
    return "ParticleDef" in t or n.get("q", "").startswith(PD + "::")


def readers(db, fns, fields, own, calls=()):
    """functions among fns that mention one of the fields (own(n) tells whose) or call one of calls"""
    out = {}
    for fn in fns:
        f = db.functions[fn]
        if "body" not in f and not f.get("inits"):
            continue
        for n, anc in fnodes(f):
            if n["k"] == "Member" and n.get("n") in fields and own(n, f):
                out.setdefault(fn, set()).add(n["n"])
            c = callee_of(n)
            if c is not None and calls and (c.get("fn", "").split("(")[0] in calls):
                out.setdefault(fn, set()).add(c["fn"].split("(")[0].split("::")[-1])
    return out


class Parity(object):
    """'E' even, 'O' odd, None undetermined, in the charge of the projectile"""

    def __init__(self, odd):
        self.odd = odd          # names of members of `this` holding an odd value
        self.memo = {}
        self.why = None

    def bad(self, t):
        if self.why is None or len(show(t)) < len(self.why):
            self.why = show(t)[:140]
        return None

    def __call__(self, t):
        if not isinstance(t, T):
            return "E"
        if t.id not in self.memo:
            self.memo[t.id] = "E"
            self.memo[t.id] = self.go(t)
        return self.memo[t.id]

    def all(self, ts):
        return [self(x) for x in ts if isinstance(x, T)]

    def go(self, t):
        op, a = t.op, t.a
        if op == "fld":
            n = str(a[1])
            if n in IDENT and a[0] is not mk("this") and particle(a[0]):
                return "O" if n == "charge" else self.bad(t)
            if n in self.odd and a[0] is mk("this"):
                return "O"
            return self(a[0])
        if op in ("num", "str", "sym", "this", "glob", "fnptr", "null", "ptr", "undef", "placeholder", "arg", "void", "true", "false", "bool"):
            return "E"
        if op in ("+", "-") and len(a) == 2:
            p, q = self(a[0]), self(a[1])
            return p if p == q and p else self.bad(t)
        if op == "-" and len(a) == 1 or op in ("neg", "float", "int", "cast", "deref"):
            return self(a[0])
        if op in ("*", "/"):
            ps = self.all(a)
            if None in ps:
                return self.bad(t)
            return "O" if ps.count("O") % 2 else "E"
        if op in ("abs", "fabs"):
            return "E" if self(a[0]) else self.bad(t)
        if op == "pow":
            p, q = self(a[0]), self(a[1])
            if p == "E" and q == "E":
                return "E"
            if p == "O" and a[1].op == "num" and float(a[1].a[0]) == int(float(a[1].a[0])):
                return "O" if int(float(a[1].a[0])) % 2 else "E"
            return self.bad(t)
        if op in ("==", "!=") and {self(a[0]), self(a[1])} == {"O", "E"}:
            z = a[0] if self(a[0]) == "E" else a[1]
            return "E" if z.op == "num" and float(z.a[0]) == 0 else self.bad(t)
        if op == "cases":
            ps = set()
            for fs, v in a:
                for x in fs:
                    c = x[0] if isinstance(x, tuple) else x
                    if self(c) != "E":
                        return self.bad(c)
                ps.add(self(v))
            return ps.pop() if len(ps) == 1 else self.bad(t)
        if op == "call" and str(a[0]).split("(")[0].split("::")[-1] in ("GetHash", "operator()") and any(particle(x) for x in a[1:]):
            return self.bad(t)
        if op == "elem" and self.key(a[1]):
            return self(a[0])
        ps = self.every(t)
        if ps <= {"E"}:
            return "E"
        return self.bad(t)

    def key(self, k):
        """identity of the projectile used to find what was stored for it"""
        return isinstance(k, T) and k.op == "call" and str(k.a[0]).split("(")[0].endswith("GetHash") and all(particle(x) for x in k.a[1:] if isinstance(x, T))

    def every(self, t):
        out = set()

        def go(x):
            if isinstance(x, T):
                out.add(self(x))
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        for x in t.a:
            go(x)
        return out


def particle(t):
    if t.op == "rec":
        return str(t.a[0]).endswith("ParticleDef")
    return t.op == "sym" and str(t.a[0]) in PARTICLES


PARTICLES = set()


def run(db, f, inline=lambda g: False):
    """paths of f with everything else uninterpreted"""
    e = Engine(db, inline=inline, opaque=lambda n: None, limit=400, const_names=False)
    args = []
    for p, t in zip(f["params"], ptypes(f)):
        nm = p["n"] or "unnamed"
        if "ParticleDef" in t:
            PARTICLES.add(nm)
        args.append(("lv", (("o", mk("sym", nm)), ())) if p["t"].strip().endswith("&") else ("val", mk("sym", nm)))
    this = (("o", mk("this")), ()) if f.get("cls") and not f.get("static") else None
    return e, e.run(f, this=this, args=args, dyn=f.get("cls"))


def written(e, o, f):
    r = o.st.store.get(("o", mk("this")))
    out = {}
    if r is not None and r.op == "rec":
        for k in rec_keys(r):
            out[str(k)] = rget(r, k)
    return out


def rec_keys(r):
    return [k for k, v in r.a[2]] if len(r.a) > 2 else []


def scope5(db):
    P = N + "crosssection::Parametrization"
    roots = []
    for fn, f in db.functions.items():
        cls = f.get("cls") or ""
        if f.get("dep") or "body" not in f:
            continue
        if cls.startswith(N + "crosssection::"):
            if "Weak" in cls:
                continue
        elif not cls.startswith((N + "multiple_scattering::", N + "stochastic_deflection::")):
            continue
        if f["name"] in ENTRY or f.get("ctor"):
            roots.append(fn)
    return roots


def stop5(f):
    cls = f.get("cls") or ""
    return "Weak" in cls or cls in (PD, N + "ParticleDef::Builder") or f["name"] in ("GetHash", "print", "compare", "operator==", "operator!=", "operator<<")


def check_p05(db, c):
    g = Graph(db)
    roots = scope5(db)
    c.need("functions evaluated by the library", len([r for r in roots if not db.functions[r].get("ctor")]), 50)
    how = reach(db, g, roots, stop5)
    for r in how:
        c.saw("functions", r)
    own = lambda n, f: of_particle(db, n)
    direct = readers(db, how, IDENT, own, {PD + "::GetHash", PD + "::operator==", PD + "::operator!=", "std::hash<PROPOSAL::ParticleDef>::operator()"})
    odd = {}
    for fn in sorted(direct):
        f = db.functions[fn]
        if f.get("ctor") and not (f.get("copyctor") or f.get("movector") or f.get("defaulted") or f.get("implicit")):
            c.part(("constructor", fn), constructor, db, c, f, odd, how)
    second = readers(db, how, set().union(*odd.values()) if odd else set(), lambda n, f: any(n["n"] in odd.get(k, ()) for k in [f.get("cls")] + list(lineage(db, f.get("cls")))))
    n = 0
    for fn in sorted(set(direct) | set(second)):
        f = db.functions[fn]
        if f.get("ctor") or f.get("defaulted") or f.get("implicit"):
            continue
        n += 1
        c.part(("function", fn), function, db, c, f, odd, how, direct.get(fn, set()) | second.get(fn, set()))
    c.need("functions that read the charge", n, 8)
    for fn in how:
        if fn not in direct and fn not in second and db.functions[fn]["name"] in ENTRY:
            c.ob("%s: does not read the projectile's charge or identity" % short(fn), True, where(db.functions[fn]))


def lineage(db, cls):
    todo, out = [cls], []
    while todo:
        x = todo.pop()
        for b in (db.records.get(x) or {}).get("bases", []):
            b = b["t"] if isinstance(b, dict) else b
            out.append(b)
            todo.append(b)
    return out


def constructor(db, c, f, odd, how):
    e, outs = run(db, f)
    p = Parity(odd.get(f["cls"], set()))
    for o in outs:
        if o.kind == "throw":
            continue
        for k, v in written(e, o, f).items():
            if k == "hash" or not number_field(db, f["cls"], k):
                continue
            r = p(v)
            if r == "O":
                odd.setdefault(f["cls"], set()).add(k)
            c.ob("%s: member %s" % (short(f["fn"]), k), r is not None, where(f), "%s of %s is neither even nor odd in the charge: %s" % (k, f["cls"], p.why))


def number_field(db, cls, k):
    for d in db.fields(cls):
        if d["n"] == k:
            return d["t"].replace("const ", "").strip() in ("double", "float", "int", "bool", "long double")
    return False


def function(db, c, f, odd, how, what):
    mine = set()
    for k in [f.get("cls")] + list(lineage(db, f.get("cls"))):
        mine |= odd.get(k, set())
    res = even(db, f, mine, lambda g: False)
    if not all(ok for _, ok, _ in res):
        # helpers of the same file are part of the function
        again = even(db, f, mine, lambda g: g["file"] == f["file"] and not g.get("virtual") and g["fn"] != f["fn"])
        if all(ok for _, ok, _ in again):
            res = again
    for k, ok, why in res:
        what = "%s branches on the sign of the charge or the identity of the projectile" % short(f["fn"]) if k == "branch" else "%s of %s is not even in the charge" % (k, short(f["fn"]))
        c.ob("%s: %s" % (short(f["fn"]), k), ok, where(f), "%s: %s (%s)" % (what, why, path(how, f["fn"])))


def even(db, f, mine, inline):
    PARTICLES.clear()
    e, outs = run(db, f, inline)
    p = Parity(mine)
    out = []
    for o in outs:
        for t, pol in o.st.facts.items():
            out.append(("branch", p(t) == "E", p.why))
        for k, v in results(e, o, f, mine):
            out.append((k, p(v) == "E", p.why))
    if not all(ok for _, ok, _ in out) and mirrored(db, e, outs, f, mine):
        out = [(k, True, None) for k, _, _ in out]
    return out


def results(e, o, f, mine):
    if o.kind == "throw":
        return []
    return ([("result", o.value)] if o.value is not None else []) + [(k, v) for k, v in written(e, o, f).items() if k not in mine]


def mirrored(db, e, outs, f, mine):
    """the same outcome for the charge and its negative: the path conditions and results are evaluated at sample points and at
    their mirror images; everything that is not arithmetic is uninterpreted"""
    res = [results(e, o, f, mine) for o in outs]
    this = mk("this")
    flip = {}
    for o, r in zip(outs, res):
        for t in list(o.st.facts) + [v for _, v in r]:
            if not isinstance(t, T):
                continue
            for x in sub(t):
                if x.op == "fld" and (str(x.a[1]) == "charge" and x.a[0] is not this and particle(x.a[0]) or str(x.a[1]) in mine and x.a[0] is this):
                    flip[x] = mk("neg", x)
                elif x.op == "fld" and str(x.a[1]) in IDENT and particle(x.a[0]):
                    return False
    I = Ident(db, domain=lambda t: (-3.0, 3.0) if t in flip else (0.05, 5.0))
    both = [(list(o.st.facts.items()), r, o.kind, [(subst(t, flip), b) for t, b in o.st.facts.items()], [(k, subst(v, flip) if isinstance(v, T) else v) for k, v in r]) for o, r in zip(outs, res)]
    n = 0
    signs = set()
    for k in range(600):
        ev = I.point(k)
        a = [x for x in both if I.satisfied(ev, x[0])]
        b = [x for x in both if I.satisfied(ev, x[3])]
        if len(a) != 1 or len(b) != 1:
            continue
        if a[0][2] != b[0][2] or [x for x, _ in a[0][1]] != [x for x, _ in b[0][4]]:
            return False
        try:
            for (_, u), (_, v) in zip(a[0][1], b[0][4]):
                if u is v:
                    continue
                u, v = ev(u), ev(v)
                if u != u and v != v:
                    continue
                if not abs(u - v) <= 1e-9 * max(abs(u), abs(v)):
                    return False
            signs.update(ev(x) > 0 for x in flip)
        except (Unknown, TypeError, ValueError, OverflowError, ZeroDivisionError):
            return False
        n += 1
        if n >= 60 and len(signs) == 2:
            return True
    return False


# ------------------------------------------------------------------------------------------------------------------
def check_p06(db, c):
    g = Graph(db)
    COMP = N + "Component"
    roots = []
    for fn, f in db.functions.items():
        cls = f.get("cls") or ""
        if f.get("dep") or "body" not in f or f.get("ctor") or not cls.startswith((N + "crosssection::", N + "secondaries::", N + "stochastic_deflection::")):
            continue
        if f["name"] in ENTRY | {"CalculateSecondaries", "CalculateRho", "CalculateX", "suppression_factor"} and not any("PROPOSAL::Medium" in t for t in ptypes(f)):
            roots.append(fn)
    c.need("functions evaluated per target", len(roots), 60)
    how = reach(db, g, roots, lambda f: f.get("ctor") or f["name"] in ("print", "operator<<") or (f.get("cls") or "").startswith(N + "Medium"))
    for r in how:
        c.saw("functions", r)
    getters = {k.split("(")[0] for k, f in db.functions.items() if f.get("cls") == COMP and not f.get("ctor") and "body" in f
               and any(n["k"] == "Member" and n.get("n") == "atomInMolecule_" for n, a in fnodes(f)) and f["name"] not in ("operator==", "operator!=")}
    if not getters:
        raise AnalysisBroken("no accessor of the number of atoms in a molecule")
    direct = readers(db, how, {"atomInMolecule_"}, lambda n, f: f.get("cls") != COMP, getters)
    for fn in sorted(how):
        f = db.functions[fn]
        if fn in direct:
            c.part(("function", fn), atoms, db, c, f, how, getters)
        elif f["name"] in ENTRY or fn in roots:
            c.ob(short(fn), True, where(f))


def atoms(db, c, f, how, getters):
    e, outs = run(db, f)

    def has(t):
        return any((x.op == "call" and str(x.a[0]).split("(")[0] in getters) or (x.op == "fld" and str(x.a[1]) == "atomInMolecule_") for x in sub(t)) if isinstance(t, T) else False
    bad = None
    for o in outs:
        if o.value is not None and has(o.value):
            bad = "its result depends on it: %s" % next(show(x)[:100] for x in sub(o.value) if has(x))
        for t in o.st.facts:
            if has(t):
                bad = "it branches on it: %s" % show(t)[:100]
        for k, v in written(e, o, f).items():
            if has(v):
                bad = "it stores it in %s" % k
    c.ob(short(f["fn"]), bad is None, where(f), "%s reads the number of atoms per molecule and %s (%s)" % (short(f["fn"]), bad, path(how, f["fn"])))


CHECKS = {"P05": (RULE5, check_p05), "P06": (RULE6, check_p06)}

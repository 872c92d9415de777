"""P09: kinematic limits are ordered.
Every path of every GetKinematicLimits is executed symbolically; the order of the returned limits is derived from the
branches taken (clamps), from the structure of minima and maxima and, for the rest, by interval arithmetic over every
energy at or above the rest mass, every non-negative mass and every positive target property."""
import math
from ir import AnalysisBroken, rel
from absint import *
from data import N
from evalt import evalt, Unknown
import terms

INF = float("inf")
EPS = 1e-9
CX = N + "crosssection::"
PHOTON = ("Compton", "PhotoPairProduction", "PhotoMuPairProduction", "Photoeffect", "Photoproduction")


class Open(Exception):
    """no bound can be given: the value may be undefined"""


def mulb(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


class Range(object):
    """interval [lo, hi] of reals a term can take on the path with the given branches"""

    def __init__(self, db, facts, given):
        self.db, self.facts, self.given = db, facts, given
        self.memo = {}
        # the other sides of the branches are bounded without the branches
        self.base = Range(db, (), given) if facts else self

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = self.narrow(t, self.raw(t))
        return self.memo[t]

    def narrow(self, t, r):
        """branches on the term itself"""
        lo, hi = r
        for f, p in self.facts:
            if f.op in ("<", "<=") and len(f.a) == 2 and t in f.a:
                a, b = f.a
                if a is t and b is not t:
                    x = self.base.of(b)
                    if p:
                        hi = min(hi, x[1])
                    else:
                        lo = max(lo, x[0])
                elif b is t and a is not t:
                    x = self.base.of(a)
                    if p:
                        lo = max(lo, x[0])
                    else:
                        hi = min(hi, x[1])
            elif f.op == "==" and p and len(f.a) == 2 and t in f.a:
                x = self.base.of(f.a[1] if f.a[0] is t else f.a[0])
                lo, hi = max(lo, x[0]), min(hi, x[1])
        if t.op in ("/", "-") and len(t.a) == 2 and lo < hi:
            # quantities that cancel
            if lo < 0 < hi and self.by_algebra(t):
                lo = 0.0
            if lo < 1 < hi and self.by_algebra(mk("-", num(1), t)):
                hi = 1.0
        return lo, hi

    def raw(self, t):
        g = self.given(t, self)
        if g is not None:
            return g
        try:
            v = float(evalt(t, None, self.db))
            if math.isnan(v):
                raise Open("%s is not a number" % show(t)[:80])
            return v, v
        except (Unknown, TypeError, ZeroDivisionError, OverflowError, ValueError):
            pass
        o, a = t.op, t.a
        if o == "+" and len(a) == 2:
            return self.add(self.of(a[0]), self.of(a[1]))
        if o == "-" and len(a) == 2:
            x, y = self.of(a[0]), self.of(a[1])
            return self.add(x, (-y[1], -y[0]))
        if o == "-" and len(a) == 1:
            y = self.of(a[0])
            return -y[1], -y[0]
        if o == "*" and len(a) == 2:
            if a[0] is a[1]:
                x = self.of(a[0])
                s = sorted((mulb(x[0], x[0]), mulb(x[1], x[1])))
                return (0.0 if x[0] <= 0 <= x[1] else s[0]), s[1]
            return self.mul(self.of(a[0]), self.of(a[1]))
        if o == "/" and len(a) == 2:
            if a[0] is a[1]:
                return 1.0, 1.0
            y = self.of(a[1])
            if y[0] < 0 < y[1] or y == (0.0, 0.0):
                raise Open("division by %s" % show(a[1])[:80])
            if y[0] >= 0:
                inv = (1 / y[1] if y[1] else INF, INF if y[0] == 0 else 1 / y[0])
            else:
                inv = (-INF if y[1] == 0 else 1 / y[1], 1 / y[0])
            return self.mul(self.of(a[0]), inv)
        n = o if o != "call" else str(a[0]).split("(")[0].split("::")[-1]
        args = a if o != "call" else a[1:]
        if n in ("min", "max") and len(args) == 2:
            x, y = self.of(args[0]), self.of(args[1])
            f = min if n == "min" else max
            return f(x[0], y[0]), f(x[1], y[1])
        if n == "ite":
            x, y = self.of(args[1]), self.of(args[2])
            return min(x[0], y[0]), max(x[1], y[1])
        if n == "sqrt":
            x = self.of(args[0])
            if x[0] < -EPS:
                raise Open("root of %s, which can be negative" % show(args[0])[:100])
            return math.sqrt(max(x[0], 0)), INF if x[1] == INF else math.sqrt(max(x[1], 0))
        if n in ("abs", "fabs"):
            x = self.of(args[0])
            m = max(abs(x[0]), abs(x[1]))
            return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))), m
        if n == "exp":
            x = self.of(args[0])
            e = lambda v: 0.0 if v == -INF else INF if v > 700 else math.exp(v)
            return e(x[0]), e(x[1])
        if n in ("log", "log10"):
            x = self.of(args[0])
            if x[0] < 0:
                raise Open("logarithm of %s, which can be negative" % show(args[0])[:100])
            l = lambda v: -INF if v == 0 else INF if v == INF else getattr(math, n)(v)
            return l(x[0]), l(x[1])
        if n == "pow" and len(args) == 2:
            x, y = self.of(args[0]), self.of(args[1])
            if y[0] == y[1]:
                k = y[0]
                if x[0] < 0:
                    if k == 2:
                        m = max(abs(x[0]), abs(x[1])) ** 2
                        return (0.0 if x[1] >= 0 else x[1] ** 2), m
                    raise Open("power of %s, which can be negative" % show(args[0])[:100])

                def pw(v):
                    if v == 0:
                        return 0.0 if k > 0 else 1.0 if k == 0 else INF
                    if v == INF:
                        return INF if k > 0 else 1.0 if k == 0 else 0.0
                    try:
                        return v ** k
                    except OverflowError:
                        return INF
                s = sorted((pw(x[0]), pw(x[1])))
                return s[0], s[1]
        if o == "cases":
            rs = []
            for facts, v in a[0]:
                rs.append(Range(self.db, list(self.facts) + list(facts), self.given).of(v))
            return min(r[0] for r in rs), max(r[1] for r in rs)
        if o == "tofloat" or o == "trunc":
            return self.of(a[0])
        return -INF, INF

    def total(self, parts):
        """range of a weighted sum, equal terms cancelled first"""
        w = {}
        for t, k in parts:
            w[t] = w.get(t, 0) + k
        r = (0.0, 0.0)
        for t, k in w.items():
            if abs(k) > 1e-12:
                r = self.add(r, self.mul((k, k), self.of(t)))
        return r

    def by_algebra(self, t):
        """non-negative as a quotient of polynomials with non-negative coefficients in non-negative quantities, the energy
        counted from its smallest permitted value"""
        r = self
        for start in self.starts(t, r):
            try:
                n, d = self.fraction(t, r, start)
            except (Open, Unknown, OverflowError):
                continue
            if len(n) > 400 or len(d) > 400:
                continue
            big = max([abs(k) for k in n.values()] or [1.0])
            if d and all(k >= 0 for k in d.values()) and all(k >= -EPS * big for k in n.values()):
                return True
        return False

    def starts(self, t, r):
        """the polynomials the energy can be counted from: nothing, a bound from the branches, the rest energy"""
        e = find(t, lambda x: x.op == "sym" and r.given(x, r) == (0.0, INF))
        if e is None:
            return [None]
        out = [None]
        lo = r.of(e)[0]
        if lo > 0:
            out.append((e, {(): lo}))
        m = find(t, lambda x: x.op == "fld" and x.a[1] == "mass" and r.given(mk("/", x, e), r) == (0.0, 1.0))
        if m is not None:
            out.append((e, {((m, 1),): 1.0}))
        return out

    def fraction(self, t, r, start):
        """(numerator, denominator): monomial -> coefficient"""
        def times(p, q):
            out = {}
            for m, k in p.items():
                for n, l in q.items():
                    d = dict(m)
                    for a, e in n:
                        d[a] = d.get(a, 0) + e
                    key = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (str(id(x[0])), x[1])))
                    out[key] = out.get(key, 0) + k * l
            if len(out) > 400:
                raise Open("too long")
            return out

        def plus(p, q, s=1):
            out = dict(p)
            for m, k in q.items():
                out[m] = out.get(m, 0) + s * k
            return out

        def go(x):
            try:
                return {(): float(evalt(x, None, self.db))}, {(): 1.0}
            except (Unknown, TypeError, ZeroDivisionError, ValueError):
                pass
            o, a = x.op, x.a
            if o in ("+", "-") and len(a) == 2:
                (n, d), (m, e) = go(a[0]), go(a[1])
                if d == e:
                    return plus(n, m, 1 if o == "+" else -1), d
                return plus(times(n, e), times(m, d), 1 if o == "+" else -1), times(d, e)
            if o == "-" and len(a) == 1:
                n, d = go(a[0])
                return {m: -k for m, k in n.items()}, d
            if o == "*" and len(a) == 2:
                (n, d), (m, e) = go(a[0]), go(a[1])
                return times(n, m), times(d, e)
            if o == "/" and len(a) == 2:
                (n, d), (m, e) = go(a[0]), go(a[1])
                return times(n, e), times(d, m)
            if o == "call" and str(a[0]).split("(")[0].endswith("pow") or o == "pow":
                b, k = a[-2], a[-1]
                try:
                    k = float(evalt(k, None, self.db))
                except (Unknown, TypeError, ValueError):
                    k = None
                if k in (2.0, 3.0, 4.0):
                    n, d = go(b)
                    p, q = {(): 1.0}, {(): 1.0}
                    for _ in range(int(k)):
                        p, q = times(p, n), times(q, d)
                    return p, q
            if r.of(x)[0] < 0:
                raise Open("%s can be negative" % show(x)[:80])
            if start is not None and x is start[0]:
                return plus(start[1], {((x, 1),): 1.0}), {(): 1.0}
            return {((x, 1),): 1.0}, {(): 1.0}
        return go(t)

    @staticmethod
    def add(x, y):
        lo = x[0] + y[0] if -INF not in (x[0], y[0]) else -INF
        hi = x[1] + y[1] if INF not in (x[1], y[1]) else INF
        return lo, hi

    @staticmethod
    def mul(x, y):
        p = [mulb(i, j) for i in x for j in y]
        return min(p), max(p)


def addends(t, k):
    """[(term, factor)] whose weighted sum the term is"""
    if t.op == "+" and len(t.a) == 2:
        return addends(t.a[0], k) + addends(t.a[1], k)
    if t.op == "-" and len(t.a) == 2:
        return addends(t.a[0], k) + addends(t.a[1], -k)
    if t.op == "-" and len(t.a) == 1:
        return addends(t.a[0], -k)
    if t.op == "*" and len(t.a) == 2:
        for x, y in (t.a, t.a[::-1]):
            if x.op == "num":
                return addends(y, k * x.a[0])
    if t.op == "/" and len(t.a) == 2 and t.a[1].op == "num" and t.a[1].a[0]:
        return addends(t.a[0], k / t.a[1].a[0])
    return [(t, k)]


def name_of(t):
    return (t.op if t.op != "call" else str(t.a[0]).split("(")[0].split("::")[-1]), (t.a if t.op != "call" else t.a[1:])


def find(t, pred):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if pred(x):
                return x
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return None


def subst(t, old, new):
    if t is old:
        return new
    if not isinstance(t, T):
        return tuple(subst(x, old, new) for x in t) if isinstance(t, tuple) else t
    return mk(t.op, *[subst(x, old, new) for x in t.a])


class Order(object):
    def __init__(self, db, facts, given):
        self.db, self.facts, self.given = db, list(facts), given

    def infeasible(self):
        """branches that exclude each other for every permitted value"""
        r = Range(self.db, self.facts, self.given)
        for f, p in self.facts:
            try:
                if f.op in ("<", "<=") and len(f.a) == 2:
                    # without the branch itself
                    q = Range(self.db, [g for g in self.facts if g[0] is not f], self.given)
                    a, b = q.of(f.a[0]), q.of(f.a[1])
                    if p and a[0] > b[1] + EPS or not p and a[1] < b[0] - EPS:
                        return True
            except Open:
                pass
        for t in list(r.memo):
            if r.memo[t][0] > r.memo[t][1] + EPS:
                return True
        return False

    def le(self, a, b, depth=6):
        """is a <= b on this path?"""
        if a is b:
            return True, ""
        for f, p in self.facts:
            if len(f.a) == 2 and f.op in ("<", "<=", "=="):
                x, y = f.a
                if x is b and y is a and (not p and f.op != "==" or p and f.op == "=="):
                    return True, ""
                if x is a and y is b and p:
                    return True, ""
        if depth:
            for t in (a, b):
                n, args = name_of(t)
                if n in ("ite",) and len(args) == 3:
                    for want, v in ((True, args[1]), (False, args[2])):
                        o = Order(self.db, self.facts + branch(args[0], want), self.given)
                        ok, why = o.le(v if t is a else a, v if t is b else b, depth - 1)
                        if not ok and not o.infeasible():
                            return False, why
                    return True, ""
            nb, xb = name_of(b)
            na, xa = name_of(a)
            if nb == "min" and len(xb) == 2:
                r = [self.le(a, y, depth - 1) for y in xb]
                if all(x[0] for x in r):
                    return True, ""
            if na == "max" and len(xa) == 2:
                r = [self.le(y, b, depth - 1) for y in xa]
                if all(x[0] for x in r):
                    return True, ""
            if nb == "max" and len(xb) == 2 and any(self.le(a, y, depth - 1)[0] for y in xb):
                return True, ""
            if na == "min" and len(xa) == 2 and any(self.le(y, b, depth - 1)[0] for y in xa):
                return True, ""
        try:
            lo, hi = Range(self.db, self.facts, self.given).total(addends(b, 1) + addends(a, -1))
        except Open as e:
            return False, str(e)
        if lo >= -EPS or Range(self.db, self.facts, self.given).by_algebra(mk("-", b, a)):
            return True, ""
        r = Range(self.db, self.facts, self.given)
        return False, "%s in [%g, %g] is not known to be at most %s in [%g, %g]" % ((show(a)[:90],) + r.of(a) + (show(b)[:90],) + r.of(b))

    def defined(self, t):
        try:
            Range(self.db, self.facts, self.given).of(t)
        except Open as e:
            return False, str(e)
        return True, ""


def branch(cond, want):
    while cond.op in ("not", "tobool"):
        if cond.op == "not":
            want = not want
        cond = cond.a[0]
    return [(cond, want)]


def own_constants(db, cls):
    """member -> range of the constants the constructors of the class leave in it"""
    out = {}
    this = ("o", mk("sym", "this"))
    for f in db.functions.values():
        if not f.get("ctor") or f.get("cls") != cls or f.get("body") is None or any(cls in p["t"] for p in f["params"]):
            continue
        names = {i["m"] for i in f.get("inits", []) if "m" in i}
        e = Engine(db, inline=lambda g: False, unroll=4)
        for o in e.run(f, this=(this, ())):
            if o.kind == "throw":
                continue
            for n in names:
                try:
                    v = float(evalt(e.load(o.st, (this, (n,))), None, db))
                except (Unknown, TypeError, ValueError):
                    v = None
                out.setdefault(n, []).append(v)
    return {n: (min(v), max(v)) for n, v in out.items() if None not in v}


def context(db, f):
    """ranges of the quantities a path reads: the mass is non-negative, the energy positive and at least the mass, the
    properties of targets positive"""
    ps = f["params"]
    cls = f["fn"].split("(")[0].rsplit("::", 1)[0]
    short = cls.split("::")[-1]
    photon = short in PHOTON
    part = next((p["n"] for p in ps if "ParticleDef" in p["t"]), None)
    target = [p["n"] for p in ps if "Component" in p["t"] or "Medium" in p["t"]]
    energy = next((p["n"] for p in ps if strip_type(p["t"]) == "double"), None)
    E = mk("sym", energy) if energy else None
    c = {}

    def is_mass(t):
        return t.op == "fld" and t.a[1] == "mass" and t.a[0].op == "sym" and t.a[0].a[0] == part

    def given(t, r):
        if is_mass(t):
            return (0.0, 0.0) if photon else (0.0, INF)
        if E is not None and t is E:
            return 0.0, INF
        if t.op == "/" and len(t.a) == 2 and E is not None:
            a, b = t.a
            if is_mass(a) and b is E:
                return 0.0, (0.0 if photon else 1.0)
            if a is E and is_mass(b):
                return 1.0, INF
        if t.op == "fld" and t.a[0].op == "sym" and t.a[0].a[0] in target:
            return 0.0, INF
        if t.op == "fld" and t.a[0].op == "this":
            return members(db, cls).get(t.a[1])
        return None
    return given


_members = {}


def members(db, cls):
    """value ranges of the numeric members of a class and its bases, from their constructors"""
    key = cls
    if key in _members:
        return _members[key]
    out = {}
    todo, seen = [cls], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        out.update(own_constants(db, k))
        rec_ = db.records.get(k) if hasattr(db, "records") else None
        for b in (rec_ or {}).get("bases", []):
            todo.append(strip_type(b["t"] if isinstance(b, dict) else b))
    _members[key] = out
    return out


def limits_of(db, c, f):
    w = (rel(f["file"]), f["line"])
    short = f["fn"].split("(")[0].replace(CX, "")
    e = Engine(db, inline=lambda g: True, unroll=8)
    outs = [o for o in e.run(f) if o.kind == "return"]
    if not outs:
        raise AnalysisBroken("%s never returns" % short)
    c.saw("functions", f["fn"])
    given = context(db, f)
    k = 0
    for o in outs:
        v = o.value
        while v.op in ("ref", "construct") and len(v.a) and isinstance(v.a[-1], T):
            v = v.a[-1]
        if v.op in ("lv", "lvref"):
            v = e.aval(o.st, v)
        lo, hi = rget(v, "v_min"), rget(v, "v_max")
        if lo is None or hi is None:
            raise AnalysisBroken("%s: the returned limits are not recognised: %s" % (short, show(v)[:120]))
        od = Order(db, o.st.facts.items(), given)
        if od.infeasible():
            continue
        k += 1
        at = (w[0], o.node.get("l", w[1]) if isinstance(o.node, dict) else w[1])
        ok, why = od.defined(lo)
        if ok:
            ok, why = od.defined(hi)
        c.ob("%s: the limits are numbers" % short, ok, at, why)
        ok, why = od.le(lo, hi)
        c.ob("%s: the lower limit does not exceed the upper one" % short, ok, at, why)
        ok, why = od.le(num(0), lo)
        c.ob("%s: no loss is negative" % short, ok, at, why)
        ok, why = at_most_one(od, hi, lo)
        c.ob("%s: no loss exceeds the energy" % short, ok, at, why)
    c.need("paths of " + short, k, 1)


def at_most_one(od, hi, lo):
    """the upper limit is at most one wherever it lies above the lower one"""
    ok, why = od.le(hi, num(1))
    if ok or od.le(hi, lo)[0]:
        return True, ""
    n, args = name_of(hi)
    if n == "max" and len(args) == 2 and all(at_most_one(od, y, lo)[0] for y in args):
        return True, ""
    if n == "ite" and len(args) == 3 and all(at_most_one(Order(od.db, od.facts + branch(args[0], p), od.given), y, lo)[0] for p, y in ((True, args[1]), (False, args[2]))):
        return True, ""
    return False, why


def lower_energy(db, c, f):
    w = (rel(f["file"]), f["line"])
    short = f["fn"].split("(")[0].replace(CX, "")
    part = f["params"][0]["n"]
    mass = mk("fld", mk("sym", part), "mass")
    photon = short.split("::")[0] in PHOTON
    e = Engine(db, inline=lambda g: True, unroll=8)
    outs = [o for o in e.run(f) if o.kind == "return"]
    if not outs:
        raise AnalysisBroken("%s never returns" % short)
    c.saw("functions", f["fn"])
    given = context(db, f)
    for o in outs:
        if find(o.value, lambda x: x.op == "mu") is not None:
            continue            # the smallest threshold of the targets
        od = Order(db, o.st.facts.items(), given)
        ok, why = od.le(num(0) if photon else mass, o.value)
        c.ob("%s: no process starts below the rest energy of its projectile" % short, ok, w, why)


def check_p09(db, c):
    n = k = 0
    for f in sorted(db.functions.values(), key=lambda f: f["fn"]):
        q = f["fn"].split("(")[0]
        if not q.startswith(CX) or f.get("body") is None:
            continue
        if q.endswith("::GetKinematicLimits"):
            n += 1
            c.part(q, limits_of, db, c, f)
        elif q.endswith("::GetLowerEnergyLim"):
            k += 1
            c.part(q, lower_energy, db, c, f)
    c.need("functions returning kinematic limits", n, 12)
    c.need("functions returning energy limits", k, 10)


RULE = ("Path-sensitive symbolic execution of every function returning kinematic limits; on every feasible path the order of the limits follows from the branches taken, from minima and maxima, or from interval arithmetic over all energies from the rest mass on, all masses and all target properties.")

CHECKS = {"P09": (RULE, check_p09)}

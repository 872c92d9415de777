"""P23: orientation and substitution of the numerical integrator."""
import itertools
import math
from integrals import *
from ir import rel


class Lin(object):
    """sign times an abstract integral"""
    def __init__(self, s, key):
        self.s, self.key = s, key

    def __mul__(self, k):
        return Lin(self.s * k, self.key)
    __rmul__ = __mul__

    def __neg__(self):
        return Lin(-self.s, self.key)


def constants(outs):
    cs = set()
    for o in outs:
        for t in o.st.facts:
            todo = [t]
            while todo:
                x = todo.pop()
                if isinstance(x, T):
                    if x.op == "num" and isinstance(x.a[0], (int, float)) and abs(x.a[0]) < 1e6:
                        cs.add(float(x.a[0]))
                    todo.extend(x.a)
                elif isinstance(x, tuple):
                    todo.extend(x)
    return cs


class Entry(object):
    def __init__(self, db, name, npar):
        self.db = db
        self.f, self.e, self.outs = run(db, name, npar)
        self.where = (rel(self.f["file"]), self.f["line"])
        self.syms = [mk("sym", p["n"]) for p in self.f["params"]]

    def at(self, vals):
        env = dict(zip(self.syms, vals))
        db = self.db

        def hook(x, go):
            if x.op == "R":
                a = [x.a[0]]
                for n, y in zip(INPUT, x.a[1:]):
                    if n == "integrand_":
                        a.append(y)
                    elif n == "reverseX_":
                        a.append(None if not go(x.a[1 + INPUT.index("reverse_")]) else go(y))
                    else:
                        a.append(go(y))
                return Lin(1, tuple(a))
            if x.op == "fld" and x.a[1] in CONFIG:
                return 5
            return None
        memo = {}
        sel = []
        for o in self.outs:
            ok = True
            for t, p in o.st.facts.items():
                try:
                    if bool(evalt(t, env, db, hook, memo)) != p:
                        ok = False
                        break
                except Unknown as u:
                    if "R" in str(u):
                        continue
                    raise AnalysisBroken("%s: condition not decided: %s" % (self.f["name"], u))
                except TypeError:       # a condition on the value of the integral itself
                    continue
            if ok:
                sel.append(o)
        return sel, env, hook, memo


def T_of(key):
    """the substitution the state describes: t -> x"""
    p, log = key[4], key[5]

    def g(t):
        if p == 0:
            x = t
        elif p > 0:
            x = math.inf if t == 0 else math.pow(t, -p)
        else:
            x = -math.inf if t == 0 else -math.pow(-t, p)
        if log:
            x = math.exp(x) if x < 700 else math.inf
        return x
    return g


def close(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def grid(cs):
    v = {-4.25, -2.5, -0.75, -0.3, 0.3, 0.75, 1.75, 2.5, 33.0} | {c for c in cs if abs(c) < 1e5}
    v |= {c + d for c in cs for d in (-0.05, 0.05) if abs(c) < 1e5}
    return sorted(v)


def p23(db, c):
    integrate(db, c)
    integrand(db, c)
    random_ratio(db, c)


MODES = {1: "closed", 2: "opened", 3: "substitution", 4: "log", 5: "log substitution"}


def expected(mode, a, b, p):
    """(first, last) bounds in x that the state has to cover; beyond the domain of the substitution a bound stands for infinity; None: empty"""
    if mode in (4, 5) and (a <= 0 or b <= 0):
        return None
    if mode in (1, 2, 4) or p == 0:
        return a, b
    lim = 0 if mode == 3 else 1
    if p > 0:
        if a <= lim and b <= lim:
            return None
        return (math.inf if a <= lim else a), (math.inf if b <= lim else b)
    inf = -math.inf if mode == 3 else 0.0
    if a >= lim and b >= lim:
        return None
    return (inf if a >= lim else a), (inf if b >= lim else b)


def integrate(db, c):
    E = Entry(db, "Integrate", 5)
    g = grid(constants(E.outs))
    integ = mk("sym", E.f["params"][2]["n"])
    n = 0
    c.saw("functions", E.f["fn"])
    for m in (1, 2, 3, 4, 5):
        for p in ([0.0] if m in (1, 2, 4) else [-2.25, -1.0, 0.0, 1.0, 2.25]):
            for a, b in itertools.combinations_with_replacement(g, 2):
                if 0 < abs(b - a) < 1e-3:
                    continue
                res = []
                for x, y in ((a, b), (b, a)):
                    sel, env, hook, memo = E.at([x, y, integ, m, p])
                    vals = []
                    for o in sel:
                        v = None if o.kind == "throw" else evalt(o.value, env, db, hook, memo)
                        vals.append(v)
                    if len(sel) != 1:
                        raise AnalysisBroken("Integrate: %d paths for (%g, %g) mode %d" % (len(sel), x, y, m))
                    res.append(vals[0])
                n += 1
                v1, v2 = res
                key = "Integrate, %s mode: " % MODES[m]
                tag = "bounds %g and %g, power %g" % (a, b, p)
                zero1, zero2 = iszero(v1), iszero(v2)
                if a == b:
                    c.ob(key + "coinciding bounds give zero", zero1, E.where, tag)
                    continue
                ex = expected(m, a, b, p)
                if ex is None or ex[0] == ex[1]:
                    c.ob(key + "an empty range gives zero", zero1 and zero2, E.where, tag)
                    continue
                ok = isinstance(v1, Lin) and isinstance(v2, Lin) and v1.key == v2.key and v1.s == -v2.s and abs(v1.s) == 1
                c.ob(key + "exchanging the bounds flips the sign", ok, E.where, tag)
                if not isinstance(v1, Lin):
                    continue
                c.ob(key + "integrates the given function", v1.key[3] is integ, E.where, tag)
                c.ob(key + "the mode decides the substitution", v1.key[5] == (m in (4, 5)) and v1.key[4] == (p if m in (3, 5) else 0) and (v1.key[0] == "RombergIntegrateClosed") == (m == 1), E.where, tag)
                tf = T_of(v1.key)
                lo, hi = v1.key[1], v1.key[2]
                c.ob(key + "the transformed range is ordered", lo <= hi, E.where, tag)
                try:
                    img = sorted([tf(lo), tf(hi)])
                except (ValueError, OverflowError):
                    img = [float("nan")] * 2
                c.ob(key + "the bounds are transformed like the variable", close(img[0], min(ex)) and close(img[1], max(ex)), E.where,
                     tag + ": the transformed range covers [%g, %g]" % tuple(img))
                c.ob(key + "the sign follows the direction of the range", v1.s == (1 if ex[1] > ex[0] else -1), E.where, tag)
    c.need("representative bound pairs", n, 300)


def iszero(v):
    return isinstance(v, (int, float)) and v == 0 or isinstance(v, Lin) and v.s == 0


def gfun(t):
    return t * t + 0.7 * t + 3.1


def integrand(db, c):
    """Function(x) is the integrand at the substituted point times the magnitude of the derivative"""
    f = db.fn(CLS + "::Function", 1)
    e = Engine(db, inline=lambda g: True)
    outs = e.run(f)
    c.saw("functions", f["fn"])
    where = (rel(f["file"]), f["line"])
    x = mk("sym", f["params"][0]["n"])
    this = mk("this")

    def fld_(n):
        return mk("fld", this, n)
    n = 0
    for p, log, rev, xv in itertools.product([-2.25, -1.0, 0.0, 1.0, 2.25], [True, False], [True, False], [0.4, 0.9, 1.7, -0.4, -0.9, -1.7]):
        t0 = (2.6 - xv if xv > 0 else -2.6 - xv) if rev else xv
        if p > 0 and t0 <= 0 or p < 0 and t0 >= 0:
            continue
        env = {x: xv, fld_("powerOfSubstitution_"): p, fld_("useLog_"): log, fld_("reverse_"): rev, fld_("reverseX_"): 2.6 if xv > 0 else -2.6}

        def hook(y, go):
            if y.op == "callv" and y.a[0] == fld_("integrand_"):
                return gfun(go(y.a[1]))
            return None
        key = (None, None, None, None, p, log)
        tf = T_of(key)
        h = 1e-6
        want = gfun(tf(t0)) * abs((tf(t0 + h) - tf(t0 - h)) / (2 * h))
        got = []
        memo = {}
        for o in outs:
            if o.kind == "return" and consistent(o.st.facts, env, db, memo, hook):
                got.append(evalt(o.value, env, db, hook, memo))
        n += 1
        tag = "power %g, log %s, reversed %s, x %g" % (p, log, rev, xv)
        c.ob("Function: one value per point", len(set(got)) == 1, where, tag)
        if got:
            c.ob("Function: integrand at the substituted point times the derivative", abs(got[0] - want) <= 1e-5 * abs(want), where, tag + ": %r instead of %r" % (got[0], want))
    c.need("substitution points", n, 60)


def random_ratio(db, c):
    E = Entry(db, "IntegrateWithRandomRatio", 6)
    c.saw("functions", E.f["fn"])
    g = grid(constants(E.outs))
    integ = mk("sym", E.f["params"][2]["n"])
    this = ("o", mk("this"))
    names = [p["n"] for p in E.f["params"]]
    up = db.fn(CLS + "::GetUpperLimit", 0)
    ue = engine(db, extra=("RefineUpperLimit",))
    uouts = ue.run(up)
    c.saw("functions", up["fn"])
    n = 0
    for m in (3, 4):
        for p in ([0.0] if m == 4 else [-2.25, 0.0, 1.0]):
            for a, b in itertools.permutations(g, 2):
                if abs(b - a) < 1e-3:
                    continue
                if expected(m, a, b, p) is None:
                    continue
                sel, env, hook, memo = E.at([a, b, integ, m, 0.375, p])
                key = "IntegrateWithRandomRatio, %s mode: " % MODES[m]
                tag = "bounds %g and %g, power %g" % (a, b, p)
                ex = expected(m, a, b, p)
                if ex[0] == ex[1]:
                    continue
                vals = []
                for o in sel:
                    if o.kind != "return":
                        continue
                    core = [x for x in o.st.ev if x[0] == "core"]
                    v = evalt(o.value, env, db, hook, memo)
                    vals.append((v, o, core))
                n += 1
                lins = [v for v in vals if isinstance(v[0], Lin)]
                if not lins or len(lins) != len(vals):
                    c.ob(key + "returns the integral", False, E.where, tag)
                    continue
                v, o, core = lins[0]
                tf = T_of(v.key)
                lo, hi, rev, revx = v.key[1], v.key[2], v.key[6], v.key[7]
                try:
                    img = [tf(lo), tf(hi)]
                except (ValueError, OverflowError):
                    img = [float("nan")] * 2
                c.ob(key + "the bounds are transformed like the variable", close(min(img), min(ex)) and close(max(img), max(ex)) and lo <= hi, E.where, tag)
                c.ob(key + "the sign follows the direction of the range", v.s == (1 if ex[1] > ex[0] else -1), E.where, tag)
                infinite = any(math.isinf(x) for x in ex) or m == 3 and p != 0 and (a <= 0 < b or b <= 0 < a or a < 0 <= b or b < 0 <= a)
                if not infinite:
                    start = tf(hi) if rev else tf(lo)
                    c.ob(key + "the ratio is counted from the first bound", close(start, a), E.where, tag + ": counted from %g" % start)
                    if rev:
                        c.ob(key + "the range is mirrored about its centre", close(revx, lo + hi), E.where, tag)
                for v, o, core in lins:
                    for fld_, want in (("randomDo_", True),):
                        w = evalt(E.e.load(o.st, (this, (fld_,))), env, db, hook, memo)
                        c.ob(key + "the upper limit can be asked for afterwards", bool(w) is want, E.where, tag)
                    sv = evalt(E.e.load(o.st, (this, ("savedResult_",))), env, db, hook, memo)
                    c.ob(key + "the stored result is the integral over the transformed range", isinstance(sv, Lin) and sv.s == 1 and sv.key == v.key, E.where, tag)
                    try:
                        rn = evalt(E.e.load(o.st, (this, ("randomNumber_",))), env, db, hook, memo)
                        c.ob(key + "the ratio is the requested one", rn == 0.375, E.where, tag)
                    except (Unknown, TypeError):
                        pass
    c.need("representative bound pairs with ratio", n, 100)
    # the way back
    w = (rel(up["file"]), up["line"])
    th = mk("this")

    def fl(k):
        return mk("fld", th, k)
    k = 0
    for p, log, rev, x0 in itertools.product([-2.25, -1.0, 0.0, 1.0, 2.25], [True, False], [True, False], [0.4, 0.9, -0.4, -0.9]):
        lo, hi = (0.3, 1.9) if x0 > 0 else (-1.9, -0.3)
        if p > 0 and x0 < 0 or p < 0 and x0 > 0:
            continue
        env = {fl("powerOfSubstitution_"): p, fl("useLog_"): log, fl("reverse_"): rev, fl("reverseX_"): lo + hi, fl("randomX_"): x0, fl("randomDo_"): True, fl("min_"): lo, fl("max_"): hi,
               fl("savedResult_"): 1.25, fl("randomNumber_"): 0.375}
        tf = T_of((None, None, None, None, p, log))
        want = tf(lo + hi - x0 if rev else x0)
        memo = {}
        vals = []
        for o in uouts:
            if o.kind == "return" and consistent(o.st.facts, env, db, memo):
                vals.append(evalt(o.value, env, db, None, memo))
                ref = [x for x in o.st.ev if x[0] == "core" and x[1] == "RefineUpperLimit"]
                c.ob("GetUpperLimit refines the estimate", len(ref) == 1, w, "")
        k += 1
        c.ob("GetUpperLimit maps the limit back through the substitution", len(vals) == 1 and close(vals[0], want), w, "power %g, log %s, reversed %s: %r instead of %r" % (p, log, rev, vals, want))
    c.need("upper-limit points", k, 20)


CHECKS = {
    "P23": ("Path-sensitive dataflow through the entry points of Integral with the numerical cores as uninterpreted functions of the state they read; the resulting terms are compared, for one representative per region "
            "of bounds and substitution power (regions from the comparisons in the code), with the change-of-variables rule.", p23),
}

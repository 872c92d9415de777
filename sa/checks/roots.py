"""P37: root finders stay inside the bracket.
The loops of the root finders are extracted to transition systems (initial state, alternatives of one step with their
conditions, exits). The steps are followed in the finite abstraction: representatives of monotone functions with their
root anywhere in the bracket and any derivative. Every point visited or returned must lie in the tightest interval in
which the sign changes, as far as it is known from the points visited before."""
from ir import AnalysisBroken, rel
from absint import *
from data import N
from evalt import evalt, Unknown

STEPS = 6


def function(db, name):
    fs = [f for f in db.functions.values() if f["fn"].split("(")[0] == N + name and f.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisBroken("%d functions %s" % (len(fs), name))
    return fs[0]


def inner(t, memo):
    """does a term depend on the state of the loop"""
    if not isinstance(t, (T, tuple, list)):
        return False
    if isinstance(t, T):
        if t in memo:
            return memo[t]
        r = t.op in ("lv", "idx") or any(inner(x, memo) for x in t.a)
        memo[t] = r
        return r
    return any(inner(x, memo) for x in t)


class System(object):
    """a function with one loop: outcomes before it, its state and steps, outcomes in it"""

    def __init__(self, db, f):
        self.db, self.f = db, f
        e = Engine(db, inline=lambda g: "MathMethods" in g["file"])
        memo = {}
        self.before, self.exits, self.loops = [], [], []
        for o in e.run(f):
            pro = [(t, p) for t, p in o.st.facts.items() if t.op != "forall" and not inner(t, memo)]
            loc = [(t, p) for t, p in o.st.facts.items() if t.op != "forall" and inner(t, memo)]
            done = any(t.op == "forall" for t in o.st.facts)
            mus = [v for v in o.st.store.values() if v.op == "mu" and v.a[0].op == "idx"]
            if done and mus:
                if len({v.a[0] for v in mus}) != 1 or len({len(v.a[3]) for v in mus}) != 1:
                    raise AnalysisBroken("%s: more than one loop" % f["fn"])
                self.loops.append((pro, mus, o))
            elif loc:
                self.exits.append((pro, loc, o))
            elif done:
                raise AnalysisBroken("%s: loop without a state" % f["fn"])
            else:
                self.before.append((pro, o))
        if not self.loops:
            raise AnalysisBroken("%s: no loop found" % f["fn"])

    def holds(self, facts, env, hook):
        for t, p in facts:
            if bool(evalt(t, env, self.db, hook)) != p:
                return False
        return True

    def one(self, what, found):
        if len(found) != 1:
            raise AnalysisBroken("%s: %d %s" % (self.f["fn"].split("(")[0], len(found), what))
        return found[0]

    def follow(self, env, hook, visit):
        """the result of a function, and the value of every point at which the function was asked on the way"""
        r = [("before", o) for pro, o in self.before if self.holds(pro, env, hook)]
        r += [("loop", x) for x in self.loops if self.holds(x[0], env, hook)]
        kind, x = self.one("ways to begin", r)
        if kind == "before":
            return x, env
        pro, mus, last = x
        idx = mus[0].a[0]
        state = {m.a[1]: self.value(m.a[2], env, hook) for m in mus}
        for k in range(STEPS):
            visit(k)
            e2 = dict(env)
            e2.update({a: b for a, b in state.items() if b is not None})
            e2[idx] = k + (0 if idx.a[1] is None else int(evalt(idx.a[1], env, self.db, hook)))
            out = [o for p, loc, o in self.exits if self.holds(p, env, hook) and self.holds(loc, e2, hook)]
            if out:
                return self.one("exits", out), e2
            alts = [i for i, (fs, _) in enumerate(mus[0].a[3]) if self.holds(fs, e2, hook)]
            i = self.one("steps", alts)
            state = {m.a[1]: self.value(m.a[3][i][1], e2, hook) for m in mus}
        return None, None

    def value(self, t, env, hook):
        try:
            return evalt(t, env, self.db, hook)
        except Unknown:
            if t.op == "undef":
                return None
            # a variable that is only set later on
            if t.op == "lv":
                return None
            raise


SHAPES = {
    "linear": (lambda u: u, lambda u: 1.0),
    "steep": (lambda u: 50 * u + u ** 3, lambda u: 50 + 3 * u * u),
    "cubic": (lambda u: u ** 3, lambda u: 3 * u * u),
    "step": (lambda u: u / (0.01 + abs(u)), lambda u: 0.01 / (0.01 + abs(u)) ** 2),
}
BRACKETS = [(-1.0, 2.0), (2.0, -1.0), (0.5, 0.75)]
ROOTS = [0.0, 0.06, 0.5, 0.71, 1.0]


def finder(db, c, name, derivative):
    f = function(db, name)
    w = (rel(f["file"]), f["line"])
    s = System(db, f)
    c.saw("functions", f["fn"])
    ps = [mk("sym", p["n"]) for p in f["params"]]
    fun = ps[0]
    slope = ps[1] if derivative else None
    x1, x2 = ps[2 if derivative else 1], ps[3 if derivative else 2]
    rest = ps[4:] if derivative else ps[3:]
    label = "%s: " % name
    runs = 0
    for a, b in BRACKETS:
        lo, hi = min(a, b), max(a, b)
        for where in ROOTS:
            root = a + where * (b - a)
            for sname, (F, D) in sorted(SHAPES.items()):
                for sign in (1.0, -1.0):
                    for wrong in ((1.0, 0.0, -1.0, 0.01, 100.0) if derivative else (1.0,)):
                        for acc in (1e-9, 0.3):
                            for start in ((0.5, 0.0, 0.9) if derivative else (0.5,)):
                                env = {x1: a, x2: b}
                                if derivative:
                                    env[rest[0]] = a + start * (b - a)
                                    env[rest[1]], env[rest[2]] = 100, acc
                                else:
                                    env[rest[0]], env[rest[1]] = acc, 100.0
                                # the sign at the first guess need not be used
                                skip = env[rest[0]] if derivative else None
                                known = {}
                                bad = []

                                def hook(x, go):
                                    if x.op == "callv" and x.a[0] is fun:
                                        p = go(args(x))
                                        v = sign * F(p - root) if p == p else p
                                        known[p] = v
                                        return v
                                    if x.op == "callv" and x.a[0] is slope:
                                        p = go(args(x))
                                        return wrong * sign * D(p - root) if p == p else p
                                    if x.op == "call" and str(x.a[0]).split("(")[0].split("<")[0].endswith("::sgn"):
                                        v = go(x.a[-1])
                                        return (v > 0) - (v < 0)
                                    return None

                                def visit(k):
                                    bad.extend(p for p in known if not lo - 1e-12 <= p <= hi + 1e-12)

                                o, e2 = s.follow(env, hook, visit)
                                visit(-1)
                                runs += 1
                                case = "root %g in [%g, %g] of a %s function, derivative times %g" % (root, a, b, sname, wrong)
                                c.ob(label + "the function is only asked inside the bracket", not bad, w, "%s: asked at %s" % (case, bad[:1]))
                                # every point must be inside what was known when it was visited
                                tight(c, w, label, known, root, lo, hi, case, skip)
                                if o is None:
                                    continue
                                if o.kind != "return":
                                    c.ob(label + "a bracketed root is searched", False, w, "%s: %s" % (case, o.kind))
                                    continue
                                v = o.value
                                if v.op == "rec":
                                    l, h = [evalt(rget(v, n), e2, db, hook) for n in ("first", "second")]
                                    ok = lo - 1e-12 <= l <= h <= hi + 1e-12 and l - 1e-12 <= root <= h + 1e-12
                                    c.ob(label + "the interval returned contains the root", ok, w, "%s: [%g, %g]" % (case, l, h))
                                    c.ob(label + "the interval returned is as short as requested", h - l <= acc, w, "%s: [%g, %g]" % (case, l, h))
                                else:
                                    x = evalt(v, e2, db, hook)
                                    l, h = interval([p for p in known if p != skip], root, lo, hi)
                                    c.ob(label + "the root returned lies where the sign changes", l - 1e-12 <= x <= h + 1e-12, w, "%s: %g outside [%g, %g]" % (case, x, l, h))
    # no change of sign: rejected
    for a, b in BRACKETS:
        for v in (3.0, -2.0, 0.01, -1e-5):
            env = {x1: a, x2: b}
            if derivative:
                env[rest[0]], env[rest[1]], env[rest[2]] = (a + b) / 2, 100, 1e-9
            else:
                env[rest[0]], env[rest[1]] = 1e-9, 100.0
            hook = lambda x, go: v if x.op == "callv" and x.a[0] is fun else 0.0 if x.op == "callv" else \
                (1 if v > 0 else -1) if x.op == "call" and "sgn" in str(x.a[0]) else None
            o, _ = s.follow(env, hook, lambda k: None)
            c.ob(label + "an interval without a change of sign is rejected", o is not None and o.kind == "throw", w, "[%g, %g] with the value %g at both ends: %s" % (a, b, v, "a root is searched" if o is None else o.kind))
    c.saw("trajectories", (name, runs))


def args(x):
    y = x.a[1]
    return y[0] if isinstance(y, (tuple, list)) else y


def interval(known, root, lo, hi):
    """the tightest interval with a change of sign known so far"""
    l = max([p for p in known if p <= root] + [lo])
    h = min([p for p in known if p >= root] + [hi])
    return l, h


def tight(c, w, label, known, root, lo, hi, case, start):
    seen = {lo: 0, hi: 0}
    for p in known:         # in the order of the visits
        l, h = interval(seen, root, lo, hi)
        if p not in seen and root not in seen:
            c.ob(label + "each step stays in the interval in which the sign changes", l - 1e-12 <= p <= h + 1e-12, w, "%s: goes to %g although the sign changes in [%g, %g]" % (case, p, l, h))
        if p != start:
            seen[p] = 1


def guarded(db, c, name, derivative):
    try:
        finder(db, c, name, derivative)
    except Unknown as u:
        raise AnalysisBroken("%s: %s" % (name, u))


def check_p37(db, c):
    c.part("Bisection", guarded, db, c, "Bisection", False)
    c.part("NewtonRaphson", guarded, db, c, "NewtonRaphson", True)


RULE = ("Path-sensitive symbolic execution extracts the loop of each root finder as a transition system (initial state, guarded steps, guarded exits); "
        "over representatives of monotone functions, root positions, orientations and arbitrary derivatives every visited and returned point must lie in the tightest interval known to hold the root, and brackets without a change of sign must lead to an exception.")

CHECKS = {"P37": (RULE, check_p37)}

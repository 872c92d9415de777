"""P22: density profiles, their axes, and the polynomials and splines they are made of."""
import math
import random
from ir import AnalysisBroken
from absint import *
from data import N, user_ctors
from evalt import evalt, consistent, Unknown, limit
from kinematics import S, vec, pick, where, C3
from tree import fnodes

V3 = N + "Vector3D"
THIS = ("o", mk("this"))


# ------------------------------------------------------------------------------------------- values of extracted expressions
def close(a, b, tol=1e-8):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def value(outs, env, db, hook=None, what=""):
    """result of the path taken for this representative: number, or name of the exception"""
    got = []
    memo = {}
    for o in outs:
        ok = True
        for f, p in o.st.facts.items():
            if bool(evalt(f, env, db, hook, memo)) != p:
                ok = False
                break
        if not ok:
            continue
        if o.kind == "throw":
            got.append("throws " + str(o.value.a[0]).replace(N, "") if o.value.op == "exc" else "throws")
        else:
            got.append(o)
    if len(got) > 1 and not all(isinstance(g, str) for g in got):
        raise AnalysisBroken("%s: %d paths for one input" % (what, len(got)))
    if not got:
        raise AnalysisBroken("%s: no path for an input" % what)
    g = got[0]
    return g if isinstance(g, str) else evalt(g.value, env, db, hook, memo)


class Rnd(random.Random):
    def pick(self, lo, hi):
        return self.uniform(lo, hi)


def vals(t):
    return [S(t + c) for c in "xyz"]


def setv(env, n, v):
    for s, x in zip(vals(n), v):
        env[s] = x


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def engine(db, opaque=None, unroll=16):
    e = Engine(db, inline=lambda g: True, unroll=unroll, const_names=False, opaque=opaque)
    e.limit = 5000
    return e


def preset(f, st):
    for p in f["params"]:
        if strip_type(p["t"]) in (C3, V3):
            st.store[("o", S(p["n"]))] = vec(p["n"])
    return [p["n"] for p in f["params"]]


# ------------------------------------------------------------------------------------------------------------------- axes
def p22_axes(db, c):
    R = Rnd(22)
    for nm in ("CartesianAxis", "RadialAxis"):
        cls = N + nm
        outs = {}
        for m in ("GetDepth", "GetEffectiveDistance"):
            f = pick(db, cls + "::" + m, lambda g: True, m)
            c.saw("functions", f["fn"])
            st = St()
            st.store[THIS] = rec(cls, None, {"fp0_": vec("o"), "fAxis_": vec("a")})
            outs[m] = (f, preset(f, st), engine(db).run(f, st=st, dyn=cls))
        bad = {}
        for _ in range(40):
            env = {}
            o, a, x, u = [[R.uniform(-5, 5) for _ in range(3)] for _ in range(4)]
            n = norm(u)
            u = [v / n for v in u]
            setv(env, "o", o)
            setv(env, "a", a)
            f, ps, os_ = outs["GetDepth"]
            w = [p - q for p, q in zip(x, o)]

            def at(l):
                setv(env, ps[0], [p + l * q for p, q in zip(x, u)])
                return value(os_, env, db, what=f["fn"])
            d = at(0.0)
            g, qs, og = outs["GetEffectiveDistance"]
            setv(env, qs[0], x)
            setv(env, qs[1], u)
            eff = value(og, env, db, what=g["fn"])
            if nm == "CartesianAxis":
                want, de = dot(a, w), dot(a, u)
                if not close(at(2.7), d + 2.7 * eff):
                    bad["depth along a line"] = (where(g), "moving 2.7 along a direction changes the depth by %g, announced as %g per length" % (at(2.7) - d, eff))
            else:
                want, de = norm(w), dot(w, u) / norm(w)
            if not close(d, want):
                bad["depth"] = (where(f), "depth is %g instead of %g" % (d, want))
            if not close(eff, de):
                bad["derivative of the depth"] = (where(g), "effective distance is %g, the depth grows by %g per length" % (eff, de))
        for k in ("depth", "derivative of the depth") + (("depth along a line",) if nm == "CartesianAxis" else ()):
            c.ob("%s: %s" % (nm, k), k not in bad, bad.get(k, (where(outs["GetDepth"][0]),))[0], k in bad and bad[k][1])


# ------------------------------------------------------------------------------------------------------------ polynomials
P = N + "Polynom"


def poly_obj(st, arr, names):
    st.store[("o", S(arr))] = mk("list", *[S(n) for n in names])
    return rec(P, None, {"N_": num(len(names)), "coeff_": mk("ptr", ("o", S(arr)), ())})


def pval(cs, x):
    r = 0.0
    for a in reversed(cs):
        r = r * x + a
    return r


def pint(cs, x):
    return pval([0.0] + [a / (i + 1) for i, a in enumerate(cs)], x)


def pdiff(cs, x):
    return pval([a * i for i, a in enumerate(cs)][1:], x)


def of_value(e, st, v):
    """run `evaluate` of a polynomial value"""
    st = st.copy()
    st.facts = dict(st.facts)
    r = ("o", S("result"))
    st.store[r] = v
    return st, r


def p22_polynomials(db, c):
    R = Rnd(3)
    ev = pick(db, P + "::evaluate", lambda g: True, "evaluate")
    ctor = [g for g in user_ctors(db, P) if len(g["params"]) == 1 and "vector" in g["params"][0]["t"]]
    c.need("constructors of a polynomial from its coefficients", len(ctor), 1)
    bad = {}
    seen = set()

    def fresh(k):
        e = engine(db)
        st = St()
        st.store[THIS] = rec(P, None, {})
        outs = e.run(ctor[0], st=st, args=[("val", mk("list", *[S("c%d" % i) for i in range(k)]))], dyn=P)
        outs = [o for o in outs if o.kind == "return"]
        if len(outs) != 1:
            raise AnalysisBroken("constructor of a polynomial")
        return e, outs[0].st

    def at(e, st, this=(THIS, ())):
        outs = []
        for s in (st if isinstance(st, list) else [st]):
            outs += e.run(ev, this=this, st=s, args=[("val", S("X"))], dyn=P)
        return outs

    def compare(key, w, outs, k, want, extra=()):
        seen.add(key)
        for _ in range(12):
            cs = [R.uniform(-2, 2) for _ in range(k)]
            x = R.uniform(-3, 3)
            env = {S("c%d" % i): v for i, v in enumerate(cs)}
            env[S("X")] = x
            ex = {n: R.uniform(-2, 2) for n in extra}
            for n, v in ex.items():
                env[S(n)] = v
            try:
                got = value(outs, env, db, what=key)
            except Unknown as err:
                if limit(err):
                    raise AnalysisBroken("value not followed: %s" % err)
                bad[key] = (w, "degree %d: reads something that is not a coefficient (%s)" % (k - 1, str(err)[:100]))
                return
            exp = want(cs, x, *ex.values())
            if not close(got, exp):
                bad[key] = (w, "degree %d: %s at x=%.3g is %s instead of %g" % (k - 1, cs, x, got, exp))
                return

    for k in range(1, 6):
        e, st = fresh(k)
        compare("value of a polynomial", where(ev), at(e, st), k, pval)
        for m, want, extra, key in (("GetDerivative", pdiff, (), "derivative of a polynomial"),
                                    ("GetAntiderivative", lambda cs, x, q: pint(cs, x) + q, ("constant",), "antiderivative of a polynomial")):
            f = pick(db, P + "::" + m, lambda g: True, m)
            c.saw("functions", f["fn"])
            args = [("val", S("constant"))] if extra else []
            outs = []
            for o in e.run(f, st=st, args=args, dyn=P):
                if o.kind != "return":
                    bad[key] = (where(f), "throws")
                    continue
                s, r = of_value(e, o.st, o.value)
                outs += at(e, s, (r, ()))
            compare(key, where(f), outs, k, want, extra)
        f = pick(db, P + "::shift", lambda g: True, "shift")
        outs = []
        for o in e.run(f, st=st, args=[("val", S("sh"))], dyn=P):
            outs += at(e, o.st)
        compare("shift of a polynomial", where(f), outs, k, lambda cs, x, q: pval(cs, x + q), ("sh",))
        f = pick(db, P + "::GetFunction", lambda g: True, "GetFunction")
        outs = []
        for o in e.run(f, st=st, dyn=P):
            fr = Frame(f, (THIS, ()), P, 0)
            for s, v in e.call_value(e.aval(o.st, o.value) if o.value.op in ("lv", "lvref") else o.value, [("val", S("X"))], o.st, fr, {"l": f["line"]}):
                outs.append(Outcome(s, "return", v))
        compare("function of a polynomial", where(f), outs, k, pval)
        f = pick(db, P + "::GetCoefficient", lambda g: True, "GetCoefficient")
        for o in e.run(f, st=st, dyn=P):
            v = o.value
            c.ob("coefficients of a polynomial of degree %d" % (k - 1), v.op == "list" and list(v.a) == [S("c%d" % i) for i in range(k)], where(f), "GetCoefficient returns %s" % show(v)[:120])
    for key in sorted(seen | set(bad)):
        c.ob(key, key not in bad, bad.get(key, (where(ev),))[0], key in bad and bad[key][1])


# ---------------------------------------------------------------------------------------------------------------- splines
def natural(xs, ys):
    """second derivatives of the natural cubic spline"""
    n = len(xs)
    a = [[0.0] * (n + 1) for _ in range(n)]
    a[0][0] = a[n - 1][n - 1] = 1.0
    for i in range(1, n - 1):
        h0, h1 = xs[i] - xs[i - 1], xs[i + 1] - xs[i]
        a[i][i - 1], a[i][i], a[i][i + 1] = h0, 2 * (h0 + h1), h1
        a[i][n] = 6 * ((ys[i + 1] - ys[i]) / h1 - (ys[i] - ys[i - 1]) / h0)
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        a[i], a[p] = a[p], a[i]
        for r in range(n):
            if r != i and a[r][i]:
                q = a[r][i] / a[i][i]
                a[r] = [u - q * v for u, v in zip(a[r], a[i])]
    return [a[i][n] / a[i][i] for i in range(n)]


def pieces(kind, xs, ys):
    """coefficients of every piece in powers of (x - x_i)"""
    out = []
    m = natural(xs, ys) if kind == "Cubic_Spline" else [0.0] * len(xs)
    for i in range(len(xs) - 1):
        h = xs[i + 1] - xs[i]
        out.append([ys[i], (ys[i + 1] - ys[i]) / h - h * (2 * m[i] + m[i + 1]) / 6, m[i] / 2, (m[i + 1] - m[i]) / (6 * h)])
    return out


def sval(kind, xs, ys, x, f=pval, acc=None):
    ps = pieces(kind, xs, ys)
    i = 0
    while i < len(ps) - 1 and x > xs[i + 1]:
        i += 1
    r = f(ps[i], x - xs[i])
    if acc is not None:
        r += acc + sum(pint(ps[j], xs[j + 1] - xs[j]) for j in range(i))
    return r


def spline_objects(db, nm, k):
    cls = N + nm
    f = [g for g in user_ctors(db, cls) if len(g["params"]) == 2 and all("vector<double" in p["t"] for p in g["params"])]
    if len(f) != 1:
        raise AnalysisBroken("%s: constructor from points not found" % nm)
    e = engine(db)
    st = St()
    st.store[THIS] = rec(cls, None, {})
    xs = mk("list", *[S("x%d" % i) for i in range(k)])
    ys = mk("list", *[S("y%d" % i) for i in range(k)])
    return f[0], e, [o for o in e.run(f[0], st=st, args=[("val", xs), ("val", ys)], dyn=cls) if o.kind == "return"]


def knots(R, k, zero):
    xs = [R.uniform(-4, 1)]
    for _ in range(k - 1):
        xs.append(xs[-1] + R.uniform(0.4, 2))
    if zero:
        j = R.randrange(k)
        xs = [x - xs[j] for x in xs]
    return xs, [R.uniform(-3, 3) for _ in range(k)]


def p22_splines(db, c, nm):
    R = Rnd(7)
    ev = pick(db, N + "Spline::evaluate", lambda g: True, "evaluate")
    for k in (2, 3, 5):
        f, e, outs = spline_objects(db, nm, k)
        c.saw("functions", f["fn"])
        res = {}
        for m in (None, "Antiderivative", "Derivative"):
            r = []
            for o in outs:
                if m is None:
                    sts = [o.st]
                else:
                    g = pick(db, N + "Spline::" + m, lambda h: True, m)
                    c.saw("functions", g["fn"])
                    sts = [q.st for q in e.run(g, st=o.st, dyn=N + nm, args=[("val", S("const"))] if m == "Antiderivative" else []) if q.kind == "return"]
                for s in sts:
                    r += e.run(ev, st=s, args=[("val", S("X"))], dyn=N + nm)
            res[m] = (r, where(f) if m is None else where(g))
        for m, key in ((None, "values"), ("Antiderivative", "antiderivative"), ("Derivative", "derivative")):
            bad = None
            for n in range(24):
                xs, ys = knots(R, k, n % 4 == 3)
                q = R.uniform(-2, 2)
                env = {S("x%d" % i): v for i, v in enumerate(xs)}
                env.update({S("y%d" % i): v for i, v in enumerate(ys)})
                env[S("const")] = q
                for x in [xs[0] - 0.7, xs[-1] + 0.9] + [u + t * (v - u) for u, v in zip(xs, xs[1:]) for t in (0.3, 0.8)] + ([] if m == "Derivative" else xs):
                    env[S("X")] = x
                    try:
                        got = value(res[m][0], env, db, what="%s %s" % (nm, key))
                    except Unknown as err:
                        if limit(err):
                            raise AnalysisBroken("value not followed: %s" % err)
                        bad = "reads something that is not defined (%s)" % str(err)[:120]
                        break
                    want = sval(nm, xs, ys, x, pdiff if m == "Derivative" else pint if m else pval, q if m == "Antiderivative" else None)
                    if not close(got, want, 1e-7):
                        bad = "points %s %s: at %.4g the %s is %s instead of %g" % ([round(v, 3) for v in xs], [round(v, 3) for v in ys], x, key if m else "value", got, want)
                        break
                if bad:
                    break
            c.ob("%s through %d points: %s" % (nm, k, key), not bad, res[m][1], bad)


# ---------------------------------------------------------------------------------------------------------------- profiles
RHO, RES, BORDER = S("rho"), S("column"), S("border")
LEN = S("LEN")


def ends(n, *s):
    return any(n.split("(")[0].endswith(x) for x in s)


def thrown(db, fn):
    f = db.functions.get(fn)
    r = set()
    for n, a in fnodes(f) if f else ():
        if n["k"] == "Throw" and n.get("c"):
            r.add(strip_type(n["c"][0].get("t", "")))
    if not r:
        raise AnalysisBroken("exceptions of %s not found" % fn)
    return sorted(r)


class Newton:
    """the calls of the root finder with what its arguments compute"""

    def __init__(self):
        self.calls = []

    def __call__(self, eng, name, cal, olv, avals, st, fr, node):
        vs = [eng.aval(st, a) for a in avals]
        fs = [v for v in vs if v.op in ("lambda", "bind", "fnptr")]
        if not fs:
            raise AnalysisBroken("function given to the root finder not recognised")
        comp = []
        for f in fs:
            sinks, eng.sinks = eng.sinks, eng.sinks + [[]]
            try:
                comp.append([Outcome(s, "return", v) for s, v in eng.call_value(f, [("val", LEN)], st, fr, node)])
            finally:
                eng.sinks = sinks
        self.calls.append((comp, [v for v in vs if v not in fs], eng.where(fr, node)))
        for t in thrown(eng.db, cal["fn"]):
            s2 = st.copy()
            s2.facts[mk("sym", "not bracketed")] = True
            eng.sinks[-1].append((s2, mk("exc", t), node))
        s = st.copy()
        s.facts[mk("sym", "not bracketed")] = False
        return [(s, mk("call", "root", num(len(self.calls) - 1)))]


def handlers(newton):
    def depth(kind):
        def h(eng, name, cal, olv, avals, st, fr, node):
            return [(st, mk("call", kind, *[eng.aval(st, a) for a in avals]))]
        return h

    def op(n):
        if ends(n, "Axis::GetDepth"):
            return depth("depth")
        if ends(n, "Axis::GetEffectiveDistance"):
            return depth("eff")
        if ends(n, "Axis::clone"):
            return lambda eng, name, cal, olv, avals, st, fr, node: [(st, mk("ptr", ("o", S("axiscopy")), ()))]
        if ends(n, "Medium::GetMassDensity"):
            return lambda eng, name, cal, olv, avals, st, fr, node: [(st, RHO)]
        if ends(n, "NewtonRaphson", "Bisection"):
            return newton
        return None
    return op


def coords(t):
    q = rget(t, "coordinates") if t.op == "rec" else None
    if q is None:
        raise Unknown("position %s" % show(t)[:80])
    while q.op == "construct" and len(q.a) == 2:
        q = q.a[1]
    return [rget(q, num(i)) for i in range(3)]


def hook_for(A, o):
    def hook(t, go):
        if t.op == "call" and t.a[0] == "depth":
            return dot(A, [go(x) - y for x, y in zip(coords(t.a[-1]), o)])
        if t.op == "call" and t.a[0] == "eff":
            return dot(A, [go(x) for x in coords(t.a[-1])])
        if t.op == "fld" and t.a[1] in ("massDensity_",):
            return None
        return None
    return hook


def spline_arg(st, nm, k):
    ps = [poly_obj(st, "arr%d" % i, ["s%d_%d" % (i, j) for j in range(4)]) for i in range(k)]
    return rec(N + nm, None, {"splines_": mk("list", *ps), "subintervall_": mk("list", *[S("x%d" % i) for i in range(k + 1)]),
                              "n_subintervalls_": num(k), "x_": mk("list"), "y_": mk("list")})


def build(db, cls, ctor, e, spline):
    """objects a constructor makes: [state]"""
    st = St()
    st.store[THIS] = rec(cls, None, {})
    args = []
    for p in ctor["params"]:
        t = strip_type(p["t"])
        root = ("o", S(p["n"]))
        if t == "double":
            args.append(("val", {"sigma": S("sigma"), "d0": S("d0")}.get(p["n"], RHO) if cls.endswith("exponential") else RHO if p["n"] != "correction_factor" else S("factor")))
            continue
        if t == P:
            st.store[root] = poly_obj(st, "arr", ["p0", "p1", "p2"])
        elif t == N + "Spline":
            st.store[root] = spline_arg(st, spline, 2)
        elif t == C3 or t == V3:
            st.store[root] = vec(p["n"])
        args.append(None)
    return [o.st for o in e.run(ctor, st=st, args=args, dyn=cls) if o.kind == "return"]


def profile(kind, env, d):
    """density over the mass density at a depth, and its antiderivative"""
    g = lambda n: env[S(n)]
    if kind == "homogeneous":
        return 1.0, d
    if kind == "exponential":
        v = math.exp((d - g("d0")) / g("sigma"))
        return v, v * g("sigma")
    if kind == "polynomial":
        cs = [g("p0"), g("p1"), g("p2")]
        return pval(cs, d), pint(cs, d)
    i = 1 if d > g("x1") else 0
    cs = [[g("s%d_%d" % (i, j)) for j in range(4)] for i in range(2)]
    F = pint(cs[0], min(d, g("x1")) if i else d)
    if i:
        F += pint(cs[1], d) - pint(cs[1], g("x1"))
    return pval(cs[i], d), F


def same_type(ctor):
    return len(ctor["params"]) == 1 and strip_type(ctor["params"][0]["t"]) == ctor["cls"]


def p22_profile(db, c, kind, spline=None):
    cls = N + "Density_" + kind
    R = Rnd(11)
    ctors = [g for g in user_ctors(db, cls) if not same_type(g) and not any("json" in p["t"] for p in g["params"])]
    c.need("constructors of %s" % cls, len(ctors), 2)
    label = "Density_" + kind + (" with a %s" % spline if spline else "")
    fs = {m: pick(db, cls + "::" + m, lambda g: True, m) for m in ("Evaluate", "Calculate", "Correct")}
    for ctor in ctors:
        newton = Newton()
        e = engine(db, handlers(newton))
        c.saw("functions", ctor["fn"])
        sts = build(db, cls, ctor, e, spline)
        if not sts:
            raise AnalysisBroken("%s never completes" % ctor["fn"])
        how = ", ".join(strip_type(p["t"]).replace(N, "") for p in ctor["params"])
        runs = {}
        for m, f in fs.items():
            c.saw("functions", f["fn"])
            runs[m] = []
            ps = f["params"]
            for s in sts:
                s = s.copy()
                s.store[("o", S("at"))] = vec("r")
                s.store[("o", S("dir"))] = vec("u")
                a = [("lv", (("o", S("at")), ()))]
                if len(ps) > 1:
                    a.append(("lv", (("o", S("dir")), ())))
                if m == "Calculate":
                    a.append(("val", LEN))
                if m == "Correct":
                    a += [("val", RES), ("val", BORDER)]
                runs[m] += e.run(f, st=s, args=a, dyn=cls)
        bad = {}
        seen = set()

        def check(key, f, got, want, tol=1e-7):
            seen.add(key)
            if not close(got, want, tol) and key not in bad:
                bad[key] = (where(f), "%s instead of %s" % (got, want))

        for n in range(60):
            env = {RHO: R.uniform(0.2, 3), S("factor"): R.uniform(0.3, 2), S("sigma"): R.uniform(0.5, 3) * R.choice((1, -1)), S("d0"): R.uniform(-1, 1)}
            for i in range(3):
                env[S("p%d" % i)] = R.uniform(0.1, 1)
            x0 = R.uniform(-2, 0)
            for i in range(3):
                env[S("x%d" % i)] = x0 + 1.3 * i
                for j in range(4):
                    env[S("s%d_%d" % (i, j))] = R.uniform(0.1, 1)
            # the two pieces of a spline join
            k = x0 + 1.3
            env[S("s1_0")] += pval([env[S("s0_%d" % j)] for j in range(4)], k) - pval([env[S("s1_%d" % j)] for j in range(4)], k)
            A, o, x, u = [[R.uniform(-1.5, 1.5) for _ in range(3)] for _ in range(4)]
            if n % 5 == 4:
                # along the layers
                A, u = [0.0, 0.0, 1.25], [0.6, -0.8, 0.0]
            nn = norm(u)
            u = [v / nn for v in u]
            hook = hook_for(A, o)
            rho = env[RHO]
            if "correction_factor" in [p["n"] for p in ctor["params"]]:
                rho *= env[S("factor")]
            setv(env, "r", x)
            setv(env, "u", u)
            d, delta = dot(A, [p - q for p, q in zip(x, o)]), dot(A, u)

            def column(l):
                if delta == 0:
                    return rho * profile(kind, env, d)[0] * l
                if kind == "homogeneous":
                    return rho * l
                return rho * (profile(kind, env, d + l * delta)[1] - profile(kind, env, d)[1]) / delta
            l = R.uniform(0.05, 3)
            env[LEN] = l
            side = " along a layer" if delta == 0 else ""
            check("density", fs["Evaluate"], value(runs["Evaluate"], env, db, hook, label), rho * profile(kind, env, d)[0])
            check("column" + side, fs["Calculate"], value(runs["Calculate"], env, db, hook, label), column(l))
            env[LEN] = 0.0
            check("column over no distance", fs["Calculate"], value(runs["Calculate"], env, db, hook, label), 0.0)
            env[LEN] = l
            env[BORDER] = 1e4
            env[RES] = column(l)
            f = fs["Correct"]
            if newton.calls:
                check("step length" + side, f, "by root finding", "by root finding")
                for comp, rest, w in newton.calls:
                    F = value(comp[0], env, db, hook, label)
                    want = env[RES] = 1.7
                    F = value(comp[0], env, db, hook, label)
                    sign = 1 if close(F, 1.7 - column(l), 1e-7) else -1
                    check("function whose root is the step length", f, F, sign * (1.7 - column(l)))
                    if len(comp) > 1:
                        check("derivative handed to the root finder", f, value(comp[1], env, db, hook, label), -sign * rho * profile(kind, env, d + l * delta)[0])
                    lim = [evalt(v, env, db, hook) for v in rest[:2]]
                    check("range of the search", f, str(sorted(lim)), str([0, env[BORDER]]) if isinstance(lim[0], int) else str([0.0, env[BORDER]]))
                    env[mk("call", "root", num(0))] = 0.123
                    for j in range(len(newton.calls)):
                        env[mk("call", "root", num(j))] = 0.123
                    env[S("not bracketed")] = False
                    check("root taken as step length", f, value(runs["Correct"], env, db, hook, label), 0.123)
                    env[S("not bracketed")] = True
                    check("column that is not reached", f, value(runs["Correct"], env, db, hook, label), "throws DensityException")
            else:
                check("step length" + side, f, value(runs["Correct"], env, db, hook, label), l)
                if kind == "exponential" and delta != 0 and delta / env[S("sigma")] < 0:
                    # the whole way to infinity has a finite column
                    total = -rho * profile(kind, env, d)[1] / delta
                    env[RES] = 1.5 * total
                    check("column that is not reached", f, value(runs["Correct"], env, db, hook, label), "throws DensityException")
        for key in sorted(seen):
            c.ob("%s(%s): %s" % (label, how, key), key not in bad, bad.get(key, (where(ctor),))[0], key in bad and bad[key][1])


def p22(db, c):
    c.part("axes", p22_axes, db, c)
    c.part("polynomials", p22_polynomials, db, c)
    for nm in ("Linear_Spline", "Cubic_Spline"):
        c.part(nm, p22_splines, db, c, nm)
    c.part("homogeneous profile", p22_profile, db, c, "homogeneous")
    c.part("exponential profile", p22_profile, db, c, "exponential")
    c.part("polynomial profile", p22_profile, db, c, "polynomial")
    for nm in ("Linear_Spline", "Cubic_Spline"):
        c.part("spline profile (%s)" % nm, p22_profile, db, c, "splines", nm)


CHECKS = {
    "P22": ("the functions of every profile, axis, polynomial and spline are extracted as expressions per path, constructor included; their values at sample points equal the line "
            "integral, derivative and inverse the definition of the profile prescribes", p22),
}

"""P07: continuous and stochastic losses partition the range of losses at the cut."""
import functools
import math
import random
import re
from absint import *
from common import AnalysisBroken
from data import N, unlist
from evalt import evalt, Unknown
from kinematics import S, ptypes, where, returns
from ir import rel

RULE = ("Abstract interpretation of the constructors and Calculate functions of the integral and tabulated loss classes for every instantiated parametrization, with the "
        "cross section, its kinematic limits, the energy cut and the numerical integrator left uninterpreted. Every integral in the result is mapped to the range of "
        "relative losses its integrand covers (substitutions recognised by the argument handed to the cross section; the integrand must be weight times cross "
        "section times the derivative of the substitution); the ranges must add up to exactly [v_min, cut] with weight v (energy loss) and v^2 (variance), and to "
        "[cut, v] for the rate, whose complete value takes v = v_max; the sampled loss runs over the same range with the same substitution. For ionization the extracted formulas "
        "are differentiated with respect to the cut and compared with v times the extracted cross section. The table builders tabulate these very functions over "
        "mutually inverse maps of [cut, v_max]; CrossSection sums the contributions of all targets with one weight per target and builds the continuous parts only with a cut.")

VMIN, VMAX, VCUT, E0 = S("vmin"), S("vmax"), S("vcut"), S("E")
RAW = S("rawcut")         # the cut before it is put into the allowed range
PARAM, THIS = S("param"), mk("this")
IRR = ("o", S("integration with random ratio"))


class Model(object):
    """handlers for what stays uninterpreted"""

    def __init__(self, keep=()):
        self.keep = keep

    def __call__(self, name):
        b = name.split("(")[0]
        last = b.split("::")[-1]
        if last == "clone" and "crosssection" in b:
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, mk("ptr", olv[0], olv[1]))]
        if last in ("Integrate", "IntegrateWithRandomRatio") and "Integral" in b:
            return self.integral
        if last == "GetUpperLimit" and b.endswith("Integral::GetUpperLimit") and "CrossSection" not in b and "Utility" not in b:
            return self.upper
        if last == "GetCut" and "EnergyCutSettings" in b:
            return self.cut
        if last in self.keep:
            return None
        if last in ("DifferentialCrossSection", "FunctionToDEdxIntegral", "FunctionToDE2dxIntegral", "IonizationLoss") and "crosssection" in b:
            return self.sigma
        if last == "GetKinematicLimits" and "crosssection" in b:
            return self.limits
        return None

    def sigma(self, eng, name, cal, olv, av, st, fr, node):
        last = name.split("(")[0].split("::")[-1]
        return [(st, mk("call", last, *[eng.aval(st, a) for a in av[2:]]))]

    def limits(self, eng, name, cal, olv, av, st, fr, node):
        e = eng.aval(st, av[2])
        if e is not E0:
            raise AnalysisBroken("kinematic limits at an energy other than the particle's (%s)" % show(e)[:80])
        return [(st, rec(N + "crosssection::KinematicLimits", None, {"v_min": VMIN, "v_max": VMAX}))]

    def cut(self, eng, name, cal, olv, av, st, fr, node):
        vs = [eng.aval(st, a) for a in av]
        if vs[-1] is not E0:
            return [(st, mk("call", "GetCut", *vs))]
        if len(vs) == 2:
            lo, hi = rget(vs[0], "v_min"), rget(vs[0], "v_max")
            if lo is not VMIN or hi is not VMAX:
                return [(st, mk("call", "GetCut", *vs))]
            return [(st, VCUT)]
        return [(st, RAW)]

    def integral(self, eng, name, cal, olv, av, st, fr, node):
        last = name.split("(")[0].split("::")[-1]
        a, b, f = [eng.aval(st, x) for x in av[:3]]
        x = S("x")
        rs = eng.call_value(f, [("val", x)], st, fr, node)
        if len(rs) != 1:
            raise AnalysisBroken("integrand has %d paths" % len(rs))
        more = [eng.aval(rs[0][0], y) for y in av[3:]]
        t = mk("integ", a, b, rs[0][1], *more)
        if last == "Integrate":
            return [(rs[0][0], t)]
        st = rs[0][0].copy() if hasattr(rs[0][0], "copy") else rs[0][0]
        st.store[IRR] = t
        return [(st, mk("void"))]

    def upper(self, eng, name, cal, olv, av, st, fr, node):
        return [(st, S("U"))]


@functools.lru_cache(None)
def instances(db, cls):
    """constructors per parametrization: name -> function"""
    out = {}
    for fn, f in db.functions.items():
        if f.get("cls") == N + cls and f.get("ctor") and not f.get("dep") and "body" in f:
            m = re.match(r".*?<PROPOSAL::crosssection::(\w+), ", fn.split("(")[0] + ", ")
            if m:
                out[m.group(1)] = f
    return out


class Machine(Engine):
    """make_shared of a loss class: the constructor of the parametrization under analysis"""
    pname = None

    def outside(self, e, cal, objs, fr):
        q = cal.get("qn") or (cal.get("cls", "") + "::" + cal["name"])
        h = self.opaque(q) if q.startswith("cubic_splines::") or q.endswith("file_exists") else None
        if h is None:
            return None
        return [r for s, l in objs for s2, vs in self.evs(e["c"], s, fr) for r in h(self, q, cal, l, [("val", v) for v in vs], s2, fr, e)]

    def e_MCall(self, e, st, fr):
        cal = e["callee"]
        if not cal.get("repo"):
            objs = self.ptr_lv(e["obj"], st, fr) if e.get("arrow") else self.obj(e["obj"], st, fr)
            r = self.outside(e, cal, objs, fr)
            if r is not None:
                return r
        return Engine.e_MCall(self, e, st, fr)

    def lib_call(self, e, cal, st, fr):
        r = self.outside(e, cal, [(st, None)], fr)
        return Engine.lib_call(self, e, cal, st, fr) if r is None else r

    def make_ptr(self, e, cal, st, fr):
        cls = strip_type(pointee(e["t"]))
        m = re.match(r"PROPOSAL::(CrossSectionD\w+Integral)$", cls)
        f = instances(self.db, m.group(1)).get(self.pname) if m and self.pname else None
        if f is None:
            return Engine.make_ptr(self, e, cal, st, fr)
        out = []
        for s, avals in self.args(f["params"], e["c"], st, fr):
            s = s.copy()
            self.ntmp += 1
            root = ("h", self.ntmp)
            s.store[root] = rec(cls, None, {})
            self.dyncls[root] = cls
            for s2, _v in self.call_repo(f, (root, ()), avals, s, fr, e, cls):
                out.append((s2, mk("ptr", root, ())))
        return out


def engine(db, model, files, pname=None):
    e = Machine(db, inline=lambda g: rel(g["file"]).split("/")[-1].startswith(files), opaque=model, limit=500, const_names=False)
    e.pname = pname
    return e


def construct(db, f, model, cls, files=("CrossSectionD",), cut=True, pname=None):
    e = engine(db, model, files, pname)
    st = St()
    args = []
    for i, p in enumerate(f["params"]):
        t = ptypes(f)[i]
        if "crosssection::" in t and i == 0:
            args.append(("lv", (("o", PARAM), ())) if "&" in p["t"] else ("val", S("param")))
        elif "shared_ptr" in t and "EnergyCutSettings" in t:
            args.append(("val", mk("ptr", ("o", S("cut")), ()) if cut else mk("null")))
        else:
            args.append(("lv", (("o", S(p["n"])), ())) if p["t"].strip().endswith("&") else ("val", S(p["n"])))
    outs = returns(e.run(f, this=(("o", THIS), ()), args=args, st=st, dyn=N + cls), f["fn"])
    return e, outs


def calls(t, names):
    return [x for x in sub(t) if x.op == "call" and x.a[0] in names]


def numbers(env, db, extra=None):
    """values for whatever is left uninterpreted: one stable number per term"""
    def hook(t, go):
        if extra is not None:
            r = extra(t, go)
            if r is not None:
                return r
        if t.op in ("sym", "fld", "call", "elem", "glob", "mut", "construct", "deref"):
            if t.op == "glob" and t.a[0] in db.globals and "cv" in db.globals[t.a[0]]:
                return None
            return random.Random(show(t)).uniform(0.3, 1.7)
        return None
    return hook


def ev(t, env, db, extra=None):
    return evalt(t, dict(env), db, numbers(env, db, extra))


def measure(db, total, env, weight):
    """[(lo, hi, factor)] signed ranges of losses with their weights, and what is left without an integral"""
    ints = sorted({x for x in sub(total) if x.op == "integ"}, key=lambda x: x.id)
    base = ev(total, dict(env, **{}), db, lambda t, go: 0.0 if t.op == "integ" else None)
    out = []
    for i in ints:
        k = ev(total, env, db, lambda t, go: (1.0 if t is i else 0.0) if t.op == "integ" else None) - base
        a, b = ev(i.a[0], env, db), ev(i.a[1], env, db)
        out.append((i, k) + ranges(db, i, a, b, env, weight))
    return out, base


def ranges(db, i, a, b, env, weight):
    g = i.a[2]
    cs = calls(g, ("DifferentialCrossSection", "FunctionToDEdxIntegral", "FunctionToDE2dxIntegral"))
    if len(cs) != 1:
        raise AnalysisBroken("integrand with %d cross sections: %s" % (len(cs), show(g)[:120]))
    f = cs[0]
    if f.a[1] is not E0:
        raise AnalysisBroken("cross section at another energy: %s" % show(f.a[1])[:80])
    phi = lambda x: ev(f.a[2], dict(env, **{}) | {S("x"): x}, db)
    sg = None
    for s in (0.11, 0.37, 0.52, 0.83):
        x = a + s * (b - a)
        if a == b:
            x = a
        h = 1e-5 * max(abs(x), 1e-3)
        d = (phi(x + h) - phi(x - h)) / (2 * h)
        v = phi(x)
        val = ev(g, dict(env) | {S("x"): x}, db, lambda t, go: 1.0 if t is f else None)
        want = weight(f.a[0], v) * d
        r = val / want if want else float("nan")
        if not abs(abs(r) - 1) < 1e-6:
            raise Mismatch("integrand at v = %.4g is %.6g instead of %.6g (%s)" % (v, val, abs(want), show(g)[:100]))
        if sg is not None and (r > 0) != (sg > 0):
            raise Mismatch("integrand changes its sign")
        sg = 1.0 if r > 0 else -1.0
    return phi(a), phi(b), sg


class Mismatch(Exception):
    pass


def covered(parts, lo, hi, tol=1e-9):
    """text if the signed ranges do not add up to [lo, hi] once"""
    pts = sorted({lo, hi} | {x for p in parts for x in p[2:4]})
    for a, b in zip(pts, pts[1:]):
        if b - a <= tol * max(1e-3, abs(b)):
            continue
        m = (a + b) / 2
        n = sum(k * s * ((p < m < q) - (q < m < p)) for _, k, p, q, s in parts)
        want = 1.0 if lo < m < hi else 0.0
        if abs(n - want) > 1e-9:
            return "losses from %.6g to %.6g count %.6g times instead of %g" % (a, b, n, want)
    return None


LIMITS = [(1e-4, 0.05, 0.9), (0.02, 0.3, 0.75), (0.001, 0.6, 0.999), (0.05, 0.95, 0.97), (0.85, 0.9, 0.95), (0.0005, 0.0005, 0.6), (0.01, 0.7, 0.7), (1e-3, 0.9999, 0.99995)]


def envs(extra=()):
    for lo, cut, hi in LIMITS:
        yield {VMIN: lo, VCUT: cut, VMAX: hi, E0: 1234.5, RAW: 0.3 * lo if cut == lo else 1.2 * hi if cut == hi else cut}


def feasible(o, env, db):
    """facts that do not involve the uninterpreted cross section hold"""
    for f, p in o.st.facts.items():
        if any(x.op == "call" for x in sub(f)):
            continue
        try:
            if bool(ev(f, env, db)) != p:
                return False
        except Unknown:
            continue
    return True


def field_of(e, st, cls, name):
    return e.load(st, (("o", THIS), (name,)))


def weights(db, pname, power, c):
    """what FunctionToDEdx/DE2dx stand for, given DifferentialCrossSection"""
    nm = {1: "FunctionToDEdxIntegral", 2: "FunctionToDE2dxIntegral"}[power]
    cls = N + "crosssection::" + pname
    base = [f for f in db.functions.values() if f["name"] == nm and "Parametrization" in (f.get("cls") or "") and not f.get("dep") and "body" in f]
    if not base:
        raise AnalysisBroken("no %s of the base class" % nm)
    own = None
    for b in base:
        r = db.resolve(b["fn"], cls)
        if r and r[0]:
            own = db.functions[r[0]]
    if own is None:
        raise AnalysisBroken("%s of %s not found" % (nm, pname))
    return own, own["fn"] in {b["fn"] for b in base}


def continuous(db, c, kind):
    """DEDX / DE2DX"""
    cls = "CrossSection%sIntegral" % kind
    power = 1 if kind == "DEDX" else 2
    inst = instances(db, cls)
    c.need("parametrizations of " + cls, len(inst), 20)
    calc = [f for f in db.functions.values() if f.get("cls") == N + cls and f["name"] == "Calculate" and "body" in f]
    if len(calc) != 1:
        raise AnalysisBroken("%s::Calculate" % cls)
    checked = set()
    for pname, f in sorted(inst.items()):
        c.part((kind, pname), one_continuous, db, c, kind, cls, power, pname, f, calc[0])


def one_continuous(db, c, kind, cls, power, pname, f, calc):
    own, generic = weights(db, pname, power, c)
    c.saw("functions", own["fn"])
    c.saw("parametrizations", pname)
    w = where(calc)
    analytic = kind == "DEDX" and not generic
    if not analytic:
        # v^power * dsigma
        m = Model(keep=(own["name"],))
        e = Engine(db, inline=lambda g: True, opaque=m, limit=200, const_names=False)
        args = [("lv", (("o", S("p_def")), ())), ("lv", (("o", S("t")), ())), ("val", E0), ("val", S("v"))]
        outs = returns(e.run(own, this=(("o", PARAM), ()), args=args, dyn=N + "crosssection::" + pname), own["fn"])
        for o in outs:
            cs = calls(o.value, ("DifferentialCrossSection",))
            ok = len(cs) == 1 and cs[0].a[1] is E0 and cs[0].a[2] is S("v") and all(
                abs(ev(o.value, {S("v"): v, E0: 77.}, db, lambda t, go: 1.0 if t is cs[0] else None) - v ** power) < 1e-12 for v in (0.1, 0.35, 0.9))
            c.ob((kind, pname, "weight"), ok, where(own), "%s of %s is not v^%d times the differential cross section but %s" % (own["name"], pname, power, show(o.value)[:100]))
    m = Model()
    e, outs = construct(db, f, m, cls)
    n = 0
    for o in outs:
        st = o.st
        res = returns(e.run(calc, this=(("o", THIS), ()), args=[("val", E0)], st=st, dyn=N + cls), calc["fn"])
        for r in res:
            for env in envs():
                if not feasible(r, env, db):
                    continue
                n += 1
                key = (kind, pname, "range")
                if analytic:
                    analytic_loss(db, c, r, env, key, pname, w, own)
                    continue
                wt = lambda name, v: v ** power if name == "DifferentialCrossSection" else 1.0
                try:
                    parts, rest = measure(db, r.value, env, wt)
                    scale = env[E0] ** power
                    parts = [(i, k / scale, a, b, s) for i, k, a, b, s in parts]
                    bad = covered(parts, env[VMIN], env[VCUT])
                    if bad is None and abs(rest) > 1e-12:
                        bad = "a part that is not an integral over losses"
                    names = {x.a[0] for i in parts for x in calls(i[0].a[2], ("FunctionToDEdxIntegral", "FunctionToDE2dxIntegral"))}
                    if bad is None and names - {own["name"]}:
                        bad = "the integrand is %s" % sorted(names)
                except Mismatch as x:
                    bad = str(x)
                c.ob(key, bad is None, w, "%s of %s with v_min=%g, cut=%g, v_max=%g: %s" % (cls, pname, env[VMIN], env[VCUT], env[VMAX], bad))
    c.need("paths of %s for %s" % (cls, pname), n, 4)


def analytic_loss(db, c, r, env, key, pname, w, own):
    # structure only; the formulas are compared in ionization()
    t = r.value
    ints = {x for x in sub(t) if x.op == "integ"}
    if ints:
        try:
            parts, rest = measure(db, t, env, lambda name, v: 1.0)
            parts = [(i, k / env[E0], a, b, s) for i, k, a, b, s in parts]
            bad = covered(parts, env[VMIN], env[VCUT])
            il = calls(t, ("IonizationLoss",))
            if bad is None and not (len(il) == 1 and il[0].a[1] is E0):
                bad = "the closed-form part is missing"
            if bad is None:
                k = ev(t, env, db, lambda x, go: 0.0 if x.op == "integ" else (1.0 if x in il else None))
                if abs(k - 1) > 1e-12:
                    bad = "the closed-form part counts %g times" % k
        except Mismatch as x:
            bad = str(x)
        c.ob(key, bad is None, w, "energy loss of %s: %s" % (pname, bad))
        return
    cs = calls(t, ("FunctionToDEdxIntegral",))
    ok = len(cs) == 1 and cs[0].a[1] is E0 and abs(ev(t, env, db, lambda x, go: 1.0 if x in cs else None) - 1) < 1e-12
    c.ob(key, ok, w, "energy loss of %s is not its closed formula: %s" % (pname, show(t)[:100]))


def rates(db, c):
    cls = "CrossSectionDNDXIntegral"
    inst = instances(db, cls)
    c.need("parametrizations of " + cls, len(inst), 20)
    for pname, f in sorted(inst.items()):
        c.part(("DNDX", pname), one_rate, db, c, cls, pname, f)


def member(db, cls, name, npar):
    fs = [f for f in db.functions.values() if f.get("cls") == N + cls and f["name"] == name and len(f["params"]) == npar and "body" in f]
    if len(fs) != 1:
        raise AnalysisBroken("%s::%s with %d parameters" % (cls, name, npar))
    return fs[0]


def one_rate(db, c, cls, pname, f):
    c.saw("parametrizations", pname)
    calc1, calc2, up = member(db, cls, "Calculate", 1), member(db, cls, "Calculate", 2), member(db, cls, "GetUpperLimit", 2)
    m = Model()
    V, R = S("v"), S("rate")
    wt = lambda name, v: 1.0 if name == "DifferentialCrossSection" else float("nan")
    n = 0
    for cut in (True, False):
        e, outs = construct(db, f, m, cls, cut=cut)
        for what, g, args in (("whole rate", calc1, [E0]), ("rate up to v", calc2, [E0, V]), ("sampled loss", up, [E0, R])):
            c.saw("functions", g["fn"])
            for o in outs:
                res = returns(e.run(g, this=(("o", THIS), ()), args=[("val", a) for a in args], st=o.st, dyn=N + cls), g["fn"])
                for r in res:
                    for env0 in envs():
                        for v in (0.3, 0.0, 0.5, 1.0, -1.0):
                            if what != "rate up to v" and v != 0.3:
                                continue
                            env = dict(env0)
                            lo = env[VCUT] if cut else env[VMIN]
                            env[V] = lo + v * (env[VMAX] - lo)
                            if not feasible(r, env, db):
                                continue
                            n += 1
                            key = ("DNDX", pname, what, "cut" if cut else "no cut")
                            c.ob(key, *rate_ok(db, r, env, lo, what, wt, where(g), pname))
    c.need("paths of the rate for " + pname, n, 80)


def rate_ok(db, r, env, lo, what, wt, w, pname):
    try:
        if what == "sampled loss":
            i = r.st.store.get(IRR)
            if i is None:
                raise Mismatch("no integration up to the drawn rate")
            p, q, s = ranges(db, i, ev(i.a[0], env, db), ev(i.a[1], env, db), env, wt)
            bad = None
            if abs(p - lo) > 1e-9 or abs(q - env[VMAX]) > 1e-9:
                bad = "losses are drawn from %.6g to %.6g instead of %.6g to %.6g" % (p, q, lo, env[VMAX])
            if abs(ev(i.a[4], env | {S("rate"): 0.77}, db) + 0.77) > 1e-12:
                bad = "the integral is taken up to %s instead of the drawn rate" % show(i.a[-1])[:60]
            f = calls(i.a[2], ("DifferentialCrossSection",))[0]
            for x in (0.1, 0.4, 0.7):
                x = ev(i.a[0], env, db) + x * (ev(i.a[1], env, db) - ev(i.a[0], env, db))
                if abs(ev(r.value, env | {S("U"): x}, db) - ev(f.a[2], env | {S("x"): x}, db)) > 1e-12:
                    bad = "the integration variable is turned into a loss by another substitution: %s" % show(r.value)[:80]
        else:
            parts, rest = measure(db, r.value, env, wt)
            hi = env[VMAX] if what == "whole rate" else max(lo, env[S("v")])
            bad = covered([(i, k, a, b, s) for i, k, a, b, s in parts], lo, hi)
            if bad is None and abs(rest) > 1e-12:
                bad = "a part that is not an integral over losses"
    except Mismatch as x:
        bad = str(x)
    return bad is None, w, "%s of %s with v_min=%g, cut=%g, v_max=%g: %s" % (what, pname, env[VMIN], env[VCUT], env[VMAX], bad)


# ------------------------------------------------------------------------------------------------------- ionization
def ionization(db, c):
    for pname in ("IonizBetheBlochRossi", "IonizBergerSeltzerBhabha", "IonizBergerSeltzerMoller"):
        c.part(("ionization", pname), one_ionization, db, c, pname)


def one_ionization(db, c, pname):
    """d(energy loss)/d(cut) == E v dsigma/dv at v = cut"""
    cls = N + "crosssection::" + pname
    base = {"p_def": "p_def", "medium": "medium"}
    VC = S("vc")

    def opq(n):
        b = n.split("(")[0]
        last = b.split("::")[-1]
        if last == "GetCut":
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, VC)]
        if last == "Delta":
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, S("delta"))]
        if last == "calculate_proton_massnumber_fraction":
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, S("ZA"))]
        return None

    def run(name, v):
        f = [g for g in db.functions.values() if g.get("cls") == cls and g["name"] == name and "body" in g]
        if len(f) != 1:
            raise AnalysisBroken("%s::%s" % (pname, name))
        c.saw("functions", f[0]["fn"])
        e = Engine(db, inline=lambda g: True, opaque=opq, limit=500, const_names=False)
        st = St()
        st.store[("o", S("p"))] = rec(N + "ParticleDef", None, {"mass": S("mass"), "charge": S("charge")})
        st.store[("o", S("m"))] = rec(N + "Medium", None, {"I_": S("I")})
        args = [("lv", (("o", S("p")), ())), ("lv", (("o", S("m")), ())), ("val", E0)] + ([("val", v)] if len(f[0]["params"]) > 3 else [])
        return returns(e.run(f[0], this=(("o", THIS), ()), args=args, st=st, dyn=cls), name), f[0]

    V = S("v")
    sig, fs = run("DifferentialCrossSection", V)
    loss, fl = run("IonizationLoss" if pname == "IonizBetheBlochRossi" else "FunctionToDEdxIntegral", V)
    part = run("FunctionToDEdxIntegral", V)[0] if pname == "IonizBetheBlochRossi" else None
    me = 0.5109989461
    g = db.globals.get("ME") or db.globals.get(N + "ME")
    if g and "cv" in g:
        me = float(g["cv"])
    from density import value
    n = 0
    for mass, charge in ((105.6583745, -1.), (me, 1.)) if pname == "IonizBetheBlochRossi" else ((me, -1.), (me, 1.)):
        for E in (3.0, 700., 5e4, 1e7):
            E = E if mass < E else E + mass
            if pname == "IonizBetheBlochRossi":
                vmax = min(2 * me * ((E / mass) ** 2 - 1) / ((1 + 2 * E / mass * me / mass + (me / mass) ** 2) * E), 1 - mass / E)
            else:
                vmax = (1. if "Bhabha" in pname else 0.5) * (1 - mass / E)
            for s in (0.003, 0.05, 0.3, 0.8):
                v = s * vmax
                if v * E < 1e-3:
                    continue
                env = {E0: E, S("mass"): mass, S("charge"): charge, S("I"): 75., S("delta"): 0.3, S("ZA"): 0.55}

                def at(outs, x):
                    return value(outs, dict(env) | {VC: x, V: x}, db, None, pname)
                h = 1e-5 * v
                lo, hi = at(loss, v - h), at(loss, v + h)
                want = at(sig, v) * v * E
                if not all(isinstance(y, float) for y in (lo, hi, want)) or lo == 0 or hi == 0 or want == 0:
                    continue
                d = (hi - lo) / (2 * h)
                if part is not None:
                    d += at(part, v) * E
                n += 1
                c.ob(("ionization", pname, "cut"), abs(d - want) <= 2e-5 * abs(want) + 1e-9 * abs(hi) / h, where(fl),
                     "%s: raising the cut at v = %.3g, E = %g MeV adds %.8g to the energy loss, the stochastic part loses %.8g" % (pname, v, E, d, want))
    c.need("evaluations for " + pname, n, 12)


# ---------------------------------------------------------------------------------------------------------- tables
class Tables(Model):
    """the interpolation library left uninterpreted"""

    def __call__(self, name):
        r = Model.__call__(self, name)
        if r:
            return r
        b = name.split("(")[0]
        last = b.split("::")[-1]
        if "cubic_splines::" in b:
            if last == "GetLow":
                return lambda eng, name, cal, olv, av, st, fr, node: [(st, S("Elow"))]
            if last == "evaluate":
                return self.evaluate
            if last.startswith("find_parameter"):
                return self.solve
        if last == "refine_definition_range":
            return self.refine
        if last == "file_exists":
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, TRUE)]
        if last.startswith("Bisection"):
            return self.bisect
        return None

    def evaluate(self, eng, name, cal, olv, av, st, fr, node):
        x = eng.aval(st, av[0])
        xs = unlist(x) if x.op != "sym" else None
        return [(st, mk("call", "table", *(xs if xs is not None else [x])))]

    def solve(self, eng, name, cal, olv, av, st, fr, node):
        rate, g = eng.aval(st, av[1]), eng.aval(st, av[2])
        other = st.copy()
        eng.sinks[-1].append((other, mk("exc", "std::runtime_error"), node))
        st = st.copy()
        x = rget(g, "x")
        st.store[IRR] = mk("solve", rate, *(unlist(x) or [x]), rget(g, "n"))
        return [(st, S("U"))]

    def bisect(self, eng, name, cal, olv, av, st, fr, node):
        f, a, b = [eng.aval(st, x) for x in av[:3]]
        rs = eng.call_value(f, [("val", S("x"))], st, fr, node)
        if len(rs) != 1:
            raise AnalysisBroken("bisection of a function with %d paths" % len(rs))
        st = rs[0][0].copy()
        st.store[IRR] = mk("bisect", rs[0][1], a, b)
        return [(st, rec("std::pair", None, {"first": S("U"), "second": S("U")}))]

    def refine(self, eng, name, cal, olv, av, st, fr, node):
        if len(av) > 2 or "DNDX" in name:
            return [(st, eng.aval(st, av[0]))]
        return [(st, mk("void"))]


BOX = ("CrossSectionD", "methods", "AxisBuilder")


def tables(db, c):
    for kind in ("DNDX", "DEDX", "DE2DX"):
        inst = instances(db, "CrossSection%sInterpolant" % kind)
        c.need("parametrizations tabulated as " + kind, len(inst), 20)
        for pname, f in sorted(inst.items()):
            c.part(("table", kind, pname), one_table, db, c, kind, pname, f)


def definition_of(e, o, w):
    t = field_of(e, o.st, None, "interpolant")
    if t.op != "construct" or "Interpolant" not in t.a[0]:
        raise AnalysisBroken("interpolant is %s" % show(t)[:80])
    d = t.a[1]
    f, ax = rget(d, "f"), rget(d, "axis")
    if f is None or ax is None:
        raise AnalysisBroken("definition of the table: %s" % show(d)[:80])
    return f, ax


def mesh(env, w):
    return dict(env) | {S("w"): w}


def one_table(db, c, kind, pname, f):
    cls = "CrossSection%sInterpolant" % kind
    c.saw("parametrizations", pname)
    model = Tables()
    power = {"DNDX": 0, "DEDX": 1, "DE2DX": 2}[kind]
    own = weights(db, pname, power, c)[0] if power else None
    e, outs = construct(db, f, model, cls, files=BOX, pname=pname)
    W, V, R = S("w"), S("v"), S("rate")
    n = 0
    grid = [x for x in envs() if x[VMIN] < x[VCUT] < x[VMAX]]
    fr, node = None, None
    for o in outs:
        g, ax = definition_of(e, o, f)
        drv = driver(db, e, o, g, [E0, W] if kind == "DNDX" else [E0])
        if kind == "DNDX":
            T = driver(db, e, o, field_of(e, o.st, None, "transform_v"), [S("lo"), S("hi"), W])

            def tv(env, w):
                m = {S("lo"): env[VCUT], S("hi"): env[VMAX], W: w}
                return single([x for x in T if feasible(x, m, db)], lambda x: ev(x[1], m, db))
            for env in grid:
                ws = [0.0, 0.05, 0.3, 0.5, 0.77, 0.95, 1.0]
                ts = [tv(env, w) for w in ws]
                ok = abs(ts[0] - env[VCUT]) < 1e-12 and abs(ts[-1] - env[VMAX]) < 1e-12 and all(a < b for a, b in zip(ts, ts[1:]))
                c.ob(("table", kind, pname, "transformation"), ok, where(f), "nodes 0…1 of the table of %s mean losses %s instead of rising from %g to %g"
                     % (pname, ["%.4g" % t for t in ts], env[VCUT], env[VMAX]))
                for w, t in zip(ws, ts):
                    m = mesh(env, w)
                    for x in drv:
                        if not feasible(x, m, db):
                            continue
                        n += 1
                        bad = table_value(db, x[1], m, env[VCUT], t, 0)
                        c.ob(("table", kind, pname, "content"), bad is None, where(f), "node %g of the table of %s: %s" % (w, pname, bad))
            axes_dndx(db, c, e, o, ax, kind, pname, f)
            lookups(db, c, e, o, pname, tv, grid)
        else:
            wt = where(f)
            for env in grid:
                for x in drv:
                    if not feasible(x, env, db):
                        continue
                    n += 1
                    if own is not None and kind == "DEDX" and own["name"] == "FunctionToDEdxIntegral" and not any(y.op == "integ" for y in sub(x[1])):
                        cs = calls(x[1], ("FunctionToDEdxIntegral",))
                        bad = None if len(cs) == 1 and cs[0].a[1] is E0 and abs(ev(x[1], env, db, lambda y, go: 1.0 if y in cs else None) - 1) < 1e-12 else "tabulates %s" % show(x[1])[:80]
                    else:
                        bad = table_value(db, x[1], env, env[VMIN], env[VCUT], power)
                    c.ob(("table", kind, pname, "content"), bad is None, wt, "table of %s: %s" % (pname, bad))
            g2 = member(db, cls, "Calculate", 1)
            c.saw("functions", g2["fn"])
            for r in returns(e.run(g2, this=(("o", THIS), ()), args=[("val", E0)], st=o.st.copy(), dyn=N + cls), g2["fn"]):
                below = any(p for q, p in r.st.facts.items() if q is mk("<", E0, S("Elow")))
                ok = r.value is mk("call", "table", E0) or (below and is_zero(r.value))
                c.ob(("table", kind, pname, "lookup"), ok, where(g2), "the table is read as %s" % show(r.value)[:80])
            axis(db, c, e, o, ax, kind, pname, f)
    c.need("table entries of %s" % pname, n, 4)


def is_zero(t):
    return t.op == "num" and float(t.a[0]) == 0


def driver(db, e, o, f, args):
    """[(state, value)] of a call of a stored function; entries mimic outcomes"""
    class Out(tuple):
        st = property(lambda s: s[0])
    rs = e.call_value(f, [("val", a) for a in args], o.st.copy(), Frame({"fn": "stored function", "params": []}, (("o", THIS), ()), None, 1), {"l": 0})
    if not rs:
        raise AnalysisBroken("stored function has no result")
    return [Out(x) for x in rs]


def single(xs, f):
    vs = {f(x) for x in xs}
    if len(vs) != 1:
        raise AnalysisBroken("%d values of the transformation" % len(vs))
    return vs.pop()


def table_value(db, t, env, lo, hi, power):
    try:
        parts, rest = measure(db, t, env, lambda name, v: (v ** power if name == "DifferentialCrossSection" else 1.0))
        s = env[E0] ** power
        bad = covered([(i, k / s, a, b, sg) for i, k, a, b, sg in parts], lo, hi)
        if bad is None and power == 1:
            il = calls(t, ("IonizationLoss",))
            rest -= ev(t, env, db, lambda x, go: 0.0 if x.op == "integ" else None) if il else 0.0
        if bad is None and abs(rest) > 1e-12:
            bad = "a part that is not an integral over losses"
        return bad
    except Mismatch as x:
        return str(x)


def deref(e, o, t):
    return e.load(o.st, (t.a[0], t.a[1])) if t.op == "ptr" else t


def axis(db, c, e, o, ax, kind, pname, f):
    ax = deref(e, o, ax)
    ok = ax.op == "construct" and "ExpAxis" in ax.a[0] and upper(ax.a[2])
    c.ob(("table", kind, pname, "range"), ok, where(f), "the energy axis of the table is %s" % show(ax)[:160])


def items(t):
    xs = unlist(t)
    if xs is None or not xs:
        xs = [rget(t, k) if rget(t, k).op != "fld" else None for k in (num(0), num(1))] if t.op == "rec" else []
    return [x for x in xs if x is not None]


def upper(t):
    return "UPPER_ENERGY_LIM" in show(t)


def axes_dndx(db, c, e, o, ax, kind, pname, f):
    xs = [deref(e, o, x) for x in items(ax)]
    ok = len(xs) == 2 and all(x.op == "construct" for x in xs) and "ExpAxis" in xs[0].a[0] and "LinAxis" in xs[1].a[0] and upper(xs[0].a[2]) \
        and is_zero(xs[1].a[1]) and xs[1].a[2].op == "num" and float(xs[1].a[2].a[0]) == 1
    c.ob(("table", kind, pname, "range"), ok, where(f), "the axes of the table are %s" % show(ax)[:160])


def lookups(db, c, e, o, pname, tv, grid):
    cls = "CrossSectionDNDXInterpolant"
    V, R = S("v"), S("rate")
    g1, g2, g3 = member(db, cls, "Calculate", 1), member(db, cls, "Calculate", 2), member(db, cls, "GetUpperLimit", 2)

    def run(g, args):
        c.saw("functions", g["fn"])
        return e.run(g, this=(("o", THIS), ()), args=[("val", a) for a in args], st=o.st.copy(), dyn=N + cls)

    def dropped(r):
        """zero below the table or for a negative entry"""
        return is_zero(r.value) and any(p and (q is mk("<", E0, S("Elow")) or (q.op == "<" and q.a[0].op == "call" and q.a[0].a[0] == "table" and is_zero(q.a[1])))
                                        for q, p in r.st.facts.items())
    for r in returns(run(g1, [E0]), g1["fn"]):
        t = r.value
        ok = dropped(r) or (t.op == "call" and t.a[0] == "table" and t.a[1] is E0 and t.a[2].op == "num" and float(t.a[2].a[0]) == 1)
        c.ob(("table", "DNDX", pname, "whole rate"), ok, where(g1), "the whole rate is read as %s" % show(t)[:100])
    outs = returns(run(g2, [E0, V]), g2["fn"])
    m = 0
    for env in grid:
        for s in (0.0, 0.08, 0.5, 0.93, 1.0):
            v = env[VCUT] + s * (env[VMAX] - env[VCUT])
            en = dict(env) | {V: v, S("Elow"): 1.0}
            for r in outs:
                if dropped(r) or not feasible(r, en, db):
                    continue
                m += 1
                t = r.value
                ok = t.op == "call" and t.a[0] == "table" and t.a[1] is E0
                got = None
                if ok:
                    w = ev(t.a[2], en, db)
                    got = tv(env, w)
                    ok = abs(got - min(max(v, env[VCUT]), env[VMAX])) < 1e-9
                c.ob(("table", "DNDX", pname, "rate up to v"), ok, where(g2), "the rate up to v = %.4g (losses from %g to %g) of %s is read for v = %s"
                     % (v, env[VCUT], env[VMAX], pname, got if got is not None else show(t)[:80]))
    c.need("reads of the table of " + pname, m, 12)
    outs = [r for r in run(g3, [E0, R]) if r.kind == "return"]
    m = 0
    for env in grid:
        for w in (0.0, 0.2, 0.6, 0.9, 1.0):
            en = dict(env) | {S("U"): w, S("Elow"): 1.0, R: 0.77}
            for r in outs:
                if not feasible(r, en, db):
                    continue
                m += 1
                how = r.st.store.get(IRR)
                ok = how is not None and abs(ev(r.value, en, db) - tv(env, w)) < 1e-9
                why = "node %g becomes the loss %.5g instead of %.5g" % (w, ev(r.value, en, db), tv(env, w))
                if ok and how.op == "solve":
                    ok = how.a[0] is R and how.a[1] is E0 and int(float(how.a[3].a[0])) == 1
                    why = "the table is solved for %s" % show(how)[:80]
                if ok and how.op == "bisect":
                    k = ev(how.a[0], en | {S("x"): 0.3}, db, lambda t, go: 2.5 if t is mk("call", "table", E0, S("x")) else None)
                    a, b = ev(how.a[1], en, db), ev(how.a[2], en, db)
                    ok = abs(k - (2.5 - 0.77)) < 1e-12 and abs(a) < 1e-12 and abs(b - 1) < 1e-12
                    why = "the table is searched by %s" % show(how)[:100]
                c.ob(("table", "DNDX", pname, "sampled loss"), ok, where(g3), "sampled loss of %s: %s" % (pname, why))
    c.need("sampled losses of the table of " + pname, m, 20)


# ------------------------------------------------------------------------------------------------- sum over targets
class Parts(object):
    """builders of the parts and properties of cut, medium and components left uninterpreted"""

    def __call__(self, n):
        b = n.split("(")[0]
        last = b.split("::")[-1]
        m = re.search(r"::make_(dndx|dedx|de2dx)<", n)
        if m:
            return lambda *a: self.make(m.group(1), *a)
        const = {"generate_cross_hash": "hash", "init_logger": "logger"}.get(last)
        if const is None and "EnergyCutSettings" in b:
            const = {"GetEcut": "ecut", "GetVcut": "vcutset", "GetContRand": "cont"}.get(last)
        if const:
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, S(const))]
        if last in ("GetSumNucleons", "GetAtomInMolecule", "GetAtomicNum", "GetLowerEnergyLim") or (last == "GetHash" and ("Component" in b or "Medium" in b)):
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, mk("call", last, eng.load(st, olv)))]
        if last in ("Calculate", "GetUpperLimit") and "CrossSectionD" in b:
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, mk("call", last, eng.load(st, olv), *[eng.aval(st, a) for a in av]))]
        return None

    def make(self, kind, eng, name, cal, olv, av, st, fr, node):
        vs = [eng.aval(st, a) for a in av]
        st = st.copy()
        eng.ntmp += 1
        root = ("h", eng.ntmp)
        st.store[root] = mk("construct", kind, *vs)
        return [(st, mk("ptr", root, ()))]


PARTS = ("dndx", "dedx", "de2dx")
HERE = ("CrossSection.h",)


def sums(db, c):
    ctors = [f for f in db.functions.values() if re.match(r"PROPOSAL::CrossSection<", f.get("cls") or "") and f.get("ctor") and not f.get("dep") and "body" in f
             and re.search(r"::CrossSection<PROPOSAL::crosssection::(\w+)", f["fn"])]
    c.need("constructors of CrossSection", len(ctors), 20)
    for f in sorted(ctors, key=lambda f: f["fn"]):
        p = re.search(r"::CrossSection<PROPOSAL::crosssection::(\w+)", f["fn"]).group(1)
        c.part(("parts", p), parts_of, db, c, f, p)
    for cls in sorted({f["cls"] for f in ctors}):
        c.part(("sum", cls), sum_of, db, c, cls)
    makes = [f for f in db.functions.values() if re.match(r"PROPOSAL::make_(dndx|dedx|de2dx)<", f["fn"]) and not f.get("dep") and "body" in f]
    c.need("builders of one part", len(makes), 60)
    for f in sorted(makes, key=lambda f: f["fn"]):
        c.part(("builder", f["fn"]), builder, db, c, f)


def machine(db, limit=2000):
    return Engine(db, inline=lambda g: rel(g["file"]).split("/")[-1] in HERE + ("Medium.h", "Medium.cxx"), opaque=Parts(), limit=limit, const_names=False, unroll=4)


def parts_of(db, c, f, pname):
    c.saw("parametrizations", pname)
    cls = f["cls"]
    wise = "bool, true" in cls.split(",", 2)[0] + "," + cls.split(",", 2)[1]
    targets = [S("c0"), S("c1")]
    med = rec(N + "Medium", None, {"components_": mk("list", *targets), "name": S("medium")})
    n = 0
    for cut in (True, False):
        e = machine(db)
        args = []
        for p, t in zip(f["params"], ptypes(f)):
            if "Medium" in t:
                args.append(("val", med))
            elif "shared_ptr" in t:
                args.append(("val", mk("ptr", ("o", S("cut")), ()) if cut else mk("null")))
            else:
                args.append(("val", S(p["n"])))
        for o in returns(e.run(f, this=(("o", THIS), ()), args=args, dyn=cls), f["fn"]):
            for ecut, vcut, cont in ((float("inf"), 1.0, True), (float("inf"), 1.0, False), (500.0, 1.0, True), (float("inf"), 0.05, False), (500.0, 0.05, True), (500., 0.05, False)):
                env = {S("ecut"): ecut, S("vcutset"): vcut, S("cont"): cont}
                if not feasible(o, env, db):
                    continue
                n += 1
                want = {"dndx": not (cut and ecut == float("inf") and vcut == 1), "dedx": cut, "de2dx": cut and cont}
                for k in PARTS:
                    t = field_of(e, o.st, cls, k)
                    key = ("parts", pname, k, "cut" if cut else "no cut")
                    setting = "e_cut=%g, v_cut=%g, cont_rand=%s" % (ecut, vcut, cont) if cut else "no cut"
                    there = t.op == "ptr"
                    if not there and t.op != "null":
                        raise AnalysisBroken("%s is %s" % (k, show(t)[:80]))
                    c.ob(key, there == want[k], where(f), "%s of %s is %s with %s" % (k, pname, "there" if there else "missing", setting))
                    if there and want[k]:
                        entries(db, c, e, o, t, k, pname, wise, targets, med, cut, key, f)
    c.need("settings for " + pname, n, 10)


def flat_container(t):
    """[(key or None, value)] of a container that was filled element by element"""
    out = []
    while True:
        if t.op == "vpush":
            out.append((None, t.a[1]))
            t = t.a[0]
        elif t.op == "mut" and t.a[0].split("::")[-1] in ("emplace", "insert"):
            a = t.a[2:]
            if len(a) == 2:
                out.append((a[0], a[1]))
            elif len(a) == 1 and a[0].op == "rec":
                out.append((rget(a[0], "first"), rget(a[0], "second")))
            else:
                raise AnalysisBroken("insertion of %s" % show(t)[:80])
            t = t.a[1]
        elif t.op in ("construct", "list", "rec") and (t.op == "construct" or not t.a):
            return out[::-1]
        else:
            raise AnalysisBroken("container %s" % show(t)[:100])


def entries(db, c, e, o, t, k, pname, wise, targets, med, cut, key, f):
    xs = flat_container(e.load(o.st, (t.a[0], t.a[1])))
    want = targets if wise else [med]
    seen = []
    for hk, x in xs:
        if x.op != "tuple" or len(x.a) != 2 or x.a[1].op != "ptr":
            raise AnalysisBroken("entry %s" % show(x)[:100])
        w, calc = x.a[0], e.load(o.st, (x.a[1].a[0], x.a[1].a[1]))
        if calc.op != "construct" or len(calc.a) < 6:
            raise AnalysisBroken("entry holds %s" % show(calc)[:100])
        kind, flag, param, p, target = calc.a[:5]
        ok = kind == k and flag is S("interpol") and param is S("param") and p is S("p")
        c.ob(key + ("arguments",), ok, where(f), "%s of %s is built as %s" % (k, pname, show(calc)[:120]))
        seen.append(target)
        if target in want:
            if wise:
                m = lambda name, x: mk("call", name, x)
                exp = mk("/", m("GetSumNucleons", med), mk("*", m("GetAtomInMolecule", target), m("GetAtomicNum", target)))
            else:
                exp = num(1)
            a, b = ev(w, {}, db), ev(exp, {}, db)
            c.ob(key + ("weight",), abs(a - b) <= 1e-12 * abs(b), where(f), "%s of %s weighs %s with %s" % (k, pname, show(target)[:20], show(w)[:100]))
            if k == "dndx":
                c.ob(key + ("key",), hk is mk("call", "GetHash", target), where(f), "the rate of %s is stored under %s" % (show(target)[:20], show(hk)[:60] if hk is not None else None))
    c.ob(key + ("targets",), sorted(x.id for x in seen) == sorted(x.id for x in want), where(f),
         "%s of %s covers the targets %s instead of %s" % (k, pname, [show(x)[:20] for x in seen], [show(x)[:20] for x in want]))


def sum_of(db, c, cls):
    vals = {"w": [2.5, 0.4], "h": [11, 12]}
    stoch = cls.rsplit("bool,", 1)[-1].strip().startswith("true")
    for there in (True, False):
        e = machine(db)
        for g in sorted([f for f in db.functions.values() if f.get("cls") == cls and f["name"].startswith("Calculate") and not f["name"].endswith("_impl") and "body" in f], key=lambda f: f["fn"]):
            c.saw("functions", g["fn"])
            st = St()
            st.store[("o", THIS)] = rec(cls, None, {k: mk("ptr", ("o", S(k)), ()) if there else mk("null") for k in PARTS})
            ps = [S("arg%d" % i) for i in range(len(g["params"]))]
            env = {p: 0.5 + i for i, p in enumerate(ps)}
            hashes = [p for p, q in zip(ps, g["params"]) if "long" in q["t"] or "size_t" in q["t"]]
            for h in (vals["h"] if hashes else [None]):
                en = dict(env)
                for p in hashes:
                    en[p] = h
                outs = e.run(g, this=(("o", THIS), ()), args=[("val", p) for p in ps], st=st.copy(), dyn=cls)
                key = ("sum", cls, g["fn"], there)
                name = g["name"]
                if name == "CalculateStochasticLoss" and not there:
                    c.ob(key, all(o.kind == "throw" for o in outs), where(g), "a stochastic loss is returned without a stochastic part")
                    continue
                for o in returns([o for o in outs if o.kind == "return"], g["fn"]):
                    part = "dedx" if name == "CalculatedEdx" else "de2dx" if name == "CalculatedE2dx" else "dndx"
                    got = interpret(o.value, en, vals, db)
                    calc = lambda i, *a: entry_number(part, i, a)
                    E = en[ps[[i for i, q in enumerate(g["params"]) if q["t"].strip() == "double"][0]]]
                    each = [calc(i, "Calculate", E) / vals["w"][i] for i in (0, 1)]
                    if not there:
                        want = [] if name == "CalculatedNdx_PerTarget" else 0.0
                    elif name in ("CalculatedEdx", "CalculatedE2dx") or (name == "CalculatedNdx" and not hashes):
                        want = sum(each)
                    elif name == "CalculatedNdx":
                        want = each[vals["h"].index(h)]
                    elif name == "CalculatedNdx_PerTarget":
                        want = [(vals["h"][i], each[i]) for i in (0, 1)]
                    elif name == "CalculateCumulativeCrosssection":
                        i = vals["h"].index(h)
                        want = calc(i, "Calculate", E, en[ps[2]]) / vals["w"][i]
                    elif name == "CalculateStochasticLoss":
                        i = vals["h"].index(h)
                        want = 1.0 if stoch else calc(i, "GetUpperLimit", E, en[ps[2]] * vals["w"][i])
                    else:
                        raise AnalysisBroken("%s is not known" % name)
                    c.ob(key, same_value(got, want), where(g), "%s of two targets with weights %s gives %s instead of %s" % (name, vals["w"], got, want))


def same_value(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-12 * max(1, abs(b))


def entry_number(part, i, a):
    return random.Random("%s %d %s" % (part, i, tuple(x if isinstance(x, str) else "%.12g" % x for x in a))).uniform(0.5, 1.5)


class Entry(object):
    def __init__(self, part, i, pair):
        self.part, self.i, self.pair = part, i, pair


def interpret(t, env, vals, db):
    def hook(x, go):
        if x.op == "sym" and x.a[0] in PARTS:
            return ("container", x.a[0])
        if x.op == "elem":
            o, k = go(x.a[0]), go(x.a[1])
            if isinstance(o, tuple) and o[0] == "container":
                if o[1] != "dndx" or isinstance(k, Index):
                    return Entry(o[1], int(k), o[1] == "dndx")
                return Entry(o[1], vals["h"].index(int(k)), False)
            return None
        if x.op == "fld":
            o = go(x.a[0])
            if isinstance(o, Entry):
                n = str(x.a[1])
                if o.pair:
                    return vals["h"][o.i] if n == "first" else Entry(o.part, o.i, False)
                return vals["w"][o.i] if n == "get<0>" else ("calc", o.part, o.i)
            return None
        if x.op == "deref":
            return go(x.a[0])
        if x.op == "call" and x.a[0] in ("Calculate", "GetUpperLimit"):
            o = go(x.a[1])
            if isinstance(o, tuple) and o[0] == "calc":
                return entry_number(o[1], o[2], (x.a[0],) + tuple(go(y) for y in x.a[2:]))
            return None
        if x.op == "list" and not x.a:
            return []
        if x.op == "construct" and "vector" in str(x.a[0]) and len(x.a) == 1:
            return []
        if x.op == "vpush":
            return list(go(x.a[0])) + [go(x.a[1])]
        if x.op == "rec" and "pair" in str(x.a[0]):
            return (go(rget(x, "first")), go(rget(x, "second")))
        if x.op == "mu":
            idx, acc, init, alts = x.a
            if len(alts) != 1 or alts[0][0]:
                raise AnalysisBroken("sum over targets with branches")
            v = go(init)
            for i in (0, 1):
                v = evalt(alts[0][1], dict(env) | {acc: v, idx: Index(i)}, db, hook)
            return v
        return None
    return evalt(t, dict(env), db, hook)


class Index(int):
    pass


def builder(db, c, f):
    kind = re.match(r"PROPOSAL::make_(\w+?)<", f["fn"]).group(1)
    e = Engine(db, inline=lambda g: False, opaque=lambda n: None, limit=100, const_names=False)
    c.saw("functions", f["fn"])
    ps = [S("arg%d" % i) for i in range(len(f["params"]))]
    for flag in (True, False):
        outs = returns(e.run(f, args=[("val", boolt(flag))] + [("lv", (("o", p), ())) if "&" in q["t"] else ("val", p) for p, q in list(zip(ps, f["params"]))[1:]]), f["fn"])
        built = 0
        for o in outs:
            t = o.value
            if t.op == "null" and len(outs) > 1:
                continue
            x = e.load(o.st, (t.a[0], t.a[1])) if t.op == "ptr" else t
            built += 1
            ok = x.op == "construct" and x.a[0] == N + "CrossSection%s%s" % (kind.upper().replace("DE2DX", "DE2DX"), "Interpolant" if flag else "Integral") and \
                [y for y in x.a[1:]] == ps[1:]
            c.ob(("builder", kind, f["fn"][:140], flag), ok, where(f), "interpolate=%s builds %s" % (flag, show(x)[:140]))
        c.ob(("builder", kind, f["fn"][:140], flag, "any"), built > 0, where(f), "nothing is built")


def check_p07(db, c):
    c.part("energy loss", continuous, db, c, "DEDX")
    c.part("variance", continuous, db, c, "DE2DX")
    c.part("rate", rates, db, c)
    c.part("ionization", ionization, db, c)
    c.part("tables", tables, db, c)
    c.part("targets", sums, db, c)


CHECKS = {"P07": (RULE, check_p07)}

"""P27 (vector algebra and rotations), P28 (energy, momentum), P10 (Lorentz boost of decay products)."""
import re
from ir import AnalysisBroken, rel
from absint import *
from data import N
from ident import Ident

C3, S3 = N + "Cartesian3D", N + "Spherical3D"
XYZ = "xyz"


def S(n):
    return mk("sym", n)


def vec(n, cls=C3):
    return rec(cls, None, {"coordinates": mk("list", *[S(n + c) for c in XYZ])})


def comps(n):
    return [S(n + c) for c in XYZ]


def ssum(l):
    r = l[0]
    for x in l[1:]:
        r = mk("+", r, x)
    return r


def mul(a, b):
    return mk("*", a, b)


def dot(a, b):
    return ssum([mul(x, y) for x, y in zip(a, b)])


def lin(*cv):
    """sum of coefficient * vector"""
    return [ssum([mul(c, v[i]) for c, v in cv]) for i in range(3)]


def engine(db, opaque=None):
    return Engine(db, inline=lambda g: True, unroll=8, const_names=False, opaque=opaque)


def at(e, st, root, fields=()):
    return e.load(st, (root, tuple(fields)))


def rvec(e, st, v):
    """coordinates of a vector value"""
    if v.op in ("lv", "lvref", "ref"):
        v = e.aval(st, v)
    f = rget(v, "coordinates")
    if f is None or f.op == "fld":
        raise AnalysisBroken("vector value not recognised: %s" % show(v)[:160])
    return list3(e, st, f)


def list3(e, st, f):
    if f.op in ("lv", "lvref"):
        f = e.aval(st, f)
    while f.op == "construct" and len(f.a) == 2 and f.a[1].op in ("list", "construct"):
        f = f.a[1]
    if f.op == "list" and len(f.a) == 1 and f.a[0].op == "list":
        f = f.a[0]
    r = [rget(f, num(i)) for i in range(3)]
    if any(x is None for x in r):
        raise AnalysisBroken("three components not recognised: %s" % show(f)[:160])
    return r


def pick(db, name, pred, what):
    fs = [f for f in db.functions.values() if qname(f) == name and pred(f)]
    if len(fs) != 1:
        raise AnalysisBroken("%s: %d candidates for %s" % (name, len(fs), what))
    return fs[0]


def qname(f):
    n = re.sub(r"<[^<>]*>", "", f["fn"])
    return n.split("(")[0]


def ptypes(f):
    return [strip_type(p["t"]) for p in f["params"]]


def where(f):
    return (rel(f["file"]), f["line"])


def returns(outs, what):
    r = [o for o in outs if o.kind == "return"]
    if not r:
        raise AnalysisBroken("%s never returns" % what)
    return r


def same(c, I, key, got, want, facts, w, what):
    """component-wise equality as one obligation"""
    bad = []
    for i, (a, b) in enumerate(zip(got, want)):
        r = I.equal(a, b, facts)
        if r is not True:
            bad.append("component %d: %s instead of %s (%s)" % (i, show(a)[:120], show(b)[:120], r))
    c.ob(key, not bad, w, "%s: %s" % (what, "; ".join(bad)))


def is0(c, I, key, t, facts, w, what):
    r = I.zero(t, facts)
    c.ob(key, r is True, w, "%s: %s (%s)" % (what, r, show(t)[:160]))


# ------------------------------------------------------------------------------------------------ P27
def run(db, f, this=None, cls=C3, args=None, opaque=None, mem=None):
    e = engine(db, opaque)
    st = St()
    if this is not None:
        st.store[("o", mk("this"))] = this
    for p in f["params"]:
        t = strip_type(p["t"])
        r = (args or {}).get(p["n"])
        if t in (C3, S3, N + "Vector3D"):
            st.store[("o", S(p["n"]))] = r if r is not None else vec(p["n"], C3 if t != S3 else S3)
        elif r is not None:
            st.store[("o", S(p["n"]))] = r
    for k, v in (mem or {}).items():
        st.store[k] = v
    return e, e.run(f, st=st)


def value_args(f):
    return [p["n"] for p in f["params"]]


def p27_ops(db, c):
    I = Ident(db)

    def binop(name, types, expect, scalar, what):
        f = pick(db, N + name, lambda g: ptypes(g) == types, what)
        c.saw("functions", f["fn"])
        e, outs = run(db, f)
        a = [comps(p["n"]) if strip_type(p["t"]) == C3 else S(p["n"]) for p in f["params"]]
        for o in returns(outs, f["fn"]):
            v = o.value
            if scalar:
                is0(c, I, what, mk("-", v, expect(*a)), o.st.facts, where(f), what)
            else:
                same(c, I, what, rvec(e, o.st, v), expect(*a), o.st.facts, where(f), what)
    binop("operator+", [C3, C3], lambda a, b: [mk("+", x, y) for x, y in zip(a, b)], False, "sum of two vectors")
    binop("operator-", [C3, C3], lambda a, b: [mk("-", x, y) for x, y in zip(a, b)], False, "difference of two vectors")
    binop("operator*", [C3, C3], dot, True, "scalar product")
    binop("operator*", [C3, "double"], lambda a, s: [mul(x, s) for x in a], False, "vector times number")
    binop("operator*", ["double", C3], lambda s, a: [mul(x, s) for x in a], False, "number times vector")
    binop("vector_product", [C3, C3], lambda a, b: [mk("-", mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)],
          False, "vector product")
    # unary minus, +=
    f = pick(db, C3 + "::operator-", lambda g: not g["params"], "negation")
    e, outs = run(db, f, vec("v"))
    for o in returns(outs, f["fn"]):
        same(c, I, "negative of a vector", rvec(e, o.st, o.value), [mk("neg", x) for x in comps("v")], o.st.facts, where(f), "negation")
    f = pick(db, C3 + "::operator+=", lambda g: len(g["params"]) == 1, "addition in place")
    e, outs = run(db, f, vec("v"))
    p = f["params"][0]["n"]
    for o in returns(outs, f["fn"]):
        same(c, I, "addition in place", rvec(e, o.st, at(e, o.st, ("o", mk("this")))), [mk("+", x, y) for x, y in zip(comps("v"), comps(p))], o.st.facts, where(f), "operator+=")
    c.saw("functions", f["fn"])


def p27_norm(db, c):
    I = Ident(db)
    f = db.fn(C3 + "::magnitude", 0)
    e, outs = run(db, f, vec("v"))
    for o in returns(outs, f["fn"]):
        is0(c, I, "Cartesian magnitude", mk("-", o.value, mk("sqrt", dot(comps("v"), comps("v")))), o.st.facts, where(f), "magnitude is the Euclidean norm")
    f = db.fn(C3 + "::normalize", 0)
    c.saw("functions", f["fn"])
    e, outs = run(db, f, vec("v"))
    ln = mk("sqrt", dot(comps("v"), comps("v")))
    for o in returns(outs, f["fn"]):
        if not I.feasible(o.st.facts):
            continue
        if any(t == mk("==", ln, num(0)) and b for t, b in o.st.facts.items()):
            continue
        same(c, I, "Cartesian normalize", [mul(x, ln) for x in rvec(e, o.st, at(e, o.st, ("o", mk("this"))))], comps("v"), o.st.facts, where(f), "normalize divides by the norm")
    f = db.fn(S3 + "::magnitude", 0)
    e, outs = run(db, f, vec("v", S3))
    for o in returns(outs, f["fn"]):
        is0(c, I, "spherical magnitude", mk("-", o.value, S("vx")), o.st.facts, where(f), "the magnitude of a spherical vector is its radius")
    f = db.fn(S3 + "::normalize", 0)
    c.saw("functions", f["fn"])
    e, outs = run(db, f, vec("v", S3))
    for o in returns(outs, f["fn"]):
        same(c, I, "spherical normalize", rvec(e, o.st, at(e, o.st, ("o", mk("this")))), [num(1), S("vy"), S("vz")], o.st.facts, where(f), "normalize only sets the radius to one")


def pairs(t):
    return t


def p27_coordinates(db, c):
    """spherical <-> Cartesian"""
    I = Ident(db, domain=lambda t: {"r": (0.01, 4), "th": (0, 3.1415), "ph": (-3.14, 3.14)}.get(t.a[0] if t.op == "sym" else ""))
    r, ph, th = S("r"), S("ph"), S("th")
    cart = [mul(r, mul(mk("cos", ph), mk("sin", th))), mul(r, mul(mk("sin", ph), mk("sin", th))), mul(r, mk("cos", th))]
    # (radius, azimuth, zenith) order of the accessors
    for cls, order in ((S3, ["Radius", "Azimuth", "Zenith"]), (C3, ["X", "Y", "Z"])):
        for i, n in enumerate(order):
            f = db.fn(cls + "::Get" + n, 0)
            e, outs = run(db, f, vec("v", cls))
            for o in returns(outs, f["fn"]):
                is0(c, I, "%s::Get%s" % (cls.split("::")[-1], n), mk("-", o.value, comps("v")[i]), o.st.facts, where(f), "component read by the accessor")
            f = db.fn(cls + "::Set" + n, 1)
            e, outs = run(db, f, vec("v", cls))
            want = comps("v")
            want[i] = S(f["params"][0]["n"])
            for o in returns(outs, f["fn"]):
                same(c, I, "%s::Set%s" % (cls.split("::")[-1], n), rvec(e, o.st, at(e, o.st, ("o", mk("this")))), want, o.st.facts, where(f), "component written by the accessor")
            c.saw("functions", f["fn"])
    sph = rec(S3, None, {"coordinates": mk("list", r, ph, th)})
    crt = rec(C3, None, {"coordinates": mk("list", *cart)})
    f = db.fn(S3 + "::GetCartesianCoordinates", 0)
    c.saw("functions", f["fn"])
    e, outs = run(db, f, sph)
    for o in returns(outs, f["fn"]):
        same(c, I, "spherical to Cartesian", list3(e, o.st, o.value), cart, o.st.facts, where(f), "r (sin z cos a, sin z sin a, cos z)")
    f = db.fn(C3 + "::GetSphericalCoordinates", 0)
    c.saw("functions", f["fn"])
    # the spherical coordinates reported for a Cartesian vector describe the same vector
    J = Ident(db)
    e, outs = run(db, f, vec("v"))
    ln = mk("sqrt", dot(comps("v"), comps("v")))
    n = 0
    for o in returns(outs, f["fn"]):
        if not J.feasible(o.st.facts):
            continue
        q = list3(e, o.st, o.value)
        n += 1
        back = [mul(q[0], mul(mk("cos", q[1]), mk("sin", q[2]))), mul(q[0], mul(mk("sin", q[1]), mk("sin", q[2]))), mul(q[0], mk("cos", q[2]))]
        same(c, J, "Cartesian to spherical", back, comps("v"), o.st.facts, where(f), "spherical coordinates describe the same vector")
        is0(c, J, "Cartesian to spherical: radius", mk("-", q[0], ln), o.st.facts, where(f), "the radius is the norm")
    if not n:
        raise AnalysisBroken("no path through " + f["fn"])
    for cls, other, val in ((C3, S3, None), (S3, C3, None)):
        f = db.fn(cls + "::Get%sCoordinates" % ("Cartesian" if cls == C3 else "Spherical"), 0)
        e, outs = run(db, f, vec("v", cls))
        for o in returns(outs, f["fn"]):
            same(c, I, "%s: own coordinates" % cls, list3(e, o.st, o.value), comps("v"), o.st.facts, where(f), "coordinates of the own system are returned unchanged")
        # conversion constructors
        g = pick(db, cls + "::" + cls.split("::")[-1], lambda x: ptypes(x) == [N + "Vector3D"], "conversion")
        c.saw("functions", g["fn"])
        want = {C3: "GetCartesianCoordinates", S3: "GetSphericalCoordinates"}[cls]

        def coords(eng, name, cal, olv, avals, st, fr, node, want=want):
            if name.split("(")[0].split("::")[-1] != want:
                return [(st, mk("list", S("wrong1"), S("wrong2"), S("wrong3")))]
            return [(st, mk("list", S("k1"), S("k2"), S("k3")))]
        e, outs = run(db, g, opaque=lambda n: coords if n.split("(")[0].split("::")[-1] in ("GetCartesianCoordinates", "GetSphericalCoordinates") else None)
        for o in returns(outs, g["fn"]):
            v = at(e, o.st, ("o", mk("this")))
            same(c, I, "conversion to " + cls, list3(e, o.st, e.load(o.st, (("o", mk("this")), ("coordinates",)))), [S("k1"), S("k2"), S("k3")], o.st.facts, where(g), "a vector is converted through the coordinates of the target system")


def rot_opaque(th, ph):
    def sph(eng, name, cal, olv, avals, st, fr, node):
        return [(st, mk("list", num(1), ph, th))]
    return lambda n: sph if n.split("(")[0].endswith("3D::GetSphericalCoordinates") else None


DOM = {"th": (0.0, 3.1415), "ph": (-3.14, 3.14)}


def frame(th, ph):
    st, ct, sp, cp = mk("sin", th), mk("cos", th), mk("sin", ph), mk("cos", ph)
    d = [mul(st, cp), mul(st, sp), ct]
    e1 = [mul(ct, cp), mul(ct, sp), mk("neg", st)]
    e2 = [mk("neg", sp), cp, num(0)]
    return d, e1, e2


def p27_deflect(db, c):
    f = db.fn(C3 + "::deflect", 2)
    c.saw("functions", f["fn"])
    cp, ta = [S(p["n"]) for p in f["params"]]
    th, ph = S("th"), S("ph")
    d, e1, e2 = frame(th, ph)
    I = Ident(db, domain=lambda t: (-1.0, 1.0) if t is cp else DOM.get(t.a[0] if t.op == "sym" else ""))
    s = mk("sqrt", mk("-", num(1), mul(cp, cp)))
    this = rec(C3, None, {"coordinates": mk("list", *d)})
    for mode, opq in (("spherical coordinates of the direction as atoms", rot_opaque(th, ph)), ("spherical coordinates computed", None)):
        e, outs = run(db, f, this, opaque=opq)
        n = 0
        for o in returns(outs, f["fn"]):
            facts = dict(o.st.facts)
            facts[mk("<=", cp, num(1))] = True
            facts[mk("<=", num(-1), cp)] = True
            if not I.feasible(facts):
                continue
            n += 1
            got = rvec(e, o.st, at(e, o.st, ("o", mk("this"))))
            is0(c, I, "deflect: unit norm", mk("-", dot(got, got), num(1)), facts, where(f), "the deflected direction has unit norm")
            is0(c, I, "deflect: angle", mk("-", dot(got, d), cp), facts, where(f), "the cosine of the angle to the original direction is the requested one")
            if opq:
                same(c, I, "deflect: azimuth", got, lin((cp, d), (mul(s, mk("cos", ta)), e1), (mul(s, mk("sin", ta)), e2)), facts, where(f), "azimuth of the deflection in the frame of the direction")
        if n < 2:
            raise AnalysisBroken("deflect: %d feasible paths" % n)
    # untouched for no deflection: covered above by the first path (cos = 1, azimuth = 0)


def p27_random_direction(db, c):
    f = db.fn(N + "DecayChannel::GenerateRandomDirection", 0)
    c.saw("functions", f["fn"])
    e = engine(db, rnd_opaque())
    I = Ident(db, domain=lambda t: (0.0, 1.0) if t.op == "rnd" else None)
    for o in returns(e.run(f), f["fn"]):
        v = rvec(e, o.st, o.value)
        is0(c, I, "random direction: unit norm", mk("-", dot(v, v), num(1)), o.st.facts, where(f), "random directions have unit norm")
        # isotropy: the polar cosine is uniform in [-1, 1], the azimuth uniform over a full turn, drawn independently
        rn = sorted({x for t in v for x in sub(t) if x.op == "rnd"}, key=lambda x: x.id)
        c.ob("random direction: two independent random numbers", len(rn) == 2, where(f), "uses %d random numbers" % len(rn))
        if len(rn) == 2:
            ok = False
            for a, b in (rn, rn[::-1]):
                # z = +-(2 a - 1); (x, y) = sqrt(1 - z^2) (cos, sin)(2 pi b)
                for z in (mk("-", mul(num(2), a), num(1)), mk("-", num(1), mul(num(2), a))):
                    if I.equal(v[2], z, o.st.facts) is True:
                        st = mk("sqrt", mk("-", num(1), mul(z, z)))
                        phi = mul(mul(num(2), num(3.141592653589793)), b)
                        if all(I.equal(v[i], mul(st, mk(g, phi)), o.st.facts) is True for i, g in ((0, "cos"), (1, "sin"))):
                            ok = True
            c.ob("random direction: isotropic", ok, where(f), "direction is %s" % show(mk("list", *v))[:300])


def rnd_opaque(extra=None):
    def rnd(eng, name, cal, olv, avals, st, fr, node):
        eng.nfresh = getattr(eng, "nfresh", 0) + 1
        return [(st, mk("rnd", eng.nfresh))]

    def pred(n):
        b = n.split("(")[0]
        if b.endswith("RandomGenerator::RandomDouble"):
            return rnd
        return extra(n) if extra else None
    return pred


def p27_scatter(db, c):
    f = db.fn(N + "multiple_scattering::ScatterInitialDirection", 2)
    c.saw("functions", f["fn"])
    th, ph = S("th"), S("ph")
    d, e1, e2 = frame(th, ph)
    off = f["params"][1]["n"]
    o4 = {n: mk("sym", n) for n in ("sx", "sy", "tx", "ty")}
    I = Ident(db, domain=lambda t: (-0.7, 0.7) if t in o4.values() else DOM.get(t.a[0] if t.op == "sym" else ""))
    this = rec(C3, None, {"coordinates": mk("list", *d)})
    e, outs = run(db, f, None, args={f["params"][0]["n"]: this, off: rec(strip_type(f["params"][1]["t"]), None, o4)}, opaque=rot_opaque(th, ph))
    for o in returns(outs, f["fn"]):
        v = o.value
        for i, (which, a, b) in enumerate((("mean", "sx", "sy"), ("final", "tx", "ty"))):
            q = rget(v, "first" if i == 0 else "second")
            if q is None or q.op == "fld":
                q = v.a[i] if v.op in ("list", "tuple") else v.a[1 + i]
            got = rvec(e, o.st, q)
            z = mk("sqrt", mk("-", num(1), mk("+", mul(o4[a], o4[a]), mul(o4[b], o4[b]))))
            is0(c, I, "scattering: %s direction has unit norm" % which, mk("-", dot(got, got), num(1)), o.st.facts, where(f), "unit norm of the %s direction" % which)
            same(c, I, "scattering: %s direction" % which, got, lin((z, d), (o4[a], e1), (o4[b], e2)), o.st.facts, where(f), "offsets along the two axes orthogonal to the direction")


def check_p27(db, c):
    for n, g in (("operators", p27_ops), ("norms", p27_norm), ("coordinate systems", p27_coordinates), ("deflection", p27_deflect),
                 ("random direction", p27_random_direction), ("multiple scattering", p27_scatter)):
        c.part(n, g, db, c)
    c.need("obligations", len(c.obs), 30)


CHECKS = {
    "P27": ("vector operations, coordinate systems and rotations are extracted from the source path by path and compared with their definitions as identities of real algebra (normal form; identity testing where the normal form does not settle it)", check_p27),
}

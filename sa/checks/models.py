"""P10 (energy and momentum balance), P11 (place and time of secondaries), P12 (announced random numbers) of the interaction models."""
import re
import terms
from ir import AnalysisBroken, rel
from absint import *
from data import N, global_value
from ident import Ident
from kinematics import S, vec, comps, mul, dot, lin, ssum, qname, strip_type, where, pick, ptypes, frame, engine, C3, XYZ, rvec, list3

BASE = N + "secondaries::Parametrization"
PS = N + "ParticleState"
STOP = (N + "Integral::", N + "CrossSectionDNDX", N + "Interpolant::", N + "CubicInterpolation")


def method(db, base, name):
    m = [m for m in db.records[base]["methods"] if qname(m).split("::")[-1] == name]
    if len(m) != 1:
        raise AnalysisBroken("%s: %d methods named %s" % (base, len(m), name))
    return m[0]["fn"]


def models(db):
    bf = method(db, BASE, "CalculateSecondaries")
    r = []
    for cls in sorted(db.all_derived(BASE)):
        if cls.startswith("<template>") or db.records[cls].get("abstract"):
            continue
        fn, _ = db.resolve(bf, cls)
        f = db.functions.get(fn)
        if f is None or "body" not in f:
            raise AnalysisBroken("%s::CalculateSecondaries has no definition" % cls)
        r.append((cls, f))
    return r


class Deflections(object):
    """deflect and normalize as atoms: what they return is a unit vector (P27 decides that)"""

    def __init__(self):
        self.by = {}

    def pred(self, n):
        b = n.split("(")[0]
        if b.endswith("3D::deflect"):
            return self.deflect
        if b.endswith("3D::normalize"):
            return self.normalize
        if b.split("<")[0].endswith("PROPOSAL::Bisection"):
            return self.bisection
        return None

    def unit(self, eng, st, olv, fr, node, key):
        t = mk("unit", *key)
        self.by[t] = key
        st = st.copy()
        eng.save(st, olv + ("coordinates",) if False else (olv[0], tuple(olv[1]) + ("coordinates",)), mk("list", *[mk("comp", t, num(i)) for i in range(3)]), fr, node)
        return [(st, t)]

    def coords(self, eng, st, olv):
        v = eng.load(st, olv)
        return mk("list", *list3(eng, st, rget(v, "coordinates")))

    def deflect(self, eng, name, cal, olv, avals, st, fr, node):
        a = [eng.aval(st, x) for x in avals]
        return self.unit(eng, st, olv, fr, node, (mk("deflect", self.coords(eng, st, olv), *a),))

    def normalize(self, eng, name, cal, olv, avals, st, fr, node):
        return self.unit(eng, st, olv, fr, node, (mk("normalize", self.coords(eng, st, olv)),))

    def bisection(self, eng, name, cal, olv, avals, st, fr, node):
        a = [eng.aval(st, x) for x in avals]
        eng.nfresh += 1
        r = mk("root", eng.nfresh, a[1], a[2])
        return [(st, mk("list", r, mk("root2", eng.nfresh)))]


def loss_value():
    return rec(N + "StochasticLoss", None, {
        "position": vec("r"), "direction": vec("u"), "energy": S("l"), "parent_particle_energy": S("E"), "time": S("t"),
        "propagated_distance": S("s"), "type": S("losstype"), "target_hash": S("target_hash")})


def stop(g):
    if any(g["fn"].startswith(s) for s in STOP):
        return False
    return not (g.get("cls") or "").startswith((N + "crosssection::", N + "detail::")) and not qname(g).startswith(N + "detail::")


PROJ, WEAK, MASS = S("projectile type"), S("weak partner type"), S("M")


def constructed(db, cls):
    """value of the model as its (particle, medium) constructor leaves it"""
    cs = [g for g in db.functions.values() if g.get("cls") == cls and g.get("ctor") and [strip_type(p["t"]) for p in g["params"]] == [N + "ParticleDef", N + "Medium"]]
    if len(cs) != 1:
        raise AnalysisBroken("%s: %d constructors from particle and medium" % (cls, len(cs)))
    e = Engine(db, inline=stop, unroll=8, const_names=False)
    st = St()
    st.store[("o", mk("this"))] = rec(cls, None, {})
    p = rec(N + "ParticleDef", None, {"mass": MASS, "particle_type": PROJ, "weak_partner": WEAK})
    outs = [o for o in e.run(cs[0], st=st, dyn=cls, args=[("val", p), ("val", rec(N + "Medium", None, {}))]) if o.kind == "return"]
    if not outs:
        raise AnalysisBroken("%s: constructor does not return" % cls)
    return [e.load(o.st, (("o", mk("this")), ())) for o in outs]


def rnd_of(cls):
    return mk("sym", "random numbers of " + cls)


def calculate(db, cls, f):
    """-> engine, deflections, [(outcome, [state, ...])], number of throwing paths"""
    memo = db.__dict__.setdefault("_models", {})
    if cls in memo:
        if isinstance(memo[cls], AnalysisBroken):
            raise memo[cls]
        return memo[cls]
    try:
        memo[cls] = _calculate(db, cls, f)
    except AnalysisBroken as e:
        memo[cls] = e
        raise
    return memo[cls]


def _calculate(db, cls, f):
    res, thrown, d, outs = [], 0, Deflections(), []
    for this in constructed(db, cls):
        e = Engine(db, inline=stop, unroll=8, const_names=False, opaque=d.pred)
        st = St()
        st.store[("o", mk("this"))] = this
        v = loss_value()
        outs = e.run(f, st=st, dyn=cls, args=[("val", v), None, ("lv", (("o", rnd_of(cls)), ()))])
        for o in outs:
            if o.kind != "return":
                thrown += 1
                continue
            res.append((o, states(e, o)))
    if not res:
        raise AnalysisBroken("%s::CalculateSecondaries never returns" % cls)
    return e, d, res, thrown


def states(e, o):
    x = o.value
    if x.op in ("lv", "lvref", "ref"):
        x = e.aval(o.st, x)
    while x.op == "construct" and len(x.a) >= 2 and isinstance(x.a[1], T) and x.a[1].op in ("list", "construct"):
        x = x.a[1]
    if x.op == "construct" and len(x.a) == 1:
        return []
    if x.op != "list":
        raise AnalysisBroken("list of secondaries not recognised: %s" % show(x)[:200])
    r = []
    for y in x.a:
        if y.op in ("lv", "lvref", "ref"):
            y = e.aval(o.st, y)
        if y.op != "rec" or y.a[0] != PS:
            raise AnalysisBroken("secondary particle not recognised: %s" % show(y)[:200])
        r.append(y)
    return r


# ------------------------------------------------------------------------------------------------ oracle of the processes
def const(db, n):
    g = db.globals.get(N + n)
    if g is None or "cv" not in g:
        raise AnalysisBroken("constant %s not found" % n)
    return num(float(g["cv"]))


class Process(object):
    """what goes in and what comes out of an interaction"""
    types = {
        "Brems": ("total", ["projectile", "Gamma"]),
        "Epair": ("total", ["projectile", "EMinus", "EPlus"]),
        "MuPair": ("total", ["projectile", "MuMinus", "MuPlus"]),
        "Photonuclear": ("total", ["projectile", "Hadron"]),
        "Photopair": ("total", ["EMinus", "EPlus"]),
        "PhotoMuPair": ("total", ["MuMinus", "MuPlus"]),
        "Ioniz": ("electron", ["projectile", "EMinus"]),
        "Compton": ("electron", ["Gamma", "EMinus"]),
        "Annihilation": ("electron", ["Gamma", "Gamma"]),
        "Photoeffect": ("shell", ["EMinus"]),
        "WeakInt": ("loss", ["weak partner", "Hadron"]),
        "Photoproduction": ("loss", ["Hadron"]),
    }

    def __init__(self, db, kind):
        if kind not in self.types:
            raise AnalysisBroken("no oracle for interaction type %s" % kind)
        self.kind = kind
        mode, self.out = self.types[kind]
        E, l, me = S("E"), S("l"), const(db, "ME")
        self.E, self.l, self.me = E, l, me
        self.total = {"total": E, "electron": mk("+", E, me), "loss": l}.get(mode)
        if mode == "shell":
            za = mul(mk("call", "Z"), const(db, "ALPHA"))
            self.total = mk("-", mk("+", E, me), mk("/", mul(mul(za, za), me), num(2)))
        self.what = {"total": "the energy of the projectile", "electron": "the energies of projectile and atomic electron",
                     "shell": "the energies of photon and bound K-shell electron", "loss": "the energy given off (all of the projectile's)"}[mode]

    def masses(self, db):
        m = {"projectile": MASS, "Gamma": num(0), "EMinus": self.me, "EPlus": self.me}
        return [m.get(x) for x in self.out]


def interaction(db, cls):
    fn, _ = db.resolve(method(db, BASE, "GetInteractionType"), cls)
    f = db.functions[fn]
    e = Engine(db, inline=stop, unroll=8)
    vs = {o.value for o in e.run(f, dyn=cls)}
    if len(vs) != 1:
        raise AnalysisBroken("%s: interaction type not a constant" % cls)
    v = vs.pop()
    while v.op in ("cast", "conv", "int"):
        v = v.a[-1]
    names = {int(c[1]): c[0] for c in db.enums[N + "InteractionType"]["c"]}
    if v.op == "glob":
        v = global_value(db, v.a[0])[0][0]
    if v.op == "enum":
        return str(v.a[0]).split("::")[-1]
    if isnum(v) and v.a[0] in names:
        return names[v.a[0]]
    raise AnalysisBroken("%s: interaction type %s" % (cls, show(v)))


def species(t):
    while t.op in ("cast", "conv", "int"):
        t = t.a[-1]
    if t is PROJ:
        return "projectile"
    if t is WEAK:
        return "weak partner"
    if t.op == "enum":
        return str(t.a[0]).split("::")[-1]
    return show(t)


def nucz(t):
    """nuclear charge of the target component, however it is read"""
    m = {}
    for x in sub(t):
        if x.op == "call" and str(x.a[0]).split("(")[0].endswith("Component::GetNucCharge") or x.op == "fld" and str(x.a[1]).lower().startswith("nuccharge"):
            m[x] = mk("call", "Z")
    return subst(t, m) if m else t


def short(cls):
    return re.sub(r"PROPOSAL::(secondaries::|crosssection::)?", "", cls)


def direction(s):
    v = rget(s, "direction")
    f = rget(v, "coordinates")
    if f is None or f.op in ("fld", "undef"):
        raise AnalysisBroken("direction not recognised: %s" % show(v)[:120])
    return list3(None, None, f)


# ------------------------------------------------------------------------------------------------ P10, interactions
def unit_key(d, D):
    """the deflection a direction comes from: (cos, azimuth), None for the direction of the projectile"""
    if [x for x in d] == comps("u"):
        return None
    if all(x.op == "comp" for x in d) and len({x.a[0] for x in d}) == 1 and [x.a[1] for x in d] == [num(i) for i in range(3)]:
        u = d[0].a[0]
        return D.by.get(u, (None,))[0]
    return False


def p10_model(db, c, cls, f):
    c.saw("interaction models", short(cls))
    P = Process(db, interaction(db, cls))
    e, D, res, thrown = calculate(db, cls, f)
    w = where(f)
    I = Ident(db, domain=lambda t: {S("E"): (200.0, 1e4), S("l"): (1.0, 150.0), MASS: (0.5, 110.0)}.get(t))
    for o, ss in res:
        if not ss:
            c.ob("%s: energy balance" % short(cls), False, w, "no particle is produced: the energy of the projectile disappears")
            continue
        tot = nucz(ssum([rget(s, "energy") for s in ss]))
        r = I.equal(tot, P.total, o.st.facts)
        c.ob("%s: energy balance" % short(cls), r is True, w, "the produced particles carry %s, expected %s (%s)" % (show(tot)[:200], P.what, r))
    if P.kind in ("Ioniz", "Compton", "Annihilation"):
        for o, ss in res:
            p10_momentum(db, c, cls, f, P, D, o, ss)
    if P.kind == "Brems":
        for o, ss in res:
            p10_brems(db, c, cls, f, P, D, o, ss)


def p10_momentum(db, c, cls, f, P, D, o, ss):
    """two-body kinematics with an electron at rest: the momenta of the products add up to the one of the projectile"""
    me, E, l, g, x = P.me, P.E, P.l, S("gamma"), S("x")
    sq = lambda t: mul(t, t)
    m = {}
    if P.kind == "Ioniz":
        m[E] = mul(MASS, g)
        p2 = mk("-", sq(m[E]), sq(MASS))
        m[l] = mk("/", mul(mul(num(2), me), mul(p2, sq(x))), mk("-", sq(mk("+", m[E], me)), mul(p2, sq(x))))
        min_ = MASS
    elif P.kind == "Compton":
        m[E] = mul(me, g)
        m[l] = mul(m[E], mk("-", num(1), mk("/", num(1), mk("+", num(1), mul(g, mk("-", num(1), x))))))
        min_ = num(0)
    else:
        m[MASS], m[E] = me, mul(me, g)
        min_ = me
    I0 = Ident(db, subst=m)

    def root(t):
        r = {}
        for y in sub(t):
            if y.op == "root" and y.a[2] is not num(0):
                lo, hi = y.a[1], y.a[2]
                r[y] = mk("+", lo, mul(mk("-", hi, lo), mk("/", mk("+", x, num(1)), num(2))))
        return subst(t, r) if r else t
    dom = {g: (1.001, 40.0), x: (-0.999, 0.999), MASS: (0.3, 110.0)}
    I = Ident(db, subst=m, domain=lambda t: dom.get(t) or ((0.0, 1.0) if t.op == "elem" else None))
    facts = [(root(k), v) for k, v in o.st.facts.items()]
    if not I.feasible(facts) or any(y.op == "root" and y.a[2] is num(0) for s in ss for y in sub(rget(s, "energy"))):
        return      # at rest: no direction to speak of
    masses = P.masses(db)
    px, py, pz = [], [], []
    for s in ss:
        k = unit_key(direction(s), D)
        if k is False or k is None or k.op != "deflect" or list(k.a[0].a) != comps("u"):
            raise AnalysisBroken("%s: direction of a product is not a deflection of the projectile" % cls)
        mass = {"projectile": MASS, "EMinus": me, "Gamma": num(0)}.get(species(rget(s, "type")))
        if mass is None:
            raise AnalysisBroken("%s: product %s" % (cls, species(rget(s, "type"))))
        en, co, ph = root(rget(s, "energy")), root(k.a[1]), root(k.a[2])
        p = mk("sqrt", mk("-", sq(en), sq(mass))) if mass is not num(0) else en
        si = mk("sqrt", mk("max", mk("-", num(1), sq(co)), num(0)))
        pz.append(mul(p, co))
        px.append(mul(mul(p, si), mk("cos", ph)))
        py.append(mul(mul(p, si), mk("sin", ph)))
    w = where(f)
    pin = mk("sqrt", mk("-", sq(P.E), sq(min_)))
    for n, l, want in (("along the projectile", pz, pin), ("across the projectile", px, num(0)), ("across the projectile", py, num(0))):
        r = I.equal(ssum(l), want, facts)
        c.ob("%s: momentum %s" % (short(cls), n), r is True, w, "momentum %s is not conserved: %s" % (n, r))


def p10_brems(db, c, cls, f, P, D, o, ss):
    """a projectile that is deflected by radiating flies along its momentum minus the one of the photon"""
    dirs = {species(rget(s, "type")): (unit_key(direction(s), D), direction(s), s) for s in ss}
    if set(dirs) != {"projectile", "Gamma"}:
        return
    k, d, s = dirs["projectile"]
    if k is None and dirs["Gamma"][0] is None:
        return
    if k is False or k is None or k.op != "normalize":
        c.ob("%s: momentum balance" % short(cls), False, where(f), "the photon is deflected, the direction of the projectile does not follow from the momenta")
        return
    gd = dirs["Gamma"][1]
    p = mk("sqrt", mul(mk("+", P.E, MASS), mk("-", P.E, MASS)))
    want = lin((p, comps("u")), (mk("neg", rget(dirs["Gamma"][2], "energy")), gd))
    got = list(k.a[0].a)
    I = Ident(db, domain=lambda t: {S("E"): (200.0, 1e4), S("l"): (1.0, 150.0), MASS: (0.5, 110.0)}.get(t))
    bad = []
    for i in range(3):
        j, m = (i + 1) % 3, (i + 2) % 3
        r = I.zero(mk("-", mul(got[j], want[m]), mul(got[m], want[j])), o.st.facts)
        if r is not True:
            bad.append(r)
    r = I.zero(mk("-", dot(got, want), mk("sqrt", mul(dot(got, got), dot(want, want)))), o.st.facts)
    if r is not True:
        bad.append(r)
    c.ob("%s: momentum balance" % short(cls), not bad, where(f), "direction of the projectile is not the one of its momentum minus the photon's: %s" % bad[:1])


# ------------------------------------------------------------------------------------------------ P10, decays
def typesym(t):
    while t.op in ("cast", "conv", "int"):
        t = t.a[-1]
    return t


class DecayRun(object):
    """one decay channel: daughters of free masses, the parent with free energy and direction"""

    def __init__(self, db, cls, f, n=None, uniform=None):
        self.db, self.cls, self.f = db, cls, f
        self.daughters = []
        this, st = {}, St()
        fields = db.fields(cls)
        names = [x["n"] if isinstance(x, dict) else x for x in fields]
        types = {x["n"]: x["t"] for x in fields if isinstance(x, dict)}
        for x in names:
            if strip_type(types.get(x, "")) == N + "ParticleDef":
                this[x] = self.pdef(len(self.daughters), massless="neutrino" in x)
        if n is not None:
            ps = []
            for k in range(n):
                root = ("o", mk("daughter", k))
                st.store[root] = self.pdef(k)
                ps.append(mk("ptr", root, ()))
            ms = [m for _, m in self.daughters]
            vals = {"daughters_": mk("list", *ps), "daughter_masses_": mk("list", *ms), "number_of_daughters_": num(n),
                    "sum_daughter_masses_": ssum(ms), "uniform_": boolt(uniform)}
            for k in vals:
                if k not in names:
                    raise AnalysisBroken("%s: no field %s" % (cls, k))
            this.update(vals)
        st.store[("o", mk("this"))] = rec(cls, None, this)
        self.d, _, _ = frame(S("th"), S("ph"))
        pd, pc = f["params"]
        st.store[("o", S(pd["n"]))] = rec(N + "ParticleDef", None, {"mass": S("mP"), "particle_type": S("typeP")})
        st.store[("o", S(pc["n"]))] = rec(PS, None, {"position": vec("r"), "direction": rec(C3, None, {"coordinates": mk("list", *self.d)}),
                                                     "energy": S("E"), "time": S("t"), "type": S("typeP"), "propagated_distance": S("s")})
        self.e = Engine(db, inline=lambda g: True, unroll=8, peel=1, const_names=False, opaque=self.opaque)
        self.nrnd = self.ndir = 0
        self.outs = self.e.run(f, st=st, dyn=cls)

    def pdef(self, k, massless=False):
        m = num(0) if massless else S("m%d" % k)
        self.daughters.append((S("type%d" % k), m))
        return rec(N + "ParticleDef", None, {"mass": m, "particle_type": S("type%d" % k), "name": S("name%d" % k)})

    # ---- what is not followed
    def opaque(self, n):
        b = n.split("(")[0].split("<")[0]
        for end, h in (("GetParticleDefForType", self.definition), ("::GenerateRandomDirection", self.direction), ("DecayChannel::Momentum", self.momentum),
                       ("RandomGenerator::RandomDouble", self.random), ("PROPOSAL::NewtonRaphson", self.root), ("PROPOSAL::Bisection", self.root2),
                       ("std::sort", self.sort), ("::SampleEstimateMaxWeight", self.nothing), ("::EstimateMaxWeight", self.nothing),
                       ("::CalculateNormalization", self.free)):
            if b.endswith(end):
                return h
        return None

    def definition(self, eng, name, cal, olv, avals, st, fr, node):
        t = typesym(eng.aval(st, avals[0]))
        for ty, m in self.daughters + [(S("typeP"), S("mP"))]:
            if t is ty:
                return [(st, rec(N + "ParticleDef", None, {"mass": m, "particle_type": ty}))]
        raise AnalysisBroken("%s: definition of %s" % (self.cls, show(t)[:80]))

    def direction(self, eng, name, cal, olv, avals, st, fr, node):
        self.ndir += 1
        d, _, _ = frame(S("th%d" % self.ndir), S("ph%d" % self.ndir))
        return [(st, rec(C3, None, {"coordinates": mk("list", *d)}))]

    def momentum(self, eng, name, cal, olv, avals, st, fr, node):
        return [(st, two_body_momentum(*[eng.aval(st, x) for x in avals]))]

    def random(self, eng, name, cal, olv, avals, st, fr, node):
        self.nrnd += 1
        return [(st, mk("rnd", self.nrnd))]

    def root(self, eng, name, cal, olv, avals, st, fr, node):
        return [(st, mk("root", eng.aval(st, avals[2]), eng.aval(st, avals[3])))]

    def root2(self, eng, name, cal, olv, avals, st, fr, node):
        r = mk("root", eng.aval(st, avals[1]), eng.aval(st, avals[2]))
        return [(st, mk("list", r, r))]

    def nothing(self, eng, name, cal, olv, avals, st, fr, node):
        return [(st, mk("void"))]

    def free(self, eng, name, cal, olv, avals, st, fr, node):
        self.nrnd += 1
        return [(st, mk("free", self.nrnd))]

    def sort(self, eng, name, cal, olv, avals, st, fr, node):
        """numbers between 0 and 1 in ascending order"""
        x = eng.load(st, olv)
        if x.op == "list":
            vals = list(x.a)
            rn = [y for y in vals if y.op == "rnd"]
            cs = sorted([y for y in vals if isnum(y)], key=lambda y: y.a[0])
            if len(rn) + len(cs) == len(vals) and all(y.a[0] in (0, 1) for y in cs):
                out, last = [], num(0)
                for y in rn:
                    last = mk("+", last, mul(y, mk("-", num(1), last)))
                    out.append(last)
                st = st.copy()
                eng.save(st, olv, mk("list", *([y for y in cs if y.a[0] == 0] + out + [y for y in cs if y.a[0] == 1])), fr, node)
                return [(st, mk("void"))]
        raise AnalysisBroken("%s: std::sort not recognised" % self.cls)

    # ---- the physical region
    def ident(self):
        m, g = {}, S("gamma")
        ms = [x for _, x in self.daughters if not isnum(x)]
        m[S("mP")] = ssum(ms + [S("Q")])
        m[S("E")] = mul(m[S("mP")], g)
        dom = {g: (1.0001, 30.0), S("Q"): (0.01, 3.0), S("th"): (0.0, 3.14159), S("ph"): (-3.14, 3.14)}

        def domain(t):
            if t.op == "sym" and t not in dom:
                s = t.a[0]
                if s[0] == "m" and s[1:].isdigit():
                    return (0.0005, 2.0)
                if s.startswith("th"):
                    return (0.0, 3.14159)
                if s.startswith("ph"):
                    return (-3.14159, 3.14159)
            if t.op in ("rnd", "u"):
                return (0.0, 1.0)
            return dom.get(t)
        return Ident(self.db, subst=m, domain=domain, points=12, tol=1e-9, budget=60)

    def roots(self, t):
        r = {}
        for y in sub(t):
            if y.op == "root":
                r[y] = mk("+", y.a[0], mul(mk("-", y.a[1], y.a[0]), mk("u", y.id)))
        return subst(t, r) if r else t


def two_body_momentum(a, b, c):
    k = mul(mul(mk("-", mk("-", a, b), c), ssum([a, b, c])), mul(mk("+", mk("-", a, b), c), mk("-", mk("+", a, b), c)))
    return mk("/", mk("sqrt", k), mul(num(2), a))


CHANNEL = N + "DecayChannel"


def channels(db):
    bf = method(db, CHANNEL, "Decay")
    r = []
    for cls in sorted(db.all_derived(CHANNEL)):
        if cls.startswith("<template>") or db.records[cls].get("abstract"):
            continue
        fn, _ = db.resolve(bf, cls)
        f = db.functions.get(fn)
        if f is None or "body" not in f:
            raise AnalysisBroken("%s::Decay has no definition" % cls)
        r.append((cls, f))
    return r


def decay_runs(db, cls, f):
    """[(name, DecayRun)] for a channel"""
    memo = db.__dict__.setdefault("_decays", {})
    if cls not in memo:
        names = [x["n"] if isinstance(x, dict) else x for x in db.fields(cls)]
        if "daughters_" in names:
            memo[cls] = [("%d daughters%s" % (n, ", rejection sampling" if u else ""), DecayRun(db, cls, f, n, u)) for n, u in ((2, False), (3, False), (4, False), (3, True))]
        else:
            memo[cls] = [("", DecayRun(db, cls, f))]
    return memo[cls]


def p10_decay(db, c, cls, f):
    c.saw("decay channels", short(cls))
    w = where(f)
    for name, R in decay_runs(db, cls, f):
        I = R.ident()
        key = short(cls) + (" (%s)" % name if name else "")
        rs = [o for o in R.outs if o.kind == "return"]
        if not rs:
            raise AnalysisBroken("%s: never returns" % key)
        n = 0
        for o in rs:
            ss = states(R.e, o)
            if not ss:
                c.ob("%s: decay products" % key, cls == N + "StableChannel", w, "a decay without products")
                continue
            facts = [(R.roots(k), v) for k, v in o.st.facts.items()]
            if not I.feasible(facts):
                continue
            n += 1
            mass = {t: m for t, m in R.daughters}
            en, px = [], [[], [], []]
            for s in ss:
                t = typesym(rget(s, "type"))
                if t not in mass:
                    c.ob("%s: decay products" % key, False, w, "a product of type %s is no daughter of the channel" % show(t))
                    return
                E = R.roots(rget(s, "energy"))
                p = mk("sqrt", mk("max", mk("-", mul(E, E), mul(mass[t], mass[t])), num(0)))
                en.append(E)
                for i, x in enumerate(direction(s)):
                    px[i].append(mul(p, R.roots(x)))
            pin = mk("sqrt", mk("-", mul(S("E"), S("E")), mul(S("mP"), S("mP"))))
            r = I.equal(ssum(en), S("E"), facts)
            c.ob("%s: energy of the decay products" % key, r is True, w, "the decay products do not carry the energy of the parent: %s" % r)
            for i in range(3):
                r = I.equal(ssum(px[i]), mul(pin, R.d[i]), facts)
                c.ob("%s: momentum of the decay products" % key, r is True, w, "the decay products do not carry the momentum of the parent: %s" % r)
        if not n and cls != N + "StableChannel":
            raise AnalysisBroken("%s: no feasible path" % key)


def p10_boost(db, c):
    f = pick(db, CHANNEL + "::Boost", lambda g: ptypes(g)[0] == PS, "boost of a state")
    c.saw("functions", f["fn"])
    st = St()
    M = S("m0")

    def definition(eng, name, cal, olv, avals, st, fr, node):
        return [(st, rec(N + "ParticleDef", None, {"mass": M}))]
    e = Engine(db, inline=lambda g: True, unroll=8, const_names=False, opaque=lambda n: definition if n.split("(")[0].endswith("GetParticleDefForType") else None)
    ps, dr, ga, bg = [p["n"] for p in f["params"]]
    u, _, _ = frame(S("th"), S("ph"))
    st.store[("o", S(ps))] = rec(PS, None, {"position": vec("r"), "direction": rec(C3, None, {"coordinates": mk("list", *u)}), "energy": S("E"),
                                            "time": S("t"), "type": S("type"), "propagated_distance": S("s")})
    st.store[("o", S(dr))] = vec("n")
    # the boost: gamma >= 1, gamma^2 - betagamma^2 = 1, a direction of any length
    m = {S("E"): mul(M, S("g1")), S(ga): mk("sqrt", mk("+", num(1), mul(S(bg), S(bg))))}
    dom = {M: (0.001, 2.0), S("g1"): (1.0001, 30.0), S(bg): (0.01, 30.0), S("th"): (0.0, 3.14159)}
    I = Ident(db, subst=m, domain=lambda t: dom.get(t), points=25, tol=1e-9)
    n = comps("n")
    ln = mk("sqrt", dot(n, n))
    nh = [mk("/", x, ln) for x in n]
    p = mk("sqrt", mk("-", mul(S("E"), S("E")), mul(M, M)))
    pv = [mul(p, x) for x in u]
    pn = dot(pv, nh)
    w = where(f)
    k = 0
    for o in e.run(f, st=st):
        if o.kind != "return":
            continue
        facts = dict(o.st.facts)
        if not I.feasible(facts):
            continue
        k += 1
        s = e.load(o.st, (("o", S(ps)), ()))
        E2 = rget(s, "energy")
        d2 = direction(s)
        want = mk("-", mul(S(ga), S("E")), mul(S(bg), pn))
        r = I.equal(E2, want, facts)
        c.ob("boost: energy", r is True, w, "the energy after a boost is not gamma E - beta gamma p.n: %s" % r)
        p2 = mk("sqrt", mk("max", mk("-", mul(E2, E2), mul(M, M)), num(0)))
        cf = mk("-", mul(mk("-", S(ga), num(1)), pn), mul(S(bg), S("E")))
        for i in range(3):
            r = I.equal(mul(p2, d2[i]), mk("+", pv[i], mul(cf, nh[i])), facts)
            c.ob("boost: momentum", r is True, w, "the momentum after a boost is not p + ((gamma - 1) p.n - beta gamma E) n: %s" % r)
        for fld_, v in (("position", vec("r")), ("time", S("t")), ("type", S("type"))):
            c.ob("boost: %s" % fld_, rget(s, fld_) is v, w, "a boost of the momentum changes the %s" % fld_)
    if not k:
        raise AnalysisBroken("boost: no feasible path")


def p10_two_body(db, c):
    f = pick(db, CHANNEL + "::Momentum", lambda g: len(g["params"]) == 3, "two-body momentum")
    c.saw("functions", f["fn"])
    a, b, d = [S(p["n"]) for p in f["params"]]
    m = {a: ssum([b, d, S("Q")])}
    I = Ident(db, subst=m, domain=lambda t: (0.001, 3.0))
    e = engine(db)
    k = 0
    for o in e.run(f):
        if o.kind == "return" and I.feasible(o.st.facts):
            k += 1
            r = I.equal(o.value, two_body_momentum(a, b, d), o.st.facts)
            c.ob("momentum of a two-body decay", r is True, where(f), "not sqrt(lambda(m1^2, m2^2, m3^2)) / (2 m1): %s" % r)
    if not k:
        raise AnalysisBroken("two-body momentum: no feasible path")


def check_p10(db, c):
    ms = models(db)
    for cls, f in ms:
        c.part(short(cls), p10_model, db, c, cls, f)
    c.part("boost", p10_boost, db, c)
    c.part("two-body momentum", p10_two_body, db, c)
    cs = channels(db)
    for cls, f in cs:
        c.part(short(cls), p10_decay, db, c, cls, f)
    c.need("interaction models", len(ms), 18)
    c.need("decay channels", len(cs), 5)
    c.need("obligations", len(c.obs), 80)


# ------------------------------------------------------------------------------------------------ P11
def p11_model(db, c, cls, f):
    c.saw("interaction models", short(cls))
    P = Process(db, interaction(db, cls))
    e, D, res, thrown = calculate(db, cls, f)
    w, n = where(f), short(cls)
    for o, ss in res:
        if not ss:
            continue        # P10
        got = sorted(species(rget(s, "type")) for s in ss)
        c.ob("%s: kinds of particles" % n, got == sorted(P.out), w, "%s instead of %s" % (got, sorted(P.out)))
        for s in ss:
            k = species(rget(s, "type"))
            place_time(c, "%s: %s" % (n, k), w, s)
            d = direction(s)
            u = unit_key(d, D)
            if u is False and d == [mk("neg", x) for x in comps("u")]:
                u = None
            if u is not None and u is not False and u.op == "deflect":
                base = list(u.a[0].a)
                if not (base == comps("u") or unit_key(base, D)):
                    raise AnalysisBroken("%s: %s is deflected from %s" % (cls, k, show(u.a[0])[:160]))
            if u is False:
                raise AnalysisBroken("%s: direction of %s not recognised: %s" % (cls, k, [show(x)[:60] for x in d]))
            c.ob("%s: %s has a direction of unit length" % (n, k), True, w, "")


def set_value(t):
    """no read of something that was never written decides the value (arguments of calls that are not followed aside)"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is None or x.op == "undef":
            return False
        if x in seen or x.op in ("call", "mut", "callv", "construct", "unit", "root", "mu"):
            continue
        seen.add(x)
        for y in x.a:
            todo.extend(flat(y))
    return True


def place_time(c, n, w, s):
    p = rget(s, "position")
    try:
        x = list3(None, None, rget(p, "coordinates"))
    except AnalysisBroken:
        x = [p]
    c.ob("%s starts at the place of its parent" % n, x == comps("r"), w, "its position is %s" % [show(y)[:80] for y in x])
    t = rget(s, "time")
    c.ob("%s starts at the time of its parent" % n, t is S("t"), w, "its time is %s" % show(t)[:160])
    for fld_ in ("type", "energy", "propagated_distance"):
        v = rget(s, fld_)
        c.ob("%s: %s is set" % (n, fld_), set_value(v), w, "%s is left without a value: %s" % (fld_, v is not None and show(v)[:120]))


def p11_decay(db, c, cls, f):
    c.saw("decay channels", short(cls))
    w = where(f)
    for name, R in decay_runs(db, cls, f):
        I = R.ident()
        key = short(cls) + (" (%s)" % name if name else "")
        for o in R.outs:
            if o.kind != "return":
                continue
            ss = states(R.e, o)
            facts = [(R.roots(k), v) for k, v in o.st.facts.items()]
            if not ss or not I.feasible(facts):
                continue
            got = sorted(show(typesym(rget(s, "type"))) for s in ss)
            want = sorted(show(t) for t, _ in R.daughters)
            c.ob("%s: kinds of particles" % key, got == want, w, "%s instead of the daughters %s" % (got, want))
            for i, s in enumerate(ss):
                place_time(c, "%s: product %d" % (key, i), w, s)
                d = [R.roots(x) for x in direction(s)]
                r = I.equal(dot(d, d), num(1), facts)
                c.ob("%s: product %d has a direction of unit length" % (key, i), r is True, w, "the length of its direction is not one: %s" % r)


def p11_random_direction(db, c):
    f = pick(db, CHANNEL + "::GenerateRandomDirection", lambda g: True, "random direction")
    c.saw("functions", f["fn"])
    k = [0]

    def random(eng, name, cal, olv, avals, st, fr, node):
        k[0] += 1
        return [(st, mk("rnd", k[0]))]
    e = Engine(db, inline=lambda g: True, const_names=False, opaque=lambda n: random if n.split("(")[0].endswith("RandomGenerator::RandomDouble") else None)
    I = Ident(db, domain=lambda t: (0.0, 1.0) if t.op == "rnd" else None)
    outs = [o for o in e.run(f) if o.kind == "return"]
    if not outs:
        raise AnalysisBroken("random direction: never returns")
    for o in outs:
        v = o.value
        if v.op in ("lv", "lvref", "ref"):
            v = e.aval(o.st, v)
        d = list3(e, o.st, rget(v, "coordinates"))
        r = I.equal(dot(d, d), num(1), o.st.facts)
        c.ob("a random direction has unit length", r is True, where(f), "its length is not one: %s" % r)


def check_p11(db, c):
    ms, cs = models(db), channels(db)
    c.part("random direction", p11_random_direction, db, c)
    for cls, f in ms:
        c.part(short(cls), p11_model, db, c, cls, f)
    for cls, f in cs:
        c.part(short(cls), p11_decay, db, c, cls, f)
    c.need("interaction models", len(ms), 18)
    c.need("decay channels", len(cs), 5)
    c.need("obligations", len(c.obs), 300)


# ------------------------------------------------------------------------------------------------ P12
def p12_model(db, c, cls, f):
    c.saw("interaction models", short(cls))
    g = db.functions[db.resolve(method(db, BASE, "RequiredRandomNumbers"), cls)[0]]
    vs = set()
    for this in constructed(db, cls):
        e = Engine(db, inline=stop, unroll=8)
        st = St()
        st.store[("o", mk("this"))] = this
        vs |= {o.value for o in e.run(g, dyn=cls, st=st)}
    ann = [integer(db, v) for v in vs]
    if not ann:
        raise AnalysisBroken("%s: RequiredRandomNumbers does not return" % cls)
    e, D, res, thrown = calculate(db, cls, f)
    r = rnd_of(cls)
    reads = set()
    for t in list(terms._TAB.values()):
        if not any(y is r for y in t.a if isinstance(y, T)):
            continue
        if t.op == "size":
            continue
        if t.op != "elem" or t.a[0] is not r:
            raise AnalysisBroken("%s: the random numbers are used as a whole: %s" % (cls, show(t)[:160]))
        k = t.a[1]
        if not isnum(k):
            raise AnalysisBroken("%s: random number %s is read" % (cls, show(k)[:120]))
        reads.add(int(k.a[0]))
    for o, _ in res:
        for v in o.st.ev:
            if v[0] in ("call", "mcall") and any(x is r or x.op in ("lv", "lvref", "ptr") and x.a[0] == ("o", r) for y in v for x in flat(y)):
                raise AnalysisBroken("%s: the random numbers are handed to %s" % (cls, v[1]))
    for k in sorted(reads) or [-1]:
        c.ob("%s: random number %d" % (short(cls), k), all(k < n for n in ann), where(f), "random number %d is read, %s are announced" % (k, ann))


DEFL = N + "stochastic_deflection::Parametrization"


def deflections(db):
    bf = method(db, DEFL, "CalculateStochasticDeflection")
    r = []
    for cls in sorted(db.all_derived(DEFL)):
        if cls.startswith("<template>") or db.records[cls].get("abstract"):
            continue
        f = db.functions.get(db.resolve(bf, cls)[0])
        if f is not None and "body" in f:
            r.append((cls, f))
    return r


def p12_deflection(db, c, cls, f):
    """a stochastic deflection reads no more random numbers than it announces"""
    c.saw("stochastic deflections", cls.replace(N, ""))
    g = db.functions[db.resolve(method(db, DEFL, "RequiredRandomNumbers"), cls)[0]]
    ann = [integer(db, o.value) for o in Engine(db, inline=stop).run(g, dyn=cls) if o.kind == "return"]
    if not ann:
        raise AnalysisBroken("%s: RequiredRandomNumbers does not return" % cls)
    vs = [p["n"] for p in f["params"] if "vector" in p["t"]]
    if len(vs) != 1:
        raise AnalysisBroken("%s: parameter with the random numbers" % cls)
    r = S(vs[0])
    reads, todo, seen = set(), [], set()
    for o in Engine(db, inline=lambda g: "stochastic_deflection" in g["file"]).run(f, dyn=cls):
        todo += [o.value] if isinstance(o.value, T) else []
        todo += list(o.st.facts) + list(o.st.ev)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "elem" and x.a[0] is r:
                if not isnum(x.a[1]):
                    raise AnalysisBroken("%s: random number %s is read" % (cls, show(x.a[1])[:120]))
                reads.add(int(x.a[1].a[0]))
                continue
            if x.op == "size" and x.a[0] is r:
                continue
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            if len(x) > 2 and x[0] in ("index", "at") and x[1] is r and isinstance(x[2], T) and isnum(x[2]):
                reads.add(int(x[2].a[0]))
                continue
            todo.extend(x)
    for k in sorted(reads) or [-1]:
        c.ob("%s: random number %d" % (cls.replace(N, ""), k), all(k < n for n in ann), where(f), "random number %d is read, %s are announced" % (k, ann))


def flat(y):
    if isinstance(y, T):
        yield y
    elif isinstance(y, tuple):
        for z in y:
            yield from flat(z)


def integer(db, v):
    while v.op in ("cast", "conv", "int") and isinstance(v.a[-1], T):
        v = v.a[-1]
    if isnum(v):
        return int(v.a[0])
    if v.op == "glob":
        g = db.globals.get(v.a[0])
        if g is not None and "cv" in g:
            return int(float(g["cv"]))
    raise AnalysisBroken("number of announced random numbers: %s" % show(v)[:120])


CALC = N + "SecondariesCalculator"


def looked_up(t):
    """(container, key) of the entry a term goes through"""
    for x in sub(t):
        if x.op == "call" and len(x.a) == 3 and str(x.a[0]).split("::")[-1] in ("find", "at") or x.op == "elem":
            m, k = x.a[-2], x.a[-1]
            if any(y.op in ("undef", "sym") for y in sub(m)):
                while k.op in ("cast", "conv", "int") and isinstance(k.a[-1], T):
                    k = k.a[-1]
                yield m, k


def p12_calculator(db, c):
    MAPV = S("registered models")
    maps = [x["n"] for x in db.fields(CALC) if "map<" in x["t"] and "Parametrization" in x["t"]]
    if len(maps) != 1:
        raise AnalysisBroken("SecondariesCalculator: container of models not recognised: %s" % maps)

    def runs(name):
        g = [g for g in db.functions.values() if g.get("cls") == CALC and g["name"] == name]
        if len(g) != 1:
            raise AnalysisBroken("SecondariesCalculator::%s" % name)
        c.saw("functions", g[0]["fn"])
        e = Engine(db, inline=stop, unroll=8)
        st = St()
        st.store[("o", mk("this"))] = rec(CALC, None, {maps[0]: MAPV})
        return g[0], e, e.run(g[0], st=st, dyn=CALC)
    for name in ("CalculateSecondaries", "RequiredRandomNumbers"):
        g, e, outs = runs(name)
        rets = [o for o in outs if o.kind == "return"]
        if not rets:
            raise AnalysisBroken("%s never returns" % g["fn"])
        key = [p["n"] for p in g["params"]][0]
        for o in rets:
            v = o.value
            ok = v.op == "call" and str(v.a[0]).split("(")[0].endswith("secondaries::Parametrization::" + name)
            hit = [k for m, k in looked_up(v.a[1])] if ok else []
            want = S(key) if name == "RequiredRandomNumbers" else None
            ok = ok and hit and all(k is want if want is not None else k.op == "fld" and k.a[0] is S(key) and k.a[1] == "type" for k in hit)
            c.ob("%s asks the model registered for the interaction" % name, bool(ok), where(g), "it returns %s" % show(v)[:200])
            if ok and name == "CalculateSecondaries":
                c.ob("CalculateSecondaries hands loss, component and random numbers on", list(v.a[2:]) == [S(p["n"]) for p in g["params"]], where(g), "the model is called with %s" % [show(x)[:80] for x in v.a[2:]])
    g, e, outs = runs("addInteraction")
    for o in outs:
        m = e.load(o.st, (("o", mk("this")), (maps[0],)))
        p = S(g["params"][0]["n"])
        es = [(k, v) for k, v in items(m)]
        ok = len(es) == 1 and es[0][1] is p and es[0][0].op == "call" and str(es[0][0].a[0]).split("(")[0].endswith("::GetInteractionType") and p in sub(es[0][0])
        c.ob("addInteraction registers the model under its own interaction type", ok, where(g), "registered: %s" % [(show(k)[:100], show(v)[:100]) for k, v in es])


def items(m):
    if m.op == "rec":
        return [(k, v) for k, v in m.a[2] if isinstance(k, T)]
    raise AnalysisBroken("container not recognised: %s" % show(m)[:120])


def check_p12(db, c):
    ms = models(db)
    c.part("SecondariesCalculator", p12_calculator, db, c)
    for cls, f in ms:
        c.part(short(cls), p12_model, db, c, cls, f)
    ds = deflections(db)
    for cls, f in ds:
        c.part(short(cls), p12_deflection, db, c, cls, f)
    c.need("interaction models", len(ms), 18)
    c.need("stochastic deflections", len(ds), 5)
    c.need("obligations", len(c.obs), 50)


CHECKS = {
    "P10": ("the final states of every interaction model and decay channel are extracted path by path; the sums of energies and momenta are compared with those of the initial state as identities of real algebra", check_p10),
    "P11": ("the final states of every interaction model and decay channel are extracted path by path; place, time, kinds and directions of the particles are read off and compared with those of the parent", check_p11),
    "P12": ("the announced number of random numbers is compared with every index at which the random vector is read on any path through a model", check_p12),
}

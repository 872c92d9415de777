"""P28: energy, momentum and velocity of particles and the integrals of the motion."""
from ir import AnalysisBroken
from absint import *
from data import N
from ident import Ident
from kinematics import S, vec, mul, ssum, engine, pick, ptypes, where, qname, returns, is0, C3

PS = N + "ParticleState"
SPEED = 2.99792458e10


def mass_of(t):
    return mk("call", "mass", t)


def definition(eng, name, cal, olv, avals, st, fr, node):
    t = eng.aval(st, avals[0])
    while t.op in ("cast", "conv", "int"):
        t = t.a[-1]
    return [(st, rec(N + "ParticleDef", None, {"mass": mass_of(t)}))]


def opaque(*more):
    def f(n):
        b = n.split("(")[0]
        if b.endswith("GetParticleDefForType"):
            return definition
        for end, v in more:
            if b.endswith(end):
                return v
        return None
    return f


def ptr(n):
    return mk("ptr", ("o", S(n)), ())


def par(f, i):
    return S(f["params"][i]["n"])


def go(db, c, f, this=None, op=None, cls=None):
    c.saw("functions", f["fn"])
    e = engine(db, op or opaque())
    st = St()
    if this is not None:
        st.store[("o", mk("this"))] = this
    for p in f["params"]:
        if p["t"].replace("const ", "").strip(" &") in (C3, N + "Vector3D"):
            st.store[("o", S(p["n"]))] = vec(p["n"])
    return e, returns(e.run(f, st=st, dyn=cls), f["fn"])


def state():
    return rec(PS, None, {"type": S("type"), "energy": S("E"), "time": S("t"), "propagated_distance": S("s"), "position": vec("r"), "direction": vec("u")})


M = mass_of(S("type"))
DOM = {S("g"): (1.0000001, 1e6), M: (1e-4, 2e3)}


def p28_state(db, c):
    I = Ident(db, subst={S("E"): mul(M, S("g"))}, domain=lambda t: DOM.get(t))
    f = pick(db, PS + "::GetMomentum", lambda g: True, "GetMomentum")
    e, outs = go(db, c, f, state(), cls=PS)
    want = mk("sqrt", mk("-", mul(S("E"), S("E")), mul(M, M)))
    for o in outs:
        if I.feasible(o.st.facts):
            is0(c, I, "momentum of a state", mk("-", o.value, want), o.st.facts, where(f), "GetMomentum is not sqrt(E^2 - m^2) of the state's own type")
    # massless
    I0 = Ident(db, subst={M: num(0)}, domain=lambda t: {S("E"): (1e-3, 1e6)}.get(t))
    for o in outs:
        if I0.feasible(o.st.facts):
            is0(c, I0, "momentum of a massless state", mk("-", o.value, S("E")), o.st.facts, where(f), "GetMomentum of a massless particle is not its energy")
    f = pick(db, PS + "::SetMomentum", lambda g: len(g["params"]) == 1, "SetMomentum")
    p = par(f, 0)
    I = Ident(db, domain=lambda t: {p: (0.0, 1e6), M: (0.0, 2e3)}.get(t))
    e, outs = go(db, c, f, state(), cls=PS)
    for o in outs:
        if not I.feasible(o.st.facts):
            continue
        v = e.load(o.st, (("o", mk("this")), ()))
        is0(c, I, "energy after the momentum is set", mk("-", rget(v, "energy"), mk("sqrt", mk("+", mul(p, p), mul(M, M)))), o.st.facts, where(f),
            "SetMomentum does not make the energy sqrt(p^2 + m^2) of the state's own type")
        for x in ("type", "time", "propagated_distance", "position", "direction"):
            c.ob("SetMomentum keeps the %s" % x, rget(v, x) is rget(state(), x), where(f), "SetMomentum changes the %s" % x)
    f = pick(db, PS + "::GetParticleDef", lambda g: True, "GetParticleDef")
    e, outs = go(db, c, f, state(), cls=PS)
    for o in outs:
        v = o.value if o.value.op == "rec" else e.aval(o.st, o.value)
        c.ob("particle definition of a state", v.op == "rec" and rget(v, "mass") is M, where(f), "GetParticleDef does not look up the state's type: %s" % show(o.value)[:160])


def p28_constructors(db, c):
    n = 0
    for g in sorted(db.functions.values(), key=lambda g: g["fn"]):
        if g.get("cls") != PS or not g.get("ctor") or len(g["params"]) < 5 or "body" not in g:
            continue
        n += 1
        k = len(g["params"]) - 5        # an optional type comes first
        e, outs = go(db, c, g, rec(PS, None, {}), cls=PS)
        for o in outs:
            v = e.load(o.st, (("o", mk("this")), ()))
            for i, x in enumerate(("position", "direction", "energy", "time", "propagated_distance")):
                got, w = rget(v, x), par(g, k + i)
                if i < 2:
                    q = rget(got, "coordinates") if got is not None and got.op == "rec" else None
                    want = rget(vec(w.a[0]), "coordinates")
                    ok = q is want or q is not None and w in sub(q) and not any(y.op == "sym" and y is not w for y in sub(q)) or got is vec(w.a[0])
                else:
                    ok = got is w
                c.ob("ParticleState(%d arguments): %s" % (len(g["params"]), x), ok, where(g), "the %s of a new state is %s" % (x, got is not None and show(got)[:120]))
            t = rget(v, "type")
            while t is not None and t.op in ("cast", "conv", "int"):
                t = t.a[-1]
            if k:
                c.ob("ParticleState(%d arguments): type" % len(g["params"]), t is par(g, 0), where(g), "the type of a new state is %s" % (t is not None and show(t)[:120]))
    c.need("constructors of ParticleState", n, 2)


D = S("disp")


def integrand(eng, name, cal, olv, avals, st, fr, node):
    if olv is None or "Displacement" not in name:
        raise AnalysisBroken("integrand of %s" % name)
    return [(st, mk("call", "disp", eng.aval(st, avals[0])))]


def p28_integrands(db, c):
    op = opaque(("Displacement::FunctionToIntegral", integrand))
    MM = S("mass")

    def one(cls, expect, this, what):
        f = pick(db, N + cls + "::FunctionToIntegral", lambda g: len(g["params"]) == 1, cls + "::FunctionToIntegral")
        E = par(f, 0)
        dE = mk("call", "disp", E)
        I = Ident(db, subst={E: mul(MM, S("g"))}, domain=lambda t: {S("g"): (1.0000001, 1e6), MM: (1e-4, 2e3)}.get(t) or ((-3.0, -1e-6) if t.op == "call" and t.a[0] == "disp" else (0.0, 3.0) if t.op == "call" else None))
        e, outs = go(db, c, f, rec(N + cls, None, this), op, N + cls)
        k = 0
        for o in outs:
            if I.feasible(o.st.facts):
                k += 1
                is0(c, I, what, mk("-", o.value, expect(E, dE)), o.st.facts, where(f), "wrong integrand")
        if not k:
            raise AnalysisBroken("%s: no feasible path" % cls)
    p = lambda E: mk("sqrt", mk("-", mul(E, E), mul(MM, MM)))
    one("ExactTimeBuilder", lambda E, d: mk("/", mul(d, E), mul(p(E), num(SPEED))), {"mass": MM, "disp": ptr("disp object")}, "time: distance over velocity p c / E")
    one("Decay", lambda E, d: mk("/", mul(d, MM), mul(p(E), num(SPEED))), {"mass": MM, "disp": ptr("disp object")}, "decay: proper time, distance over p c / m")
    cs = mk("list", *[ptr("c%d" % i) for i in range(3)])
    tot = lambda n, E: ssum([mk("call", N + "CrossSectionBase::" + n + "(double)", S("c%d" % i), E) for i in range(3)])

    def find(v, n):
        """the calls as the engine names them"""
        return [x for x in sub(v) if x.op == "call" and str(x.a[0]).split("(")[0].endswith("::" + n)]

    def summed(cls, n, factor, this, what):
        f = pick(db, N + cls + "::FunctionToIntegral", lambda g: len(g["params"]) == 1, cls + "::FunctionToIntegral")
        E = par(f, 0)
        e, outs = go(db, c, f, rec(N + cls, None, this), op if cls != "Displacement" else opaque(), N + cls)
        hit = 0
        for o in outs:
            calls = {x for v in [o.value] + list(o.st.facts) for x in find(v, n)}
            # one call for every cross section, at the energy in question
            terms_ = sorted({x for x in calls if x.a[-1] is E and x.a[1] in [S("c%d" % i) for i in range(3)]}, key=lambda x: x.a[1].a[0])
            if not terms_:
                raise AnalysisBroken("%s: no %s" % (cls, n))
            I = Ident(db, domain=lambda t: (0.0, 3.0) if t.op == "call" and t.a[0] != "disp" else (-3.0, -1e-6) if t.op == "call" else None)
            if not I.feasible(o.st.facts):
                continue
            hit += 1
            if len(terms_) != 3 or len(calls) != 3:
                c.ob(what, False, where(f), "%d of 3 cross sections contribute %s" % (len(terms_), n))
                continue
            T_ = ssum(terms_)
            if o.value is num(0) and I.equal(T_, num(0), o.st.facts) is True:
                c.ob(what, True, where(f), "")
                continue        # nothing happens: no contribution
            ok = I.equal(o.value, factor(T_, mk("call", "disp", E)), o.st.facts)
            c.ob(what, ok is True, where(f), "wrong integrand: %s" % ok)
        if not hit:
            raise AnalysisBroken("%s: no feasible path" % cls)
    summed("Displacement", "CalculatedEdx", lambda s, d: mk("/", num(-1), s), {"cross_list": cs}, "distance: one over the sum of the energy losses of all processes")
    dp = {"cross_list": cs, "disp": ptr("disp object")}
    summed("Interaction", "CalculatedNdx", lambda s, d: mul(d, s), dp, "interactions: the rates of all processes per distance")
    summed("ContRand", "CalculatedE2dx", lambda s, d: mul(d, s), dp, "continuous randomisation: the variances of all processes per distance")


def p28_elapsed(db, c):
    I = Ident(db)
    f = pick(db, N + "ApproximateTimeBuilder::TimeElapsed", lambda g: len(g["params"]) == 4, "approximate time")
    e, outs = go(db, c, f, rec(N + "ApproximateTimeBuilder", None, {}), cls=N + "ApproximateTimeBuilder")
    for o in outs:
        is0(c, I, "approximate time", mk("-", o.value, mk("/", par(f, 2), mul(par(f, 3), num(SPEED)))), o.st.facts, where(f), "not the column over density and the speed of light")
    f = pick(db, N + "ExactTimeBuilder::TimeElapsed", lambda g: len(g["params"]) == 4, "exact time")
    e, outs = go(db, c, f, rec(N + "ExactTimeBuilder", None, {"mass": S("mass"), "time_integral": ptr("integral")}), cls=N + "ExactTimeBuilder")
    for o in outs:
        call = [x for x in sub(o.value) if x.op == "call" and str(x.a[0]).split("(")[0].endswith("::Calculate")]
        ok = len(call) == 1 and list(call[0].a[1:]) == [S("integral"), par(f, 0), par(f, 1)]
        c.ob("exact time: from the initial to the final energy", ok, where(f), "it integrates %s" % show(o.value)[:160])
        if ok:
            is0(c, I, "exact time", mk("-", o.value, mk("/", call[0], par(f, 3))), o.st.facts, where(f), "not the integral over the density")


def check_p28(db, c):
    for n, g in (("states", p28_state), ("constructors", p28_constructors), ("integrands", p28_integrands), ("elapsed time", p28_elapsed)):
        c.part(n, g, db, c)
    c.need("obligations", len(c.obs), 24)


CHECKS = {
    "P28": ("energy-momentum relation of particle states and the integrands of distance, time, decay, interaction and continuous randomisation, extracted path by path and compared with their definitions as identities of real algebra", check_p28),
}

"""P20 (built-in media and components), P35 (constants of nature)."""
from data import *
from poly2 import *

# symbol -> (Z, standard atomic weight)
ELEMENTS = {"H": (1, 1.00794), "C": (6, 12.0107), "N": (7, 14.0067), "O": (8, 15.9994), "Na": (11, 22.98977), "Mg": (12, 24.305), "S": (16, 32.065),
            "Cl": (17, 35.453), "Ar": (18, 39.948), "K": (19, 39.0983), "Ca": (20, 40.078), "Fe": (26, 55.845), "Cu": (29, 63.546), "Pb": (82, 207.2),
            "U": (92, 238.02891), "StandardRock": (11, 22.0), "FrejusRock": (10.12, 20.34)}
NAMES = {"Hydrogen": "H", "Carbon": "C", "Nitrogen": "N", "Oxygen": "O", "Sodium": "Na", "Magnesium": "Mg", "Sulfur": "S", "Chlorine": "Cl", "Argon": "Ar",
         "Potassium": "K", "Calcium": "Ca", "Iron": "Fe", "Copper": "Cu", "Lead": "Pb", "Uranium": "U", "StandardRock": "StandardRock", "FrejusRock": "FrejusRock"}
# published: (I [eV], -C, a, m, X0, X1, d0, density [g/cm^3]), composition by atoms
# D. Groom, N. Mokhov, S. Striganov (2001), R. Sternheimer et al. (1984), PDG (2020), Frejus: Rhode (1993)
W = {"H": 2, "O": 1}
PUBLISHED = {
    "Air": ((85.7, 10.5961, 0.10914, 3.3994, 1.7418, 4.2759, 0.0, 1.205e-3), {"N": 156.2, "O": 42.0, "Ar": 0.9}),
    "AntaresWater": ((75.0, 3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0.0, 1.03975), {"H": 2, "O": 1.00884, "Na": 0.00943, "K": 0.000209, "Mg": 0.001087, "Ca": 0.000209, "Cl": 0.01106, "S": 0.00582}),
    "CalciumCarbonate": ((136.4, 3.7738, 0.08301, 3.412, 0.0492, 3.0549, 0.0, 2.65), {"Ca": 1, "C": 1, "O": 3}),
    "CascadiaBasinWater": ((75.0, 3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0.0, 1.0400322), {"H": 2, "O": 1.0021, "Na": 0.0087174, "Mg": 0.0009818, "Ca": 0.00019113, "K": 0.00018975, "Cl": 0.010147, "S": 0.00052487}),
    "Copper": ((322.0, 4.4190, 0.14339, 2.9044, -0.0254, 3.2792, 0.08, 8.96), {"Cu": 1}),
    "FrejusRock": ((149.0, 5.053, 0.078, 3.645, 0.288, 3.196, 0.0, 2.74), {"FrejusRock": 1}),
    "Hydrogen": ((21.8, 3.0977, 0.13483, 5.6249, 0.44, 1.8856, 0.0, 0.0708), {"H": 2}),
    "Iron": ((286.0, 4.2911, 0.1468, 2.9632, -0.0012, 3.1531, 0.12, 7.874), {"Fe": 1}),
    "Lead": ((823.0, 6.2018, 0.09359, 3.1608, 0.3776, 3.8073, 0.14, 11.35), {"Pb": 1}),
    "LiquidArgon": ((188.0, 5.2146, 0.19559, 3.0, 0.2, 3.0, 0.0, 1.396), {"Ar": 1}),
    "PDG2001::Ice": ((75.0, 3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0.0, 0.917), W),
    "PDG2001::Water": ((75.0, 3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0.0, 1.0), W),
    "PDG2020::Ice": ((79.7, 3.5873, 0.09116, 3.4773, 0.2586, 2.819, 0.0, 0.918), W),
    "PDG2020::Water": ((79.7, 3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0.0, 1.0), W),
    "Paraffin": ((55.9, 2.9551, 0.1209, 3.4288, 0.1289, 2.5084, 0.0, 0.93), {"C": 25, "H": 52}),
    "Salt": ((175.3, 4.5041, 0.1632, 3.0, 0.2, 3.0, 0.0, 2.323), {"Na": 1, "Cl": 1}),
    "StandardRock": ((136.4, 3.7738, 0.08301, 3.412, 0.0492, 3.0549, 0.0, 2.65), {"StandardRock": 1}),
    "Uranium": ((890.0, 5.8694, 0.19677, 2.8171, 0.226, 3.3721, 0.14, 18.95), {"U": 1}),
}
KEYS = ("I_", "C_", "a_", "m_", "X0_", "X1_", "d0_", "massDensity_")
LABEL = ("mean excitation energy", "-C", "a", "m", "X0", "X1", "delta0", "density")
# radiation logarithm constants (Kelner, Kokoulin, Petrukhin 1999; Hubbell)
LOGC = dict(zip(range(1, 23), (202.4, 151.9, 159.9, 172.3, 177.9, 178.3, 176.6, 173.4, 170.0, 165.8, 165.8, 167.1, 169.1, 170.8, 172.2, 173.4, 174.3, 174.8, 175.1, 175.6, 176.2, 176.8)))
LOGC.update({26: 175.8, 29: 173.1, 32: 173.0, 35: 173.5, 42: 175.9, 50: 177.4, 53: 178.6, 74: 177.6, 82: 178.0, 92: 179.8})
# media whose published density-effect parameters are not a Sternheimer fit of their own composition
NOFIT = {"FrejusRock": "C of the Frejus rock is an empirical value", "Salt": "parameters of the solid NaCl approximation (m = 3)", "LiquidArgon": "general Sternheimer-Peierls rule (m = 3)"}


def rel_ok(x, y, tol):
    return abs(x - y) <= tol * max(abs(y), 1e-30) if y else abs(x) <= 1e-9


def media(db, c):
    n = 0
    comps = {}
    for cls in sorted(db.all_derived(N + "Component")):
        c.part(cls, component, db, c, cls, comps)
    c.need("components", len(comps), 15)
    for cls in sorted(db.all_derived(N + "Medium")):
        n += 1
        c.part(cls, medium, db, c, cls, comps)
    c.need("media", n, 17)
    c.part("Medium constructor", mctor, db, c)
    c.part("Medium::init", derived, db, c)
    c.part("Medium::X0_inv", radlen, db, c)
    c.part("Component", cconst, db, c)
    c.part("calculate_proton_massnumber_fraction", fraction, db, c)
    getters(db, c)


def component(db, c, cls, comps):
    f, ctor = base_object(db, cls, N + "Component", ("SetLogConstant", "SetBPrime", "WoodSaxonPotential"))
    w = (rel(ctor["file"]), ctor["line"])
    short = cls.split("::")[-1]
    comps[cls] = short
    c.saw("components", short)
    sym = f["name_"].a[0] if f["name_"].op == "str" else None
    z, a = number(db, f["nucCharge_"], "charge of " + cls), number(db, f["atomicNum_"], "mass of " + cls)
    c.ob("%s: symbol of the element" % short, NAMES.get(short, short) == sym, w, "symbol %s" % sym)
    ref = ELEMENTS.get(NAMES.get(short, short))
    if ref:
        c.ob("%s: nuclear charge of the element" % short, z == ref[0], w, "Z = %g, expected %g" % (z, ref[0]))
        c.ob("%s: atomic mass of the element" % short, rel_ok(a, ref[1], 1.5e-3), w, "A = %g, expected %g" % (a, ref[1]))
    else:
        c.ob("%s: nucleus with at least as many nucleons as protons" % short, 0 < z <= a + 0.01, w, "Z %g, A %g" % (z, a))
    p = ctor["params"]
    if len(p) == 1:
        c.ob("%s: number of atoms is the constructor argument" % short, f["atomInMolecule_"] is mk("sym", p[0]["n"]), w, "is %s" % show(f["atomInMolecule_"])[:60])


def medium(db, c, cls, comps):
    short = cls.replace(N, "")
    f, ctor = base_object(db, cls, N + "Medium", ("init",))
    w = (rel(ctor["file"]), ctor["line"])
    c.saw("media", short)
    v = [number(db, f[k], "%s of %s" % (k, cls)) for k in KEYS]
    v[1] = -v[1]
    l = unlist(f["components_"])
    if l is None:
        raise AnalysisBroken("components of %s: %s" % (cls, show(f["components_"])[:100]))
    comp = {}
    for x in l:
        while x.op == "construct" and x.a[0] == N + "Component" and len(x.a) == 2:
            x = x.a[1]
        if x.op != "construct" or x.a[0] not in comps:
            raise AnalysisBroken("component of %s: %s" % (cls, show(x)[:100]))
        k = NAMES.get(comps[x.a[0]], comps[x.a[0]])
        if len(x.a) > 1:
            nat = number(db, x.a[1], "atoms of " + cls)
        else:
            g = user_ctors(db, x.a[0])[0]
            d = g["params"][0].get("def")
            nat = 1.0 if d is None else number(db, Engine(db).ev(d, St(), Frame(g, None, None, 0))[0][1], "default")
        c.ob("%s: %s listed once" % (short, k), k not in comp, w, "")
        c.ob("%s: positive number of %s atoms" % (short, k), nat > 0, w, "%g" % nat)
        comp[k] = comp.get(k, 0) + nat
    I, C, a, m, X0, X1, d0, rho = v
    c.ob("%s: positive density and excitation energy" % short, rho > 0 and I > 0, w, "density %g, I %g" % (rho, I))
    c.ob("%s: X0 below X1" % short, X0 < X1, w, "X0 %g, X1 %g" % (X0, X1))
    ref = PUBLISHED.get(short)
    if ref:
        for k, x, y in zip(LABEL, v, ref[0]):
            c.ob("%s: published %s" % (short, k), rel_ok(x, y, 3e-3), w, "%g, published %g" % (x, y))
        c.ob("%s: elements it consists of" % short, set(comp) == set(ref[1]), w, "%s" % sorted(comp))
        if set(comp) == set(ref[1]):
            e0 = sorted(comp, key=lambda k: -ref[1][k])[0]
            for k in comp:
                c.ob("%s: share of %s atoms" % (short, k), rel_ok(comp[k] / comp[e0], ref[1][k] / ref[1][e0], 1e-3), w, "%g per %s, expected %g" % (comp[k] / comp[e0], e0, ref[1][k] / ref[1][e0]))
    if short not in NOFIT:
        # Sternheimer: delta is continuous at X0 (up to delta0), C from the plasma energy
        jump = 2 * math.log(10) * X0 - C + a * (X1 - X0) ** m - d0
        c.ob("%s: density effect is continuous at X0" % short, abs(jump) < 0.03, w, "jump of %.3f" % jump)
        if all(k in ELEMENTS for k in comp):
            za = sum(q * ELEMENTS[k][0] for k, q in comp.items()) / sum(q * ELEMENTS[k][1] for k, q in comp.items())
            want = 2 * math.log(I / (28.816 * math.sqrt(rho * za))) + 1
            c.ob("%s: C belongs to excitation energy and plasma energy" % short, rel_ok(C, want, 0.06), w, "C %.4f, from I and density %.4f" % (C, want))


def mctor(db, c):
    r = base_fields(db, N + "Medium", 10, ("init",))
    if r is None:
        raise AnalysisBroken("Medium constructor not found")
    params, fields = r
    f = [x for x in user_ctors(db, N + "Medium") if len(x["params"]) == 10][0]
    w = (rel(f["file"]), f["line"])
    for k, i in zip(("name_", "I_", "C_", "a_", "m_", "X0_", "X1_", "d0_", "massDensity_", "components_"), range(10)):
        t = fields.get(k)
        while t is not None and t.op == "construct" and len(t.a) == 2:
            t = t.a[1]
        c.ob("Medium constructor: %s is parameter %d" % (k, i + 1), t is mk("sym", params[i]), w, "is %s" % (show(t)[:60] if t is not None else None))


def this_field(*names):
    t = mk("sym", "this")
    for n in names:
        t = mk("fld", t, n)
    return t


def derived(db, c):
    """quantities derived from the components"""
    f = db.fn(N + "Medium::init", 0)
    w = (rel(f["file"]), f["line"])
    x0 = {}

    def opq(name):
        g = db.functions.get(name)
        if g is not None and g["name"] == "X0_inv":
            return lambda eng, nm, cal, olv, avals, st, fr, node: [(st, mk("X0_inv", *[eng.aval(st, x) for x in avals]))]
        return None
    e = Engine(db, inline=lambda g: not g.get("ctor") and g["name"] != "X0_inv", opaque=opq)
    outs = [o for o in e.run(f) if o.kind == "return"]
    if not outs:
        raise AnalysisBroken("Medium::init never returns")
    for o in outs:
        t = e.load(o.st, (("o", mk("this")), ()))
        S = Sums()
        comps = None
        for k in ("sumCharge_", "sumNucleons_", "ZA_", "molDensity_", "MM_", "radiationLength_"):
            c.saw("derived quantities", k)
        el = S.element(rget(t, "sumNucleons_"))
        if el is None:
            raise AnalysisBroken("sum over components not recognised: %s" % show(rget(t, "sumNucleons_"))[:200])
        n, z, a, m = [mk("fld", el, k) for k in ("atomInMolecule_", "nucCharge_", "atomicNum_", "averageNucleonWeight_")]
        nz, na = S.total(mk("*", n, z)), S.total(mk("*", n, a))
        nam = S.total(mk("*", mk("*", n, a), m))
        xx = S.total(mk("*", mk("X0_inv", mk("trunc", z), a), mk("*", n, a)))
        xx2 = S.total(mk("*", mk("X0_inv", z, a), mk("*", n, a)))
        rho, av = rget(t, "massDensity_"), mk("glob", N + "NA")
        want = {"sumCharge_": [nz], "sumNucleons_": [na], "ZA_": [mk("/", nz, na)], "molDensity_": [mk("/", mk("*", rho, av), na)],
                "MM_": [mk("/", nam, na)], "radiationLength_": [mk("/", na, xx), mk("/", na, xx2)]}
        for k, ws in want.items():
            got = S.norm(rget(t, k))
            c.ob("Medium::init: %s is computed from all components by its definition" % k, any(S.equal(got, x) for x in ws), w, "is %s" % show(got)[:300])
        nc = rget(t, "numComponents_")
        c.ob("Medium::init: number of components", nc.op == "size" or "size" in show(nc), w, "is %s" % show(nc)[:80])


def radlen(db, c):
    f = db.fn(N + "Medium::X0_inv", 2)
    w = (rel(f["file"]), f["line"])
    z, m = [mk("sym", p["n"]) for p in f["params"]]
    e = Engine(db)
    outs = [o for o in e.run(f) if o.kind == "return"]
    al = 1 / 137.035999
    re, na = 2.8179403227e-13, 6.022140857e23
    lr = {1: (5.31, 6.144), 2: (4.79, 5.621), 3: (4.74, 5.805), 4: (4.71, 5.924)}
    for Z in range(1, 101):
        env = {z: Z, m: 2.0}
        vs = [o for o in outs if consistent(o.st.facts, env, db)]
        if len(vs) != 1:
            raise AnalysisBroken("X0_inv(%d): %d paths" % (Z, len(vs)))
        v = number(db, vs[0].value, "X0_inv", env)
        l, l2 = lr.get(Z, (math.log(184.15 * Z ** (-1 / 3.)), math.log(1194 * Z ** (-2 / 3.))))
        a2 = (al * Z) ** 2
        ff = a2 * (1 / (1 + a2) + 0.20206 - 0.0369 * a2 + 0.0083 * a2 ** 2 - 0.002 * a2 ** 3)
        want = 4 * al * re * re * na / 2.0 * (Z * Z * (l - ff) + Z * l2)
        c.ob("radiation length of element %d (Tsai)" % Z, rel_ok(v, want, 1e-4), w, "1/X0 is %g, expected %g" % (v, want))


def cconst(db, c):
    f = db.fn(N + "Component::SetLogConstant", 0)
    g = db.fn(N + "Component::SetBPrime", 0)
    zt = mk("fld", mk("this"), "nucCharge_")
    for fn, field, ref in ((f, "logConstant_", lambda z: LOGC.get(z, 182.7)), (g, "bPrime_", lambda z: 446 if z == 1 else 1429)):
        w = (rel(fn["file"]), fn["line"])
        e = Engine(db)
        outs = [o for o in e.run(fn) if o.kind == "return"]
        zt = None
        for o in outs:
            for t in o.st.facts:
                for s in sub(t):
                    if s.op == "fld" and s.a[1] == "nucCharge_":
                        zt = s
        if zt is None:
            raise AnalysisBroken("%s does not depend on the charge" % fn["fn"])
        for Z in range(1, 101):
            env = {zt: float(Z)}
            vs = [o for o in outs if consistent(o.st.facts, env, db)]
            if len(vs) != 1:
                raise AnalysisBroken("%s: %d paths for Z = %d" % (fn["fn"], len(vs), Z))
            v = number(db, rget(e.load(vs[0].st, (("o", mk("this")), ())), field), field)
            c.ob("%s of element %d" % (field, Z), rel_ok(v, ref(Z), 1e-6), w, "%g, published %g" % (v, ref(Z)))
    # constructor: average nucleon weight, Wood-Saxon factor
    cs = [x for x in user_ctors(db, N + "Component") if len(x["params"]) == 4]
    if len(cs) != 1:
        raise AnalysisBroken("Component constructor not found")
    fn = cs[0]
    w = (rel(fn["file"]), fn["line"])

    def noop(name):
        h = db.functions.get(name)
        if h is not None and h["name"] in ("SetLogConstant", "SetBPrime"):
            return lambda eng, nm, cal, olv, avals, st, fr, node: [(st, VOID)]
        return None
    e = Engine(db, inline=lambda h: not h.get("ctor") and h["name"] not in ("SetLogConstant", "SetBPrime"), opaque=noop)
    P = [mk("sym", p["n"]) for p in fn["params"]]
    outs = [o for o in e.run(fn) if o.kind == "return"]
    calls = {}
    for o in outs:
        t = e.load(o.st, (("o", mk("this")), ()))
        for k, p in (("name_", 0), ("nucCharge_", 1), ("atomicNum_", 2), ("atomInMolecule_", 3)):
            v = rget(t, k)
            while v.op == "construct" and len(v.a) == 2:
                v = v.a[1]
            c.ob("Component constructor: %s is parameter %d" % (k, p + 1), v is P[p], w, "is %s" % show(v)[:60])
    names = set()
    for x in walk_calls(fn.get("body")):
        names.add(x)
    for need in ("SetLogConstant", "SetBPrime"):
        c.ob("Component constructor: calls %s" % need, any(x.split("::")[-1] == need for x in names), w, "not called")
    for Z, A in sorted({(float(z), a) for z, a in ELEMENTS.values()} | {(2.0, 4.0026), (3.0, 6.94), (1.0, 2.0141)}):
        env = {P[1]: Z, P[2]: A}
        vs = [o for o in outs if consistent(o.st.facts, env, db)]
        if not vs:
            raise AnalysisBroken("Component constructor: no path for Z = %g" % Z)
        for o in vs:
            t = e.load(o.st, (("o", mk("this")), ()))
            mn = (Z * 938.2720813 + (A - Z) * 939.565413) / A
            v = number(db, rget(t, "averageNucleonWeight_"), "averageNucleonWeight_", env)
            c.ob("average nucleon mass for Z = %g" % Z, rel_ok(v, mn, 1e-6), w, "%.4f, expected %.4f" % (v, mn))
            if Z != 1:
                r0 = A ** (1 / 3.)
                r0 = 1.12 * r0 - 0.86 / r0
                s = 0.54
                ws = s * (r0 * r0 * math.log(2) + s * r0 * math.pi ** 2 / 6 + s * s * 1.5 * 1.202056903159594)
                want = 1 - 4 * math.pi * 0.17 * ws / A
                v = number(db, rget(t, "wood_saxon_"), "wood_saxon_", env)
                c.ob("Wood-Saxon factor for Z = %g" % Z, rel_ok(v, want, 1e-6), w, "%.5f, expected %.5f" % (v, want))


def walk_calls(n):
    if isinstance(n, dict):
        if "callee" in n:
            yield str(n["callee"])
        if n.get("fn"):
            yield str(n["fn"]).split("(")[0]
        for v in n.values():
            for x in walk_calls(v):
                yield x
    elif isinstance(n, list):
        for v in n:
            for x in walk_calls(v):
                yield x


def fraction(db, c):
    f = db.fn(N + "calculate_proton_massnumber_fraction", 1)
    w = (rel(f["file"]), f["line"])
    e = Engine(db)
    for o in e.run(f):
        if o.kind != "return":
            continue
        S = Sums()
        got = S.norm(o.value)
        el = S.element(o.value)
        if el is None:
            raise AnalysisBroken("sum not recognised")
        n, z, a = [mk("fld", el, k) for k in ("atomInMolecule_", "nucCharge_", "atomicNum_")]
        c.ob("proton fraction: charge over nucleons of all components", S.equal(got, mk("/", S.total(mk("*", n, z)), S.total(mk("*", n, a)))), w, "is %s" % show(got)[:200])


GETTERS = {N + "Medium": {"GetNumComponents": "numComponents_", "GetSumCharge": "sumCharge_", "GetZA": "ZA_", "GetI": "I_", "GetC": "C_", "GetA": "a_", "GetM": "m_", "GetX0": "X0_",
                          "GetX1": "X1_", "GetD0": "d0_", "GetMassDensity": "massDensity_", "GetMolDensity": "molDensity_", "GetRadiationLength": "radiationLength_", "GetMM": "MM_",
                          "GetSumNucleons": "sumNucleons_", "GetName": "name_", "GetComponents": "components_"},
           N + "Component": {"GetName": "name_", "GetNucCharge": "nucCharge_", "GetAtomicNum": "atomicNum_", "GetAtomInMolecule": "atomInMolecule_", "GetLogConstant": "logConstant_",
                             "GetBPrime": "bPrime_", "GetAverageNucleonWeight": "averageNucleonWeight_", "GetWoodSaxon": "wood_saxon_", "GetHash": "hash"}}


def getters(db, c):
    n = 0
    for cls, tab in GETTERS.items():
        for g, fld in tab.items():
            f = db.fn(cls + "::" + g, 0, optional=True)
            if f is None or "body" not in f:
                continue
            n += 1
            e = Engine(db)
            o = [x for x in e.run(f) if x.kind == "return"]
            v = strip_ref(o[0].value) if len(o) == 1 else None
            c.ob("%s::%s returns %s" % (cls.replace(N, ""), g, fld), v is not None and v.op == "fld" and v.a[1] == fld, (rel(f["file"]), f["line"]), "returns %s" % (show(v)[:60] if v is not None else None))
    c.need("getters of media and components", n, 20)


def strip_ref(v):
    while v.op in ("ref",) or (v.op == "construct" and len(v.a) == 2):
        v = v.a[-1]
    return v


# ------------------------------------------------------------------ constants
# published value, relative tolerance
CONST = {"PI": (math.pi, 1e-14), "LOG10": (math.log(10), 1e-14), "SQRT2": (math.sqrt(2), 1e-14), "SQRT3": (math.sqrt(3), 1e-14), "SQRTE": (math.exp(0.5), 1e-14), "ZETA3": (1.2020569031595942, 1e-13),
         "EULER_MASCHERONI": (0.5772156649015329, 1e-14), "INF": (math.inf, 0), "ALPHA": (7.2973525693e-3, 1e-7), "RY": (13.605693123, 1e-6), "NA": (6.02214076e23, 1e-6), "SPEED": (2.99792458e10, 1e-12),
         "IONK": (0.307075, 1e-5), "HBAR": (6.582119569e-22, 1e-6), "MP": (938.27208816, 1e-6), "MN": (939.56542052, 1e-6), "ME": (0.51099895, 1e-6), "RE": (2.8179403262e-13, 1e-6),
         "MMU": (105.6583755, 1e-6), "LMU": (2.1969811e-6, 1e-4), "MTAU": (1776.86, 1e-4), "LTAU": (290.3e-15, 3e-3), "MPI": (139.57039, 1e-5), "LPI": (2.6033e-8, 1e-3), "MPI0": (134.9768, 1e-5),
         "LPI0": (8.43e-17, 2e-2), "MKAON0": (497.611, 1e-4), "MKAON": (493.677, 1e-4), "LKAON": (1.2380e-8, 3e-3), "MRH": (775.26, 1e-3), "MA1": (1230, 1e-2), "MRS": (1465, 1e-2),
         "CMON": (1 / (2 * 7.2973525693e-3), 1e-4), "STABLE_PARTICLE": (math.inf, 0), "COMPUTER_PRECISION": (1e-10, 0.5), "HALF_PRECISION": (1e-5, 0.5), "GEOMETRY_PRECISION": (1e-9, 0.5),
         "PARTICLE_POSITION_RESOLUTION": (1e-3, 0.5)}
# aliases a refactoring may use for a derived constant are checked through the relations below


def constants(db, c):
    val = {}
    for k, g in sorted(db.globals.items()):
        if not g["file"].endswith("Constants.cxx") or "::" not in k:
            continue
        nm = k.split("@")[0].replace(N, "")
        try:
            val[nm] = float(g["cv"]) if "cv" in g else number(db, Engine(db).ev(g["init"], St(), Frame({"fn": k, "file": g["file"], "params": []}, None, None, 0))[0][1], nm)
        except (AnalysisBroken, KeyError, ValueError):
            continue
        c.saw("constants", nm)
        if nm in CONST:
            y, tol = CONST[nm]
            c.ob("%s has its published value" % nm, val[nm] == y or abs(val[nm] - y) <= tol * abs(y), (rel(g["file"]), g["line"]), "%.15g, published %.15g" % (val[nm], y))
    w = "src/PROPOSAL/detail/PROPOSAL/Constants.cxx"

    def relation(name, ks, fn, tol):
        if all(k in val for k in ks):
            a, b = fn(*[val[k] for k in ks])
            c.ob(name, abs(a - b) <= tol * abs(b), w, "%.12g and %.12g" % (a, b))
    relation("IONK = 4 pi NA re^2 me", ("IONK", "PI", "NA", "RE", "ME"), lambda i, p, n, r, m: (i, 4 * p * n * r * r * m), 1e-5)
    relation("re = alpha hbar c / me", ("RE", "ALPHA", "HBAR", "SPEED", "ME"), lambda r, a, h, s, m: (r, a * h * s / m), 1e-6)
    relation("RY = me alpha^2 / 2", ("RY", "ME", "ALPHA"), lambda r, m, a: (r, 1e6 * m * a * a / 2), 1e-6)
    relation("LOG10 = ln 10", ("LOG10",), lambda l: (l, math.log(10)), 1e-13)
    relation("CMON = 1/(2 alpha)", ("CMON", "ALPHA"), lambda m, a: (m, 0.5 / a), 1e-5)
    relation("half precision is the root of the computer precision", ("HALF_PRECISION", "COMPUTER_PRECISION"), lambda h, p: (h * h, p), 1e-6)
    c.need("constants with a published value", len([k for k in val if k in CONST]), 30)


CHECKS = {
    "P20": ("Constructor arguments of all built-in media and components are evaluated by constant propagation and compared with published constants and with the Sternheimer relations; the sums over "
            "components in Medium::init are normalised symbolically and compared with their definitions; per-element tables are evaluated for every nuclear charge 1..100.", media),
    "P35": ("All constants of the library are evaluated by constant propagation and compared with published values and with each other.", constants),
}

"""P08 (energy cuts), P17 (objects built from a configuration)."""
import copy
import math
from data import *
from jsonm import outcome, NULLJ, Rejects, Undefined
from evalt import evalt, consistent, Unknown

THIS = ("o", mk("this"))
BADNUM = ["abc", [1.0], {"a": 1}, NULLJ]
BADVEC = ["abc", 1.0, NULLJ, {"x": 1}, [1.5, 2.5], [1.5, 2.5, 3.5, 4.5], [], ["a", 1, 2], [1, "a", 2], [1, 2, "a"], [1, NULLJ, 2], [[1], 2, 3]]
BADSTR = [1.0, NULLJ, ["sphere"], {"a": 1}]
NEG = -2.5


def engine(db):
    opq = {"calculate_splines": None, "Antiderivative": None}

    def quiet(eng, name, cal, olv, avals, st, fr, node):
        st = st.copy()
        eng.event(st, "call", name, olv, eng.load(st, olv), tuple(eng.aval(st, a) for a in avals), eng.where(fr, node))
        return [(st, VOID)]

    def opaque(n):
        if n.split("(")[0].split("::")[-1] in opq:
            return quiet
    return Engine(db, inline=lambda g: g["name"] not in opq, opaque=opaque)


def json_ctor(db, cls):
    fs = [f for f in db.functions.values() if f.get("ctor") and f.get("cls") == N + cls and len(f["params"]) == 1 and "json" in f["params"][0]["t"]]
    if len(fs) != 1:
        raise AnalysisBroken("%s is not built from a configuration" % cls)
    return fs[0]


class Reader(object):
    """a constructor or factory that reads a configuration"""
    def __init__(self, db, fn):
        self.db, self.fn = db, fn
        self.e = engine(db)
        self.sym = mk("sym", fn["params"][0]["n"] or "_")
        self.outs = self.e.run(fn)
        self.where = (rel(fn["file"]), fn["line"])

    def decide(self, doc):
        return outcome(self.outs, self.sym, doc)

    def root(self, o):
        if self.fn.get("ctor"):
            return THIS, ()
        v = o.value
        if v.op != "ptr":
            raise AnalysisBroken("result of %s is not an object made there" % self.fn["name"])
        return v.a[0], v.a[1]

    def get(self, o, path):
        r = self.root(o)
        l = (r[0], r[1])
        for k in path:
            if k == "*":
                v = self.e.load(o.st, l)
                if v.op != "ptr":
                    raise AnalysisBroken("pointer %s" % show(v)[:80])
                l = (v.a[0], v.a[1])
            else:
                l = (l[0], l[1] + (num(k) if isinstance(k, int) else k,))
        return self.e.load(o.st, l)


def same(a, b):
    if isinstance(a, float) and isinstance(b, (int, float)):
        return a == b or a != a and b != b
    return a == b


def expect_throw(c, rd, name, doc, why):
    r = rd.decide(doc)
    c.ob("%s: %s" % (name, why), r[0] == "throw", rd.where,
         "" if r[0] == "throw" else "configuration %s is accepted" % brief(doc) if r[0] == "return" else "%s: %s" % (brief(doc), r[1]))


def brief(d):
    return str(d)[:160]


def expect_fields(c, rd, name, doc, fields, why):
    r = rd.decide(doc)
    if r[0] != "return":
        c.ob("%s: %s" % (name, why), False, rd.where, "valid configuration %s is rejected %s" % (brief(doc), r[1] if isinstance(r[1], str) else ""))
        return
    o, val = r[1], r[2]
    bad = []
    for path, want in fields.items():
        if path == ():
            v = rd.e.load(o.st, rd.root(o))
            got = v.a[0] if v.op == "rec" else show(v)[:60]
            if got != N + want:
                bad.append("object of class %s instead of %s" % (got, want))
            continue
        if path[-1] == "class":
            v = rd.get(o, path[:-1])
            got = v.a[0] if v.op == "rec" else show(v)[:60]
            if got != N + want:
                bad.append("%s of class %s instead of %s" % (path[0], got, want))
            continue
        t = rd.get(o, path)
        try:
            got = val(t)
        except Unknown as u:
            raise AnalysisBroken("field %s not decided: %s" % (".".join(map(str, path)), u))
        except (Rejects, Undefined) as u:
            bad.append("%s: %s" % (".".join(map(str, path)), u))
            continue
        if not same(got, want):
            bad.append("%s is %r instead of %r" % (".".join(map(str, path)), got, want))
    c.ob("%s: %s" % (name, why), not bad, rd.where, "; ".join(bad))


def vec(path, vals):
    return {tuple(path) + ("coordinates", i): float(x) for i, x in enumerate(vals)}


# ---------------------------------------------------------------------------------------------------------------- P17
GEO = dict([(("hierarchy_",), 7)] + list(vec(("position_",), (1.5, -2.5, 3.25)).items()))
GEOD = {"origin": [1.5, -2.5, 3.25], "hierarchy": 7}
DEN = dict(vec(("axis_", "*", "fp0_"), (1.5, -2.5, 3.25)), **{})
DEN[("massDensity_",)] = 0.75
DEND = {"axis_type": "radial", "fp0": [1.5, -2.5, 3.25], "mass_density": 0.75}
RAD = {("axis_", "*", "class"): "RadialAxis"}


def d(*ds):
    r = {}
    for x in ds:
        r.update(x)
    return r


# class -> (valid document, fields it yields, entries: name -> kind)
#   kind: (required?, bad values, field path and default when absent)
OBJ = {
    "Box": (d(GEOD, {"shape": "box", "length": 10.5, "width": 20.25, "height": 30.125}),
            d(GEO, {("x_",): 10.5, ("y_",): 20.25, ("z_",): 30.125}),
            {"origin": (1, BADVEC, None), "length": (1, BADNUM + [NEG], None), "width": (1, BADNUM + [NEG], None), "height": (1, BADNUM + [NEG], None),
             "hierarchy": (0, BADNUM, (("hierarchy_",), 0))}),
    "Sphere": (d(GEOD, {"shape": "sphere", "outer_radius": 10.5, "inner_radius": 0.25}),
               d(GEO, {("radius_",): 10.5, ("inner_radius_",): 0.25}),
               {"origin": (1, BADVEC, None), "outer_radius": (1, BADNUM + [NEG, 0.2], None), "inner_radius": (0, BADNUM + [NEG, 11.5], (("inner_radius_",), 0.0)),
                "hierarchy": (0, BADNUM, (("hierarchy_",), 0))}),
    "Cylinder": (d(GEOD, {"shape": "cylinder", "outer_radius": 10.5, "inner_radius": 0.25, "height": 30.125}),
                 d(GEO, {("radius_",): 10.5, ("inner_radius_",): 0.25, ("z_",): 30.125}),
                 {"origin": (1, BADVEC, None), "outer_radius": (1, BADNUM + [NEG, 0.2], None), "inner_radius": (0, BADNUM + [NEG, 11.5], (("inner_radius_",), 0.0)),
                  "height": (1, BADNUM + [NEG], None), "hierarchy": (0, BADNUM, (("hierarchy_",), 0))}),
    "Density_homogeneous": ({"type": "homogeneous", "mass_density": 0.75}, {("massDensity_",): 0.75}, {"mass_density": (1, BADNUM, None)}),
    "Density_exponential": (d(DEND, {"type": "exponential", "sigma": 2.25, "d0": -3.5}), d(DEN, RAD, {("sigma_",): 2.25, ("d0_",): -3.5}),
                            {"axis_type": (1, BADSTR + ["conical"], None), "fp0": (1, BADVEC, None), "mass_density": (1, BADNUM, None),
                             "sigma": (0, BADNUM, (("sigma_",), 1.0)), "d0": (0, BADNUM, (("d0_",), 0.0))}),
    "Density_polynomial": (d(DEND, {"type": "polynomial", "coefficients": [1.5, -2.5, 3.5, 0.25]}), d(DEN, RAD),
                           {"axis_type": (1, BADSTR + ["conical"], None), "fp0": (1, BADVEC, None), "mass_density": (1, BADNUM, None),
                            "coefficients": (1, ["abc", 1.5, NULLJ, {"a": 1.}, ["a"], [1.5, [2.]]], None)}),
    "Density_splines": (d(DEND, {"type": "spline", "spline_type": "linear", "x": [1.5, 2.5, 4.5], "y": [2., 1., 5.]}),
                        d(DEN, RAD, {("spline_", "*", "class"): "Linear_Spline", ("integrated_spline_", "*", "class"): "Linear_Spline",
                                     ("spline_", "*", "x_"): [1.5, 2.5, 4.5], ("spline_", "*", "y_"): [2., 1., 5.],
                                     ("integrated_spline_", "*", "x_"): [1.5, 2.5, 4.5], ("integrated_spline_", "*", "y_"): [2., 1., 5.]}),
                        {"axis_type": (1, BADSTR + ["conical"], None), "fp0": (1, BADVEC, None), "mass_density": (1, BADNUM, None),
                         "spline_type": (1, BADSTR + ["quartic"], None), "x": (1, ["abc", 1.5, ["a", "b", "c"], [1., 2.], [1., 2., 3., 4.], NULLJ], None),
                         "y": (1, ["abc", 1.5, ["a", "b", "c"], [1., 2.], [1., 2., 3., 4.], NULLJ], None)}),
}
ALT = {
    "Density_exponential": [("cartesian axis", {"axis_type": "cartesian", "fAxis": [0.5, 0.25, -4.5]}, d({("axis_", "*", "class"): "CartesianAxis"}, vec(("axis_", "*", "fAxis_"), (0.5, 0.25, -4.5))), {"fAxis": (1, BADVEC, None), "fp0": (1, BADVEC, None)})],
    "Density_splines": [("cubic spline", {"spline_type": "cubic"}, {("spline_", "*", "class"): "Cubic_Spline", ("integrated_spline_", "*", "class"): "Cubic_Spline"}, {})],
}
FACTORY = {"CreateGeometry": ("shape", {"box": "Box", "sphere": "Sphere", "cylinder": "Cylinder"}),
           "CreateDensityDistribution": ("type", {"homogeneous": "Density_homogeneous", "exponential": "Density_exponential", "polynomial": "Density_polynomial", "spline": "Density_splines"})}


def configs(db, c):
    for v in ("Cartesian3D", "Spherical3D"):
        c.part(v, vector, db, c, v)
    for k in sorted(OBJ):
        c.part(k, one, db, c, k)
    c.part("Polynom", polynom, db, c)
    for k in sorted(FACTORY):
        c.part(k, factory, db, c, k)


def vector(db, c, cls):
    rd = Reader(db, json_ctor(db, cls))
    c.saw("reader", rd.fn["fn"])
    expect_fields(c, rd, cls, [1.5, -2.5, 3], vec((), (1.5, -2.5, 3)), "coordinates are taken in order")
    for b in BADVEC:
        expect_throw(c, rd, cls, b, "%s is rejected" % (b,))


def entries(c, rd, name, doc, fields, ents):
    for k, (req, bad, dflt) in sorted(ents.items()):
        without = {x: y for x, y in doc.items() if x != k}
        if req:
            expect_throw(c, rd, name, without, "a missing '%s' is rejected" % k)
        else:
            expect_fields(c, rd, name, without, d(fields, {dflt[0]: dflt[1]}), "a missing '%s' takes the documented default, the others their value" % k)
        for b in bad:
            expect_throw(c, rd, name, d(doc, {k: b}), "'%s' = %s is rejected" % (k, b))
        if isinstance(doc[k], float) and k not in ("outer_radius", "inner_radius"):
            for v in (3, 1e12, 0.0625):
                f = {p: (float(v) if w == doc[k] else w) for p, w in fields.items()}
                expect_fields(c, rd, name, d(doc, {k: v}), f, "'%s' = %s is taken over unchanged" % (k, v))
        if isinstance(doc[k], int):
            for v in (0, 5, 1000):
                f = {p: (v if w == doc[k] else w) for p, w in fields.items()}
                expect_fields(c, rd, name, d(doc, {k: v}), f, "'%s' = %s is taken over unchanged" % (k, v))


def one(db, c, cls):
    rd = Reader(db, json_ctor(db, cls))
    c.saw("reader", rd.fn["fn"])
    doc, fields, ents = OBJ[cls]
    expect_fields(c, rd, cls, doc, fields, "entries reach their property")
    entries(c, rd, cls, doc, fields, ents)
    if issub(db, cls, "Geometry"):
        for b in (["a"], "abc", 1.5, NULLJ):
            expect_throw(c, rd, cls, b, "a document that is no object (%s) is rejected" % (b,))
    for label, dd, ff, ents2 in ALT.get(cls, ()):
        f = d({p: w for p, w in fields.items() if p not in ff}, ff)
        expect_fields(c, rd, cls + ", " + label, d(doc, dd), f, "entries reach their property")
        entries(c, rd, cls + ", " + label, d(doc, dd), f, ents2)
    if cls == "Density_splines":
        splines(db, c, rd, doc)


def issub(db, cls, base):
    return N + cls in db.all_derived(N + base)


def splines(db, c, rd, doc):
    """the coefficients are computed from the given points"""
    r = rd.decide(doc)
    if r[0] != "return":
        return
    o, val = r[1], r[2]
    seen = 0
    for ev in o.st.ev:
        if ev[0] == "call" and ev[1].split("(")[0].endswith("calculate_splines"):
            seen += 1
            got = [val(x) for x in ev[4]]
            c.ob("spline coefficients are computed from the given points", got == [doc["x"], doc["y"]], ev[5], "computed from %s" % got)
    c.ob("both splines are computed", seen == 2, rd.where, "%d splines computed" % seen)


def polynom(db, c):
    rd = Reader(db, json_ctor(db, "Polynom"))
    c.saw("reader", rd.fn["fn"])
    doc = {"coefficients": [1.5, -2.5, 3.5, 0.25]}
    expect_throw(c, rd, "Polynom", {}, "missing coefficients are rejected")
    for b in ("abc", 1.5, NULLJ, {"a": 1.}, ["a"], [1.5, [2.]]):
        expect_throw(c, rd, "Polynom", {"coefficients": b}, "coefficients %s are rejected" % (b,))
    r = rd.decide(doc)
    ok = r[0] == "return"
    detail = "valid coefficients are rejected"
    if ok:
        o, val = r[1], r[2]
        n = val(rd.get(o, ("N_",)))
        a = rd.e.load(o.st, (rd.get(o, ("coeff_",)).a[0], ())) if rd.get(o, ("coeff_",)).op == "ptr" else None
        src = [x for x in sub(a) if x.op == "jget"] if a is not None else []
        vals = [val(x) for x in src]
        ok = n == 4 and vals and all(v == doc["coefficients"] for v in vals)
        detail = "number of coefficients %s, contents %s" % (n, show(a)[:80] if a is not None else None)
    c.ob("Polynom: all coefficients are taken over", ok, rd.where, detail)


def factory(db, c, name):
    rd = Reader(db, db.fn(N + name, 1))
    c.saw("reader", rd.fn["fn"])
    key, table = FACTORY[name]
    some = None
    for word, cls in sorted(table.items()):
        doc, fields, _ = OBJ[cls]
        expect_fields(c, rd, name, doc, d(fields, {(): cls}), "%s '%s' makes a %s with the given entries" % (key, word, cls))
        some = doc
    for b in BADSTR + ["unknown word", ""]:
        expect_throw(c, rd, name, d(some, {key: b}), "%s = %s is rejected" % (key, b))
    expect_throw(c, rd, name, {x: y for x, y in some.items() if x != key}, "a missing %s is rejected" % key)


# ---------------------------------------------------------------------------------------------------------------- P08
INF = math.inf
NAN = math.nan
ECUT = [NAN, -INF, -1e300, -1.0, -1e-300, -0.0, 0.0, 5e-324, 1e-9, 0.5, 1.0, 500.0, 1e300, INF]
VCUT = [NAN, -INF, -1.0, -1e-300, -0.0, 0.0, 5e-324, 1e-9, 0.05, 0.5, 1 - 2 ** -53, 1.0, 1 + 2 ** -52, 1.5, 2.0, 1e300, INF]


def literals(outs):
    s = set()
    for o in outs:
        for f in o.st.facts:
            for x in sub(f):
                if x.op == "num" and isinstance(x.a[0], (int, float)):
                    s.add(float(x.a[0]))
    return s


def around(v):
    return {v, math.nextafter(v, INF), math.nextafter(v, -INF), -v}


def decide(outs, env, db, what):
    hit = []
    for o in outs:
        ok = True
        for f, p in o.st.facts.items():
            try:
                if bool(evalt(f, env, db)) != p:
                    ok = False
                    break
            except Unknown as u:
                raise AnalysisBroken("%s: condition not decided: %s" % (what, u))
        if ok:
            hit.append(o)
    if len({o.kind for o in hit}) != 1:
        raise AnalysisBroken("%s: %d paths for one point" % (what, len(hit)))
    return hit[0]


def cuts(db, c):
    c.part("constructor", cut_ctor, db, c)
    c.part("GetCut", cut_value, db, c)
    c.part("GetCut within limits", cut_limits, db, c)
    c.part("getters", cut_getters, db, c)
    c.part("configuration", cut_json, db, c)


E = "EnergyCutSettings"


def cut_ctor(db, c):
    fn = db.fn(N + E + "::" + E, 3)
    c.saw("function", fn["fn"])
    e = Engine(db, inline=lambda g: True)
    outs = e.run(fn)
    ps = [mk("sym", p["n"]) for p in fn["params"]]
    where = (rel(fn["file"]), fn["line"])
    lits = set()
    for v in literals(outs):
        lits |= around(v)
    for ec in sorted(set(ECUT) | lits, key=lambda x: (x != x, x)):
        for vc in sorted(set(VCUT) | lits, key=lambda x: (x != x, x)):
            o = decide(outs, {ps[0]: ec, ps[1]: vc, ps[2]: True}, db, "constructor")
            legal = ec > 0 and 0 < vc <= 1
            c.ob("EnergyCutSettings(%r, %r) is %s" % (ec, vc, "accepted" if legal else "rejected"), (o.kind == "return") == legal, where,
                 "it is %s" % ("accepted" if o.kind == "return" else "rejected"))
    for o in outs:
        if o.kind != "return":
            continue
        for f, p in (("ecut_", ps[0]), ("vcut_", ps[1]), ("continuous_randomization_", ps[2])):
            v = e.load(o.st, (THIS, (f,)))
            c.ob("%s holds the given value" % f, v is p or v.op == "tobool" and v.a[0] is p, where, "it holds %s" % show(v)[:100])


def cut_value(db, c):
    fn = db.fn(N + E + "::GetCut", 1)
    c.saw("function", fn["fn"])
    e = Engine(db, inline=lambda g: True)
    outs = e.run(fn)
    th = mk("this")
    ec, vc, en = mk("fld", th, "ecut_"), mk("fld", th, "vcut_"), mk("sym", fn["params"][0]["n"])
    where = (rel(fn["file"]), fn["line"])
    for a in (1e-3, 0.5, 3.0, 500.0, 1e9, INF):
        for b in (1e-9, 0.05, 0.5, 1.0):
            for x in (1e-3, 0.6, 1.0, 100.0, 1e4, 2e10, 1e20):
                env = {ec: a, vc: b, en: x}
                o = decide(outs, env, db, "GetCut")
                got = evalt(o.value, env, db) if o.kind == "return" else None
                want = min(a / x, b)
                c.ob("cut(ecut=%g, vcut=%g, E=%g)" % (a, b, x), got == want, where, "%r instead of %r" % (got, want))


def cut_limits(db, c):
    fn = db.fn(N + E + "::GetCut", 2)
    c.saw("function", fn["fn"])
    cutt = mk("sym", "#cut")

    def opq(n):
        return None
    e = Engine(db, inline=lambda g: True)
    outs = e.run(fn)
    th, lim = mk("this"), mk("sym", fn["params"][0]["n"])
    ec, vc, en = mk("fld", th, "ecut_"), mk("fld", th, "vcut_"), mk("sym", fn["params"][1]["n"])
    lo, hi = mk("fld", lim, "v_min"), mk("fld", lim, "v_max")
    where = (rel(fn["file"]), fn["line"])
    n = 0
    for l in (0.0, 1e-6, 0.01, 0.05, 0.5, 0.9):
        for h in (0.0, 1e-6, 0.01, 0.05, 0.5, 0.9, 1.0):
            if h < l:
                continue
            for a, b, x in ((INF, 1.0, 1e3), (INF, 0.05, 1e3), (500.0, 1.0, 1e3), (500.0, 1.0, 1e4), (500.0, 0.05, 1e3), (500.0, 0.05, 1e5), (1e-3, 1e-9, 1.0), (1.0, 1.0, 0.5), (900.0, 1.0, 1e3), (500., 1., 1e9)):
                env = {ec: a, vc: b, en: x, lo: l, hi: h}
                o = decide(outs, env, db, "GetCut(limits)")
                got = evalt(o.value, env, db) if o.kind == "return" else None
                want = min(max(l, min(a / x, b)), h)
                n += 1
                c.ob("cut(limits=[%g,%g], ecut=%g, vcut=%g, E=%g)" % (l, h, a, b, x), got == want, where, "%r instead of %r" % (got, want))


def cut_getters(db, c):
    for g, f in (("GetEcut", "ecut_"), ("GetVcut", "vcut_"), ("GetContRand", "continuous_randomization_")):
        fn = db.fn(N + E + "::" + g, 0)
        e = Engine(db, inline=lambda g: True)
        for o in e.run(fn):
            c.ob(g + " returns the stored value", o.value is mk("fld", mk("this"), f), (rel(fn["file"]), fn["line"]), show(o.value)[:80])


def cut_json(db, c):
    rd = Reader(db, json_ctor(db, E))
    c.saw("reader", rd.fn["fn"])
    inf = math.inf
    g = db.globals.get(N + "INF")
    doc = {"e_cut": 500.5, "v_cut": 0.25, "cont_rand": True}
    F = {("ecut_",): 500.5, ("vcut_",): 0.25, ("continuous_randomization_",): True}
    base = outcome

    def decide(dd):
        return base(rd.outs, rd.sym, dd, {mk("glob", N + "INF"): inf})
    rd.decide = decide
    expect_fields(c, rd, E, doc, F, "entries reach their property")
    expect_fields(c, rd, E, d(doc, {"cont_rand": False}), d(F, {("continuous_randomization_",): False}), "continuous randomization off")
    for w in ("inf", "infinity"):
        expect_fields(c, rd, E, d(doc, {"e_cut": w}), d(F, {("ecut_",): inf}), "the word %s stands for no absolute cut" % w)
    for v in (1, 1e-9, 1e20):
        expect_fields(c, rd, E, d(doc, {"e_cut": v}), d(F, {("ecut_",): float(v)}), "e_cut = %s" % v)
    for v in (1, 1e-9, 1.0):
        expect_fields(c, rd, E, d(doc, {"v_cut": v}), d(F, {("vcut_",): float(v)}), "v_cut = %s" % v)
    for k, bad in (("e_cut", ["none", "", [1.], {"a": 1}, NULLJ, 0, -1.0]), ("v_cut", ["none", "inf", [1.], {"a": 1}, NULLJ, 0, -0.5, 1.5]), ("cont_rand", ["true", 1.0, 0, NULLJ, [True]])):
        expect_throw(c, rd, E, {x: y for x, y in doc.items() if x != k}, "a missing '%s' is rejected" % k)
        for b in bad:
            expect_throw(c, rd, E, d(doc, {k: b}), "'%s' = %r is rejected" % (k, b))


CHECKS = {
    "P08": ("region enumeration of the guards of the constructor, algebra of GetCut on all order types of its arguments, and the configuration reader on a finite set of documents", cuts),
    "P17": ("guards and stored terms of every configuration reader, decided for documents in which each entry is present, missing, mistyped, negative or inconsistent", configs),
}

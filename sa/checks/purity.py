"""P26: queries do not change what later queries return."""
import itertools
import re
from ir import AnalysisBroken, rel
from data import *
from tree import *
from effects import Effects
from expose import Expose
import integrals
from process import qual, sources, short

MUTATOR = re.compile(r"^(Set|set|Add|add|Load|load|Init|init|Register|register|push|emplace|reserve|clear|swap|Save|Enable|Build|build|insert|erase|append|reset|Deserialize|Advance|Do[A-Z]|operator[^=!(]|operator=$)")
SCRATCH = {      # working state of a query; what it may hold at the start of the next query is decided below
    N + "Integral": set("min_ max_ integrand_ powerOfSubstitution_ useLog_ reverse_ reverseX_ randomNumber_ randomDo_ randomX_ savedResult_ iX_ iY_ c_ d_ romberg_ q_iord_ q_last_3_results_ q_rlist2_".split()),
    N + "Interpolant": set("reverse_ starti_ c_ d_ precision_ precision2_ precisionY_ worstX_ worstX2_ worstY_ iX_ iY_ romberg_ rombergY_ rational_ rationalY_ relative_ relativeY_ x_save_ y_save_ Interpolant_".split()),
    N + "ManyBodyPhaseSpace": {"parameter_map_"},
    N + "multiple_scattering::Moliere": {"B_", "chiCSq_"},
}
REGISTRY = {N + "Component::component_map", N + "Medium::medium_map", N + "ParticleDef::Type_Particle_Map"}
OTHER = re.compile(r"^PROPOSAL::(DefaultFactory(<.*>)?::m|LogTableCreation::warn_for_path|Logging::.*|RandomGenerator::(rng_|uniform_distribution))$")


def query(f):
    n = f["name"]
    if f.get("ctor") or n.startswith("~") or n.startswith("operator") and n not in ("operator==", "operator!=", "operator()"):
        return False
    if f.get("cls", "").startswith(N + "Logging") or f.get("cls") == N + "RandomGenerator" or "Builder" in (f.get("cls") or ""):
        return False
    if f.get("const"):
        return not re.match(r"^(Set|set)[A-Z_]", n)
    if f.get("ret", "void") == "void":
        return False
    return not MUTATOR.match(n)


def p26(db, c):
    E = Effects(db, stop=query)
    exposed = {}

    def silent(cls, fld):
        """no method of the class reads the field before writing it: nothing survives a query"""
        if cls not in exposed:
            X = Expose(db, cls)
            exposed[cls] = set()
            for fn in X.fns:
                f = db.functions[fn]
                if not f.get("ctor") and f["name"] not in ("operator=", "swap") and "~" not in f["name"]:
                    exposed[cls] |= set(X.sum[fn][1])
        return fld not in exposed[cls] and not any(x["n"] == fld for d in db.all_derived(cls) if d != cls for x in db.fields(d))

    nq = 0
    for fn, f in sorted(db.functions.items()):
        if not query(f) or f.get("dep"):
            continue
        nq += 1
        c.saw("queries", fn)
        bad = []
        for x in sorted(E.eff[fn], key=str):
            if x[0] == "param":
                continue        # an output parameter is part of the interface
            if x[0] == "this":
                cls = f.get("cls") or ""
                if x[1] in SCRATCH.get(cls, ()):
                    continue
                if x[1] and cls in db.records and silent(cls, x[1]):
                    continue
                bad.append((x, "writes the member %s" % x[1]))
            elif x[0] == "static":
                bad.append((x, "writes the static variable %s" % x[1]))
            elif x[1] not in REGISTRY and not OTHER.match(x[1]):
                bad.append((x, "writes the global %s" % x[1]))
        for x, what in bad:
            c.ob("%s %s" % (short(fn), what), False, (rel(f["file"]), f["line"]), "a query leaves traces that later queries see: %s" % E.path(fn, x))
        c.ob("%s leaves no trace" % short(fn), True, (rel(f["file"]), f["line"])) if not bad else None
    c.need("queries", nq, 700)

    # ------------------------------------------------------------------ registries and globals
    for fn, f in sorted(db.functions.items()):
        if f.get("dep"):
            continue
        w, calls = E.direct(fn)
        w = list(w)
        for t, o, a, n in calls:
            hit = {r for r in o if r[0] in ("glob", "static") and any(x[0] == "this" for x in E.eff[t])}
            for x in E.eff[t]:
                if x[0] == "param" and x[1] < len(a):
                    hit |= {r for r in a[x[1]] if r[0] in ("glob", "static")}
            if hit:
                w.append((hit, n))
        for roots, n in w:
            for r in roots:
                if r[0] == "static":
                    c.ob("%s writes the static variable %s" % (short(fn), r[1]), False, fwhere(f, n), "hidden state outlives the call")
                if r[0] != "glob":
                    continue
                c.saw("writes of globals", "%s in %s" % (r[1], short(fn)))
                if r[1] in REGISTRY:
                    c.ob("%s only adds to %s" % (short(fn), r[1].split("::")[-1]), additive(f, n, r[1]), fwhere(f, n),
                         "an entry of a registry never changes once it exists")
                else:
                    c.ob("%s writes the global %s" % (short(fn), r[1]), bool(OTHER.match(r[1])), fwhere(f, n), "hidden state outlives the call")
    # ------------------------------------------------------------------ static locals
    statics(db, c)
    c.part("Integral", p26_integral, db, c)
    c.part("Interpolant", p26_interpolant, db, c)
    c.part("restored settings", p26_restore, db, c)
    c.part("ManyBodyPhaseSpace", p26_memo, db, c)


def statics(db, c, only_random=False):
    for fn, f in sorted(db.functions.items()):
        ids = {p.get("id") for p in f["params"]}
        for n, anc in fnodes(f):
            if n["k"] == "Var" and not n.get("static"):
                ids.add(n.get("id"))
        for n, anc in fnodes(f):
            if n["k"] != "Var" or not n.get("static"):
                continue
            c.saw("static locals", "%s in %s" % (n["n"], short(fn)))
            const = re.match(r"^(const |constexpr )", n.get("t", "")) or n.get("const")
            inst = qual(fn) == N + "RandomGenerator::Get"
            dep = None
            if inst:
                continue
            for x, a in nodes(n.get("init") or {}):
                if x["k"] == "This" or x["k"] == "Member" and not x.get("c"):
                    dep = "the object"
                if x["k"] == "Ref" and x.get("id") in ids and not any(y["k"] == "Lambda" for y in a):
                    dep = x["n"]
                cal = callee_of(x)
                if cal and (cal.get("repo") and "RandomGenerator" in cal.get("fn", "")):
                    dep = "the random stream"
            c.ob("%s: static %s holds the same value for every call" % (short(fn), n["n"]), dep is None, fwhere(f, n), "it keeps what the first call made of %s" % dep)
            if not const and not inst:
                # written anywhere?
                refs = 0
                for x, a in fnodes(f):
                    if x["k"] == "Ref" and x.get("id") == n["id"] and written(x, a):
                        refs += 1
                c.ob("%s: static %s is never written" % (short(fn), n["n"]), refs == 0, fwhere(f, n), "hidden state outlives the call")


def written(x, anc):
    for a in reversed(anc):
        if a["k"] in ("Cast", "Paren", "Subscript", "Member"):
            if a["k"] == "Cast" and a.get("ck") == "LValueToRValue":
                return False
            continue
        if a["k"] == "Assign":
            return within(a["c"][0], x)
        if a["k"] == "Un":
            return a.get("op") in ("++", "--", "&")
        if a["k"] == "MCall":
            return within(a.get("obj"), x) and not (a.get("callee") or {}).get("const")
        if a["k"] == "OpCall":
            cal = a.get("callee") or {}
            return not cal.get("const") and cal.get("name") not in ("operator[]", "operator*", "operator->", "operator()")
        return False
    return False


def within(root, x):
    return any(y is x for y, _ in nodes(root)) if root else False


def additive(f, n, g):
    """the write either adds an entry under a key that is absent, or creates the registry where there is none"""
    k = n["k"]
    cal = n.get("callee") or {}
    if k in ("MCall",) and cal.get("name") in ("insert", "emplace", "try_emplace", "reserve", "emplace_hint", "rehash"):
        return True
    if k == "OpCall" and cal.get("name") == "operator=" or k == "Assign" or k == "MCall" and cal.get("name") == "reset":
        # guarded by a null test of the same registry
        for x, anc in fnodes(f):
            if x is n:
                for a in reversed(anc):
                    if a["k"] in ("If", "Cond"):
                        for y, _ in nodes((a.get("cond") or (a.get("c") or [None])[0]) or {}):
                            if y["k"] in ("Ref", "Member") and (y.get("q") or "") == g:
                                return True
                # early return when the registry exists
                for y, ya in fnodes(f):
                    if y["k"] == "If" and y.get("l", 0) <= n.get("l", 0):
                        cond = y.get("cond") or (y.get("c") or [None])[0]
                        if cond and any(z["k"] in ("Ref", "Member") and z.get("q") == g for z, _ in nodes(cond)) and any(z["k"] == "Return" for z, _ in nodes(y)):
                            return True
        return False
    return False


# ------------------------------------------------------------------------------------------------------- Integral
ENTRY = [("Integrate", 5), ("IntegrateClosed", 3), ("IntegrateOpened", 3), ("IntegrateWithSubstitution", 4), ("IntegrateWithLog", 3), ("IntegrateWithLogSubstitution", 4),
         ("IntegrateWithSubstitution", 5), ("IntegrateWithLog", 4), ("IntegrateWithRandomRatio", 6)]
HELPER = {"Interpolate": {"iX_", "iY_", "c_", "d_"}, "q_epsilon_extrapolation": {"q_rlist2_", "q_last_3_results_"}, "q_sort": {"q_iord_"}, "RefineUpperLimit": {"randomX_"}}


def p26_integral(db, c):
    cls = N + "Integral"
    allowed = integrals.CONFIG
    for name, npar in ENTRY:
        try:
            f, e, outs = integrals.run(db, name, npar)
        except AnalysisBroken:
            raise
        for o in outs:
            c.saw("paths of integration entry points", "%s/%d %s" % (name, npar, len(c.obs)))
            for kind, t in [("value", o.value)] + [("core call", x[2]) for x in o.st.ev if x[0] == "core"] + [("branch", k) for k in o.st.facts]:
                for r in rstates(t):
                    c_state(c, f, name, npar, kind, r, allowed)
                m = integrals.mentions(strip_r(t)) - allowed
                c.ob("Integral::%s(%d): the %s does not depend on an earlier integral" % (name, npar, kind), not m, (rel(f["file"]), f["line"]), "reads %s left over from an earlier call" % sorted(m))
    # the numerical cores read nothing but what the entry points set up
    X = Expose(db, cls)
    ncore = 0
    for fn in X.fns:
        f = db.functions[fn]
        nm = f["name"]
        if nm not in ("RombergIntegrateClosed", "RombergIntegrateOpened", "Trapezoid", "Trapezoid3", "Trapezoid3S", "Function", "qags", "Interpolate", "RefineUpperLimit", "q_gaus_kronrod_21",
                      "q_epsilon_extrapolation", "q_sort"):
            continue
        ncore += 1
        ok = set(integrals.INPUT) | integrals.CONFIG | HELPER.get(nm, set()) | {"q_last_3_results_"}
        written_ = {w for w in SCRATCH[cls]}
        for fld, n in sorted(X.sum[fn][1].items()):
            if fld not in written_ and fld not in integrals.INPUT:
                continue
            c.ob("Integral::%s does not read %s of an earlier integral" % (nm, fld), fld in ok, fwhere(f, n), "the field is read on a path on which it was not set in this integration")
    c.need("integration cores", ncore, 10)


def rstates(t):
    return [x for x in sub(t) if isinstance(x, T) and x.op == "R"] if isinstance(t, T) else []


def strip_r(t):
    def go(x):
        if isinstance(x, T):
            if x.op == "R":
                return mk("R0", x.a[0])
            return mk(x.op, *[go(y) for y in x.a])
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def c_state(c, f, name, npar, kind, r, allowed):
    for s, v in zip(integrals.INPUT, r.a[1:]):
        if not isinstance(v, T):
            continue
        m = integrals.mentions(v) - allowed
        if s == "reverseX_":
            rev = r.a[1 + integrals.INPUT.index("reverse_")]
            if rev == FALSE or isinstance(rev, T) and rev.op == "bool" and rev.a[0] is False:
                continue        # not read by the integrand unless reversed
        if s == "powerOfSubstitution_" and m == {"powerOfSubstitution_"}:
            pass
        c.ob("Integral::%s(%d): %s is set up by this call before the core runs" % (name, npar, s), not m, (rel(f["file"]), f["line"]), "%s holds %s left over from an earlier call" % (s, sorted(m)))


# ----------------------------------------------------------------------------------------------------- Interpolant
def p26_interpolant(db, c):
    cls = N + "Interpolant"
    X = Expose(db, cls)
    n = 0
    for fn in X.fns:
        f = db.functions[fn]
        pub = f["name"] in ("InterpolateArray", "FindLimit") or f["name"] == "Interpolate" and not any(p["t"] == "int" for p in f["params"])
        if not pub:
            continue
        n += 1
        for fld in ("reverse_", "starti_", "c_", "d_"):
            nd = X.sum[fn][1].get(fld)
            c.ob("Interpolant::%s(%d) sets %s before using it" % (f["name"], len(f["params"]), fld), nd is None, fwhere(f, nd), "the working variable still holds the value of an earlier query")
        if f["name"] != "FindLimit" and len(f["params"]) == 2:
            nd = X.sum[fn][1].get("iY_")
            c.ob("Interpolant::%s(2) fills the row buffer before using it" % f["name"], nd is None, fwhere(f, nd), "the row buffer still holds the values of an earlier query")
    c.need("interpolation queries", n, 6)
    # the memo of the logarithm
    def logarithm(eng, name, cal, olv, avals, st, fr, node):
        return [(st, mk("Log", *[eng.aval(st, a) for a in avals]))]
    lg = db.fn(cls + "::Log", 1)
    impure = [x for x in Effects(db).eff[lg["fn"]] if x[0] != "param"]
    c.ob("Interpolant::Log writes nothing", not impure, (rel(lg["file"]), lg["line"]), "writes %s" % impure)
    e = Engine(db, inline=lambda g: False, opaque=lambda n: logarithm if n.startswith(cls + "::Log(") else None)
    f = db.fn(cls + "::Slog", 1)
    x = mk("sym", f["params"][0]["n"])
    this = ("o", mk("this"))
    for o in e.run(f):
        xs, ys = e.load(o.st, (this, ("x_save_",))), e.load(o.st, (this, ("y_save_",)))
        kept = show(xs) == "this.x_save_" and show(ys) == "this.y_save_"
        pair = same_arg(ys, xs) and xs == x
        c.ob("Interpolant::Slog keeps key and value of its memo together", kept or pair, (rel(f["file"]), f["line"]), "after the call the memo holds (%s, %s)" % (show(xs), show(ys)))
        v = o.value
        if show(v) == "this.y_save_":
            hit = any(show(k) in ("(%s == this.x_save_)" % x.a[0], "(this.x_save_ == %s)" % x.a[0], "==(%s, this.x_save_)" % x.a[0], "==(this.x_save_, %s)" % x.a[0]) and b for k, b in o.st.facts.items()) \
                or any(k.op in ("==", "eq") and set(show(z) for z in k.a) == {x.a[0], "this.x_save_"} and b for k, b in o.st.facts.items())
            c.ob("Interpolant::Slog returns the memo only for its own key", hit, (rel(f["file"]), f["line"]), "facts: %s" % [show(k) for k in o.st.facts])
        else:
            c.ob("Interpolant::Slog returns the logarithm of its argument", same_arg(v, x), (rel(f["file"]), f["line"]), "returns %s" % show(v))
    ok = 0
    for fn in X.fns:
        f = db.functions[fn]
        if f["name"] in ("InitInterpolant",) or f.get("ctor"):
            vals = {}
            for n_, a in fnodes(f):
                if n_["k"] == "Assign" and n_["c"][0]["k"] == "Member" and n_["c"][0]["n"] in ("x_save_", "y_save_"):
                    vals[n_["c"][0]["n"]] = literal(n_["c"][1])
            for i in f.get("inits") or []:
                if isinstance(i, dict) and (i.get("field") or i.get("n")) in ("x_save_", "y_save_"):
                    e_ = i.get("init") or (i.get("c") or [None])[0]
                    vals[i.get("field") or i.get("n")] = literal(e_) if e_ else None
            if "x_save_" in vals and "y_save_" in vals and vals["x_save_"] is not None and vals["y_save_"] is not None:
                ok += 1
                c.ob("%s starts with a correct memo" % short(fn), vals["x_save_"] == 1 and vals["y_save_"] == 0, (rel(f["file"]), f["line"]), "log(%s) is not %s" % (vals["x_save_"], vals["y_save_"]))
    c.notes.append("%d initialisations of the logarithm memo" % ok)


def literal(n):
    while n["k"] in ("Cast", "Paren") and n.get("c"):
        n = n["c"][0]
    if n["k"] in ("Int", "Float"):
        return float(n["v"])
    return None


def same_arg(v, x):
    return isinstance(v, T) and any(y == x for y in v.a if isinstance(y, T)) and not integrals.mentions(v)


SETTINGS = ("romberg_", "rombergY_", "relative_", "relativeY_", "rational_", "rationalY_", "precision_", "precisionY_", "worstX_", "iX_")


def p26_restore(db, c):
    def opq(eng, name, cal, olv, avals, st, fr, node):
        return [(st, mk("opq", name.split("(")[0].split("::")[-1]))]
    this = ("o", mk("this"))
    cls = N + "Interpolant"
    for npar, extra in ((1, ("iY_",)), (2, ())):
        f = db.fn(cls + "::FindLimit", npar)
        for fast, ls, flag in itertools.product((False, True), repeat=3):
            e = Engine(db, inline=lambda g: g.get("cls") == cls and g["name"] not in ("Interpolate", "InterpolateArray", "Slog", "Log", "Exp", "FindLimit", "Get2dFunctionFixedY"),
                       opaque=lambda n: opq if n.startswith(cls + "::") and n.split("(")[0].split("::")[-1] in ("Interpolate", "InterpolateArray", "Slog", "Log", "Exp", "Get2dFunctionFixedY") else None)
            st = St()
            st.store[this] = rec(cls, mk("this"), {"fast_": boolt(fast), "logSubst_": boolt(ls), "flag_": boolt(flag)})
            for o in e.run(f, st=st):
                if o.kind != "return":
                    continue
                c.saw("paths of FindLimit", "%d %s%s%s %d" % (npar, fast, ls, flag, len(c.obs)))
                for s in SETTINGS + extra:
                    v = e.load(o.st, (this, (s,)))
                    c.ob("Interpolant::FindLimit(%d) restores %s" % (npar, s), show(v) == "this." + s, (rel(f["file"]), f["line"]), "left as %s" % show(v)[:160])
    cls = N + "Integral"
    f = db.fn(cls + "::RefineUpperLimit", 1)
    e = Engine(db, inline=lambda g: False, opaque=lambda n: opq if n.startswith(cls) else None)
    for o in e.run(f):
        if o.kind != "return":
            continue
        for s in ("romberg_", "min_", "max_"):
            v = e.load(o.st, (this, (s,)))
            c.ob("Integral::RefineUpperLimit restores %s" % s, show(v) == "this." + s, (rel(f["file"]), f["line"]), "left as %s" % show(v)[:160])
    f = db.fn(cls + "::GetUpperLimit", 0)
    e = Engine(db, inline=lambda g: False, opaque=lambda n: opq if n.startswith(cls) else None)
    for o in e.run(f):
        v = e.load(o.st, (this, ("romberg_",)))
        c.ob("Integral::GetUpperLimit leaves the order as it is", show(v) == "this.romberg_", (rel(f["file"]), f["line"]), "left as %s" % show(v)[:160])


def p26_memo(db, c):
    f = db.fn(N + "ManyBodyPhaseSpace::GetPhaseSpaceParams", 1)
    pid = f["params"][0].get("id")
    uses = 0
    for fn, g in sorted(db.functions.items()):
        if g.get("cls") != N + "ManyBodyPhaseSpace" or g.get("ctor") or g["name"] in ("operator=", "swap"):
            continue
        for n, anc in fnodes(g):
            key = None
            if n["k"] == "OpCall" and n.get("op") == "[]" and is_map(n["c"][0]):
                key = n["c"][1]
            if n["k"] == "MCall" and n.get("obj") and is_map(n["obj"]) and (n.get("callee") or {}).get("name") in ("find", "at", "count", "emplace", "insert", "try_emplace"):
                key = (n.get("c") or [None])[0]
            if key is None:
                continue
            uses += 1
            refs = [x for x, _ in nodes(key) if x["k"] in ("Ref", "Member")]
            ok = any(x["k"] == "Ref" and x.get("id") == pid for x in refs) and not any(x["k"] == "Member" for x in refs) if g is f else False
            c.ob("%s: phase-space parameters are kept per parent definition" % short(fn), ok, fwhere(g, n), "the memo is keyed by something else than the whole parent definition")
    c.need("uses of the phase-space memo", uses, 2)


def is_map(n):
    while n["k"] in ("Cast", "Paren") and n.get("c"):
        n = n["c"][0]
    return n["k"] == "Member" and n["n"] == "parameter_map_"


CHECKS = {
    "P26": ("Interprocedural side-effect (mod) analysis of every query over the call graph; registries are only added to; static locals hold call-independent constants; path-sensitive dataflow over the "
            "integrator's and interpolant's working state (no field of an earlier query is read before it is set, settings changed during a search are restored on every path, memos keep key and value together).", p26),
}

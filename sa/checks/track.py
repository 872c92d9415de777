"""P14: the recorded track: alignment of states, interactions and targets; selections, losses and re-propagated states."""
import itertools
import math
from ir import AnalysisBroken
from absint import *
from data import N
from evalt import evalt, Unknown, NoCase, limit
from kinematics import S, vec, engine, pick, where, qname, C3

C, PS = N + "Secondaries", N + "ParticleState"
IT = N + "InteractionType"
NSTATES = 3

# one representative of a general track: no two quantities coincide
R = [(0.25, -1.5, 2.0), (3.25, 2.5, 2.0), (3.25, 4.5, 7.75)]
U = [(0.6, 0.0, 0.8), (0.0, -0.28, 0.96), (-0.8, 0.6, 0.0)]
EN = [1021.0, 509.0, 67.0]
TI = [0.5, 1.75, 4.5]
DI = [11.0, 23.0, 41.0]
TY = [13.0, 15.0, 17.0]
HA = [101.0, 211.0, 307.0]
FIELDS = {"energy": EN, "time": TI, "propagated_distance": DI, "type": TY, "position": R, "direction": U}


def kinds(db):
    e = db.enums[IT]["c"]
    d = {n: float(int(v)) for n, v, _ in e}
    try:
        return d["ContinuousEnergyLoss"], d["Decay"], d["Brems"], d
    except KeyError:
        raise AnalysisBroken("interaction types not recognised")


def state(i):
    return rec(PS, None, {"type": S("ty%d" % i), "position": vec("r%d" % i), "direction": vec("u%d" % i), "energy": S("E%d" % i),
                          "time": S("t%d" % i), "propagated_distance": S("s%d" % i)})


def this(n=NSTATES):
    return rec(C, None, {"track_": mk("list", *[state(i) for i in range(n)]), "types_": mk("list", *[S("k%d" % i) for i in range(n)]),
                         "target_hashes_": mk("list", *[S("h%d" % i) for i in range(n)]), "primary_def_": mk("ptr", ("o", S("pdef")), ()),
                         "sectors_": mk("list", S("sec0"), S("sec1"), S("sec2"))})


def base_env():
    env = {}
    for i in range(NSTATES):
        env.update({S("ty%d" % i): TY[i], S("E%d" % i): EN[i], S("t%d" % i): TI[i], S("s%d" % i): DI[i], S("h%d" % i): HA[i]})
        for j, x in enumerate("xyz"):
            env[S("r%d%s" % (i, x))] = R[i][j]
            env[S("u%d%s" % (i, x))] = U[i][j]
    return env


def sub3(a, b):
    return tuple(x - y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(sum(x * x for x in a))


def unit(a):
    n = norm(a)
    return tuple(x / n for x in a)


def neg(a):
    return tuple(-x for x in a)


SEG = [unit(sub3(R[i + 1], R[i])) for i in range(NSTATES - 1)]
LEN = [norm(sub3(R[i + 1], R[i])) for i in range(NSTATES - 1)]


def close(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in a and close(a[k], b[k]) for k in b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def opq(nm, with_this=False):
    def h(eng, name, cal, olv, avals, st, fr, node):
        vs = [eng.aval(st, a) for a in avals]
        if with_this:
            vs.insert(0, eng.load(st, olv) if olv is not None else mk("null"))
        return [(st, mk("call", nm, *vs))]
    return h


BORDER = ("DistanceToBorder", "DistanceToClosestApproach")
REPROP = ("RePropagateDistance", "RePropagateEnergy")


def opaque(*names, **handlers):
    def f(name):
        b = name.split("(")[0].split("<")[0]
        for k in BORDER:
            if b.endswith("::" + k):
                return opq(k, True)
        for k in names:
            if b.endswith("::" + k):
                return opq(k, True)
        for k, h in handlers.items():
            if b.endswith("::" + k):
                return h
        return None
    return f


class Eval(object):
    """values of the terms of one path in one scenario"""
    def __init__(self, e, db, env, border=None, closest=None, extra=None):
        self.e, self.db, self.env, self.border, self.closest, self.extra = e, db, env, border, closest, extra
        self.memo = {}

    def hook(self, st):
        def h(x, go):
            o = x.op
            if o in ("rec", "list", "ptr", "lv", "lvref", "null", "construct"):
                return self.struct(st, x, go)
            if o == "call":
                f = x.a[0]
                if f == "DistanceToBorder" and self.border:
                    return {"first": None, "second": None, "@": self.border(self.vector(st, x.a[2]), self.vector(st, x.a[3]))}
                if f == "DistanceToClosestApproach" and self.closest:
                    return self.closest(self.vector(st, x.a[2]), self.vector(st, x.a[3]))
                if f in REPROP:
                    return {"@re": f, "init": self.get(st, x.a[2]), "direction": self.vector(st, x.a[3]), "args": [self.get(st, y) for y in x.a[4:]]}
            if o == "fld" and x.a[1] in ("first", "second"):
                b = go(x.a[0])
                if isinstance(b, dict) and "@" in b:
                    return b["@"][0 if x.a[1] == "first" else 1]
                raise Unknown("pair")
            if o == "size":
                v = go(x.a[0])
                if isinstance(v, tuple):
                    return len(v)
            if o == "vpush":
                v = go(x.a[0])
                if isinstance(v, tuple):
                    return v + (go(x.a[1]),)
            if o == "elem":
                v, i = go(x.a[0]), go(x.a[1])
                if isinstance(v, tuple) and isinstance(i, (int, float)) and 0 <= i < len(v):
                    return v[int(i)]
            if self.extra:
                r = self.extra(self, st, x, go)
                if r is not None:
                    return r
            return None
        return h

    def get(self, st, t):
        return evalt(t, self.env, self.db, self.hook(st), self.memo.setdefault(id(st), {}))

    def vector(self, st, t):
        v = self.get(st, t)
        if isinstance(v, dict) and "coordinates" in v:
            v = v["coordinates"]
        if isinstance(v, (tuple, list)) and len(v) == 3:
            return tuple(v)
        raise Unknown("vector %s" % show(t)[:80])

    def struct(self, st, x, go):
        o = x.op
        if o == "null":
            return {"@null": True}
        if o == "rec":
            d = {}
            for k, v in rfields(x).items():
                try:
                    d[k] = go(v)
                except NoCase:
                    raise
                except Unknown as u:
                    if limit(u):
                        raise
                    d[k] = "? %s" % u
            return d
        if o == "list":
            return tuple(go(y) for y in x.a)
        if o in ("ptr", "lvref"):
            r, path = x.a[0], []
            for k in x.a[1]:
                if isinstance(k, T) and k.op != "num":
                    k = num(int(go(k)))
                path.append(k)
            return go(self.e.load(st, (r, tuple(path))))
        if o == "lv":
            return go(self.e.aval(st, x))
        if o == "construct" and len(x.a) == 2:
            return go(x.a[1])
        return None

    def holds(self, st):
        """the path is taken in this scenario; conditions that depend on something else are left open"""
        for f, p in st.facts.items():
            try:
                if bool(self.get(st, f)) != p:
                    return False
            except NoCase:
                return False        # a joined path none of whose parts is taken
            except Unknown:
                pass
        return True


def rfields(r):
    names = {}
    for k, v in r.a[2]:
        names[k if not isinstance(k, T) else k] = v
    return names


def flat(v):
    """coordinates of every vector"""
    if isinstance(v, dict):
        if set(v) == {"coordinates"}:
            return tuple(v["coordinates"])
        return {k: flat(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(flat(x) for x in v)
    return v


def st_value(i):
    return {k: v[i] for k, v in FIELDS.items()}


def func(db, name, types=None, npar=None, const=None):
    def pred(g):
        if npar is not None and len(g["params"]) != npar:
            return False
        return types is None or [p["t"].replace("const ", "").strip(" &") for p in g["params"]] == types
    return pick(db, C + "::" + name, pred, name)


def decide(db, c, key, f, op, scenarios, expect, env=None, border=None, closest=None, extra=None, obj=None, mem=None, what=""):
    """scenarios: iterable of (label, env, scenario); in each one the paths taken return the expected value"""
    c.saw("functions", f["fn"])
    e = engine(db, op)
    e.limit = 5000
    st = St()
    st.store[("o", mk("this"))] = obj if obj is not None else this()
    for k, v in (mem or {}).items():
        st.store[k] = v
    outs = e.run(f, st=st, dyn=C)
    bad, k = None, 0
    for label, en, sc in scenarios:
        ev = Eval(e, db, en, border and border(sc), closest and closest(sc), extra and extra(sc))
        want = expect(sc)
        taken = 0
        for o in outs:
            if not ev.holds(o.st):
                continue
            taken += 1
            if o.kind == "throw":
                got = "throws"
            else:
                try:
                    got = flat(ev.get(o.st, o.value)) if o.value is not None else None
                except NoCase:
                    taken -= 1
                    continue
                except Unknown as u:
                    if limit(u):
                        raise AnalysisBroken("%s: value not followed: %s" % (label, u))
                    got = "unknown: %s" % u
            if not close(got, flat(want)):
                bad = bad or "%s: %s instead of %s" % (label, short(got), short(want))
        if not taken:
            bad = bad or "%s: no answer" % label
        k += 1
    c.ob(key, bad is None, where(f), "%s%s" % (what, bad))
    return k


def short(v):
    if isinstance(v, dict):
        if "@null" in v:
            return "null"
        if "@re" in v:
            return "%s(from E=%s, %s, %s)" % (v["@re"], short(v["init"].get("energy") if isinstance(v["init"], dict) else v["init"]), short(v["direction"]), short(tuple(v["args"])))
        return "{" + ", ".join("%s=%s" % (k, short(x)) for k, x in sorted(v.items()))[:160] + "}"
    if isinstance(v, tuple):
        return "(" + ", ".join(short(x) for x in v) + ")"
    return "%.6g" % v if isinstance(v, float) else str(v)[:200]


# ------------------------------------------------------------------------------------------------ accessors
def p14_accessors(db, c):
    allst = tuple(st_value(i) for i in range(NSTATES))
    none = [("track of %d" % NSTATES, base_env(), None)]
    kk = [S("k%d" % i) for i in range(NSTATES)]
    env = base_env()
    env.update({kk[i]: 7.0 + i for i in range(NSTATES)})
    none = [("track of %d" % NSTATES, env, None)]
    for name, want in (("GetInitialState", allst[0]), ("GetFinalState", allst[-1]), ("GetTrackPositions", tuple(R)), ("GetTrackDirections", tuple(U)),
                       ("GetTrackEnergies", tuple(EN)), ("GetTrackTimes", tuple(TI)), ("GetTrackPropagatedDistances", tuple(DI)),
                       ("GetTrackTypes", (7.0, 8.0, 9.0)), ("GetTargetHashes", tuple(HA)), ("GetTrackLength", NSTATES), ("back", allst[-1])):
        decide(db, c, name, func(db, name, npar=0), opaque(), none, lambda sc: want)
    decide(db, c, "GetTrack", func(db, "GetTrack", npar=0), opaque(), none, lambda sc: allst)
    f = func(db, "operator[]", npar=1)
    sc = []
    for i in range(NSTATES):
        en = dict(env)
        en[S(f["params"][0]["n"])] = i
        sc.append(("index %d" % i, en, i))

    decide(db, c, "operator[]", f, opaque(), sc, lambda i: allst[i])


# ------------------------------------------------------------------------------------------------ mutators
def p14_mutators(db, c):
    n = 0
    for f in sorted(db.functions.values(), key=lambda g: g["fn"]):
        if f.get("cls") != C or f.get("ctor") or f.get("const") or f.get("static") or f.get("implicit") or "body" not in f:
            continue
        if f["name"].startswith("operator=") or f["name"].startswith("~"):
            continue
        n += 1
        c.saw("functions", f["fn"])
        e = engine(db, opaque())
        st = St()
        st.store[("o", mk("this"))] = this()
        for p in f["params"]:
            if p["t"].replace("const ", "").strip(" &") == N + "Vector3D":
                st.store[("o", S(p["n"]))] = vec(p["n"])
            if p["t"].replace("const ", "").strip(" &") == PS:
                st.store[("o", S(p["n"]))] = state(9)
        for o in e.run(f, st=st, dyn=C):
            v = e.load(o.st, (("o", mk("this")), ()))
            ls = {x: rget(v, x) for x in ("track_", "types_", "target_hashes_")}
            if any(l is None or l.op != "list" for l in ls.values()):
                raise AnalysisBroken("%s: contents of the track not recognised: %s" % (f["name"], "; ".join("%s=%s" % (k, l is not None and show(l)[:60]) for k, l in ls.items())))
            sizes = {x: len(l.a) for x, l in ls.items()}
            c.ob("%s keeps states, types and targets aligned" % f["name"], len(set(sizes.values())) == 1, where(f), "%s leaves %s" % (f["name"], sizes))
            old = {"track_": [state(i) for i in range(NSTATES)], "types_": [S("k%d" % i) for i in range(NSTATES)], "target_hashes_": [S("h%d" % i) for i in range(NSTATES)]}
            m = min(min(sizes.values()), NSTATES)
            for x, l in ls.items():
                c.ob("%s keeps the recorded %s" % (f["name"], x), list(l.a[:m]) == old[x][:m], where(f), "%s changes earlier entries of %s" % (f["name"], x))
            if f["name"] in ("push_back", "emplace_back"):
                ps = {p["n"]: p for p in f["params"]}
                ok = all(s == NSTATES + 1 for s in sizes.values())
                c.ob("%s appends one entry" % f["name"], ok, where(f), "%s leaves %s" % (f["name"], sizes))
                if not ok:
                    continue
                new = ls["track_"].a[-1]
                new = e.aval(o.st, new) if new.op != "rec" else new
                byt = lambda t: [p["n"] for p in f["params"] if p["t"].replace("const ", "").strip(" &").endswith(t)]
                it, sz = byt("InteractionType"), byt("unsigned long") or byt("size_t")
                c.ob("%s records the interaction type" % f["name"], len(it) == 1 and ls["types_"].a[-1] is S(it[0]), where(f), "recorded type is %s" % show(ls["types_"].a[-1])[:80])
                c.ob("%s records the target" % f["name"], len(sz) == 1 and ls["target_hashes_"].a[-1] is S(sz[0]), where(f), "recorded target is %s" % show(ls["target_hashes_"].a[-1])[:80])
                if f["name"] == "push_back":
                    c.ob("push_back records the state", new is state(9), where(f), "recorded state is %s" % show(new)[:160])
                else:
                    names = [p["n"] for p in f["params"]]
                    for i, x in enumerate(("type", "position", "direction", "energy", "time", "propagated_distance")):
                        g = rget(new, x) if new.op == "rec" else None
                        while g is not None and g.op in ("cast", "conv", "int"):
                            g = g.a[-1]
                        if i in (1, 2):
                            ok = g is not None and [y for y in sub(g) if y.op == "sym"] and all(y.a[0].startswith(names[i]) for y in sub(g) if y.op == "sym")
                        else:
                            ok = g is S(names[i])
                        c.ob("emplace_back records the %s" % x, bool(ok), where(f), "recorded %s is %s" % (x, g is not None and show(g)[:120]))
            if f["name"] == "clear":
                c.ob("clear removes every entry", set(sizes.values()) == {0}, where(f), "clear leaves %s" % sizes)
            if f["name"] == "reserve":
                c.ob("reserve keeps the entries", set(sizes.values()) == {NSTATES}, where(f), "reserve leaves %s" % sizes)
    c.need("mutating functions of Secondaries", n, 4)


# ------------------------------------------------------------------------------------------------ selections
def assignments(db, with_inside):
    cont, dec, brems, d = kinds(db)
    ins = list(itertools.product((True, False), repeat=NSTATES)) if with_inside else [None]
    out = []
    for ks in itertools.product((cont, dec, brems), repeat=NSTATES):
        for fl in ins:
            env = base_env()
            for i in range(NSTATES):
                env[S("k%d" % i)] = ks[i]
            out.append(("types %s%s" % ("/".join({cont: "continuous", dec: "decay", brems: "brems"}[k] for k in ks), "" if fl is None else " inside %s" % (fl,)), env, (ks, fl)))
    return out


def border_states(sc):
    ks, fl = sc

    def b(pos, d):
        for i in range(NSTATES):
            if close(pos, R[i]) and close(d, U[i]):
                return (1.5, -1.0) if fl[i] else (1.5, 2.5)
        raise Unknown("distance to the border from another place")
    return b


def stoch(i, ks):
    return {"type": ks[i], "energy": EN[i - 1] - EN[i], "parent_particle_energy": EN[i - 1], "position": R[i], "direction": U[i], "time": TI[i],
            "propagated_distance": DI[i], "target_hash": HA[i]}


def contl(i, cont):
    return {"type": cont, "energy": EN[i - 1] - EN[i], "parent_particle_energy": EN[i - 1], "start_position": R[i - 1], "end_position": R[i],
            "direction_initial": U[i - 1], "direction_final": U[i], "time_initial": TI[i - 1], "time_final": TI[i]}


def p14_losses(db, c):
    cont, dec, brems, d = kinds(db)
    G = N + "Geometry"
    al, ali = assignments(db, False), assignments(db, True)
    is_s = lambda k: k not in (cont, dec)
    decide(db, c, "stochastic losses", func(db, "GetStochasticLosses", []), opaque(), al, lambda sc: tuple(stoch(i, sc[0]) for i in range(1, NSTATES) if is_s(sc[0][i])))
    decide(db, c, "stochastic losses inside a geometry", func(db, "GetStochasticLosses", [G]), opaque(), ali,
           lambda sc: tuple(stoch(i, sc[0]) for i in range(1, NSTATES) if sc[1][i] and is_s(sc[0][i])), border=border_states)
    decide(db, c, "continuous losses", func(db, "GetContinuousLosses", []), opaque(), al, lambda sc: tuple(contl(i, cont) for i in range(1, NSTATES) if sc[0][i] == cont))
    decide(db, c, "continuous losses inside a geometry", func(db, "GetContinuousLosses", [G]), opaque(), ali,
           lambda sc: tuple(contl(i, cont) for i in range(1, NSTATES) if sc[1][i] and sc[0][i] == cont), border=border_states)
    decide(db, c, "track inside a geometry", func(db, "GetTrack", [G]), opaque(), [x for x in ali if x[2][0] == (cont,) * NSTATES],
           lambda sc: tuple(st_value(i) for i in range(NSTATES) if sc[1][i]), border=border_states)
    f = func(db, "GetStochasticLosses", [IT])
    sc = []
    for k in (brems, dec, cont, d["Ioniz"]):
        for label, env, (ks, fl) in al:
            en = dict(env)
            en[S(f["params"][0]["n"])] = k
            sc.append((label + " asked for %d" % k, en, (ks, k)))
    decide(db, c, "stochastic losses of one type", f, opaque(), sc, lambda s: tuple(stoch(i, s[0]) for i in range(1, NSTATES) if s[0][i] == s[1]))


def p14_by_name(db, c):
    """the name is looked up; an unknown one throws instead of selecting something"""
    f = func(db, "GetStochasticLosses", ["std::string"]) if any(True for g in db.functions.values() if qname(g) == C + "::GetStochasticLosses" and [p["t"].replace("const ", "").strip(" &") for p in g["params"]] == ["std::string"]) \
        else pick(db, C + "::GetStochasticLosses", lambda g: len(g["params"]) == 1 and "string" in g["params"][0]["t"], "losses by name")
    c.saw("functions", f["fn"])
    calls = []

    def sel(eng, name, cal, olv, avals, st, fr, node):
        if len(avals) == 1 and "InteractionType" in name:
            v = eng.aval(st, avals[0])
            calls.append((v, dict(st.facts)))
            return [(st, mk("call", "by type", v))]
        return None
    e = engine(db, lambda n: sel if n.split("(")[0].endswith("Secondaries::GetStochasticLosses") and "InteractionType" in n else None)
    st = St()
    st.store[("o", mk("this"))] = this()
    outs = e.run(f, st=st, dyn=C)
    if not calls:
        raise AnalysisBroken("selection by type not recognised")
    for v, facts in calls:
        ts = list(sub(v))
        ok = v.op == "fld" and v.a[1] == "first" and any(x.op == "glob" and "Type_Interaction_Name_Map" in str(x.a[0]) for x in ts)
        c.ob("losses by name: type of the entry found", ok, where(f), "selects %s" % show(v)[:120])
        found = [x for x in ts if x.op == "call" and "find" in str(x.a[0])]
        ends = [(k, p) for k, p in facts.items() if k.op == "==" and any(y.op == "end" for y in k.a) and any(y in found for y in k.a)]
        c.ob("losses by name: only a name that was found is used", not found or [p for k, p in ends] == [False], where(f),
             "a name that is not in the table of interaction names is used (conditions: %s)" % "; ".join("%s: %s" % (show(k)[:80], p) for k, p in facts.items()))


# ------------------------------------------------------------------------------------------------ decay products
def p14_decay(db, c):
    cont, dec, brems, d = kinds(db)
    f = func(db, "GetDecayProducts", [])

    def decay(eng, name, cal, olv, avals, st, fr, node):
        vs = [eng.aval(st, a) for a in avals]
        parent = vs[-1]
        if len(vs) != 2 or rget(parent, "energy") is None:
            raise AnalysisBroken("decaying particle not recognised")
        ev = rget(parent, "energy")
        d = rec(PS, None, {"energy": mk("+", ev, num(0.125)), "time": rget(parent, "time"), "position": rget(parent, "position"), "direction": rget(parent, "direction"), "propagated_distance": num(0), "type": num(1)})
        d2 = rec(PS, None, {"energy": mk("+", ev, num(0.25)), "time": rget(parent, "time"), "position": rget(parent, "position"), "direction": rget(parent, "direction"), "propagated_distance": num(0), "type": num(2)})
        return [(st, mk("list", d, d2))]
    op = opaque(SelectChannel=opq("SelectChannel", True), Decay=decay, RandomDouble=opq("RandomDouble"))

    def want(sc):
        out = []
        for i in range(NSTATES):
            if sc[0][i] == dec:
                for k, x in ((1.0, 0.125), (2.0, 0.25)):
                    out.append({"energy": EN[i] + x, "time": TI[i], "position": R[i], "direction": U[i], "type": k})
        return tuple(out)
    decide(db, c, "decay products", f, op, assignments(db, False), want, what="products of every recorded decay, of the state that decayed: ")


# ------------------------------------------------------------------------------------------------ states at an energy, distance, border
def reprop(kind, i, direction, *args):
    return {"@re": kind, "init": st_value(i), "direction": direction, "args": [float(a) for a in args]}


def p14_at_energy(db, c):
    cont, dec, brems, d = kinds(db)
    f = func(db, "GetStateForEnergy", npar=1)
    p = S(f["params"][0]["n"])
    sc = []
    for v in (2000.0, EN[0], 700.0, EN[1], 300.0, EN[2], 1.0):
        for label, env, (ks, _) in assignments(db, False):
            en = dict(env)
            en[p] = v
            sc.append(("%s, energy %g" % (label, v), en, (ks, v)))

    def want(s):
        ks, v = s
        if v >= EN[0]:
            return st_value(0)
        for i in range(1, NSTATES):
            if EN[i] < v:
                if ks[i] == cont:
                    return reprop("RePropagateEnergy", i - 1, SEG[i - 1], EN[i - 1] - v, DI[i] - DI[i - 1])
                return st_value(i - 1)
        return st_value(NSTATES - 1)
    decide(db, c, "state at an energy", f, opaque(*REPROP), sc, want)
    f = func(db, "GetStateForDistance", npar=1)
    p = S(f["params"][0]["n"])
    sc = []
    for v in (1.0, DI[0], 15.0, DI[1], 30.0, DI[2], 99.0):
        en = base_env()
        en[p] = v
        sc.append(("distance %g" % v, en, v))

    def want(v):
        if v <= DI[0]:
            return st_value(0)
        if v >= DI[-1]:
            return st_value(NSTATES - 1)
        for i in range(1, NSTATES):
            if DI[i] > v:
                return reprop("RePropagateDistance", i - 1, SEG[i - 1], v - DI[i - 1])
    decide(db, c, "state at a distance", f, opaque(*REPROP), sc, want)


RES = 1e-3
OUT, FRONT = (-1.0, -1.0), (0.7, 0.9)


def regions(i):
    """distance to the border along segment i: none, at its start, within it, at its end, beyond it"""
    L = LEN[i]
    return (-1.0, 1e-6, 0.4 * L, L - RES / 3, L + RES / 3, L + 2.0)


def p14_entry_exit(db, c):
    last = NSTATES - 1
    # entry
    f = func(db, "GetEntryPoint", npar=1)
    sc = []
    for start in ("entering", "inside", "outside"):
        for ds in itertools.product(*[regions(i) for i in range(last)]):
            sc.append(("track starts %s, border after %s" % (start, short(ds)), base_env(), (start, ds)))

    def border(s):
        start, ds = s

        def b(pos, d):
            if close(pos, R[0]) and close(d, U[0]):
                return {"entering": (1.2, -1.0), "inside": (1.2, -1.0), "outside": OUT}[start]
            if close(pos, R[0]) and close(d, neg(U[0])):
                return {"entering": (-1.0, -1.0), "inside": (0.8, -1.0), "outside": OUT}[start]
            for i in range(last):
                if close(pos, R[i]) and close(d, SEG[i]):
                    return (ds[i], -1.0)
            raise Unknown("distance to the border from another place or direction")
        return b

    def want(s):
        start, ds = s
        if start == "entering":
            return st_value(0)
        if start == "inside":
            return {"@null": True}
        for i in range(last):
            if 0 <= ds[i] <= LEN[i]:
                return st_value(i + 1) if LEN[i] - ds[i] < RES else reprop("RePropagateDistance", i, SEG[i], ds[i])
        return {"@null": True}
    decide(db, c, "entry point", f, opaque(*REPROP), sc, want, border=border)
    # exit: the same seen backwards
    f = func(db, "GetExitPoint", npar=1)
    sc = []
    for end in ("leaving", "inside", "outside"):
        for start in ("leaving", "outside"):
            for ds in itertools.product(*[regions(i) for i in range(last)]):
                sc.append(("track ends %s and starts %s, border before the end of the segments %s" % (end, start, short(ds)), base_env(), (end, start, ds)))

    def border(s):
        end, start, ds = s

        def b(pos, d):
            for k, x in ((0, start), (last, end)):
                if close(pos, R[k]) and close(d, U[k]):
                    return {"leaving": (-1.0, -1.0), "inside": (1.2, -1.0), "outside": FRONT if k else OUT}[x]
                if close(pos, R[k]) and close(d, neg(U[k])):
                    return {"leaving": (1.2, -1.0), "inside": (0.8, -1.0), "outside": OUT}[x]
            for i in range(last):
                if close(pos, R[i + 1]) and close(d, neg(SEG[i])):
                    return (ds[i], -1.0)
            raise Unknown("distance to the border from another place or direction")
        return b

    def want(s):
        end, start, ds = s
        if end == "leaving":
            return st_value(last)
        if end == "inside":
            return {"@null": True}
        for i in reversed(range(last)):
            if 0 <= ds[i] <= LEN[i]:
                return st_value(i) if LEN[i] - ds[i] < RES else reprop("RePropagateDistance", i, SEG[i], LEN[i] - ds[i])
        return st_value(0) if start == "leaving" else {"@null": True}
    decide(db, c, "exit point", f, opaque(*REPROP), sc, want, border=border)


def p14_approach(db, c):
    last = NSTATES - 1
    f = func(db, "GetClosestApproachPoint", npar=1)
    sc = []
    for ds in itertools.product(*[(-3.0, RES / 3, 0.4 * LEN[i], LEN[i] - RES / 3, LEN[i] + RES / 3, LEN[i] + 2.0) for i in range(last)]):
        sc.append(("closest approach after %s" % short(ds), base_env(), ds))

    def closest(ds):
        def b(pos, d):
            for i in range(last):
                if close(pos, R[i]) and close(d, SEG[i]):
                    return ds[i]
            raise Unknown("closest approach from another place or direction")
        return b

    def want(ds):
        for i in range(last):
            if abs(ds[i] - LEN[i]) <= RES:
                return st_value(i + 1)
            if ds[i] < LEN[i]:
                return st_value(i) if ds[i] < RES else reprop("RePropagateDistance", i, SEG[i], ds[i])
        return st_value(last)
    decide(db, c, "closest approach", f, opaque(*REPROP), sc, want, closest=closest)
    # a track of one state
    decide(db, c, "closest approach of a single state", f, opaque(*REPROP), [("one state", base_env(), None)], lambda s: st_value(0), obj=this(1))


def p14_hit(db, c):
    last = NSTATES - 1
    f = func(db, "HitGeometry", npar=1)
    loc = {"infront": (0.7, 0.9), "inside": (0.7, -1.0), "behind": OUT}
    sc = []
    for a in itertools.product(loc, repeat=2 * last):
        for e in loc:
            sc.append(("ends of the segments %s, final state %s" % ("/".join(a), e), base_env(), (a, e)))

    def border(s):
        a, e = s

        def b(pos, d):
            if close(pos, R[last]) and close(d, U[last]):
                return loc[e]
            for i in range(last):
                if close(d, SEG[i]):
                    if close(pos, R[i]):
                        return loc[a[2 * i]]
                    if close(pos, R[i + 1]):
                        return loc[a[2 * i + 1]]
            raise Unknown("distance to the border from another place or direction")
        return b

    def want(s):
        a, e = s
        return e == "inside" or any(a[2 * i] == "inside" or a[2 * i] == "infront" and a[2 * i + 1] == "behind" for i in range(last))
    decide(db, c, "geometry hit", f, opaque(), sc, want, border=border)


def p14_elost(db, c):
    f = func(db, "GetELost", npar=1)
    last = NSTATES - 1
    for en in (True, False):
        for ex in (True, False):
            def point(nm, present):
                def h(eng, name, cal, olv, avals, st, fr, node):
                    return [(st, mk("ptr", ("o", S(nm)), ()) if present else mk("null"))]
                return h
            mem = {("o", S("entry")): rec(PS, None, {"energy": S("Een")}), ("o", S("exit")): rec(PS, None, {"energy": S("Eex")})}
            sc = []
            for inside in (True, False):
                if not en and not inside and ex:
                    continue    # an exit without entry from outside: the initial state on the border, nothing is lost
                env = base_env()
                env.update({S("Een"): 901.0, S("Eex"): 83.0})
                sc.append(("track %s, %s, starting %s" % ("enters" if en else "does not enter", "leaves" if ex else "does not leave", "inside" if inside else "outside"), env, inside))

            def border(inside):
                def b(pos, d):
                    if close(pos, R[0]) and close(d, U[0]):
                        return (1.2, -1.0) if inside else OUT
                    raise Unknown("another place")
                return b

            def want(inside):
                if not en and not inside:
                    return 0.0
                return (901.0 if en else EN[0]) - (83.0 if ex else EN[last])
            decide(db, c, "energy lost in a geometry (%s, %s)" % ("entry" if en else "no entry", "exit" if ex else "no exit"), f,
                   opaque(GetEntryPoint=point("entry", en), GetExitPoint=point("exit", ex)), sc, want, border=border, mem=mem)


# ------------------------------------------------------------------------------------------------ re-propagation
def p14_repropagate(db, c):
    from ident import Ident
    for name, energy in (("RePropagateDistance", False), ("RePropagateEnergy", True)):
        f = pick(db, C + "::" + name, lambda g: True, name)
        c.saw("functions", f["fn"])
        seen = {}

        def h(nm):
            def g(eng, n_, cal, olv, avals, st, fr, node):
                vs = [eng.aval(st, a) for a in avals]
                t = mk("call", nm, *vs)
                seen[t] = vs
                return [(st, t)]
            return g
        hs = {k: h(k) for k in ("LengthContinuous", "EnergyDistance", "TimeElapsed", "Correct", "Calculate", "Evaluate")}
        hs["GetCurrentSector"] = h("GetCurrentSector")
        e = engine(db, opaque(**hs))
        st = St()
        st.store[("o", mk("this"))] = this()
        ini, dr = f["params"][0]["n"], f["params"][1]["n"]
        st.store[("o", S(ini))] = state(0)
        st.store[("o", S(dr))] = vec("d")
        outs = e.run(f, st=st, dyn=C)
        I = Ident(db)
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            n += 1
            v = o.value if o.value.op == "rec" else e.aval(o.st, o.value)
            ob = lambda k, t, detail: c.ob("%s: %s" % (name, k), t, where(f), detail)

            def one(k):
                ts = [t for t in seen if t.a[0] == k]
                return ts[0] if len(ts) == 1 else None
            eq = lambda a, b: a is not None and b is not None and I.equal(a, b, {}) is True
            xyz = lambda t: t is not None and [rget(rget(t, "coordinates"), num(i)) for i in range(3)]

            def isvec(t, n_):
                q = rget(t, "coordinates") if t is not None and t.op == "rec" else None
                return q is not None and q.op == "list" and [y for y in q.a] == [S(n_ + x) for x in "xyz"]
            # advanced column and distance
            if energy:
                lost, most = S(f["params"][2]["n"]), S(f["params"][3]["n"])
                Ef = mk("-", S("E0"), lost)
                ln, dist = one("LengthContinuous"), one("Correct")
                ob("column of the energy loss", ln is not None and eq(seen[ln][0], S("E0")) and eq(seen[ln][1], Ef), "column is not LengthContinuous(E, E - loss)")
                ok = dist is not None and isvec(seen[dist][0], "r0") and (isvec(seen[dist][1], "u0") or isvec(seen[dist][1], "d")) and seen[dist][2] is ln and seen[dist][3] is most
                ob("distance of the column", bool(ok), "distance is %s" % (dist is not None and show(dist)[:160]))
                col, Efin = ln, Ef
            else:
                dist = S(f["params"][2]["n"])
                col = one("Calculate")
                ok = col is not None and isvec(seen[col][0], "r0") and (isvec(seen[col][1], "u0") or isvec(seen[col][1], "d")) and seen[col][2] is dist
                ob("column of the distance", bool(ok), "column is %s" % (col is not None and show(col)[:160]))
                Efin = one("EnergyDistance")
                ob("energy after the column", Efin is not None and seen[Efin][0] is S("E0") and seen[Efin][1] is col, "energy is %s" % (Efin is not None and show(Efin)[:160]))
            te, de = one("TimeElapsed"), one("Evaluate")
            ob("density at the initial position", de is not None and isvec(seen[de][0], "r0"), "density is evaluated at %s" % (de is not None and show(de)[:120]))
            ok = te is not None and len(seen[te]) == 4 and eq(seen[te][0], S("E0")) and eq(seen[te][1], Efin) and seen[te][2] is col and seen[te][3] is de
            ob("elapsed time of the step", bool(ok), "TimeElapsed is not given energies, column and density of the step: %s" % (te is not None and show(te)[:200]))
            if None in (col, dist, Efin, te):
                continue
            ob("energy", eq(rget(v, "energy"), Efin), "energy of the new state is %s" % show(rget(v, "energy"))[:120])
            ob("time", eq(rget(v, "time"), mk("+", S("t0"), te)), "time of the new state is %s" % show(rget(v, "time"))[:120])
            ob("distance", eq(rget(v, "propagated_distance"), mk("+", S("s0"), dist)), "propagated distance is %s" % show(rget(v, "propagated_distance"))[:120])
            pos = rget(rget(v, "position"), "coordinates")
            ps = list(pos.a) if pos is not None and pos.op == "list" else [rget(pos, num(i)) for i in range(3)]
            ob("position", all(eq(p, mk("+", S("r0" + x), mk("*", S("d" + x), dist))) for p, x in zip(ps, "xyz")), "position is %s" % show(pos)[:160])
            ob("direction", isvec(rget(v, "direction"), "d"), "direction is %s" % show(rget(v, "direction"))[:120])
            t = rget(v, "type")
            while t is not None and t.op in ("cast", "conv", "int"):
                t = t.a[-1]
            ob("type", t is not None and t.op == "fld" and t.a[1] == "particle_type", "type is %s" % (t is not None and show(t)[:80]))
        c.need("returning paths of " + name, n, 1)


def p14_sector(db, c):
    f = func(db, "GetCurrentSector", npar=2)
    for p in f["params"]:
        c.saw("parameters", p["n"])
    mem = {("o", S(f["params"][0]["n"])): vec("r0"), ("o", S(f["params"][1]["n"])): vec("u0")}
    sc = []
    for ins in itertools.product((True, False), repeat=3):
        for hi in itertools.permutations((0, 1, 2)):
            sc.append(("position inside %s, hierarchies %s" % (ins, hi), base_env(), (ins, hi)))

    def index(x):
        s = {int(y.a[0][3:]) for y in sub(x) if y.op == "sym" and str(y.a[0]).startswith("sec")}
        s |= {y.a[1][1].a[0] if isinstance(y.a[1][1], T) else y.a[1][1] for y in sub(x) if y.op == "ptr" and len(y.a[1]) >= 2 and y.a[1][0] == "sectors_"}
        return s.pop() if len(s) == 1 else None

    def extra(s):
        ins, hi = s

        def h(ev, st, x, go):
            o = x.op
            if o == "call" and x.a[0] == "DistanceToBorder":
                i = index(x.a[1])
                if i is None:
                    raise Unknown("geometry of the sector")
                p, d = ev.vector(st, x.a[2]), ev.vector(st, x.a[3])
                if not (close(p, R[0]) and close(d, U[0])):
                    raise Unknown("another place")
                return {"@": (1.2, -1.0) if ins[i] else (1.2, 2.2)}
            if o == "fld" and x.a[1] == "hierarchy_":
                y = x.a[0]
                i = index(y)
                if i is None:
                    raise Unknown("hierarchy")
                return hi[i]
            if o == "sym" and str(x.a[0]).startswith("sec"):
                return ("sector", int(x.a[0][3:]))
            if o in ("deref", "*"):
                v = go(x.a[0])
                return v if isinstance(v, tuple) else None
            if o == "call" and str(x.a[0]).split("<")[0] in ("std::max_element", "std::min_element"):
                low = "min" in x.a[0]
                b = x.a[1]
                l = b.a[0] if b.op == "begin" else None
                if l is None or l.op != "list" or len(x.a) != 4 or x.a[3].op != "lam":
                    raise Unknown("maximum")
                best = None
                for q in l.a:
                    if best is None:
                        best = q
                        continue
                    args = sorted({y for y in sub(x.a[3]) if y.op == "arg"}, key=lambda y: y.a[1])
                    u, w = (q, best) if low else (best, q)
                    if go(subst(x.a[3].a[1], {args[0]: u, args[1]: w})):
                        best = q
                return go(best) if best is not None else None
            return None
        return h

    def want(s):
        ins, hi = s
        cand = [i for i in range(3) if ins[i]]
        return ("sector", max(cand, key=lambda i: hi[i])) if cand else "throws"

    def op(name):
        b = name.split("(")[0].split("<")[0]
        return opq("DistanceToBorder", True) if b.endswith("::DistanceToBorder") else None
    decide(db, c, "sector of a position", f, op, sc, want, extra=extra, mem=mem)


def check_p14(db, c):
    for n, fn in (("accessors", p14_accessors), ("appending and clearing", p14_mutators), ("losses", p14_losses), ("losses by name", p14_by_name),
                  ("decay products", p14_decay), ("states at an energy and distance", p14_at_energy), ("entry and exit", p14_entry_exit),
                  ("closest approach", p14_approach), ("hits", p14_hit), ("energy lost", p14_elost), ("re-propagation", p14_repropagate), ("sector", p14_sector)):
        c.part(n, fn, db, c)
    c.need("obligations", len(c.obs), 40)


CHECKS = {
    "P14": ("every function that fills, selects from or interpolates the recorded track, extracted path by path for a track of three general states and decided for every combination of interaction types, positions relative to the geometry and orderings of energies and distances", check_p14),
}

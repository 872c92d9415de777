"""P30 (distances to the border of sphere, box and cylinder) and P21 (classification of positions, invariance under translation)."""
import itertools
import math
from ir import AnalysisBroken
from absint import *
from data import N
from evalt import Unknown, NoCase, limit
from ident import Ident
from kinematics import S, vec, engine, pick, where, mul, ssum, C3
from track import Eval, close, short, flat, opq

G = N + "Geometry"
EPS = 1e-9
CENTERS = [(1.25, -0.5, 2.0), (-31.0, 17.5, 4.75)]


# ------------------------------------------------------------------------------------------------ what the answer has to be
def member(kind, q, size):
    x, y, z = q
    if kind == "Sphere":
        return size["ri"] <= math.sqrt(x * x + y * y + z * z) <= size["r"]
    if kind == "Box":
        return abs(x) <= size["x"] / 2 and abs(y) <= size["y"] / 2 and abs(z) <= size["z"] / 2
    return size["ri"] <= math.hypot(x, y) <= size["r"] and abs(z) <= size["z"] / 2


def quadratic(kind, q, u):
    k = 3 if kind == "Sphere" else 2
    return sum(x * x for x in u[:k]), sum(x * y for x, y in zip(q[:k], u[:k])), sum(x * x for x in q[:k])


def crossings(kind, q, u, size):
    """parameters at which the straight line meets one of the surfaces"""
    ts = []
    if kind != "Box":
        a, b, c = quadratic(kind, q, u)
        for r in (size["r"], size["ri"]):
            if r > 0 and a:
                d = b * b - a * (c - r * r)
                if d > 0:
                    ts += [(-b + math.sqrt(d)) / a, (-b - math.sqrt(d)) / a]
    for i, n in enumerate("xyz"):
        if (kind == "Box" or kind == "Cylinder" and n == "z") and u[i]:
            ts += [(s * size[n] / 2 - q[i]) / u[i] for s in (1, -1)]
    return ts


def degenerate(kind, q, u, size):
    """touching without crossing, or passing an edge: measure-zero cases in which rounding decides"""
    if kind != "Box":
        a, b, c = quadratic(kind, q, u)
        for r in (size["r"], size["ri"]):
            k = c - r * r
            if r > 0 and (abs(k) < 1e-6 and (a == 0 or abs(b) < 1e-6) or a and abs(b * b - a * k) < 1e-6):
                return True
    for i, n in enumerate("xyz"):
        if (kind == "Box" or kind == "Cylinder" and n == "z") and u[i] == 0 and abs(abs(q[i]) - size[n] / 2) < 1e-6:
            return True
    ts = sorted(crossings(kind, q, u, size))
    return any(b - a < 1e-6 for a, b in zip(ts, ts[1:]))


def expected(kind, q, u, size):
    """inside: (way out, -1); outside: the next two crossings of the border; (-1, -1) if there are none"""
    ts = sorted(t for t in crossings(kind, q, u, size) if t > EPS)
    cut = [0.0] + ts + [(ts[-1] if ts else 0.0) + 2]
    ins = [member(kind, [a + (s + t) / 2 * b for a, b in zip(q, u)], size) for s, t in zip(cut, cut[1:])]
    cr = [t for i, t in enumerate(ts) if ins[i] != ins[i + 1]]
    if ins[0]:
        return cr[0], -1.0
    if not cr:
        return -1.0, -1.0
    return (cr[0], cr[1]) if len(cr) > 1 else (cr[0], -1.0)


def places(kind, size):
    """one position per region between, on and beyond the surfaces in every direction"""
    if kind == "Box":
        f = [(-1.7, -.5, -.31, .12, .5, 1.3), (-1.4, -.5, -.22, .27, .5, 1.9), (-1.2, -.5, -.41, .07, .5, 1.6)]
        levels = [[x * size[n] for x in l] for l, n in zip(f, "xyz")]
    else:
        R, r = size["r"], size["ri"]
        l = [-1.6 * R, -R, -.6 * R - .4 * r, -.6 * r, .03 * R, .5 * r, .5 * R + .5 * r, 1.4 * R]
        if kind == "Cylinder":
            levels = [l, [x * 1.07 for x in l[:-3]], [x * size["z"] for x in (-1.4, -.5, -.21, .33, .5, 1.2)]]
        else:
            levels = [l[1:], [x * 1.07 for x in l[:5]] + [0.0], [x * .93 for x in l[1:4]] + [0.0]]
    out = list(itertools.product(*levels))
    for r in (size.get("r"), size.get("ri")):
        if r and kind == "Sphere":
            out += [(x * r, y * r, z * r) for x, y, z in ((0, 0, 1), (0, -1, 0), (.6, 0, .8), (0, -.6, .8), (-.48, .6, .64))]
        if r and kind == "Cylinder":
            out += [(x * r, y * r, z * size["z"]) for x, y in ((1, 0), (0, -1), (.6, .8), (-.8, .6)) for z in (-.21, .05, .4, .9)]
    return out


def directions(n):
    out = []
    for sg in itertools.product((-1, 0, 1), repeat=3):
        for m in ((.3, .5, .9), (1.3, .2, .4), (.2, 1.1, .3))[:n]:
            u = [a * b for a, b in zip(sg, m)]
            k = math.sqrt(sum(x * x for x in u))
            if k:
                u = tuple(x / k for x in u)
                if not any(close(u, w) for w in out):
                    out.append(u)
    return out


SIZES = {"Sphere": [("r", "ri")], "Box": [("x", "y", "z")], "Cylinder": [("z", "r", "ri")]}
CASES = {"Sphere": [{"r": 5.0, "ri": 0.0}, {"r": 5.0, "ri": 2.0}], "Box": [{"x": 4.0, "y": 7.0, "z": 5.0}],
         "Cylinder": [{"r": 5.0, "ri": 0.0, "z": 8.0}, {"r": 5.0, "ri": 2.0, "z": 8.0}, {"r": 4.0, "ri": 3.5, "z": 30.0}]}


def geometry(db, c, kind):
    """paths of the constructor followed by DistanceToBorder"""
    C = N + kind
    k = 1 + len(SIZES[kind][0])
    ctor = [g for g in db.functions.values() if g.get("cls") == C and g.get("ctor") and len(g["params"]) == k and "body" in g]
    if len(ctor) != 1:
        raise AnalysisBroken("constructor of %s" % kind)
    ctor = ctor[0]
    f = pick(db, C + "::DistanceToBorder", lambda g: len(g["params"]) == 2, "DistanceToBorder of " + kind)
    c.saw("functions", ctor["fn"])
    c.saw("functions", f["fn"])
    e = engine(db)
    e.limit = 32
    st = St()
    st.store[("o", mk("this"))] = rec(C, None, {})
    args = [("lv", (("o", S("centre")), ()))] + [("val", S(n)) for n in SIZES[kind][0]]
    st.store[("o", S("centre"))] = vec("c")
    paths = []
    for o in e.run(ctor, st=st, dyn=C, args=args):
        if o.kind != "return":
            continue
        s = o.st.copy()
        s.store[("o", S("place"))] = vec("p")
        s.store[("o", S("dir"))] = vec("u")
        for q in e.run(f, st=s, dyn=C, args=[("lv", (("o", S("place")), ())), ("lv", (("o", S("dir")), ()))]):
            paths.append(q)
    return e, f, paths


def answer(e, db, paths, size, centre, q, u):
    env = {S(k): v for k, v in size.items()}
    for n, v in (("p", [a + b for a, b in zip(q, centre)]), ("u", u), ("c", centre)):
        for i, x in enumerate("xyz"):
            env[S(n + x)] = v[i]
    ev = Eval(e, db, env)
    rs = []
    for o in paths:
        if not ev.holds(o.st):
            continue
        if o.kind != "return":
            rs.append("throws")
            continue
        try:
            r = ev.get(o.st, o.value)
            rs.append((r["first"], r["second"]))
        except NoCase:
            pass
        except Unknown as x:
            if limit(x):
                raise AnalysisBroken("value not followed: %s" % x)
            rs.append("unknown: %s" % x)
    return rs


def borders(db, c, kind):
    e, f, paths = geometry(db, c, kind)
    deep = getattr(c, "tier", "quick") == "thorough"
    bad, n = {}, 0
    for size in CASES[kind]:
        swapped = [dict(size)]
        if size.get("ri"):
            swapped.append(dict(size, r=size["ri"], ri=size["r"]))      # the constructor puts the radii in order
        ds = directions(3 if deep else 1)
        for i, q in enumerate(places(kind, size)):
            for j, u in enumerate(ds):
                if degenerate(kind, q, u, size):
                    continue
                n += 1
                want = expected(kind, q, u, size)
                given = swapped[(i + j) % len(swapped)]
                got = answer(e, db, paths, given, CENTERS[(i + 2 * j) % 2], q, u)
                if not got or not all(close(g, want) for g in got):
                    what = "hollow" if size.get("ri") else "solid"
                    region = "inside" if want[1] < 0 < want[0] else "no crossing" if want[0] < 0 else "outside"
                    bad.setdefault((what, region), "position %s from the centre, direction %s, size %s: %s instead of %s" % (short(tuple(q)), short(tuple(u)), short(size), short(got[0]) if got else "no answer", short(want)))
    for what in ("solid", "hollow"):
        for region in ("inside", "outside", "no crossing"):
            if what == "hollow" and kind == "Box":
                continue
            k = (what, region)
            c.ob("%s %s: %s" % (what, kind.lower(), region), k not in bad, where(f), bad.get(k, ""))
    c.saw("regions", "%s: %d combinations of position and direction regions" % (kind, n))
    c.need("regions of " + kind, n, 1000)


def check_p30(db, c):
    for k in ("Sphere", "Box", "Cylinder"):
        c.part(k, borders, db, c, k)
    kinds = sorted(k for k in db.all_derived(G) if not db.records[k].get("abstract"))
    c.ob("every geometry is analysed", set(kinds) <= {N + "Sphere", N + "Box", N + "Cylinder"}, None, "a geometry without an oracle: %s" % kinds)


# ------------------------------------------------------------------------------------------------ P21
def table(e, db, outs, fwd, bwd):
    """value of a classification for given distances forwards and backwards"""
    def border(pos, d):
        if not close(pos, (1.0, 2.0, 3.0)):
            raise Unknown("another place")
        if close(d, (0.36, -0.48, 0.8)):
            return fwd
        if close(d, (-0.36, 0.48, -0.8)):
            return bwd
        raise Unknown("another direction")
    env = {}
    for n, v in (("p", (1.0, 2.0, 3.0)), ("u", (0.36, -0.48, 0.8))):
        for i, x in enumerate("xyz"):
            env[S(n + x)] = v[i]
    ev = Eval(e, db, env, border)
    rs = set()
    for o in outs:
        if ev.holds(o.st):
            try:
                rs.add(ev.get(o.st, o.value) if o.kind == "return" else "throws")
            except NoCase:
                pass
            except Unknown as x:
                if limit(x):
                    raise AnalysisBroken("value not followed: %s" % x)
                rs.add("unknown: %s" % x)
    return rs


def classification(db, c):
    NO = (-1.0, -1.0)
    D = {"none": NO, "one": (2.5, -1.0), "two": (1.5, 4.0)}
    en = {n: v for n, v, _ in db.enums[[k for k in db.enums if k.startswith(G + "::ParticleLocation")][0]]["c"]}
    want = {
        "IsInside": lambda f, b: f == "one",
        "IsInfront": lambda f, b: f == "two",
        "IsBehind": lambda f, b: f == "none",
        "IsEntering": lambda f, b: f == "one" and b == "none",
        "IsLeaving": lambda f, b: f == "none" and b == "one",
        "GetLocation": lambda f, b: {"one": "InsideGeometry", "two": "InfrontGeometry", "none": "BehindGeometry"}[f],
    }
    for name, w in sorted(want.items()):
        f = pick(db, G + "::" + name, lambda g: len(g["params"]) == 2, name)
        c.saw("functions", f["fn"])
        e = engine(db, lambda n: opq("DistanceToBorder", True) if n.split("(")[0].endswith("::DistanceToBorder") else None)
        e.limit = 500
        st = St()
        st.store[("o", mk("this"))] = rec(G, None, {})
        st.store[("o", S(f["params"][0]["n"]))] = vec("p")
        st.store[("o", S(f["params"][1]["n"]))] = vec("u")
        outs = e.run(f, st=st, dyn=G)
        for a in D:
            for b in D:
                got = table(e, db, outs, D[a], D[b])
                x = w(a, b)
                if isinstance(x, str):
                    x = float(int(en[x]))
                    got = {float(g) if isinstance(g, (int, float, str)) and not str(g).startswith(("u", "t")) else g for g in got}
                c.ob("%s: %s crossing(s) ahead, %s behind" % (name, a, b), got == {x}, where(f), "answers %s" % sorted(map(str, got)))


def approach(db, c):
    f = pick(db, G + "::DistanceToClosestApproach", lambda g: len(g["params"]) == 2, "DistanceToClosestApproach")
    e = engine(db)
    c.saw("functions", f["fn"])
    st = St()
    st.store[("o", mk("this"))] = rec(G, None, {"position_": vec("c")})
    st.store[("o", S(f["params"][0]["n"]))] = vec("p")
    st.store[("o", S(f["params"][1]["n"]))] = vec("u")
    I = Ident(db)
    want = ssum([mul(mk("-", S("c" + x), S("p" + x)), S("u" + x)) for x in "xyz"])
    n = 0
    for o in e.run(f, st=st, dyn=G):
        if o.kind == "return" and I.feasible(o.st.facts):
            n += 1
            r = I.equal(o.value, want, o.st.facts)
            c.ob("distance to the closest approach", r is True, where(f), "not the projection of the centre on the direction: %s (%s)" % (show(o.value)[:160], r))
    c.need("paths of DistanceToClosestApproach", n, 1)


def translation(db, c, kind):
    """the same place relative to the centre gets the same answer, wherever the centre is"""
    e, f, paths = geometry(db, c, kind)
    bad, n = None, 0
    for size in CASES[kind]:
        ds = directions(1)
        for i, q in enumerate(places(kind, size)[::3]):
            for u in ds[i % 3::3]:
                if degenerate(kind, q, u, size):
                    continue
                n += 1
                a, b = [answer(e, db, paths, size, ce, q, u) for ce in CENTERS]
                if len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
                    bad = bad or "position %s from the centre, direction %s, size %s: %s around %s but %s around %s" % (short(tuple(q)), short(u), short(size), short(tuple(a)), CENTERS[0], short(tuple(b)), CENTERS[1])
    c.ob("%s: distances do not depend on where the geometry is" % kind, bad is None, where(f), bad or "")
    c.need("regions of " + kind, n, 100)


def sectors(db, c):
    for kind in ("Sphere", "Box", "Cylinder"):
        for f in db.functions.values():
            if f.get("cls") == N + kind and f["name"] in ("IsInside", "IsInfront", "IsBehind", "IsEntering", "IsLeaving", "GetLocation", "DistanceToClosestApproach"):
                c.ob("%s does not redefine %s" % (kind, f["name"]), False, where(f), "the classification is redefined for one geometry")


def check_p21(db, c):
    c.part("classification", classification, db, c)
    c.part("closest approach", approach, db, c)
    for k in ("Sphere", "Box", "Cylinder"):
        c.part("translation of " + k, translation, db, c, k)
    c.part("overriders", sectors, db, c)
    c.need("obligations", len(c.obs), 50)


CHECKS = {
    "P21": ("inside/infront/behind/entering/leaving decided for every combination of crossings ahead and behind; closest approach as an identity; distances of displaced geometries compared region by region", check_p21),
    "P30": ("paths of every constructor followed by DistanceToBorder; for every region of position and direction relative to the surfaces the distance on the path taken is the next border crossing", check_p30),
}

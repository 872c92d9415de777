"""P36: random choices split the unit interval by the weights."""
import math
from ir import AnalysisBroken, rel
from absint import *
from data import N
from evalt import evalt, consistent, Unknown
from checks import models

THIS = ("o", mk("sym", "this"))
FINE = 20       # random numbers per unit of weight
WEIGHTS = [(1, 2, 5), (4, 3, 1), (0, 3, 0), (2, 0, 2), (3, 0, 0), (1, 1, 2)]


def syms(n, k=3):
    return [mk("sym", "%s%d" % (n, i)) for i in range(k)]


def items(k=3):
    return [mk("ptr", ("o", s), ()) for s in syms("item", k)]


def hook(db, env):
    """sums over the alternatives"""
    def h(x, go):
        if x.op == "mu" and len(x.a) == 4 and x.a[0].op == "idx" and x.a[0].a[2] is not None:
            idx, s, init, nx = x.a
            hi = size_of(idx.a[2], go)
            if len(nx) != 1 or nx[0][0]:
                return None
            v = go(init)
            for i in range(int(go(idx.a[1])), hi):
                e2 = dict(env)
                e2[idx], e2[s] = i, v
                v = evalt(at(nx[0][1], idx, i), e2, db, hook(db, e2))
            return v
        return None
    return h


def size_of(t, go):
    if t.op == "size" and t.a[0].op == "list":
        return len(t.a[0].a)
    return int(go(t))


def at(t, idx, i):
    """the term with the index replaced, elements of known lists looked up"""
    if t is idx:
        return num(i)
    if not isinstance(t, T):
        return tuple(at(x, idx, i) for x in t) if isinstance(t, tuple) else t
    a = [at(x, idx, i) for x in t.a]
    if t.op == "elem" and len(a) == 2 and a[0].op == "list" and a[1].op == "num":
        return a[0].a[int(a[1].a[0])]
    if t.op == "fld" and a[0].op == "rec":
        r = rget(a[0], a[1])
        if r is not None:
            return r
    return mk(t.op, *a)


def function(db, name):
    fs = [f for f in db.functions.values() if f["fn"].split("(")[0] == N + name and f.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisBroken("%d functions %s" % (len(fs), name))
    return fs[0]


def mentions(t, what):
    todo = [t]
    while todo:
        x = todo.pop()
        if x is what:
            return True
        if isinstance(x, T):
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return False


def which(t, names):
    """index of the only alternative a term mentions"""
    r = [i for i, s in enumerate(names) if mentions(t, s)]
    return r[0] if len(r) == 1 else None


def outcome(db, outs, env, w):
    h = hook(db, env)
    ok = []
    for o in outs:
        if consistent(o.st.facts, env, db, None, h):
            ok.append(o)
    if len(ok) != 1:
        raise AnalysisBroken("%s: %d outcomes for weights %s" % (w, len(ok), [env[s] for s in syms("w")]))
    return ok[0]


def channels(db, c):
    f = function(db, "DecayTable::SelectChannel")
    w = (rel(f["file"]), f["line"])
    e = Engine(db, inline=lambda g: True, unroll=8)
    st = St()
    pairs = [rec("pair", None, {"first": a, "second": b}) for a, b in zip(syms("w"), items())]
    st.store[THIS] = rec(N + "DecayTable", None, {"channels_": mk("list", *pairs)})
    outs = e.run(f, this=(THIS, ()), st=st)
    c.saw("functions", f["fn"])
    rnd = mk("sym", f["params"][0]["n"])
    names = syms("item")
    for ws in WEIGHTS:
        tot = sum(ws) * FINE
        got = [0] * len(ws)
        bad = None
        for k in range(tot):
            env = dict(zip(syms("w"), [float(x) / 16 for x in ws]))
            env[rnd] = (k + 0.5) / tot
            o = outcome(db, outs, env, "SelectChannel")
            i = which(o.value, names) if o.kind == "return" else None
            if i is None:
                bad = "random number %g: %s" % (env[rnd], o.kind)
                break
            got[i] += 1
        c.ob("SelectChannel: a decay channel is chosen with its share of the branching ratios", bad is None and tuple(got) == tuple(x * FINE for x in ws), w, bad or "branching ratios %s: chosen %s times" % (ws, got))
        env = dict(zip(syms("w"), [float(x) / 16 for x in ws]))
        env[rnd] = 0.0
        o = outcome(db, outs, env, "SelectChannel")
        i = which(o.value, names) if o.kind == "return" else None
        c.ob("SelectChannel: a channel that never occurs is never chosen", i is not None and ws[i] > 0, w, "branching ratios %s, random number 0: channel %s" % (ws, i))


def insertions(v, start):
    """arguments of the insertions that made a container out of another"""
    out = []
    while v is not start:
        if v.op == "mut" and str(v.a[0]).split("::")[-1].split("(")[0] in ("emplace", "insert", "emplace_hint", "push_back", "emplace_back"):
            out.append((str(v.a[0]), v.a[2:]))
            v = v.a[1]
        elif v.op == "vpush":
            out.append(("push", v.a[1:]))
            v = v.a[0]
        elif v.op == "list" and start.op != "list" or v.op == "list" and not v.a:
            return out, v
        elif v.op == "list":
            return out + [("push", (x,)) for x in v.a], mk("list")
        else:
            raise AnalysisBroken("container of decay channels not followed: %s" % show(v)[:120])
    return out, v


def parts(x):
    """the values an entry is put together from"""
    if isinstance(x, T) and x.op in ("construct", "tuple", "list"):
        return [z for y in x.a[1 if x.op == "construct" else 0:] for z in parts(y)]
    if isinstance(x, T) and x.op == "rec":
        return [z for _, y in x.a[2] for z in parts(y)]
    return [x]


def tables(db, c):
    """every channel that is added is one more alternative, with the branching ratio it is given"""
    add, stable = function(db, "DecayTable::addChannel"), function(db, "DecayTable::SetStable")
    for f in (add, stable):
        w = (rel(f["file"]), f["line"])
        short = f["fn"].split("(")[0].replace(N, "")
        e = Engine(db, inline=lambda g: "DecayTable" in g["file"], unroll=4)
        st = St()
        old = mk("sym", "channels")
        st.store[THIS] = rec(N + "DecayTable", None, {"channels_": old})
        c.saw("functions", f["fn"])
        for o in e.run(f, this=(THIS, ()), st=st):
            if o.kind != "return":
                continue
            ins, rest = insertions(rget(o.st.store[THIS], "channels_"), old)
            vals = [y for _, xs in ins for x in xs for y in parts(x)]
            single = [q for q, _ in ins if q.startswith(("std::map", "std::unordered_map", "std::set"))]
            if f is add:
                br, dc = [mk("sym", p["n"]) for p in f["params"]]
                c.ob("addChannel: every channel becomes one more alternative, with the ratio it is given", rest is old and len(ins) == 1 and not single and br in vals and any(mentions(y, dc) for y in vals), w,
                     "%d channels added %s: %s" % (len(ins), "to a table that keeps one channel per ratio" if single else "", ", ".join(show(y) for y in vals)[:160]))
            else:
                k = [y for y in vals if y.op == "num"]
                c.ob("SetStable: leaves the one channel of a stable particle", rest.op == "list" and not rest.a and len(ins) == 1 and len(k) == 1 and k[0].a[0] > 0, w,
                     "%d channels, ratio %s" % (len(ins), ", ".join(show(y) for y in k)))
    t = db.records[N + "DecayTable"]
    for fd in t["fields"]:
        if "DecayChannel" in fd["t"]:
            c.ob("DecayTable: channels with equal branching ratios are kept apart", not fd["t"].startswith(("std::map", "std::unordered_map", "std::set")), (rel(t["file"]), fd["line"]), fd["t"][:100])


def losses(db, c):
    f = function(db, "Interaction::SampleLoss")
    w = (rel(f["file"]), f["line"])
    e = Engine(db, inline=lambda g: "Interaction" in g["file"], unroll=8)
    st = St()
    R = ("o", mk("sym", "rates"))
    st.store[R] = mk("list", *[rec(N + "Interaction::Rate", None, {"rate": a, "comp_hash": h, "crosssection": p}) for a, h, p in zip(syms("w"), syms("hash"), items())])
    ps = f["params"]
    en, rnd = mk("sym", ps[0]["n"]), mk("sym", ps[2]["n"])
    outs = e.run(f, this=(THIS, ()), args=[("val", en), ("lv", (R, ())), ("val", rnd)], st=st)
    c.saw("functions", f["fn"])
    for ws in WEIGHTS:
        tot = sum(ws) * FINE
        got = [[] for _ in ws]
        bad = None
        for k in range(tot):
            env = dict(zip(syms("w"), [float(x) for x in ws]))
            env[rnd] = (k + 0.5) / tot
            o = outcome(db, outs, env, "SampleLoss")
            v = o.value
            if o.kind != "return" or v.op != "rec":
                bad = "random number %g of rates %s: %s" % (env[rnd], ws, o.kind)
                break
            parts = {n: rget(v, n) for n in ("type", "comp_hash", "v_loss")}
            call = find_call(parts["v_loss"], "CalculateStochasticLoss")
            i = None if call is None else which(call.a[1], syms("item"))
            if i is None:
                bad = "random number %g of rates %s: the loss is %s" % (env[rnd], ws, show(parts["v_loss"])[:100])
                break
            t = find_call(parts["type"], "GetInteractionType")
            tt = None if t is None else callee_item(t)
            same = tt == i and parts["comp_hash"] is syms("hash")[i] and call.a[2] is syms("hash")[i] and call.a[3] is en
            c.ob("SampleLoss: interaction, target and loss belong to the same process", same, w, "process %s, target %s, loss %s" % (tt, show(parts["comp_hash"])[:60], show(call)[:160]))
            got[i].append(float(evalt(call.a[4], env, db, hook(db, env))))
        want = [[(j + 0.5) / FINE for j in range(x * FINE)] for x in ws]
        ok = bad is None and all(len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(sorted(a), b)) for a, b in zip(got, want))
        c.ob("SampleLoss: a process is chosen with its share of the rates, and so is the loss within its rate", ok, w, bad or "rates %s: chosen %s times, with the rates %s" % (ws, [len(x) for x in got], [(min(x), max(x)) for x in got if x]))
    # no rate at all: no interaction
    env = dict(zip(syms("w"), [0.0, 0.0, 0.0]))
    env[rnd] = 0.5
    o = outcome(db, outs, env, "SampleLoss")
    v = rget(o.value, "v_loss") if o.kind == "return" and o.value.op == "rec" else None
    c.ob("SampleLoss: no interaction without a rate", v is num(0), w, "loss %s" % (o.kind if v is None else show(v)[:80]))


def callee_item(t):
    return which(t.a[1] if len(t.a) > 1 else t, syms("item")) if len(t.a) > 1 and which(t.a[1], syms("item")) is not None and t.a[1].op != "mut" else mut_item(t)


def mut_item(t):
    """the object of a call on an object that earlier calls may have changed"""
    x = t.a[1] if len(t.a) > 1 else None
    while x is not None and isinstance(x, T) and x.op == "mut":
        x = x.a[1]
    return None if x is None else which(x, syms("item"))


def find_call(t, name):
    todo = [t]
    while todo:
        x = todo.pop(0)
        if isinstance(x, T):
            if x.op in ("call", "mut") and name in str(x.a[0]).split("(")[0]:
                return x
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return None


def azimuths(db, c):
    n = 0
    for f in sorted(db.functions.values(), key=lambda f: f["fn"]):
        if not f["fn"].split("(")[0].endswith("::CalculateStochasticDeflection") or f.get("body") is None or "stochastic_deflection/" not in f["file"]:
            continue
        c.part(f["fn"], azimuth, db, c, f)
        n += 1
    c.need("stochastic deflection models", n, 5)


def draws(t):
    """random numbers a term reads"""
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x.op == "elem" and x.a[1].op == "num" and x not in out:
                out.append(x)
                continue
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return out


def turn(db, az, d):
    """does an azimuth cover the circle evenly"""
    if len(d) != 1:
        return False, "reads %d random numbers" % len(d)
    try:
        vals = [float(evalt(az, {d[0]: (j + 0.5) / 8}, db)) / (2 * math.pi) for j in range(8)]
    except Unknown as u:
        return False, "the azimuth is not a function of its random number alone: %s" % u
    base = min(x % 1.0 for x in vals)
    got = sorted(((x - base) % 1.0 + 1e-9) % 1.0 for x in vals)
    return (all(abs(x - 1e-9 - j / 8.0) < 1e-6 for j, x in enumerate(got)),
            "azimuths %s of a turn for eight evenly spread random numbers" % [round(x, 3) for x in got])


def secondaries(db, c, cls, f):
    """azimuths by which the secondaries are turned away from the direction of the parent"""
    e, D, res, _ = models.calculate(db, cls, f)
    short = models.short(cls)
    w = (rel(f["file"]), f["line"])
    n = 0
    for key in D.by.values():
        x = key[0]
        if x.op != "deflect" or len(x.a) != 3:
            continue
        n += 1
        az = x.a[2]
        d = [y for y in draws(az) if y.a[0] is models.rnd_of(cls)]
        ok, why = turn(db, az, d)
        c.ob("%s: the azimuth of the secondaries is uniform over the full circle" % short, ok, w, why)
        if len(d) == 1:
            c.ob("%s: the azimuth of the secondaries is independent of their polar angle" % short, not mentions(x.a[1], d[0]), w, "both read %s" % show(d[0]))
    if n:
        c.saw("functions", f["fn"])
    return n


def azimuth(db, c, f):
    w = (rel(f["file"]), f["line"])
    short = f["fn"].split("(")[0].replace(N, "")
    rv = [p["n"] for p in f["params"] if "vector<double>" in p["t"].replace(" ", "").replace("std::", "") or "vector" in p["t"]]
    e = Engine(db, inline=lambda g: False, unroll=4)
    k = 0
    for o in e.run(f):
        if o.kind != "return":
            continue
        v = o.value
        if v.op in ("lv", "lvref"):
            v = e.aval(o.st, v)
        az, ze = rget(v, "azimuth"), rget(v, "zenith")
        if v.op == "construct" and len(v.a) == 3:
            ze, az = v.a[1], v.a[2]
        if az is None or ze is None:
            raise AnalysisBroken("%s: deflection not recognised: %s" % (short, show(v)[:100]))
        k += 1
        d = [x for x in draws(az) if mentions(x, mk("sym", rv[0]))]
        if ze is num(0) and not d:
            continue        # not deflected at all
        ok, why = turn(db, az, d)
        c.ob("%s: the azimuth is uniform over the full circle" % short, ok, w, why)
        if len(d) == 1:
            shared = mentions(ze, d[0]) or any(mentions(t, d[0]) for t in o.st.facts)
            c.ob("%s: the azimuth is independent of the polar angle" % short, not shared, w, "both read %s" % show(d[0]))
    c.need("paths of " + short, k, 1)
    c.saw("functions", f["fn"])


def check_p36(db, c):
    c.part("channels", channels, db, c)
    c.part("tables", tables, db, c)
    c.part("losses", losses, db, c)
    azimuths(db, c)
    for cls, f in models.models(db):
        c.part(models.short(cls), secondaries, db, c, cls, f)


RULE = ("Path-sensitive symbolic execution of the choosing functions over three alternatives with symbolic weights; the path conditions are evaluated for evenly spread random numbers and several weight vectors and the share of every alternative (and of the remaining rate handed on) compared with its weight. "
        "The azimuth term of every stochastic deflection and of every deflected secondary is a function of one random number, covers the circle evenly and shares no random number with the polar angle.")

CHECKS = {"P36": (RULE, check_p36)}

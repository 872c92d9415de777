"""Built-in data of the program: constructor arguments of predefined particles, media and components, registries."""
from absint import *
from evalt import *

N = "PROPOSAL::"


def noctor(f):
    return not f.get("ctor")


def user_ctors(db, cls):
    return [x for x in db.fns(cls + "::" + cls.split("::")[-1]) if not x.get("defaulted") and x.get("ctor") and not is_copymove(x, cls)]


def is_copymove(f, cls):
    return len(f["params"]) == 1 and strip_type(f["params"][0]["t"]) == cls


SKIP_TABLE = {N + "DecayTable", N + "ManyBodyPhaseSpace::Builder"}


def base_object(db, cls, base, stop=(), memo={}):
    """fields of the base part of a predefined object of class cls (which only passes arguments on to a constructor of `base`)
    -> (fields dict, constructor, ctor parameters left open)"""
    key = (id(db), cls)
    if key in memo:
        return memo[key]
    cs = user_ctors(db, cls)
    if len(cs) != 1:
        raise AnalysisBroken("%s has %d constructors" % (cls, len(cs)))
    f = cs[0]

    def inl(g):
        return not g.get("ctor") and g.get("cls") not in SKIP_TABLE and g.get("cls") != base
    e = Engine(db, inline=inl)
    outs = [o for o in e.run(f) if o.kind == "return"]
    if len(outs) != 1:
        raise AnalysisBroken("%s: %d ways to construct it" % (cls, len(outs)))
    v = e.load(outs[0].st, (("o", mk("this")), ()))
    while v.op == "rec" and v.a[1] is not None:
        v = v.a[1]
    if v.op != "construct" or v.a[0] not in db.bases(cls):
        raise AnalysisBroken("%s: base constructor not recognised: %s" % (cls, show(v)[:200]))
    # delegate to the constructor of the base class
    r = base_fields(db, v.a[0], len(v.a) - 1, stop)
    if r is None:
        raise AnalysisBroken("%s: no constructor of %s with %d arguments" % (cls, v.a[0], len(v.a) - 1))
    params, fields = r
    m = {mk("sym", p): a for p, a in zip(params, v.a[1:])}
    out = {k: subst(t, m) for k, t in fields.items()}
    memo[key] = (out, f)
    return memo[key]


def base_fields(db, base, n, stop=(), memo={}):
    """how a constructor of the base class with n parameters fills the fields: (parameter names, field -> term)"""
    key = (id(db), base, n)
    if key in memo:
        return memo[key]
    cs = [c for c in user_ctors(db, base) if len(c["params"]) == n]
    if len(cs) != 1:
        return None
    c = cs[0]

    def noop(name):
        g = db.functions.get(name)
        if g is not None and (g["name"] in stop or g["name"] == "create_particle_map"):
            return lambda eng, nm, cal, olv, avals, st, fr, node: [(st, VOID)]
        return None
    e = Engine(db, inline=lambda g: not g.get("ctor") and g["name"] not in ("create_particle_map",) + tuple(stop), opaque=noop)
    outs = [o for o in e.run(c) if o.kind == "return"]
    if not outs:
        raise AnalysisBroken("constructor of %s never returns" % base)
    fields = {}
    for fl in db.fields(base):
        vs = {rget(e.load(o.st, (("o", mk("this")), ())), fl["n"]) for o in outs}
        if len(vs) == 1:
            v = vs.pop()
            if v.op == "ref":
                v = v.a[0]
            if v.op == "ptr" and v.a[0][0] == "o" and not v.a[1]:
                v = v.a[0][1]
            fields[fl["n"]] = v
    memo[key] = ([p["n"] for p in c["params"]], fields)
    return memo[key]


def number(db, t, what, env=None):
    try:
        return float(evalt(t, env, db))
    except Unknown as e:
        raise AnalysisBroken("%s is not a constant: %s" % (what, e))


def integer(db, t, what):
    return int(number(db, t, what))


def unlist(t):
    """elements of a container literal"""
    while t.op == "construct" and len(t.a) >= 2 and isinstance(t.a[1], T) and (t.a[1].op in ("list", "construct", "vpush")):
        t = t.a[1]
    if t.op == "vpush":
        l = unlist(t.a[0])
        return None if l is None else l + [t.a[1]]
    if t.op == "list":
        return list(t.a)
    return None


def chain(t, method, base):
    """t = base.method(..).method(..)... -> [args] or None"""
    out = []
    while t.op in ("call", "mut") and str(t.a[0]).split("(")[0] == method:
        out.append(t.a[2:])
        t = t.a[1]
    if t.op == "construct" and t.a[0] == base and len(t.a) == 1:
        return out[::-1]
    return None


def global_value(db, name, filt=None):
    """value of a global with a constant initialiser"""
    gs = [k for k in db.globals if k.split("@")[0] == name and "init" in db.globals[k]]
    if not gs:
        raise AnalysisBroken("global %s not found" % name)
    out = []
    for k in gs:
        g = db.globals[k]
        e = Engine(db, inline=noctor)
        fr = Frame({"fn": k, "file": g["file"], "params": []}, None, None, 0)
        rs = e.ev(g["init"], St(), fr)
        out.append((rs[0][1], g))
    return out

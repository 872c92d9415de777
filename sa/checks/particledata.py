"""P15 (registries), P18 (decay modes), P19 (particle/antiparticle, identity) on the program's built-in data."""
from data import *

# PDG: id -> (charge, mass [MeV], lifetime [s] or None (treated as stable), lepton family numbers)
PDG = {
    11: (-1, 0.5109989, None, (1, 0, 0)), 12: (0, 0.0, None, (1, 0, 0)),
    13: (-1, 105.658, 2.197e-6, (0, 1, 0)), 14: (0, 0.0, None, (0, 1, 0)),
    15: (-1, 1776.8, 2.905e-13, (0, 0, 1)), 16: (0, 0.0, None, (0, 0, 1)),
    22: (0, 0.0, None, (0, 0, 0)), 111: (0, 134.977, 8.43e-17, (0, 0, 0)),
    211: (1, 139.570, 2.6033e-8, (0, 0, 0)), 311: (0, 497.61, None, (0, 0, 0)),
    321: (1, 493.677, 1.238e-8, (0, 0, 0)),
    1000015: (-1, None, None, (0, 0, 0)), 9500: (1, None, None, (0, 0, 0)), 41: (None, None, None, (0, 0, 0)),
}
SELF = {22, 111, 41, 311}       # no antiparticle defined (the library treats K0 as one generic neutral kaon)
TABLES = {13: "MuonTable", 15: "TauTable"}
FIELDS = ("name", "mass", "low", "lifetime", "charge", "hard_component_table", "decay_table", "particle_type", "weak_partner")


class P(object):
    pass


def particles(db):
    out = {}
    for cls in sorted(db.all_derived(N + "ParticleDef")):
        f, ctor = base_object(db, cls, N + "ParticleDef")
        for k in FIELDS:
            if k not in f:
                raise AnalysisBroken("%s: field %s not determined" % (cls, k))
        p = P()
        p.cls, p.where = cls, (rel(ctor["file"]), ctor["line"])
        p.short = cls.split("::")[-1]
        p.name = f["name"].a[0] if f["name"].op == "str" else None
        for k in ("mass", "low", "lifetime", "charge"):
            setattr(p, k, number(db, f[k], "%s of %s" % (k, cls)))
        p.type = integer(db, f["particle_type"], "type of " + cls)
        p.enum = f["particle_type"]
        p.partner = integer(db, f["weak_partner"], "weak partner of " + cls)
        p.table = f["hard_component_table"]
        p.decay_term = f["decay_table"]
        out[cls] = p
    return out


def channels(db, ps, p):
    """[(branching ratio, kind, [daughter P])]"""
    t = p.decay_term
    while t.op == "construct" and t.a[0] == N + "DecayTable" and len(t.a) == 2:
        t = t.a[1]
    ch = chain(t, N + "DecayTable::addChannel", N + "DecayTable")
    if ch is None:
        raise AnalysisBroken("decay table of %s: %s" % (p.cls, show(t)[:160]))
    out = []
    for br, c in ch:
        w = number(db, br, "branching ratio in " + p.cls)
        if c.op == "construct" and c.a[0] == N + "StableChannel":
            out.append((w, "StableChannel", []))
            continue
        if c.op in ("call", "mut") and str(c.a[0]).startswith(N + "ManyBodyPhaseSpace::Builder::build"):
            b = c.a[1]
            ds = chain(b, N + "ManyBodyPhaseSpace::Builder::addDaughter", N + "ManyBodyPhaseSpace::Builder")
            if ds is None:
                raise AnalysisBroken("daughters in %s: %s" % (p.cls, show(b)[:160]))
            kind, ds = "ManyBodyPhaseSpace", [d[0] for d in ds]
        elif c.op == "construct":
            kind, ds = c.a[0].split("::")[-1], list(c.a[1:])
        else:
            raise AnalysisBroken("channel in %s: %s" % (p.cls, show(c)[:160]))
        dd = []
        for d in ds:
            if d.op == "construct" and len(d.a) == 2 and d.a[0] == N + "ParticleDef":
                d = d.a[1]
            if not (d.op == "construct" and d.a[0] in ps):
                raise AnalysisBroken("daughter in %s: %s" % (p.cls, show(d)[:120]))
            dd.append(ps[d.a[0]])
        out.append((w, kind, dd))
    return out


def family(t):
    l = PDG.get(abs(t), (None, None, None, (0, 0, 0)))[3]
    s = 1 if t > 0 else -1
    return tuple(s * x for x in l)


def decays(db, c):
    ps = particles(db)
    n = 0
    for p in ps.values():
        c.saw("particle definitions", p.short)
        chs = channels(db, ps, p)
        stable = [x for x in chs if x[1] == "StableChannel"]
        dec = [x for x in chs if x[1] != "StableChannel"]
        c.ob("%s: decay table is either stable or a list of decay modes" % p.short, bool(chs) and (not stable or (len(chs) == 1)), p.where,
             "%d stable and %d decay channels" % (len(stable), len(dec)))
        if stable:
            c.ob("%s: the stable channel is always selected" % p.short, stable[0][0] > 0, p.where, "weight %g" % stable[0][0])
        if not dec:
            continue
        c.ob("%s: decays and has a finite lifetime" % p.short, 0 < p.lifetime < 1e30, p.where, "lifetime %g" % p.lifetime)
        tot = sum(x[0] for x in dec)
        c.ob("%s: branching ratios sum to one" % p.short, abs(tot - 1) <= 0.01, p.where, "sum %.5f" % tot)
        seen = {}
        for w, kind, ds in dec:
            n += 1
            name = "%s -> %s" % (p.short[:-3], " ".join(d.short[:-3] for d in ds))
            c.saw("decay modes", name)
            c.ob(name + ": branching ratio between 0 and 1", 0 < w <= 1, p.where, "%g" % w)
            q = sum(d.charge for d in ds)
            c.ob(name + ": charge conserved", q == p.charge, p.where, "charge %g -> %g" % (p.charge, q))
            fam = tuple(sum(x) for x in zip(*[family(d.type) for d in ds]))
            c.ob(name + ": lepton family numbers conserved", fam == family(p.type), p.where, "%s -> %s" % (family(p.type), fam))
            m = sum(d.mass for d in ds)
            c.ob(name + ": kinematically allowed", m < p.mass, p.where, "daughters %g MeV, parent %g MeV" % (m, p.mass))
            c.ob(name + ": at least two products", len(ds) >= 2, p.where, "")
            if kind.startswith("Leptonic"):
                ok = len(ds) == 3 and abs(ds[0].charge) == 1 and ds[1].charge == 0 and ds[2].charge == 0
                # second: neutrino of the parent's family, third: of the daughter lepton's family
                ok = ok and family(ds[1].type) == family(p.type) and family(ds[2].type) == tuple(-x for x in family(ds[0].type))
                c.ob(name + ": lepton, own neutrino and partner neutrino in their places", ok, p.where, "order of the daughters")
            key = tuple(sorted(d.type for d in ds))
            c.ob(name + ": listed once", key not in seen, p.where, "the same mode twice")
            seen[key] = 1
    c.need("decay modes", n, 15)
    c.need("particle definitions", len(ps), 20)


def mirror(db, c):
    ps = particles(db)
    by = {}
    for p in ps.values():
        c.saw("particle definitions", p.short)
        if p.type in by:
            c.ob("%s: identifier is unique" % p.short, False, p.where, "%d is also used by %s" % (p.type, by[p.type].short))
        else:
            by[p.type] = p
            c.ob("%s: identifier is unique" % p.short, True, p.where)
    pairs = 0
    for p in ps.values():
        ref = PDG.get(abs(p.type))
        c.ob("%s: identifier is a known PDG code" % p.short, ref is not None, p.where, "type %d" % p.type)
        if ref is None:
            continue
        s = 1 if p.type > 0 else -1
        q, m, tau, fam = ref
        if q is not None:
            c.ob("%s: charge belongs to the identifier" % p.short, p.charge == s * q, p.where, "charge %g for PDG code %d" % (p.charge, p.type))
        if m is not None:
            c.ob("%s: mass belongs to the identifier" % p.short, abs(p.mass - m) <= 2e-3 * m, p.where, "mass %g, expected %g" % (p.mass, m))
            c.ob("%s: lifetime belongs to the identifier" % p.short,
                 (p.lifetime <= 0 or p.lifetime > 1e30) if tau is None else abs(p.lifetime - tau) <= 0.03 * tau, p.where, "lifetime %g, expected %s" % (p.lifetime, tau))
        else:
            c.ob("%s: positive mass" % p.short, p.mass > 0, p.where, "%g" % p.mass)
        c.ob("%s: low-energy limit not below the mass" % p.short, p.low >= p.mass, p.where, "low %g, mass %g" % (p.low, p.mass))
        want = TABLES.get(abs(p.type), "EmptyTable")
        c.ob("%s: hard component table of its kind" % p.short, p.table.op == "glob" and p.table.a[0].split("@")[0] == N + "HardComponentTables::" + want, p.where,
             "%s, expected %s" % (show(p.table), want))
        # weak partner: the other member of the lepton family doublet, mutual
        if any(fam):
            w = p.type + s if abs(p.type) % 2 else p.type - s
            c.ob("%s: weak partner is the other member of its family" % p.short, p.partner == w, p.where, "partner %d, expected %d" % (p.partner, w))
        else:
            c.ob("%s: has no weak partner" % p.short, p.partner == 0, p.where, "partner %d" % p.partner)
        if p.type < 0 or abs(p.type) in SELF:
            continue
        a = by.get(-p.type)
        c.ob("%s: antiparticle is defined" % p.short, a is not None, p.where, "no definition with identifier %d" % -p.type)
        if a is None:
            continue
        pairs += 1
        name = "%s/%s" % (p.short[:-3], a.short[:-3])
        for k in ("mass", "low", "lifetime"):
            c.ob("%s: same %s" % (name, k), getattr(p, k) == getattr(a, k), a.where, "%g and %g" % (getattr(p, k), getattr(a, k)))
        c.ob("%s: opposite charge" % name, p.charge == -a.charge, a.where, "%g and %g" % (p.charge, a.charge))
        c.ob("%s: conjugate weak partner" % name, p.partner == -a.partner, a.where, "%d and %d" % (p.partner, a.partner))
        c.ob("%s: same hard component table" % name, p.table is a.table, a.where, "")
        x, y = channels(db, ps, p), channels(db, ps, a)

        def conj(t):
            return -t if (-t in by) else t
        xs = sorted((w, k, tuple(conj(d.type) for d in ds) if k.startswith(("Leptonic", "TwoBody")) else tuple(sorted(conj(d.type) for d in ds))) for w, k, ds in x)
        ys = sorted((w, k, tuple(d.type for d in ds) if k.startswith(("Leptonic", "TwoBody")) else tuple(sorted(d.type for d in ds))) for w, k, ds in y)
        diff = [z for z in xs if z not in ys] + [z for z in ys if z not in xs]
        c.ob("%s: decay tables are charge conjugate" % name, not diff, a.where, "differ in %s" % (diff[:2],))
    c.need("particle/antiparticle pairs", pairs, 8)


# ------------------------------------------------------------------ registries
def enum_of(db, name):
    e = db.enums.get(name)
    if e is None:
        raise AnalysisBroken("enumeration %s not found" % name)
    return {x[0]: int(x[1]) for x in e["c"]}


def pairs_of(t):
    l = unlist(t)
    if l is None:
        return None
    out = []
    for x in l:
        out.append((rget(x, "first"), rget(x, "second")))
    return out


def registries(db, c):
    ps = particles(db)
    # particle types
    f = db.fn(N + "ParticleDef::create_particle_map", 0)
    where = (rel(f["file"]), f["line"])
    e = Engine(db, inline=noctor)
    outs = [o for o in e.run(f) if o.kind == "return"]
    tab = pairs_of(outs[0].value) if len(outs) == 1 else None
    if tab is None:
        raise AnalysisBroken("create_particle_map: table not recognised")
    keys = {}
    reg = set()
    for k, v in tab:
        kk = integer(db, k, "key of the particle map")
        v = v.a[1] if v.op == "construct" and v.a[0] == N + "ParticleDef" and len(v.a) == 2 else v
        if not (v.op == "construct" and v.a[0] in ps):
            raise AnalysisBroken("particle map entry %s" % show(v)[:100])
        p = ps[v.a[0]]
        reg.add(v.a[0])
        c.ob("particle map: key of %s is its own type" % p.short, kk == p.type, where, "key %d for a particle of type %d" % (kk, p.type))
        c.ob("particle map: key %d appears once" % kk, kk not in keys, where, "two entries")
        keys[kk] = 1
    for cls, p in ps.items():
        c.ob("particle map: %s can be looked up by its type" % p.short, cls in reg, where, "no entry for %s" % p.short)
    c.need("entries of the particle map", len(tab), 20)
    en = enum_of(db, N + "ParticleType")
    c.ob("particle types have distinct codes", len(set(en.values())) == len(en), where, "")
    for p in ps.values():
        nm = [k for k, v in en.items() if v == p.type]
        c.ob("%s: name, class and type enumerator agree" % p.short, p.name is not None and len(nm) == 1 and nm[0].lower() == p.name.lower() == p.short[:-3].lower(), p.where,
             "class %s, name %s, type %s" % (p.short, p.name, nm))
    # interaction types
    (t, g), = global_value(db, N + "Type_Interaction_Name_Map")[:1]
    where = (rel(g["file"]), g["line"])
    tab = pairs_of(t)
    if tab is None:
        raise AnalysisBroken("Type_Interaction_Name_Map not recognised")
    en = enum_of(db, N + "InteractionType")
    c.ob("interaction types have distinct codes", len(set(en.values())) == len(en), where, "")
    inv = {v: k for k, v in en.items()}
    seen, names = set(), set()
    for k, v in tab:
        kk = integer(db, k, "interaction key")
        s = v.a[0] if v.op == "str" else None
        nm = inv.get(kk)
        c.saw("interaction names", str(s))
        c.ob("interaction %s listed once" % nm, kk not in seen, where, "two entries")
        c.ob("interaction name %s used once" % s, s not in names, where, "two interactions of that name")
        c.ob("interaction %s carries its own name" % nm, nm is not None and s is not None and s.lower().startswith(nm.lower())
             and not any(o != nm and len(o) > len(nm) and s.lower().startswith(o.lower()) for o in en), where, "name %s" % s)
        seen.add(kk)
        names.add(s)
    for nm, v in en.items():
        if nm != "Undefined":
            c.ob("interaction %s has a name" % nm, v in seen, where, "no name")
    # no interaction type collides with a particle type
    pt = enum_of(db, N + "ParticleType")
    c.ob("interaction and particle codes are disjoint", not (set(en.values()) & set(pt.values())) - {0}, where, "%s" % (set(en.values()) & set(pt.values())))
    # media
    (t, g), = global_value(db, N + "Medium_Name")[:1]
    where = (rel(g["file"]), g["line"])
    names = unlist(t)
    if names is None:
        raise AnalysisBroken("Medium_Name not recognised")
    names = [x.a[0] if x.op == "str" else None for x in names]
    en = enum_of(db, N + "Medium_Type")
    c.ob("every medium type has one name", len(names) == len(en) and len(set(names)) == len(names), where, "%d names for %d types" % (len(names), len(en)))
    for k, v in sorted(en.items(), key=lambda x: x[1]):
        c.ob("medium %s: name at its index" % k, v < len(names) and names[v] == k.lower(), where, "name at index %d is %s" % (v, names[v] if v < len(names) else None))
    gs = [k for k in db.globals if k.split("@")[0] == N + "Medium_Map" and "init" in db.globals[k]]
    if not gs:
        raise AnalysisBroken("Medium_Map not found")
    g = db.globals[gs[0]]
    where = (rel(g["file"]), g["line"])
    eng = Engine(db, inline=noctor)
    (st, t), = eng.ev(g["init"], St(), Frame({"fn": gs[0], "file": g["file"], "params": []}, None, None, 0))[:1]
    tab = pairs_of(t)
    if tab is None:
        raise AnalysisBroken("Medium_Map not recognised")
    inv = {v: k for k, v in en.items()}
    seen, reg = set(), set()
    for k, v in tab:
        kk = integer(db, k, "medium key")
        o = eng.load(st, (v.a[0], v.a[1])) if v.op == "ptr" else v
        cls = o.a[0] if o.op in ("construct", "rec") else None
        if cls is None or cls not in db.records:
            raise AnalysisBroken("Medium_Map entry %s: %s" % (kk, show(o)[:100]))
        nm = inv.get(kk)
        parts = cls.replace(N, "").split("::")
        want = {(parts[-1] + "".join(parts[:-1])).lower()}
        if parts[0] == "PDG2020":
            want.add(parts[-1].lower())
        c.saw("media", cls)
        c.ob("medium map: %s creates that medium" % nm, nm is not None and nm.lower() in want, where, "creates %s" % cls)
        fs, ctor = base_object(db, cls, N + "Medium", ("init",))
        mn = fs["name_"].a[0] if fs["name_"].op == "str" else None
        c.ob("medium %s: carries its own name" % cls.replace(N, ""), mn is not None and mn.lower() == parts[-1].lower(), (rel(ctor["file"]), ctor["line"]), "named %s" % mn)
        c.ob("medium map: %s listed once" % nm, kk not in seen, where, "two entries")
        seen.add(kk)
        reg.add(cls)
    for k, v in en.items():
        c.ob("medium %s can be created" % k, v in seen, where, "no entry")
    c.need("entries of the medium map", len(tab), 15)


LOOKUPS = ((N + "ParticleDef::GetParticleDefForType", "ParticleDef::Type_Particle_Map"), (N + "Component::GetComponentForHash", "Component::component_map"),
           (N + "Medium::GetMediumForHash", "Medium::medium_map"), (N + "CreateMedium", "Medium_Map"))


def lookups(db, c):
    """every lookup by key returns the entry found under exactly that key, and throws otherwise"""
    n = 0
    for name, reg in LOOKUPS:
        for f in db.fns(name):
            if len(f["params"]) != 1 or "body" not in f:
                continue
            c.saw("lookup functions", f["fn"])
            n += 1
            w = (rel(f["file"]), f["line"])
            par = mk("sym", f["params"][0]["n"])
            e = Engine(db, inline=noctor)
            outs = e.run(f)
            rets = [o for o in outs if o.kind == "return"]
            short = "%s(%s)" % (name.replace(N, ""), strip_type(f["params"][0]["t"]).replace(N, ""))
            c.ob(short + ": an unknown key throws", any(o.kind == "throw" for o in outs) or bool(rets) and all(any(ev[0] == "at" for ev in o.st.ev) for o in rets), w, "no path throws")
            c.ob(short + ": a known key is found", bool(rets), w, "no path returns an entry")
            for o in rets:
                ok, why = found_entry(db, o, par, reg)
                c.ob(short + ": returns the entry registered under the given key", ok, (rel(f["file"]), o.node.get("l", f["line"]) if isinstance(o.node, dict) else f["line"]), why)
    c.need("lookup functions", n, 5)


def strip_copy(t):
    while (t.op == "construct" and len(t.a) == 2) or t.op == "ref":
        t = t.a[-1]
    return t


def found_entry(db, o, par, reg):
    v = strip_copy(o.value)
    keys = []
    if v.op == "fld" and v.a[1] == "second":
        x = v.a[0]
        x = x.a[0] if x.op == "deref" else x
        if x.op in ("call", "mut") and str(x.a[0]).split("(")[0].endswith("::find"):
            m, key = x.a[1], x.a[2]
            end = [(t, p) for t, p in o.st.facts.items() if t.op == "==" and x in t.a]
            if not any(p is False for t, p in end):
                return False, "the result of find is used without comparing it with end()"
            keys = [key]
        else:
            return False, "not the result of a lookup: %s" % show(v)[:120]
    elif v.op == "elem" and len(v.a) == 2:
        # an element of the map: throws for an unknown key when read by at(), must be known to be there otherwise
        m, key = v.a
        at = any(ev[0] == "at" and ev[1] is m and ev[2] is key for ev in o.st.ev)
        def on(x, what):
            return x.op in ("call", "mut") and str(x.a[0]).split("(")[0].endswith("::" + what) and x.a[1:3] == (m, key)

        there = any(p is False and t.op == "==" and any(on(x, "count") or on(x, "find") for x in t.a)
                    or p is True and (t.op == ">" and on(t.a[0], "count") or t.op == "<" and on(t.a[1], "count")) for t, p in o.st.facts.items())
        if not at and not there:
            return False, "an element of the map that need not be there: %s" % show(v)[:120]
        keys = [key]
    elif v.op in ("call", "mut", "idx", "at") and str(v.a[0]).split("(")[0].endswith("::at"):
        m, key = v.a[1], v.a[2]
    else:
        return False, "not the result of a lookup: %s" % show(v)[:120]
    mm = m
    while mm.op in ("deref",):
        mm = mm.a[0]
    if mm.op == "glob" and not mm.a[0].split("@")[0].endswith(reg):
        return False, "looked up in %s" % show(mm)
    if key is par:
        return True, ""
    # a name: the key is the position at which the name stands in the list of names
    for t, p in o.st.facts.items():
        if p and t.op == "==" and len(t.a) == 2:
            a, b = t.a
            if b is par:
                a, b = b, a
            if a is par and b.op == "elem" and b.a[-1] is key:
                if key.op == "idx" and not (key.a[1] is num(0) and key.a[2] is mk("size", b.a[0])):
                    return False, "only the names from %s to %s are searched" % (key.a[1] and show(key.a[1]), key.a[2] and show(key.a[2]))
                if key.op not in ("idx", "num"):
                    return False, "the names are not searched one after the other: %s" % show(key)[:100]
                return True, ""
    # the distance of the name found by std::find
    x = l = None
    if key.op == "-" and len(key.a) == 2:
        x, l = key.a
    elif key.op == "call" and str(key.a[0]).split("(")[0] == "std::distance" and len(key.a) == 3:
        l, x = key.a[1:]
    if x is not None and l.op == "begin" and x.op in ("call", "find") and x.a[-3:-1] == (mk("begin", l.a[0]), mk("end", l.a[0])) \
            and (x.op == "find" or str(x.a[0]).split("(")[0] in ("std::find", "std::find_if")) \
            and (x.a[-1] is par or x.a[-1].op == "lam" and x.a[-1].a[-1].op == "==" and par in x.a[-1].a[-1].a and any(y.op == "arg" for y in x.a[-1].a[-1].a)):
        there = any(p is False and t.op == "==" and x in t.a and mk("end", l.a[0]) in t.a for t, p in o.st.facts.items())
        return there, "the position of a name that need not be there"
    return False, "looked up under %s" % show(key)[:100]


def registration(db, c):
    """constructors register the object they construct under its own key, and only if the key is free"""
    n = 0
    for cls, field in ((N + "Component", "hash"), (N + "Medium", None), (N + "ParticleDef", "particle_type")):
        for f in user_ctors(db, cls):
            e = Engine(db, inline=lambda g: not g.get("ctor") and g["name"] not in ("init", "create_particle_map", "SetLogConstant", "SetBPrime", "WoodSaxonPotential"))
            outs = e.run(f)
            if not any(str(ev[1]).endswith(("map::insert", "map::emplace", "map::try_emplace", "map::find", "map::count")) for o in outs for ev in o.st.ev if ev[0] == "call"):
                continue            # delegates or does not register
            n += 1
            w = (rel(f["file"]), f["line"])
            short = cls.replace(N, "")
            for o in outs:
                if o.kind != "return":
                    continue
                this = e.load(o.st, (("o", mk("this")), ()))
                finds = [ev for ev in o.st.ev if ev[0] == "call" and str(ev[1]).endswith(("map::find", "map::count"))]
                ins = [ev for ev in o.st.ev if ev[0] == "call" and str(ev[1]).endswith(("map::insert", "map::emplace", "map::try_emplace"))]
                loops = [ev for ev in ins if len(ev[4]) == 1 and ev[4][0].op != "rec"]     # filling the map with the built-in entries
                ins = [ev for ev in ins if ev not in loops]
                for ev in ins:
                    a = ev[4]
                    k, v = (a[0], a[1]) if len(a) == 2 else (rget(a[0], "first"), rget(a[0], "second"))
                    if field:
                        c.ob(short + ": registered under its own key", k is rget(this, field), (rel(ev[5][0]), ev[5][1]), "registered under %s" % show(k)[:80])
                    else:
                        c.ob(short + ": registered under its own key", any(x[4] and x[4][0] is k for x in finds), (rel(ev[5][0]), ev[5][1]), "registered under another key than the one looked up")
                    c.ob(short + ": the registered object is a copy of the constructed one", same_object(strip_copy(v), this), (rel(ev[5][0]), ev[5][1]), "registers %s" % show(v)[:80])
                free = [t for t, p in o.st.facts.items() if p and t.op == "==" and any(x.op in ("call",) and str(x.a[0]).split("(")[0].endswith("map::find") for x in t.a if isinstance(x, T))]
                c.ob(short + ": a new object is registered", not free or bool(ins), w, "not registered although its key is free")
                if field == "hash":
                    pass
    c.need("registering constructors", n, 3)


def same_object(v, this):
    if v is this:
        return True
    if v.op == "rec" and this.op == "rec":
        d1, d2 = dict_of(v), dict_of(this)
        return all(d1.get(k) is d2.get(k) for k in d1)
    return False


def dict_of(r):
    return {k: rget(r, k) for k in (r.a[2].keys() if isinstance(r.a[2], dict) else [x[0] for x in r.a[2]])}


def all_registries(db, c):
    registries(db, c)
    lookups(db, c)
    registration(db, c)


CHECKS = {
    "P15": ("The tables that map names and identifiers to objects (particle map, interaction names, medium names, medium map) are evaluated from their initialisers by constant propagation; "
            "every entry's key is compared with the type or name the constructed object carries, keys are unique, enumerators complete; on every path of the lookup functions the returned entry is the one found under the given key, and constructors register a copy of the new object under its own key.", all_registries),
    "P18": ("The decay tables of all built-in particle definitions are evaluated by constant propagation through constructors and builders; every mode is checked for charge, lepton family, "
            "mass balance and position of the daughters, every table for the sum of the branching ratios.", decays),
    "P19": ("All built-in particle definitions are evaluated by constant propagation; identifiers, charges, masses, lifetimes, weak partners and hard component tables are compared with the PDG "
            "and between particle and antiparticle; decay tables must be charge conjugates.", mirror),
}

"""P04: the identity of a table covers everything its values depend on."""
import re

from absint import *
from checks.parity import edges, reach, path, short, run, ENTRY, lineage
from common import AnalysisBroken
from data import N, user_ctors
from kinematics import ptypes, where, qname
from tree import fnodes, callee_of, Graph

RULE = ("Every function and constructor that builds an identity is abstractly interpreted; the identity becomes a term over the combined contributions. (1) particle definition, "
        "medium, component and energy cut: call-graph reachability from the tabulated functions gives the fields that are read; each must enter that object's identity as it is, "
        "and only own fields may enter. (2) parametrizations, photon models, shadowing and LPM objects: every constructor argument that ends in a member must end in the identity, "
        "two paths leaving different members must leave different identities, sibling classes have different tags. (3) cross sections, loss tables and propagation tables: the "
        "identity contains that of model, particle, target, cut, sub-tables and every interpolation setting read while the table is built; the file name is built from the "
        "finished identity, with a prefix of its own. (4) the combiner depends on seed and value and is not symmetric.")

OBJECTS = ("ParticleDef", "Medium", "Component", "EnergyCutSettings")
CONTEXT = ("ParticleDef", "Medium", "Component")        # combined separately by the cross section
LOG = {"error", "warn", "debug", "info", "trace", "critical", "log"}
LOSSLESS = {"abs", "fabs"}


def chain(t):
    """(start, [contributions]) of a nest of hash(...); loops over containers contribute what one round adds"""
    out = []
    while isinstance(t, T):
        if t.op == "hash":
            out[:0] = [t.a[1]]
            t = t.a[0]
        elif t.op == "mu" and len(t.a) >= 4:
            inner = []
            for facts, body in t.a[3]:
                s, more = chain(body)
                if s is not t.a[1] and s is not mk("sym", "x"):
                    return t, out       # the accumulated value is dropped
                inner.append(more)
            if not inner or len(inner) > 1:
                return t, out
            out[:0] = [mk("each", x) for x in inner[0]]
            t = t.a[2]
        else:
            break
    return t, out


def strip(t):
    """the quantity a contribution stands for (|x| keeps what matters where values are even, see P05)"""
    while isinstance(t, T) and (t.op == "each" or (t.op in LOSSLESS) or (t.op == "callx" and str(t.a[0]).split("::")[-1] in LOSSLESS)):
        t = t.a[-1]
    return t


def lossless(t):
    t = strip(t)
    return isinstance(t, T) and (t.op in ("sym", "fld", "str", "num", "call", "construct", "glob", "deref", "elem", "list", "true", "false", "enum") or t.op.startswith("global"))


def syms(t):
    return {str(x.a[0]) for x in sub(t) if x.op == "sym"} if isinstance(t, T) else set()


def interesting(f):
    return f.get("ctor") and not (f.get("copyctor") or f.get("movector") or f.get("implicit") or f.get("defaulted"))


# ------------------------------------------------------------------ (1)
def tabulated(db, g):
    roots = [f["fn"] for f in db.functions.values() if f.get("cls") and not f.get("dep") and (
        f["name"] in ENTRY or f["name"] in ("CalculatedNdx", "CalculatedEdx", "CalculatedE2dx"))]
    return reach(db, g, roots, lambda f: f["name"] in ("GetHash", "operator==", "operator!=", "operator<<", "swap", "print"))


def fields_read(db, how, cls):
    """field -> a function that reads it while a tabulated value is computed"""
    out = {}
    for fn in how:
        f = db.functions[fn]
        if f.get("cls") == N + cls and (f.get("ctor") or f["name"] in ("GetHash", "operator=", "operator==", "operator<<")):
            continue
        for n, anc in fnodes(f):
            if n["k"] == "Member" and n.get("q", "").startswith(N + cls + "::"):
                if any((callee_of(a) or {}).get("name") in LOG for a in anc):
                    continue
                out.setdefault(n["n"], fn)
    return out


def objects(db, c, how):
    for cls in OBJECTS:
        c.part(cls, object_identity, db, c, cls, how)


def object_identity(db, c, cls, how):
    read = fields_read(db, how, cls)
    c.need("fields of %s read by tabulated functions" % cls, len(read), 2)
    fs = [f for f in db.functions.values() if f.get("cls") == N + cls and f["name"] == "GetHash" and not f["params"]]
    if len(fs) != 1:
        raise AnalysisBroken("%s::GetHash not found" % cls)
    f = fs[0]
    e, outs = run(db, f)
    this = mk("this")
    if all(o.value is mk("fld", this, "hash") for o in outs):       # kept in a member: set by the constructors
        n = 0
        for k in user_ctors(db, N + cls):
            if not k["params"]:
                continue
            for o in construct(db, k)[1]:
                if o.kind != "return":
                    continue
                n += 1
                r = o.st.store[("o", this)]
                val = {x: rget(r, x) for x in read}
                h = rget(r, "hash")
                check_object(db, c, cls, k, h, {x: v for x, v in val.items() if x != "hash"}, read, how)
        c.need("paths of constructors of %s" % cls, n, 1)
        return
    for o in outs:
        if o.kind == "return":
            check_object(db, c, cls, f, o.value, {x: mk("fld", this, x) for x in read}, read, how)


def check_object(db, c, cls, f, h, values, read, how):
    start, parts = chain(h)
    own = [strip(p) for p in parts]
    for x, v in sorted(values.items()):
        ok = v is not None and (any(covers(p, v) for p in own))
        c.ob("%s: the identity covers %s" % (cls, x), ok, where(f), "%s of %s is read while tables are computed (%s) but is not part of its identity" % (x, cls, path(how, read[x])))
    for p in parts:
        c.ob("%s: contribution %s" % (cls, show(p)[:60]), lossless(p) or any(strip(p) is v for v in values.values()), where(f), "the identity of %s contains only a function of a quantity, not the quantity: %s" % (cls, show(p)[:120]))
    c.ob("%s: nothing is overwritten" % cls, not any(x.op == "hash" or x.op == "fld" or x.op == "lv" for x in sub(start)) if isinstance(start, T) else True, where(f),
         "contributions to the identity of %s are dropped: %s" % (cls, show(start)[:120]))


def covers(p, v):
    """contribution p determines v"""
    if p is v:
        return True
    if not isinstance(p, T):
        return False
    if p.op == "fld" and isinstance(v, T) and any(x is p for x in sub(v)) and v.op in ("elem",):
        return True
    # identities / elements of the elements of a container field
    return any(x is v for x in sub(p)) and p.op in ("call", "elem")


def construct(db, f):
    """paths of a constructor with those of its bases"""
    ch = [f["cls"]] + list(lineage(db, f["cls"]))
    hs = hashers(db)
    e = Engine(db, inline=lambda g: (g.get("cls") in ch and (g.get("ctor") or g["name"] in ("GetHash", "gen_name", "gen_path"))) or (g["fn"] in hs and (g["name"] != "GetHash")),
               opaque=lambda n: keep if n.split("(")[0].endswith("::InitializeRateInterpolant") else None, limit=400, const_names=False)
    return e, e.run(f, this=(("o", mk("this")), ()), args=arguments(f), dyn=f["cls"])


def keep(eng, name, cal, olv, avals, st, fr, node):
    """leaves the identity of its object alone (an obligation of its own, see written_table)"""
    return [(st, mk("call", name))]


def arguments(f):
    args = []
    for p in f["params"]:
        nm = p["n"] or "unnamed"
        args.append(("lv", (("o", mk("sym", nm)), ())) if p["t"].strip().endswith("&") else ("val", mk("sym", nm)))
    return args


_hashers = {}


def hashers(db):
    """small functions that do nothing but build an identity"""
    if id(db) not in _hashers:
        out = {}
        for fn, f in db.functions.items():
            if f.get("dep") or "body" not in f or f.get("ctor") or not ("unsigned long" in (f.get("ret") or "") or "size_t" in (f.get("ret") or "") or f.get("ret") == "void"):
                continue
            n = [callee_of(x) for x, a in fnodes(f)]
            names = {x["name"] for x in n if x is not None}
            if ("hash_combine" in names or any("generate_cross_hash" in x for x in names)) and not any(x.startswith(("make_", "build", "Build")) for x in names):
                out[fn] = f
        _hashers[id(db)] = out
    return _hashers[id(db)]


# ------------------------------------------------------------------ (2)
FAMILIES = ("crosssection::Parametrization<PROPOSAL::Component>", "crosssection::Parametrization<PROPOSAL::Medium>", "crosssection::ParametrizationDirect",
            "crosssection::ShadowEffect", "crosssection::RealPhoton")


def hashed_classes(db):
    """classes outside the families that keep an identity of their own next to the parametrizations"""
    out = []
    for cls, r in db.records.items():
        if not cls.startswith(N + "crosssection::") or any(b != cls for b in db.bases(cls)):
            continue
        if any(f["n"] == "hash" for f in r["fields"]) and not r.get("abstract") and user_ctors(db, cls):
            out.append(cls)
    return sorted(out)


def norm(t):
    """heap objects named by what they are, not by when they were made"""
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x.id not in memo:
                memo[x.id] = None
                memo[x.id] = "%s(%s)" % (x.op, ",".join(go(y) for y in x.a))
            return memo[x.id] or "rec"
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "h":
                return "heap"
            return "[%s]" % ",".join(go(y) for y in x)
        return str(x)
    return go(t)


def models(db, c):
    tags = {}
    n = 0
    for base in FAMILIES:
        for cls in db.all_derived(N + base):
            if db.records[cls].get("abstract"):
                continue
            n += 1
            c.part(short2(cls), model, db, c, cls, base, tags)
    c.need("concrete models", n, 40)
    ex = [x for x in hashed_classes(db)]
    c.need("objects with an identity inside the models", len(ex), 3)
    for cls in ex:
        c.part(short2(cls), inner, db, c, cls)
    for base in FAMILIES:
        sib = sorted(k for k in tags if tags[k][0] == base)
        for i, a in enumerate(sib):
            for b in sib[i + 1:]:
                same = tags[a][1] & tags[b][1]
                c.ob("distinct: %s, %s" % (short2(a), short2(b)), not same, tags[a][2], "%s and %s can have the same identity: %s" % (short2(a), short2(b), sorted(same)[:1]))


def short2(cls):
    return cls.replace(N, "").replace("crosssection::", "")


def model(db, c, cls, base, tags):
    hs = set()
    wh = ""
    for f in user_ctors(db, cls):
        e, outs = construct(db, f)
        wh = where(f)
        c.saw("constructors", f["fn"])
        seen = []
        for o in outs:
            if o.kind != "return":
                continue
            r = o.st.store.get(("o", mk("this")))
            h = rget(r, "hash") if r is not None else None
            if h is None:
                raise AnalysisBroken("%s has no identity after construction" % cls)
            start, parts = chain(h)
            c.ob("%s: nothing is overwritten" % short2(cls), start is num(0) or (isinstance(start, T) and start.op == "num"), where(f),
                 "contributions to the identity of %s are dropped: %s" % (short2(cls), show(start)[:120]))
            have = set()
            for p in parts:
                c.ob("%s: contribution %s" % (short2(cls), show(p)[:60]), lossless(p) or norm(p).startswith("construct"), where(f),
                     "the identity of %s contains only a function of a quantity: %s" % (short2(cls), show(p)[:120]))
                have |= syms(p)
            fixed = {str(t.a[0]) for t in o.st.facts if t.op == "sym"} | {s for t in o.st.facts if t.op == "==" for s in syms(t)}
            fields = {str(k): v for k, v in r.a[2] if str(k) != "hash"}
            for k, v in fields.items():
                need = {s for s in syms(resolve(e, o, v)) if not contextual(f, s)}
                for s in sorted(need):
                    c.ob("%s: argument %s" % (short2(cls), s), s in have or s in fixed, where(f),
                         "%s keeps constructor argument %s in %s but its identity does not depend on it" % (short2(cls), s, k))
            tag = norm(h)
            hs.add(tag)
            seen.append((tag, {k: norm(v) for k, v in fields.items()}, o))
        for i, (t1, f1, o1) in enumerate(seen):
            for t2, f2, o2 in seen[i + 1:]:
                d = [k for k in set(f1) | set(f2) if f1.get(k) != f2.get(k)]
                differ = {t for t in set(o1.st.facts) | set(o2.st.facts) if o1.st.facts.get(t) != o2.st.facts.get(t)}
                if d and any(not contextual(f, x) for t in differ for x in syms(t)):
                    c.ob("%s: options" % short2(cls), t1 != t2, where(f), "two objects of %s that differ in %s have the same identity" % (short2(cls), ", ".join(sorted(d))))
    nm = [json_str(db.globals.get(N + "crosssection::%s<%s>::value" % (k, cls), {}).get("init")) for k in ("ParametrizationId", "ParametrizationName")]
    if "Direct" not in base and None not in nm:      # the cross section adds both
        hs = {str(nm) + h for h in hs}
    tags[cls] = (base, hs, wh)


def json_str(n):
    while isinstance(n, dict) and n.get("v") is None and len(n.get("c", [])) == 1:
        n = n["c"][0]
    return str(n["v"]) if isinstance(n, dict) and n.get("v") is not None else None


def resolve(e, o, v):
    """what a member holds, objects it points to included"""
    if isinstance(v, T) and v.op == "ptr":
        try:
            return e.load(o.st, (v.a[0], tuple(v.a[1])))
        except Exception:
            return v
    return v


def contextual(f, s):
    for p, t in zip(f["params"], ptypes(f)):
        if (p["n"] or "unnamed") == s:
            return any(k in t for k in CONTEXT)
    return False


def inner(db, c, cls):
    """members that hold one quantity of an argument are all part of the identity"""
    n = 0
    for f in user_ctors(db, cls):
        for o in construct(db, f)[1]:
            if o.kind != "return":
                continue
            n += 1
            r = o.st.store[("o", mk("this"))]
            start, parts = chain(rget(r, "hash"))
            own = [strip(p) for p in parts]
            c.ob("%s: nothing is overwritten" % short2(cls), isinstance(start, T) and start.op == "num", where(f), "contributions to the identity of %s are dropped: %s" % (short2(cls), show(start)[:120]))
            for p in parts:
                c.ob("%s: contribution %s" % (short2(cls), show(p)[:60]), lossless(p), where(f), "the identity of %s contains only a function of a quantity: %s" % (short2(cls), show(p)[:120]))
            for k, v in r.a[2]:
                if str(k) != "hash" and isinstance(v, T) and v.op in ("fld", "sym", "call") and syms(v):
                    c.ob("%s: %s" % (short2(cls), k), any(p is v for p in own), where(f), "%s of %s is not part of its identity" % (k, short2(cls)))
            for p, t in zip(f["params"], ptypes(f)):
                if not any(x in t for x in CONTEXT):
                    c.ob("%s: argument %s" % (short2(cls), p["n"]), any(p["n"] in syms(x) for x in parts), where(f), "the identity of %s does not depend on %s" % (short2(cls), p["n"]))
    c.need("constructor paths of %s" % cls, n, 1)


# ------------------------------------------------------------------ (3)
def ident_of(t, what):
    """t is the identity of the object named what (or the value itself)"""
    if not isinstance(t, T):
        return False
    if t.op == "call" and "GetHash" in str(t.a[0]):
        return any(what in syms(x) or (x.op == "fld" and str(x.a[1]) == what) for x in t.a[1:] if isinstance(x, T)) if len(t.a) > 1 else False
    return t.op == "sym" and str(t.a[0]) == what


def has(parts, what):
    return any(ident_of(strip(p), what) for p in parts)


def whole(c, key, f, h, want, facts=None, start=None):
    """h combines everything in want with what it started from"""
    s, parts = chain(h)
    for w in want:
        c.ob("%s: %s" % (key, w), has(parts + ([s] if isinstance(s, T) else []), w), where(f), "the identity of %s does not contain that of %s: %s" % (key, w, show(h)[:160]))
    for p in parts:
        c.ob("%s: contribution %s" % (key, show(p)[:60]), lossless(p), where(f), "the identity of %s contains only a function of a quantity: %s" % (key, show(p)[:120]))
    return s, parts


def cross(db, c):
    fs = [f for f in db.functions.values() if f["name"] == "generate_cross_hash" and not f.get("dep")]
    c.need("identities of cross sections", len(fs), 2)
    for f in fs:
        c.part(f["fn"], cross_hash, db, c, f)
    ks = [f for f in db.functions.values() if f.get("ctor") and (f.get("cls") or "").startswith(N + "CrossSection<") and not f.get("dep") and interesting(f)]
    c.need("instantiations of CrossSection", len(ks), 20)
    for f in ks:
        c.part(f["fn"], cross_ctor, db, c, f)


def cross_hash(db, c, f):
    e = Engine(db, inline=lambda g: g["name"] == "_generate_cross_hash", limit=200, const_names=False)
    args = [("lv", (("o", mk("sym", p["n"])), ())) if p["t"].strip().endswith("&") else ("val", mk("sym", p["n"])) for p in f["params"]]
    names = [p["n"] for p in f["params"]]
    if len(names) != 7:
        raise AnalysisBroken("signature of generate_cross_hash")
    for o in e.run(f, args=args):
        if o.kind != "return":
            continue
        no = any(t.op == "==" and names[6] in syms(t) and p for t, p in o.st.facts.items())
        whole(c, "cross section", f, o.value, names[:6] if no else names)


def cross_ctor(db, c, f):
    ch = [f["cls"]]
    def build(eng, name, cal, olv, avals, st, fr, node):
        return [(st, mk("call", name, *[eng.reify(eng.aval(st, a), st, fr) for a in avals]))]
    e = Engine(db, inline=lambda g: g.get("ctor") and (g.get("cls") in ch or g.get("cls") == N + "CrossSectionBase"), limit=400, const_names=False,
               opaque=lambda n: build if "::detail::build_d" in n.split("(")[0] else None)
    names = [p["n"] for p in f["params"]]
    args = [("lv", (("o", mk("sym", p["n"])), ())) if p["t"].strip().endswith("&") else ("val", mk("sym", p["n"])) for p in f["params"]]
    outs = e.run(f, this=(("o", mk("this")), ()), args=args, dyn=f["cls"])
    key = "CrossSection of " + (re.search(r"crosssection::(\w+)", ptypes(f)[0]) or re.search("(.*)", ptypes(f)[0])).group(1)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        r = o.st.store[("o", mk("this"))]
        h = rget(r, "hash")
        gen = None
        for ev in o.st.ev:
            if ev[0] == "call" and "generate_cross_hash" in str(ev[1][0]):
                gen = ev[1]
        calls = [x for k, v in r.a[2] for x in (sub(v) if isinstance(v, T) else []) if x.op == "call"]
        for what in ("dndx", "dedx", "de2dx"):
            b = [x for x in calls if "::build_" + what in str(x.a[0]).split("(")[0]]
            b = b or [mk("call", ev[1][0], *ev[1][-2]) for ev in o.st.ev if ev[0] == "call" and "::build_" + what in str(ev[1][0]).split("(")[0] and isinstance(ev[1][-2], tuple)]
            if not b:
                raise AnalysisBroken("%s is not built in the constructor" % what)
            for x in b:
                hh = [y for y in x.a[1:] if isinstance(y, T) and y.op == "call" and "generate_cross_hash" in str(y.a[0])]
                c.ob("%s: %s is built under the identity of the cross section" % (key, what), bool(hh), where(f), "%s of %s gets the identity %s" % (what, key, [show(y)[:60] for y in x.a[1:]][-1:]))
                for y in hh:
                    for p in names[:4]:
                        c.ob("%s: %s: identity of %s" % (key, what, p), any(p in syms(z) for z in y.a[1:] if isinstance(z, T)), where(f), "the identity of %s does not contain %s" % (what, p))
        n += 1
        s, parts = chain(h)
        for what in ("dndx", "dedx", "de2dx"):
            v = rget(r, what)
            gone = any(p and t.op == "==" and any(x is v for x in t.a) and any(isinstance(x, T) and x.op == "null" for x in t.a) for t, p in o.st.facts.items())
            if gone or (isinstance(v, T) and v.op == "null"):
                continue
            inside = any(strip(p).op == "call" and "GetHash" in str(strip(p).a[0]) and any(x is v for x in sub(strip(p))) for p in parts if isinstance(strip(p), T))
            c.ob("%s: the identity covers %s" % (key, what), inside, where(f), "the identity of the cross section does not contain that of its %s table: %s" % (what, show(h)[:200]))
    c.need("paths of the constructor of %s" % key, n, 1)


TABLE = re.compile(N + r"CrossSection(DNDX|DEDX|DE2DX)(Integral|Interpolant)$")
UTILITY = re.compile(N + r"(Displacement|Interaction|ExactTime|Decay|ContRand)(Builder)?(<.*>)?$")


def tables(db, c, g):
    ks = [f for f in db.functions.values() if f.get("ctor") and TABLE.match(f.get("cls") or "") and not f.get("dep") and interesting(f)]
    c.need("constructors of loss tables", len(ks), 60)
    names = {}
    for f in ks:
        c.part(f["fn"], table, db, c, g, f, names)
    for fn, f in sorted(db.functions.items()):
        if f.get("dep") or "body" not in f or not re.match(N + r"detail::_?build_d(ndx|edx|e2dx)$", fn.split("(")[0].split("<")[0]):
            continue
        c.part(fn, forwarded, db, c, f)
    n = 0
    for cls in sorted(db.records):
        if UTILITY.match(cls) and not db.records[cls].get("dep"):
            for f in user_ctors(db, cls):
                if not f.get("dep") and f["params"]:
                    n += 1
                    c.part(f["fn"], utility, db, c, f)
    c.need("constructors of propagation tables", n, 8)
    for cls, nm in (("UtilityInterpolant", "BuildTables"), ("InteractionBuilder", "InitializeRateInterpolant")):
        fs = [f for f in db.functions.values() if f.get("cls") == N + cls and f["name"] == nm]
        c.need("%s::%s" % (cls, nm), len(fs), 1)
        c.part(fs[0]["fn"], written_table, db, c, g, fs[0], names)
    sites = 0
    for fn in sorted(db.functions):
        f = db.functions[fn]
        if f.get("dep"):
            continue
        for n, anc in fnodes(f):
            if (callee_of(n) or {}).get("name") == "BuildTables" and n["k"] == "MCall":
                lit = [x["v"] for x in walk(n["c"][0]) if x.get("k") == "Str"]
                if len(lit) != 1:
                    raise AnalysisBroken("prefix of the table built in %s" % fn)
                sites += 1
                names.setdefault(lit[0], set()).add((f.get("cls") or fn).split("<")[0])
    c.need("propagation tables", sites, 5)
    for k, v in sorted(names.items()):
        c.ob("file names starting with %s belong to one kind of table" % k, len(v) == 1, "", "%s write tables under the same prefix %s" % (", ".join(sorted(v)), k))


def walk(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            yield x
            todo.extend(x.values())
        elif isinstance(x, list):
            todo.extend(x)


def settings(db, g, f):
    """interpolation settings read while the table is built"""
    out = {}
    for fn in reach(db, g, [f["fn"]], lambda x: False):
        x = db.functions[fn]
        for n, anc in fnodes(x):
            if n["k"] == "Ref" and "InterpolationSettings::" in str(n.get("q")):
                out.setdefault(n["q"].split("::")[-1], fn)
        for p in x["params"]:
            for m in walk(p.get("def") or {}):
                if "InterpolationSettings::" in str(m.get("q")):
                    out.setdefault(m["q"].split("::")[-1], fn)
    out.pop("TABLES_PATH", None)
    return out


def table_names(e, o):
    """(identity in the file name, prefix, name) of each table made on the path"""
    out = []
    for v in list(o.st.store.values()) + [o.value]:
        for x in (sub(v) if isinstance(v, T) else []):
            if x.op == "construct" and "cubic_splines::Interpolant<" in str(x.a[0]) and len(x.a) == 4:
                ids = [y.a[-1] for y in sub(x.a[3]) if y.a and ("to_string" in y.op or (isinstance(y.a[0], str) and "to_string" in y.a[0]))]
                pre = [str(y.a[0]) for y in sub(x.a[3]) if y.op == "str" and y.a[0] != ".dat"] + [show(y) for y in sub(x.a[3]) if y.op == "sym" and str(y.a[0]) == "prefix"]
                out.append((ids, pre, x.a[3]))
    return out


def named(c, key, f, e, o, h, names, kind):
    ns = table_names(e, o)
    if not ns:
        raise AnalysisBroken("no table is made in %s" % key)
    for ids, pre, t in ns:
        c.ob("%s: file name" % key, len(ids) == 1 and ids[0] is h, where(f), "the file name of the table does not contain the finished identity: %s" % show(t)[:200])
        c.ob("%s: file prefix" % key, len(pre) == 1, where(f), "the file name of the table has no prefix: %s" % show(t)[:120])
        for x in pre:
            if x != "prefix":
                names.setdefault(x, set()).add(kind)


def set_names(parts):
    return {x for p in parts for x in re.findall(r"InterpolationSettings::(\w+)", show(p) if isinstance(p, T) else "")}


def table(db, c, g, f, names):
    e, outs = construct(db, f)
    m = TABLE.match(f["cls"])
    key = "%s of %s" % (f["cls"].replace(N, ""), ptypes(f)[0].replace(N + "crosssection::", "").replace("const", "").strip(" &"))
    pn = [p["n"] for p in f["params"]]
    comp = "Component" in ptypes(f)[2]
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        h = rget(o.st.store[("o", mk("this"))], "hash")
        s, parts = whole(c, key, f, h, [pn[-1]] + ([pn[2]] if comp else []))
        c.ob("%s: nothing is overwritten" % key, s is mk("sym", pn[-1]), where(f), "the identity handed over is not the start of the table's: %s" % show(h)[:120])
        if m.group(2) == "Interpolant":
            have = set_names(parts)
            for x, fn in sorted(settings(db, g, f).items()):
                c.ob("%s: setting %s" % (key, x), x in have, where(f), "%s is read while the table is built (%s) but not part of its identity" % (x, short(fn)))
            named(c, key, f, e, o, h, names, f["cls"].replace(N, ""))
    c.need("paths of %s" % key, n, 1)


def forwarded(db, c, f):
    """the identity reaches the table makers unchanged"""
    got = []

    def make(eng, name, cal, olv, avals, st, fr, node):
        vs = [eng.reify(eng.aval(st, a), st, fr) for a in avals]
        got.append((cal["name"], vs))
        return [(st, mk("call", name, *vs))]
    e = Engine(db, inline=lambda g: False, opaque=lambda n: make if re.match(N + r"(detail::_build_d|make_d)", n) else None, limit=200, const_names=False)
    args = []
    hs = None
    for i, (p, t) in enumerate(zip(f["params"], ptypes(f))):
        sy = mk("sym", "%s_%d" % (p["n"], i))
        args.append(("lv", (("o", sy), ())) if p["t"].strip().endswith("&") else ("val", sy))
        if re.search(r"unsigned long|size_t", t) and "std::" not in t.replace("std::size_t", ""):
            hs = sy
    if hs is None:
        raise AnalysisBroken("no identity among the arguments of %s" % f["fn"][:80])
    e.run(f, args=args)
    c.need("tables made in %s" % f["fn"][:80], len(got), 1)
    for nm, vs in got:
        c.ob("%s hands the identity on" % short(f["fn"])[:120], any(v is hs for v in vs), where(f), "%s is called with identity %s" % (nm, [show(v)[:60] for v in vs][-1:]))


def utility(db, c, f):
    e, outs = construct(db, f)
    key = f["cls"].replace(N, "") + (" (tables)" if any("true" in t for t in ptypes(f)) else "")
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        r = o.st.store[("o", mk("this"))]
        h = rget(r, "hash")
        if h is None:
            continue
        n += 1
        s, parts = chain(h)
        if isinstance(s, T) and s.op != "num":
            parts = [s] + parts
        carriers = []
        for p, t in zip(f["params"], ptypes(f)):
            nm = p["n"]
            if not nm:
                continue
            if re.match(r"(const )?(double|float|int|unsigned.*|bool)&?$", t.strip()) and any(isinstance(v, T) and any(x is mk("sym", nm) for x in sub(v)) for k, v in r.a[2] if str(k) != "hash"):
                c.ob("%s: %s" % (key, nm), any(strip(x) is mk("sym", nm) for x in parts), where(f), "%s of %s is not part of its identity: %s" % (nm, key, show(h)[:120]))
            elif "Displacement" in t or "CrossSection" in t or t.strip().endswith("Cross &"):
                carriers.append(nm)
        if carriers:
            ok = any(strip(x).op == "call" and "GetHash" in str(strip(x).a[0]) and syms(x) & set(carriers) for x in parts if isinstance(strip(x), T))
            c.ob("%s: cross sections" % key, ok, where(f), "the identity of %s contains neither that of its displacement nor of its cross sections: %s" % (key, show(h)[:120]))
        for x in parts:
            c.ob("%s: contribution %s" % (key, show(x)[:60]), lossless(x), where(f), "the identity of %s contains only a function of a quantity: %s" % (key, show(x)[:120]))
        for k, v in r.a[2]:
            t = resolve(e, o, v)
            if isinstance(v, T) and v.op == "ptr" and isinstance(t, T) and t.op == "construct" and "::Utility" in str(t.a[0]):
                c.ob("%s: table %s" % (key, k), len(t.a) == 4 and t.a[3] is h, where(f), "%s of %s is stored under the identity %s" % (k, key, show(t.a[-1])[:120]))
    if f["cls"] != N + "InteractionBuilder":
        c.need("paths of %s" % key, n, 1)


def written_table(db, c, g, f, names):
    ch = [f["cls"]] + list(lineage(db, f["cls"]))
    e = Engine(db, inline=lambda x: x["name"] in ("GetHash", "gen_name", "gen_path") and x.get("cls") in ch, limit=300, const_names=False)
    n = 0
    key = short(f["fn"])
    for o in e.run(f, this=(("o", mk("this")), ()), args=arguments(f), dyn=f["cls"]):
        if o.kind != "return":
            continue
        n += 1
        r = o.st.store.get(("o", mk("this")))
        h = rget(r, "hash") if r is not None and r.op == "rec" else None
        for ids, pre, t in table_names(e, o):
            if h is not None and len(ids) == 1:
                c.ob("%s: identity afterwards" % key, h is ids[0] or h is mk("fld", mk("this"), "hash"), where(f), "the object's identity is replaced: %s" % show(h)[:160])
            c.ob("%s: file name" % key, len(ids) == 1, where(f), "the file name does not contain the identity: %s" % show(t)[:160])
            if len(ids) != 1:
                continue
            s, parts = chain(ids[0])
            c.ob("%s: the object's identity" % key, s is mk("fld", mk("this"), "hash"), where(f), "the file name does not contain the identity of the object: %s" % show(t)[:160])
            have = set_names(parts)
            for x, fn in sorted(settings(db, g, f).items()):
                c.ob("%s: setting %s" % (key, x), x in have, where(f), "%s is read while the table is built (%s) but not part of its identity" % (x, short(fn)))
            for p, ty in zip(f["params"], ptypes(f)):
                if "string" in ty:
                    c.ob("%s: prefix" % key, mk("sym", p["n"]) in list(sub(t)), where(f), "the prefix is not part of the file name")
                else:
                    c.ob("%s: %s" % (key, p["n"]), any(strip(x) is mk("sym", p["n"]) for x in parts), where(f), "%s is not part of the identity" % p["n"])
            for x in pre:
                if x != "prefix":
                    names.setdefault(x, set()).add(f["cls"].replace(N, "") + "." + f["name"])
    c.need("paths of %s" % key, n, 1)


def lists(db, c):
    """identity of a list of cross sections, of a scaled and of a direct cross section"""
    for f in db.functions.values():
        if f.get("dep") or f["name"] != "GetHash" or "body" not in f:
            continue
        cls = f.get("cls") or ""
        if cls == N + "CrossSectionVector":
            e, outs = run(db, f)
            for o in outs:
                s, parts = chain(o.value)
                pn = f["params"][0]["n"]
                c.ob("list of cross sections", len(parts) == 1 and parts[0].op == "each" and pn in syms(parts[0]) and "GetHash" in str(strip(parts[0]).a[0]), where(f),
                     "the identity of a list of cross sections does not combine that of each: %s" % show(o.value)[:120])
        elif cls == N + "CrossSectionMultiplier":
            e, outs = run(db, f)
            for o in outs:
                s, parts = chain(o.value)
                ps = parts + [s]
                c.ob("scaled cross section: factor", any(strip(p) is mk("fld", mk("this"), "multiplier_") for p in ps), where(f), "the factor is not part of the identity: %s" % show(o.value)[:120])
                c.ob("scaled cross section: cross section", any("GetHash" in show(p) and "cross_" in show(p) for p in ps), where(f), "the scaled cross section is not part of the identity")
        elif re.match(N + r"CrossSectionDirect", cls):
            e, outs = run(db, f)
            for o in outs:
                t = o.value
                c.ob("direct cross section", isinstance(t, T) and t.op == "call" and "GetHash" in str(t.a[0]) and all(any(x is mk("fld", mk("this"), k) for x in sub(t)) for k in ("p", "m", "cut")),
                     where(f), "the identity is not the model's for this particle, medium and cut: %s" % show(t)[:120])
        elif cls in [k for k in db.all_derived(N + "crosssection::ParametrizationDirect")]:
            c.part(f["fn"], direct, db, c, f)


def direct(db, c, f):
    """models evaluated without tables: what their rates read of particle, medium and cut enters the identity"""
    g = Graph(db)
    cls = f["cls"]
    fam = {cls} | set(db.all_derived(cls))
    roots = [x["fn"] for x in db.functions.values() if x.get("cls") in fam and x["name"].startswith("Calculate") and not x.get("dep")]
    how = reach(db, g, roots, lambda x: (x.get("cls") or "").startswith(N + "crosssection::") and x.get("cls") not in fam)
    read = fields_read(db, {k: v for k, v in how.items() if db.functions[k].get("cls") in fam}, "ParticleDef")
    e, outs = run(db, f)
    pn = [p["n"] for p in f["params"]]
    for o in outs:
        s, parts = chain(o.value)
        ps = parts + ([s] if isinstance(s, T) else [])
        key = short2(cls) + "::GetHash"
        c.ob("%s: model" % key, any(strip(p) is mk("fld", mk("this"), "hash") or (isinstance(p, T) and p.op == "call" and "GetHash" in str(p.a[0]) and mk("this") in list(sub(p))) for p in ps),
             where(f), "the model is not part of the identity: %s" % show(o.value)[:120])
        c.ob("%s: medium" % key, has(ps, pn[1]), where(f), "the medium is not part of the identity: %s" % show(o.value)[:120])
        for x in sorted(read):
            c.ob("%s: %s" % (key, x), has(ps, pn[0]) or any(isinstance(strip(p), T) and strip(p) is mk("fld", mk("sym", pn[0]), x) for p in ps), where(f),
                 "%s of the particle is read (%s) but not part of the identity" % (x, short(read[x])))


def combiner(db, c):
    fs = [f for f in db.functions.values() if f["name"] == "hash_combine" and not f.get("dep") and len(f["params"]) >= 2]
    c.need("instantiations of hash_combine", len(fs), 10)
    for f in fs:
        c.part(f["fn"], combine1, db, c, f)


def combine1(db, c, f):
    e, outs = run(db, f)
    names = [p["n"] for p in f["params"]]
    key = f["fn"].replace(N, "")[:100]
    for o in outs:
        t = o.st.store.get(("o", mk("sym", names[0])))
        s, parts = chain(t)
        rest = [x for p in parts for x in syms(p)]
        c.ob("%s: first value" % key, names[0] in syms(s) and names[1] in syms(s) and not (set(names[2:]) & syms(s)), where(f), "the combined identity depends not on both seed and value: %s" % show(s)[:120])
        shifted = any(x.op in ("op<<", "op>>", "*") and names[0] in syms(x) for x in sub(s))
        c.ob("%s: order matters" % key, shifted, where(f), "seed and value enter alike, exchanged values collide: %s" % show(s)[:120])
        c.ob("%s: the rest" % key, len(parts) == len(names) - 2, where(f), "%d of %d further values are combined" % (len(parts), len(names) - 2))


def check_p04(db, c):
    g = Graph(db)
    how = tabulated(db, g)
    c.need("functions that compute tabulated values", len(how), 100)
    for fn in how:
        c.saw("functions", fn)
    objects(db, c, how)
    models(db, c)
    cross(db, c)
    c.part("loss and propagation tables", tables, db, c, g)
    c.part("lists", lists, db, c)
    combiner(db, c)


CHECKS = {"P04": (RULE, check_p04)}

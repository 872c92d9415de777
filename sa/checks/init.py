"""P25: no object and no variable is read before it has a value (definite assignment)."""
from common import AnalysisBroken
from defassign import DefAssign
from ir import rel

RULE = ("Forward definite-assignment analysis of every constructor of every class one can create objects of: each numeric, boolean, enumeration, raw pointer or "
        "array member (inherited ones included) must be assigned on every path on which the constructor returns - by an initialiser, an in-class initialiser, "
        "the constructor of the base, the constructor delegated to, an assignment in the body or in a member function it calls - and not be read before; and of "
        "every function: no path reads a scalar local variable, or a member of a local object without constructor, before it is assigned (reference parameters of "
        "callees count as assigned only when the callee assigns them on every return).")


def aggregate(db, cls):
    """no constructor of its own: initialising it is up to those who create it (followed at every local variable)"""
    return not any(f.get("ctor") and f.get("cls") == cls and not f.get("implicit") for f in db.functions.values())


def p25(db, c):
    D = DefAssign(db)
    nc = nf = nr = 0
    agg = {}
    for fn, f in sorted(db.functions.items()):
        if f.get("dep"):
            continue
        cls = f.get("cls") or ""
        where = "%s:%s" % (rel(f["file"]), f["line"])
        if f.get("ctor") and cls.startswith("PROPOSAL") and cls in db.records and not db.records[cls].get("abstract"):
            if cls not in agg:
                agg[cls] = aggregate(db, cls)
            t = D.tracked(cls)
            own = "body" in f or not f.get("defaulted")
            if t and not agg[cls] and (own or not f["params"]):
                must = D.summary(fn)[0] if own else D.default_init(cls)
                nc += 1
                c.saw("constructors", fn)
                for x in t:
                    nf += 1
                    c.ob(("ctor", fn, x["n"]), must is None or ("f", x["n"]) in must, where,
                         "the constructor %s leaves the member %s of %s indeterminate on some path" % (f["name"], x["n"], cls.replace("PROPOSAL::", "")))
        if "body" in f and (cls.startswith("PROPOSAL") or fn.startswith("PROPOSAL") or "repo" in rel(f["file"]) or rel(f["file"]).startswith("src/")):
            exp = D.summary(fn)[1]
            nr += 1
            c.saw("functions", fn)
            pars = {p.get("id") for p in f["params"]}
            bad = {k: n for k, n in exp.items() if (k[0] == "v" and k[1] not in pars) or (k[0] == "f" and f.get("ctor"))}
            c.ob(("reads", fn), not bad, where, "; ".join(
                "%s reads %s before it has a value (line %s)" % (f["name"], k[1] if k[0] == "f" else str(n.get("n") or "a variable"), n.get("l")) for k, n in sorted(bad.items(), key=str)))
    c.need("constructors of classes with scalar members", nc, 300)
    c.need("constructor and member pairs", nf, 1500)
    c.need("functions whose variables were followed", nr, 2000)


CHECKS = {"P25": (RULE, p25)}

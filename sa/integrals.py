"""Entry points of the numerical integrator with its numerical cores abstracted: each core is an uninterpreted function of the state it reads."""
from data import *

CLS = N + "Integral"
INPUT = ["min_", "max_", "integrand_", "powerOfSubstitution_", "useLog_", "reverse_", "reverseX_", "randomNumber_"]
CONFIG = {"romberg_", "maxSteps_romberg_", "maxSteps_upper_limit_", "precision_", "romberg4refine_"}
CORES = ("RombergIntegrateClosed", "RombergIntegrateOpened")


def cores(db):
    """the numerical cores: methods called with the state set up, which evaluate Function"""
    return CORES


def engine(db, extra=()):
    def core(eng, name, cal, olv, avals, st, fr, node):
        st = st.copy()
        v = mk("R", name.split("(")[0].split("::")[-1], *[eng.load(st, (olv[0], olv[1] + (s,))) for s in INPUT])
        eng.event(st, "core", name.split("(")[0].split("::")[-1], v, eng.where(fr, node))
        return [(st, v)]

    def other(eng, name, cal, olv, avals, st, fr, node):
        st = st.copy()
        eng.event(st, "core", name.split("(")[0].split("::")[-1], VOID, eng.where(fr, node))
        return [(st, VOID)]

    def opaque(n):
        l = n.split("(")[0].split("::")[-1]
        if n.startswith(CLS + "::") and l in CORES:
            return core
        if n.startswith(CLS + "::") and l in extra:
            return other
    return Engine(db, inline=lambda f: f["name"] not in CORES and f["name"] not in extra, opaque=opaque)


def run(db, name, npar, extra=()):
    f = db.fn(CLS + "::" + name, npar)
    e = engine(db, extra)
    return f, e, e.run(f)


def mentions(t, out=None):
    """fields of *this a term mentions"""
    out = set() if out is None else out
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, (T, tuple)) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, T):
            if x.op == "fld" and isinstance(x.a[0], T) and x.a[0].op == "this":
                out.add(x.a[1])
                continue
            todo.extend(x.a)
        else:
            todo.extend(x)
    return out

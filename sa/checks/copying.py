"""P03: copies, assignments, swaps, clones."""
from copies import *

N = "PROPOSAL::"
# state that need not be carried over, one reason each
EXEMPT = {
    (N + "ManyBodyPhaseSpace", "parameter_map_"): "cache, refilled on demand",
    (N + "Spline", "x_"): "input of the construction, not read afterwards",
    (N + "Spline", "y_"): "input of the construction, not read afterwards",
    (N + "Density_splines", "density_distribution"): "never read",
    (N + "Density_splines", "antiderived_density_distribution"): "never read",
}
RULE = ("Every user-provided copy/move constructor, assignment and swap and every clone/create method of the program is run by the path-sensitive "
        "dataflow engine on symbolic objects. On every path each field of the result must hold the corresponding field of the source (a swap: both ways), "
        "pointers the destructor frees must point to a fresh full copy, callbacks bound to the object must be re-bound to the new object, the source must "
        "be left alone, self-assignment must neither lose nor free anything, clones must be of the same class; classes that own memory or bind callbacks "
        "to themselves must not rely on compiler-generated copies.")


def exemptions():
    ex = {}
    for (cls, f), why in EXEMPT.items():
        ex.setdefault(("class", cls), set()).add(f)
    return ex


def run(db, c):
    cl = Classes(db)
    ex = exemptions()
    ops = operations(db)
    for kind, cls, f in ops:
        check_operation(db, c, cl, kind, cls, f, ex)
    n = check_clones(db, c, cl, ex)
    m = check_implicit(db, c, cl)
    c.need("copy, assignment and swap operations", len(ops), 15)
    c.need("clone methods", n, 50)
    c.need("classes owning memory or binding callbacks", m, 5)


CHECKS = {"P03": (RULE, run)}

"""P01, P02: equality operators."""
from eq import *

N = "PROPOSAL::"

# fields that are not part of an object's identity, one line of reason each
EXEMPT = {
    N + "ManyBodyPhaseSpace": {
        "sum_daughter_masses_": "function of daughter_masses_",
        "number_of_daughters_": "size of daughter_masses_",
        "matrix_element_": "std::function cannot be compared; its default-ness is compared",
        "estimate_": "std::function, selected by broad_phase_statistic_/uniform_",
        "parameter_map_": "cache",
    },
    N + "Component": {"hash": "function of the other fields"},
    N + "Density_polynomial": {
        "density_distribution": "std::function bound to polynom_",
        "antiderived_density_distribution": "std::function bound to Polynom_",
        "Polynom_": "antiderivative of polynom_",
    },
    N + "Density_splines": {
        "density_distribution": "std::function bound to spline_",
        "antiderived_density_distribution": "std::function bound to integrated_spline_",
        "integrated_spline_": "antiderivative of spline_",
        "spline_.x_": "input of the construction of the coefficients",
        "spline_.y_": "input of the construction of the coefficients",
    },
    N + "Spline": {
        "x_": "input of the construction of the coefficients, which are compared",
        "y_": "input of the construction of the coefficients, which are compared",
    },
    N + "multiple_scattering::MoliereInterpol": {
        k: "table of a universal function, the same for all objects"
        for k in ("f1M_interpolant_", "f2M_interpolant_", "F1M_interpolant_", "F2M_interpolant_")
    },
    N + "Integral": {
        "integrand_": "std::function cannot be compared",
        "q_last_3_results_": "scratch of the QUADPACK integrator, rewritten by each integration",
        "q_rlist2_": "scratch of the QUADPACK integrator, rewritten by each integration",
        "q_iord_": "scratch of the QUADPACK integrator, rewritten by each integration",
        "q_iord2_": "scratch",
        "reverse_": "state of the integration in progress",
    },
    N + "Interpolant": {
        "function1d_": "std::function cannot be compared",
        "function2d_": "std::function cannot be compared",
        "c_": "scratch of the Neville scheme",
        "d_": "scratch of the Neville scheme",
        "iY2_": "nodes of the second dimension, read during construction only; the tables made of them are compared",
    },
}


# different classes that stand for the same thing
SAME_KIND = {
    (N + "LeptonicDecayChannel", N + "LeptonicDecayChannelApprox"): "the same decay, by two formulas; the decay table selects it by its products",
    (N + "Linear_Spline", N + "Cubic_Spline"): "both are piecewise polynomials given by the compared coefficients",
}


def opfn(db, cls, op, npar=1):
    return db.fn("%s::%s" % (cls, op), npar)


def particles(db, c):
    for k in ("ParticleState", "ParticleDef", "DecayTable"):
        cls = N + k
        check_eq(db, c, k, opfn(db, cls, "operator=="), cls, EXEMPT.get(cls))
        check_eq(db, c, k + " !=", opfn(db, cls, "operator!="), cls, EXEMPT.get(cls), neg=True)
    family(db, c, N + "DecayChannel", 5)
    c.need("operators", len(c.analysed.get("operators", ())), 8)


def family(db, c, base, minimum, ne=True):
    kinds = [base] + db.all_derived(base)
    kinds = sorted(k for k in kinds if not db.records[k].get("abstract"))
    c.need("concrete classes of " + base.split("::")[-1], len(kinds), minimum)
    e = opfn(db, base, "operator==")
    n = opfn(db, base, "operator!=") if ne else None
    for k in kinds:
        short = k.split("::")[-1]
        ex = {}
        for b in [k] + db.bases(k):
            ex.update(EXEMPT.get(b, {}))
        check_eq(db, c, short, e, k, ex)
        if n:
            check_eq(db, c, short + " !=", n, k, ex, neg=True)
        for k2 in kinds:
            if k2 != k and (k, k2) not in SAME_KIND and (k2, k) not in SAME_KIND:
                check_distinct(db, c, base.split("::")[-1], e, k, k2)


def environment(db, c):
    for k in ("Medium", "Polynom", "Integral", "Interpolant"):
        cls = N + k
        check_eq(db, c, k, opfn(db, cls, "operator=="), cls, EXEMPT.get(cls))
        check_eq(db, c, k + " !=", opfn(db, cls, "operator!="), cls, EXEMPT.get(cls), neg=True)
    for k, cnt in (("Geometry", 3), ("Density_distr", 4), ("Axis", 2), ("Vector3D", 2), ("Spline", 2)):
        family(db, c, N + k, cnt)
    family(db, c, N + "multiple_scattering::Parametrization", 3, ne=False)
    cls = N + "EnergyCutSettings"
    check_eq(db, c, "EnergyCutSettings", opfn(db, cls, "operator=="), cls)
    cls = N + "Component"
    f = [x for x in db.fns(N + "operator==") if "Component &" in x["params"][0]["t"] and "shared_ptr" not in x["params"][0]["t"]]
    if len(f) != 1:
        raise AnalysisBroken("operator== of Component: %d" % len(f))
    check_eq(db, c, "Component", f[0], cls, EXEMPT[cls])
    check_eq(db, c, "Component !=", opfn(db, cls, "operator!="), cls, EXEMPT[cls], neg=True)


RULE_A = ("Path-sensitive dataflow over the equality operators of particles, particle definitions, decay tables and every decay channel "
          "(virtual dispatch resolved per dynamic class): each path answering 'equal' must have established equality of every leaf field "
          "(element-wise over the full index range for containers, pointees for pointers), each path answering 'unequal' must rest on a "
          "disagreement between mirrored parts, pairs of different dynamic classes must answer 'unequal'.")
CHECKS = {
    "P01": (RULE_A, particles),
    "P02": (RULE_A.replace("particles, particle definitions, decay tables and every decay channel",
                           "media, components, geometries, densities, axes, cuts, vectors, polynomials, splines, integrators, "
                           "interpolation tables and multiple-scattering models"), environment),
}

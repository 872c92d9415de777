NOTES = {
"P01": "Value-numbering dataflow over every `operator==`/`compare`. On each path that returns true every field pair must be known equal (directly, or element-wise by a loop summary); on each path that returns false some corresponding pair must be known different; no mixed pair may be compared. Oracle: the fields of the class and its bases. Tests compare a handful of objects; the dataflow covers every field on every path.",
"P02": "As P01, for the remaining hierarchy (media, geometry, density, axes, vectors, cuts, interpolants, splines, scattering); objects of different kinds must be excluded by `typeid` or a failed cast before the fields are trusted.",
"P03": "For every copy/move constructor, assignment, swap and clone (user written or implicit): the final symbolic store of the target is compared field by field with the source; owning raw pointers must be fresh or re-cloned, callbacks must not keep references into the source, old storage must be released once.",
"P04": "Constant and dataflow analysis of every hash function: the set of fields and model options that reach the combined hash term is compared with the set that the tabulated functions read.",
"P08": "Constructor and `GetCut` paths evaluated for every order of (cut, limits, energy) including 0, negative, infinite and NaN; configuration constructors under every presence/type combination of the entries (JSON typestate model).",
"P10": "Every interaction model (through its constructor and `CalculateSecondaries`) and every decay channel is interpreted to the symbolic list of produced particles; the energy (momentum) sum minus the required total must be identically zero (normal form, else identity testing). Rotations and boosts are inlined; random numbers are symbols in (0,1).",
"P11": "Same interpretation; position, time, type, direction and multiplicity of every product read off the terms.",
"P12": "Same interpretation; constant indices of all reads of the random vector against the value `RequiredRandomNumbers` returns for the same object; forwarding of `SecondariesCalculator` by provenance.",
"P13": "Entropy-source query over all functions and initialisers (library engines, clocks, addresses, thread ids, environment), plus dataflow through RandomGenerator (seed, save, restore).",
"P14": "A recorded track of three general states; every accessor is interpreted to values/facts and evaluated for every combination of step kinds, inside/outside flags and orders of the requested quantity; compared with a direct Python statement of the selection. Re-propagation is compared term by term.",
"P15": "Constant propagation through registry initialisers; keys against the identity the registered constructor gives its object; enumerators against registry; unknown-key paths must throw.",
"P17": "Configuration constructors under every combination of entry presence and type, and sign/order classes of lengths: must throw or carry the value; factories must build the class of the name.",
"P18": "Constant propagation through the builders of the decay tables; charge, lepton numbers, masses, branching sums and multiplicity computed from the extracted tables.",
"P19": "Constant propagation through the particle definitions; PDG identity and mirror relations between the extracted definitions.",
"P20": "Constants of all media and components against published tables and Sternheimer relations; derived quantities as symbolic sums over a general component list.",
"P21": "Classification functions decided for all combinations of crossings ahead and behind; closest approach as an algebraic identity; `DistanceToBorder` compared between displaced copies region by region.",
"P22": "Constructor, profile and axis functions extracted in one go (so the link between a polynomial, its stored antiderivative and the bound callbacks is followed), evaluated at sample points against integral, derivative and inverse of the definition; the arguments of the root finder are extracted as functions.",
"P23": "Entry points of the integrator with uninterpreted numerical cores; one representative per region of bounds and power. Oracle: change of variables.",
"P05": "Parity is derived over the term of each function that mentions the charge: products and powers of odd factors, absolute values and even functions are followed, anything else is undetermined and alarms; callees are even by their own obligation, members assigned an odd value in a constructor (EpairLPM::charge_, Highland::charge) are odd in every later use. Looking up what was stored under the projectile's hash is allowed, any other use of the hash is not.",
"P06": "Reading alone is no violation, only a result or branch that contains the number. MupairKelnerKokoulinPetrukhin takes it for the atomic weight: known finding, because the correction shifts the reference values of the tests.",
"P07": "Each integral in the result of a Calculate function is translated into the signed range of losses its argument of the cross section runs over, with the integrand checked to be weight times cross section times the derivative of the substitution; the ranges must sum to the required range with multiplicity one. Ionization: d(extracted energy loss)/d(cut) against v times the extracted cross section. A violation names process, limits and the range counted wrongly.",
"P04": "Every hash builder is interpreted to a nest of contributions; fields read by functions reachable from the tabulated integrands must appear unmodified in the identity of their object, constructor options in that of the model, settings and sub-identities in that of the table. A violation names the object, the field and the path by which a table reads it.",
"P09": "Every GetKinematicLimits/GetLowerEnergyLim is run symbolically. On each feasible path lower <= upper must follow from the branches taken (clamps, in whichever form), from the structure of min/max/conditional values, from interval arithmetic (mass/E in [0,1], target properties positive, constants from the program, members from their constructors, branch conditions narrow terms) or, for quantities that cancel, from the coefficients of the difference written as a quotient of polynomials with the energy counted from its smallest permitted value. A root or logarithm whose argument can be negative is reported. Real algebra, no rounding; energies below the rest mass and photons with mass are outside the domain; thresholds that are minima over targets (photoeffect, photoproduction) are not bounded.",
"P16": "Every function with a dereference of a lookup result, a downcast, a registry, a map entry or an optional part is run by abstract interpretation (non-public helpers inside their callers, hidden overriders through the base-class caller with their dynamic class); at the dereference the path facts must exclude the end of the same container (or contain the key), null, or the failed cast (typeid comparison counts). Optional = documented list + every pointer the program itself compares with null + functions with a path returning null; a part every constructor rejects when null is mandatory. min/max_element on possibly empty ranges are preconditions of the caller and not judged.",
"P24": "The writer is run on an object built by each constructor, the reader on a new or already filled object, over an abstract file (items with their static type, text separators, stream precision, path names); fields the evaluation reads before writing (upward-exposed reads) must hold the written terms.",
"P25": "Definite assignment: forward must-analysis with short-circuit conditions, counting loops, out-parameters of library functions (including the seed of hash_combine); constructors inherit what base, delegated and in-class initialisers assign. Lending a variable to an unknown callee counts as assignment, so no alarms come from there.",
"P26": "Interprocedural mod analysis from every query function; scratch state must be written before read (upward-exposed-read analysis); temporarily changed state restored on every path, including exceptional ones.",
"P27": "Vector algebra, conversions, rotations extracted and compared as identities of real algebra, incl. pole branches.",
"P28": "State accessors/constructors and integrands of the motion as identities.",
"P29": "Effect query (exit, abort, signals, stdout/stderr, assert) and exception propagation to noexcept boundaries over the call graph, virtual calls resolved to all overriders.",
"P30": "Constructor and `DistanceToBorder` extracted; for one representative per region of position x direction relative to the surfaces the result must be the next crossings of the body found by an independent construction.",
"P36": "Each selection is interpreted with a general list of alternatives to a term; for every vector of weights out of a set (zero weights first, in the middle, last; sums different from one) the extracted selection is evaluated at the midpoints of a fine division of the unit interval, the extracted conditions and values being all that is evaluated; the chosen alternatives must make up exactly the share of each weight. Azimuths must be the extracted linear function of one number of its own over one turn.",
"P35": "Constant propagation against published values and relations between constants.",
"P37": "The loop of each root finder is extracted to a transition system (initial state, guarded alternatives of one step over the loop variables, guarded exits). The steps are followed in the finite abstraction: the conditions and new values extracted are what is evaluated, for representatives of monotone functions (flat or steep at the root), root positions including both ends and the first guess, orientations, and derivatives that are right, zero, of the wrong sign or size, six steps deep (the state then repeats its shape). Oracle: the tightest interval with a change of sign given the points asked before.",
}
NA = {
"P31": "numerical agreement of thousands of floating-point formulas with published ones; no static domain in reach bounds rounding and quadrature errors",
"P32": "a statement about distributions of sampled values",
"P33": "termination/monotony of the propagation loop depends on runtime values of numerically integrated and inverted functions",
"P34": "interpolation error depends on runtime node values",
}

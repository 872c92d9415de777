prop("P01", "Particle and decay objects compare equal exactly when all their parts agree",
     "Two particle states, particle definitions, decay channels or decay tables compare equal only if every property a user can read from them (type, kinematics, mass, charge, lifetime, decay products and branching ratios, hard-component table, partner, ...) is equal, and compare unequal only if at least one corresponding pair of properties differs. Comparison never mixes a property of one operand with a different property of the other, '!=' is the exact negation of '==', and decay channels of different kind (stable, two-body, leptonic, many-body) never compare equal (the two leptonic formulas describe the same channel).",
     ["inputs"], "all pairs of objects, including pairs that differ in exactly one property and pairs whose static types coincide while the dynamic types differ",
     "tests compare a handful of pairs that differ in one or two hand-picked fields; no finite set of pairs shows that every field takes part in every comparison",
     [S+"particle/Particle.cxx", S+"particle/ParticleDef.cxx", S+"decay/DecayTable.cxx", S+"decay/DecayChannel.cxx", S+"decay/TwoBodyPhaseSpace.cxx", S+"decay/ManyBodyPhaseSpace.cxx", S+"decay/LeptonicDecayChannel.cxx", S+"decay/StableChannel.cxx"],
     [("operator== / operator!= of ParticleState, ParticleDef, DecayTable, DecayChannel", S+"particle, "+S+"decay"), ("virtual compare of every decay channel", S+"decay")])
prop("P02", "Media, geometries, densities and tools compare equal iff all parts agree",
     "Two media, medium components, geometries, density distributions, axes, energy cuts, vectors, polynomials, splines, interpolation tables or multiple-scattering models compare equal only if every property that influences their behaviour is equal, and compare unequal only if some corresponding pair of properties differs. '!=' is the exact negation of '==', and objects of different kinds behind the same interface never compare equal (splines are compared by the polynomials they consist of).",
     ["inputs"], "all pairs of objects of each of the comparable environment classes, through the base-class interface as well as directly",
     "tests compare a few pairs; a field missing from one comparison is invisible unless the test happens to vary exactly that field",
     [S+"medium/Medium.cxx", S+"medium/Components.cxx", S+"geometry/Geometry.cxx", S+"geometry/Box.cxx", S+"geometry/Sphere.cxx", S+"geometry/Cylinder.cxx", S+"density_distr/density_distr.cxx", S+"EnergyCutSettings.cxx", S+"math/Vector3D.cxx", S+"math/Interpolant.cxx", S+"scattering/multiple_scattering/Parametrization.cxx"],
     [("operator== and virtual compare overrides", S)])
prop("P03", "Copies, assignments, swaps and clones carry every property and stay independent",
     "Copy construction, assignment, swapping and cloning of every value-like class of the library transfer every property of the source to the corresponding property of the result, so that the copy behaves exactly like its original (a swap leaves each operand with the other's former properties). A copy never shares memory it will free or callbacks bound to its source with the source, so changing or destroying one of them cannot affect the other.",
     ["inputs", "histories"], "all objects of the value-like classes and all sequences of copy, assign, swap, destroy",
     "tests copy a few default-built objects and compare them with an operator== that may itself ignore the field that was lost; destruction order and aliasing are never exercised",
     [S+"geometry", S+"medium/Medium.cxx", S+"density_distr", S+"decay", S+"math/Integral.cxx", S+"math/Interpolant.cxx", S+"math/Spline.cxx", S+"math/Function.cxx"],
     [("copy constructors, operator=, swap, clone/create", S)])
prop("P04", "Table identities cover everything the tabulated values depend on",
     "The identity (hash) under which tabulated cross sections and propagation tables are stored depends on every field of particle definition, medium, component and energy cut that a tabulated value reads, on every option of the model, on the tables it is built from and on every interpolation setting used. Contributions are combined with an order-sensitive combiner from the quantities themselves; none is dropped, overwritten or replaced by a lossy function, and the name of the table is built from the finished identity. Two models of a process have different identities.",
     ["configurations"], "all particle definitions, media, components, cuts and parametrizations a user can configure",
     "two configurations sharing a table only shows as a wrong number in the second configuration, in a cache on disk; tests use one configuration at a time",
     [S+"particle/ParticleDef.cxx", S+"medium/Medium.cxx", S+"medium/Components.cxx", S+"EnergyCutSettings.cxx", S+"crosssection/parametrization", H+"crosssection/CrossSectionDNDX/CrossSectionDNDX.h"],
     [("GetHash of particle definition, medium, component, energy cut", S), ("hash_combine", H+"math/MathMethods.h"), ("constructors of the parametrizations combining their options", S+"crosssection/parametrization")])
prop("P05", "Electromagnetic cross sections are even in the charge of the projectile",
     "Every differential cross section, kinematic limit, energy limit, continuous-loss function, pair-production integrand and scattering angle of the electromagnetic parametrizations (everything except weak charged-current scattering) depends on the projectile's charge only through an even function of it: particle and antiparticle with the same mass obtain identical values for identical arguments. None of them branches on the sign of the charge, nor on name, type, weak partner or identity of the projectile.",
     ["inputs"], "all projectile charges and energies, all media and all in-scope electromagnetic parametrizations",
     "tests evaluate muons and electrons mostly with one sign, against stored tables",
     [S+"crosssection/parametrization/Bremsstrahlung.cxx", S+"crosssection/parametrization/EpairProduction.cxx", S+"crosssection/parametrization/Ionization.cxx", S+"crosssection/parametrization/MupairProduction.cxx", S+"crosssection/parametrization/Photonuclear.cxx", S+"scattering/multiple_scattering/Highland.cxx"],
     [("DifferentialCrossSection and GetKinematicLimits of the parametrizations", S+"crosssection/parametrization")])
prop("P06", "Per-target cross sections do not depend on the target's stoichiometric weight",
     "Every function a per-nucleus parametrization evaluates for one target component (differential cross sections, kinematic and energy limits, continuous-loss functions, integrands, suppression factors, secondaries and deflection) is independent of how many such atoms a molecule of the medium contains: that number influences neither results nor branches. It enters only the weights with which a cross section adds its targets and the constants of the medium.",
     ["inputs", "configurations"], "all targets, energies and in-scope parametrizations",
     "a dependence is invisible for targets with one atom per molecule, and otherwise is a few-percent shift that stored reference tables reproduce",
     [S+"crosssection/parametrization", S+"medium/Components.cxx"],
     [("DifferentialCrossSection / GetKinematicLimits", S+"crosssection/parametrization"), ("detail::weight_component", H+"crosssection/CrossSection.h")])
prop("P07", "Continuous and stochastic losses partition the range of losses at the cut",
     "For every parametrization the library builds, the continuous energy loss (and its variance) integrates v (v squared) times the differential cross section exactly once over relative losses from the lower kinematic limit to the energy cut, and the stochastic rate integrates the same cross section exactly once from the cut to the upper kinematic limit (from the lower limit if there is no cut); the rate up to a loss and the sampled loss use that same range, and the closed energy-loss formulas of ionization change with the cut by exactly the loss the stochastic part gives up. The interpolated versions tabulate these very functions over a rising map of table nodes to losses from the cut to the upper limit and are read and inverted with that same map. A cross section adds the parts of all target components with one weight per component, the same in all three parts, has no continuous part without a cut, no variance unless continuous randomization is on, and no stochastic part when the cut admits every loss.",
     ["inputs", "configurations"], "all processes, energies and energy-cut settings",
     "tests compare single numbers against stored tables at a few cut settings; a gap between the ranges needs relating two different integrals",
     [H+"crosssection/CrossSection.h", H+"crosssection/CrossSectionDNDX/CrossSectionDNDX.h", S+"crosssection/CrossSectionDNDX", S+"crosssection/CrossSectionDEDX", S+"crosssection/CrossSectionDE2DX"],
     [("integration limits of the three integral cross sections", S+"crosssection"), ("EnergyCutSettings::GetCut", S+"EnergyCutSettings.cxx")])
prop("P08", "Energy cuts are validated and clamped into the kinematically allowed range",
     "An energy-cut object can only exist with a positive (possibly infinite) absolute cut and a relative cut inside (0,1]; any other combination (including not-a-number, and configurations with missing entries or unknown words) is rejected with an exception, and an accepted object holds exactly the values it was given. The effective cut for given kinematic limits and energy always lies between the lower and the upper kinematic limit and is the smaller of the absolute cut divided by the energy and the relative cut whenever that lies between the limits.",
     ["inputs"], "all cut values including negative, zero, infinite and not-a-number, all energies and kinematic limits",
     "tests try a few valid and invalid values; the claim is about every value",
     [S+"EnergyCutSettings.cxx", H+"EnergyCutSettings.h"],
     [("EnergyCutSettings constructors", S+"EnergyCutSettings.cxx"), ("EnergyCutSettings::GetCut", S+"EnergyCutSettings.cxx")])
prop("P09", "Kinematic limits of every process are ordered",
     "Every model returns kinematic limits that are numbers with 0 <= lower <= upper, for every energy from the rest mass of the projectile on, every mass and every target: below the threshold of the process the range degenerates to a point instead of being reversed or undefined. Where the range is not a point no relative loss exceeds one, and no process claims to start below the rest energy of its projectile.",
     ["inputs"], "all energies, particle masses and targets",
     "tests evaluate stored energies only",
     [S+"crosssection/parametrization"], [("GetKinematicLimits", S+"crosssection/parametrization")])
prop("P10", "Stochastic interactions and decays conserve energy",
     "For every interaction model the energies of the produced particles sum to the energy of the projectile (with the atomic electron for ionisation, Compton scattering and annihilation; minus the K-shell binding for the photoeffect; to the energy given off for weak and photoproduction interactions), for every loss and every random number; ionisation, Compton and annihilation models also conserve momentum, and a deflecting bremsstrahlung model sends the projectile along its momentum minus the photon's. The momentum transfer between frames is the Lorentz boost, and the products of every decay channel (massless neutrinos; phase-space decays into two, three and four daughters) carry exactly the energy and momentum of the decaying particle.",
     ["inputs"], "all energies, losses, targets and random numbers",
     "tests for these classes are statistical and few; most cannot even be built without the interpolation library",
     [S+"secondaries/parametrization", H+"secondaries/parametrization", S+"decay"],
     [("CalculateSecondaries of every model", S+"secondaries/parametrization")])
prop("P11", "Secondaries start where and when their parent interaction happened",
     "Every particle produced by an interaction model or decay channel starts at the position and time of the loss or particle that produced it, is of the kind the process or channel prescribes (one of each product, none twice or missing), flies in a direction of unit length, and has its type, energy and propagated distance set.",
     ["inputs"], "all interaction models, decay channels and parent states",
     "tests check one coordinate of one model, if any",
     [S+"secondaries/parametrization", S+"decay"], [("CalculateSecondaries / Decay", S+"secondaries/parametrization, "+S+"decay")])
prop("P12", "Interaction models announce enough random numbers for every interaction",
     "Every interaction model (of secondaries and of stochastic deflection) announces how many random numbers it needs and reads none beyond that, on any path and for any model option, so supplying exactly the announced number is always safe. The calculator of secondaries announces and runs the model registered for the interaction in question, registers models under their own interaction type and hands on loss, target and random numbers unchanged.",
     ["inputs", "configurations"], "all interaction models and all branches in them",
     "an out-of-range read of a vector is silent; tests use one parametrization per process",
     [H+"secondaries/parametrization", S+"secondaries/parametrization"], [("RequiredRandomNumbers and the indices read from the random vector", S+"secondaries/parametrization")])
prop("P13", "Results are a deterministic function of inputs and the library's random stream",
     "The only source of randomness or nondeterminism in results is the library-wide random number generator, which is reseeded, restored or replaced only when the user asks for it: no clock, address, thread, environment or private random engine influences a result, and random numbers are drawn in a specified order. Seeding, saving and restoring act on the complete state of the generator, so two runs with the same seed and the same calls give the same results.",
     ["histories", "inputs"], "all call sequences",
     "a second source of entropy or a hidden reseed only shows statistically",
     [S+"math/RandomGenerator.cxx", H+"math/RandomGenerator.h", S],
     [("RandomGenerator::Get / SetSeed / SetRandomNumberGenerator", S+"math/RandomGenerator.cxx")])
prop("P14", "The recorded track stays aligned and is read and interpolated step by step",
     "The recorded track keeps one interaction type and one target per recorded state: appending adds exactly one of each and leaves earlier entries alone, clearing removes all, and no other operation changes them. Stochastic losses, continuous losses, decay products, sub-tracks and single-type selections report exactly the entries that qualify, each with the energy difference, parent energy, positions, directions, times, distance and target of its own step. States at an energy, distance, border or closest approach start from the recorded state before it and lie on the straight line to the next, with energy, column, time and distance advanced consistently; energy lost in a geometry is that between entry (or start inside) and exit (or end inside), zero if never entered.",
     ["histories"], "all sequences of operations on a recorded track",
     "tests of this class cannot be built here and only sample few histories",
     [S+"Secondaries.cxx", H+"Secondaries.h"], [("Secondaries::push_back, emplace_back, reserve, clear, ...", S+"Secondaries.cxx")],
     None, [{"name": "track_, types_, target_hashes_", "meaning": "parallel vectors", "where": H+"Secondaries.h"}])
prop("P15", "Names, types and identifiers in the registries agree",
     "Every built-in particle, interaction type and medium registered under a name or numeric identifier can be looked up by it and yields the object that carries this name or identifier; no two entries of a registry share a key, and every enumerator of particle types (of defined particles), interaction types and medium types has exactly one entry. Looking up an unknown key throws instead of returning some other object.",
     ["configurations"], "all registered keys",
     "tests look up two or three of the registered names",
     [H+"particle/Particle.h", S+"particle/Particle.cxx", H+"particle/ParticleDef.h", S+"particle/ParticleDef.cxx", S+"medium/Medium.cxx", H+"medium/Medium.h"],
     [("Type_Interaction_Name_Map, Type_Particle_Map, Medium_Type_Name_Map, tab maps of the factories", S)])
prop("P16", "Failed lookups, failed casts and absent parts are never dereferenced",
     "A lookup of an unknown particle, medium, component, interaction, decay or configuration key is answered by an exception or an explicit empty answer, and a failed downcast makes objects unequal: no path dereferences the position past the end of a container, the result of a failed cast or a null entry inserted by a lookup. A part that may be absent (energy cut, scattering, decay or continuous-randomization calculator, a table that was not built, the LPM correction, an entry or exit point, a registry not yet filled) is used only where it is known to be present.",
     ["inputs", "configurations"], "all keys and all call paths to a lookup or downcast",
     "an unchecked dereference of end() often appears to work; tests use valid keys",
     [S+"Secondaries.cxx", S+"particle/ParticleDef.cxx", S+"medium/Medium.cxx", S+"decay", S+"secondaries/SecondariesCalculator.cxx", S+"geometry"],
     [("find/at/dynamic_cast followed by a check", S)])
prop("P17", "Invalid configuration and construction arguments are rejected with an exception",
     "Building a vector, geometry, density distribution, polynomial, spline or energy cut from a configuration in which a required entry is missing or of the wrong type, a length is negative, an inner radius exceeds the outer one, or a name is unknown throws an exception instead of yielding an object. Every value present in the configuration reaches the corresponding property of the object unchanged, and an absent optional entry takes its documented default (hierarchy 0, inner radius 0, sigma 1, offset d0 0). The factories build the class that belongs to the given name.",
     ["configurations", "inputs"], "all configuration objects",
     "tests configure two or three valid objects",
     [S+"geometry", S+"density_distr", S+"EnergyCutSettings.cxx", S+"math/Vector3D.cxx"], [("constructors taking a json object", S)])
prop("P18", "Every tabulated decay mode conserves charge and lepton family number",
     "Each decay channel in the decay tables of the built-in particles conserves electric charge and every lepton family number, and its products are together lighter than the parent; leptonic channels list the charged lepton, the neutrino of the parent's family and the neutrino of the lepton's family in this order. The branching ratios of each decaying particle's table sum to one within one percent, no mode is listed twice, and only particles with a finite lifetime have decay modes.",
     ["configurations"], "all decay channels of all built-in particles",
     "tests check the selection code on two particles, not the data",
     [S+"particle/ParticleDef.cxx"], [("built-in particle definitions and their decay tables", S+"particle/ParticleDef.cxx")])
prop("P19", "Particle and antiparticle are mirror images of each other",
     "Each built-in particle has the charge, mass, lifetime, weak partner and hard-component table that belong to its PDG identifier. Each antiparticle has the negative identifier, the same mass, lifetime, lower energy limit and hard-component table, the opposite charge, the conjugate weak partner and the charge-conjugate decay table with the same branching ratios.",
     ["configurations"], "all built-in particle-antiparticle pairs",
     "tests never compare the two definitions",
     [S+"particle/ParticleDef.cxx", H+"particle/ParticleDef.h", H+"particle/Particle.h"], [("built-in particle definitions", S+"particle/ParticleDef.cxx")])
prop("P20", "Built-in media are internally consistent",
     "Every built-in medium carries the published composition, density, mean excitation energy and Sternheimer parameters, which also satisfy their defining relations (continuity of the density effect at X0, C from plasma and excitation energy), and every built-in component has the symbol, nuclear charge and atomic mass of its element and the published radiation-logarithm constants for its charge. The derived quantities of any medium (summed charge and nucleons, charge-to-mass ratio, molecular density, average nucleon mass, radiation length) are computed from all its components, weighted with their number of atoms.",
     ["configurations"], "all built-in media and all user-defined component lists",
     "tests compare copies of media, never the data",
     [S+"medium/Medium.cxx", S+"medium/Components.cxx"], [("Medium::init and the constructors of the built-in media and components", S+"medium/Medium.cxx")])
prop("P21", "Geometry answers depend only on the position relative to the geometry",
     "Whether a position is inside, in front of, behind, entering or leaving a geometry follows from the crossings ahead and behind alone, the same way for every kind of geometry, and its location is inside, in front or behind accordingly. The distance to the closest approach is the projection of the centre on the direction, and displacing geometry and position together changes no distance.",
     ["inputs"], "all positions, directions and shapes",
     "tests use geometries at the origin or few offsets",
     [S+"geometry"], [("DistanceToBorder, IsInside, IsEntering, IsLeaving", S+"geometry")])
prop("P22", "Density profiles: integral, correction and evaluation belong to the same profile",
     "For every density profile the density is the mass density times the profile at the depth of the position along the axis, the calculated column is the line integral of this density along the direction (the depth taken to grow linearly with the axis' effective distance, which is exact for straight axes and the derivative of the depth for radial ones), and the corrected step length inverts the column or throws a DensityException when it is never reached. This holds for every way to construct a profile and includes directions along which the depth does not change. Polynomials and splines evaluate, differentiate, integrate and shift the function they stand for, and linear and (natural) cubic splines pass through their points.",
     ["inputs"], "all positions, directions, distances and profile parameters",
     "tests sample few numbers, and only for some of the profiles",
     [S+"density_distr"], [("Evaluate, Integrate, Calculate, Correct of each profile", S+"density_distr")])
prop("P23", "Reversing the integration bounds flips the sign of the integral",
     "In every integration mode, exchanging the bounds flips the sign of the integral and coinciding bounds give zero. The substitution modes integrate the function at the substituted point times the magnitude of the derivative of the substitution, over the range whose image are the given bounds (a bound outside the domain of the substitution stands for infinity). After an integration with a random ratio the upper limit is transformed back through the same substitution, and the ratio is counted from the first bound.",
     ["inputs"], "all integrands, bounds and integration modes",
     "tests integrate a few functions with ascending bounds",
     [S+"math/Integral.cxx"], [("Integral::Integrate and its variants", S+"math/Integral.cxx")])
prop("P24", "Saved tables, splines and generator states are read back unchanged",
     "An interpolation table, one- or two-dimensional and however it was built, that is saved to a file or stream in text or binary form and loaded again evaluates as before: every number and flag its evaluation depends on is restored, no digit is lost, the reader consumes exactly the items the writer produced, and nothing of a table the receiving object held before remains. A spline written to a file is restored with the same segments and coefficients, and the random number generator continues from the state that was serialised.",
     ["inputs", "histories"], "all tables and both formats",
     "tests save and load a few tables built from one function",
     [S+"math/Interpolant.cxx", S+"math/Spline.cxx"], [("Save/Load", S+"math/Interpolant.cxx")])
prop("P25", "No object is observable in a partly initialised state",
     "After construction through any constructor of any class objects can be created of, every numeric, boolean, enumeration, raw pointer and fixed-size array member, inherited ones included, has a value. No constructor reads a member before it has one, and no function reads a local number, or a member of a local plain structure, before it was assigned on the path taken.",
     ["inputs", "configurations"], "all classes and all constructors",
     "uninitialised values often happen to be zero in tests",
     [S, H], [("constructors and in-class initialisers", S)])
prop("P26", "Queries do not change what later queries return",
     "Asking an object for a cross section, limit, density, distance, energy or other property does not change what later queries of this or any other object return: query functions write no object, static or global state except working storage that every query sets up before it uses it, the random stream, the logger and insert-only registries. What the numerical integrator and the interpolation tables answer does not depend on earlier calls, and state they change temporarily is restored.",
     ["histories"], "all interleavings of queries on shared objects",
     "tests call each query once",
     [S, H], [("const member functions; mutable and static state", S)])
prop("P27", "Rotations preserve direction norms",
     "Deflecting a unit direction by a polar cosine and an azimuth yields a unit vector whose scalar product with the original direction is the requested cosine and whose azimuth in the frame of the direction is the requested one, for every direction including the poles; random directions have unit norm and are isotropic, and scattered directions have unit norm. The vector operators, norms, accessors and the conversions between spherical and Cartesian form obey their definitions as identities of real algebra.",
     ["inputs"], "all directions and angles",
     "tests use a handful of directions",
     [S+"math/Vector3D.cxx", S+"math/Cartesian3D.cxx", S+"math/Spherical3D.cxx"], [("deflect, operators of the vector classes", S+"math/")])
prop("P28", "Energy, momentum, mass and the propagation integrands are consistent",
     "For every particle state energy and momentum satisfy E² = p² + m² with the mass of the state's own type, whichever of them was set; setting the momentum changes nothing but the energy, and constructors store position, direction, energy, time, distance and type as given. The integrand of elapsed time is that of the covered distance divided by the velocity p c/E, that of the decay probability divided by p c/m, the distance integrand is one over the summed energy losses of all processes, and interaction and randomisation integrands are the summed rates and variances per distance. The approximate elapsed time is the column over density and speed of light.",
     ["inputs", "histories"], "all particles, energies and momenta",
     "tests check one energy",
     [S+"particle/Particle.cxx"], [("ParticleState::SetEnergy, SetMomentum, GetMomentum", S+"particle/Particle.cxx")])
prop("P29", "The library never terminates or talks over its host process",
     "No library function ends the process, raises signals or prints to the standard streams other than through the configurable logger. Errors surface as exceptions derived from std::exception, and none of them can reach the boundary of a function or destructor that promises not to throw.",
     ["inputs"], "all library functions and inputs",
     "a test that triggers such a path dies; nobody writes it",
     [S, H], [("all library functions", S)])
prop("P30", "Reported distances to a border end on the border",
     "For a sphere, box or cylinder (solid or hollow, its radii given in either order) the distances to the border are those to the next crossings of the surface of the body along the direction: the way out and -1 for a position inside or moving inwards from the border, the first two crossings in order for a position outside or in a cavity, and -1 twice when nothing is crossed ahead. Crossings closer than the geometry precision do not count.",
     ["inputs"], "all geometries, positions and unit directions",
     "tests evaluate special positions and directions",
     [S+"geometry/Box.cxx", S+"geometry/Sphere.cxx", S+"geometry/Cylinder.cxx"], [("DistanceToBorder", S+"geometry")])
# ---- properties outside the reach of static analysis -------------------------------
prop("P31", "Cross sections agree with their published parametrizations numerically",
     "Every differential cross section equals the published formula within rounding, and integrated quantities agree with the exact integral within the requested precision.",
     ["inputs"], "all energies, losses, particles and targets", "reference tables sample single points",
     [S+"crosssection/parametrization", S+"math/Integral.cxx"], [("parametrizations and the adaptive integrator", S)])
prop("P32", "Sampled losses, lifetimes and angles follow their distributions",
     "Sampled quantities follow the distribution given by the corresponding cross section or decay law for every projectile, target and cut.",
     ["inputs", "histories"], "all random streams", "tests compare a few sampled numbers",
     [S+"crosssection", S+"scattering", S+"decay"], [("sampling by inverse transform", S)])
prop("P33", "A propagated particle ends by one of its termination conditions",
     "Propagation always terminates, with the final state satisfying one of the requested termination conditions (distance, energy, decay, geometry exit), and energy along the track never increases.",
     ["inputs", "histories", "configurations"], "all particles, setups and random streams", "tests propagate a few particles",
     [S+"Propagator.cxx"], [("Propagator::Propagate", S+"Propagator.cxx")])
prop("P34", "Interpolated quantities agree with their integrated counterparts",
     "Values from interpolation tables agree with the directly integrated values to the configured precision over the whole tabulated range.",
     ["inputs", "configurations"], "all energies in the tabulated range", "tests compare few energies",
     [S+"crosssection", S+"propagation_utility"], [("Interpolant classes", S)])
prop("P35", "Physical and mathematical constants have their published values",
     "Every mathematical constant, constant of nature, particle mass and lifetime the library defines has its published value. Constants that are functions of others (ionisation constant, classical electron radius, Rydberg energy, monopole charge, precisions) agree with the ones they are made of.",
     ["configurations"], "all constants, which enter every result the library computes",
     "a slightly wrong constant shifts all results by less than the tolerance of the tests that use it",
     [S+"Constants.cxx", H+"Constants.h"], [("constant definitions", S+"Constants.cxx")])
prop("P36", "Random choices split the unit interval by the weights",
     "Where a random number chooses between alternatives, each alternative is chosen for a part of the unit interval as long as its share of the total weight, alternatives of weight zero are never chosen and no random number is left without a choice. This holds for decay channels (whether or not the branching ratios sum to one), for the process and target of a stochastic loss by their rates (with the loss sampled for the chosen process and target), and for the azimuths of stochastic deflections and of deflected secondaries, which cover one full turn uniformly and independently of the polar angle.",
     ["inputs"], "all weights and random numbers",
     "tests draw a few numbers for tables whose weights sum to one",
     [S+"decay/DecayTable.cxx", S+"propagation_utility/Interaction.cxx", S+"scattering/stochastic_deflection", S+"secondaries/parametrization"],
     [("DecayTable::SelectChannel", S+"decay/DecayTable.cxx"), ("Interaction::SampleLoss", S+"propagation_utility/Interaction.cxx")])
prop("P37", "Root finders stay in the bracket and reject intervals without a sign change",
     "Bisection and NewtonRaphson reject an interval at whose ends the function has the same strict sign. Otherwise, whatever the derivative given and wherever the root lies, they ask the function and return only at points of the bracket, after the first guess only inside the part of it in which the sign is known to change, never at an undefined point; Bisection returns an interval that contains the root and, unless it runs out of iterations, is as short as requested.",
     ["inputs"], "all functions, brackets in either orientation, derivatives, first guesses and accuracies",
     "tests search a few roots of smooth functions where a plain Newton step converges",
     [S+"math/MathMethods.cxx"],
     [("NewtonRaphson", S+"math/MathMethods.cxx"), ("Bisection", S+"math/MathMethods.cxx")])

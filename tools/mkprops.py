#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CACHE_STATE = [("process-wide result cache", "ring of computed tables keyed by projectile, material and configuration", "src/storage.cpp"),
               ("process-wide default configuration", "used when a call passes no configuration", "src/catima.cpp")]

prop("C01", "Results never depend on what was calculated before",
 "Every C++ query (full calculation, layer stack, range, stopping power, straggling, exit energy, time of flight, survival probability) given the same projectile, material, energy and configuration returns the same numbers whatever queries were made earlier in the process, including more distinct combinations than the cache holds, a cleared cache, and leftover stack contents. Two combinations that differ in projectile mass, atomic number or charge state, in any constituent's mass, atomic number or amount, in constituent count or order, density, custom ionisation potential, molar mass, or in any configuration field never receive each other's results. Thickness and energy are not part of the identity of a combination and never leak from one call into another.",
 ["histories", "inputs", "configurations"],
 "All operation histories over a menu of combinations that differ pairwise in exactly one identity field, up to the stated length, for cache capacities 2, 3 and the shipped 60.",
 "The unit tests run each query once on a nearly empty cache and never compare a result against the same query after a different history.",
 ["src/storage.cpp", "include/catima/storage.h", "src/catima.cpp", "src/structures.cpp", "include/catima/spline.h"],
 [("cache lookup by key equality", "src/storage.cpp"), ("configuration equality", "src/catima.cpp"), ("material and projectile equality", "src/structures.cpp")],
 CACHE_STATE, ["return values of the public functions"], "smaller cache capacity, so that every eviction history can be enumerated")

prop("C02", "The result cache is bounded and returns the right, stable entry",
 "Requesting a combination from the cache always yields an entry stored for that projectile, composition and configuration with complete tables and ready interpolators, and requesting it again while it is stored yields the same entry and stores nothing new. The cache never grows beyond its fixed capacity, and an entry stays in place, unchanged, until as many further new combinations as the capacity have been inserted after it. Clearing the cache forgets every entry and the next request recomputes it.",
 ["histories"], "All request/insert/clear histories up to the stated depth over capacity+2 combinations at small capacity, and every prefix of long insertion histories at the shipped capacity.",
 "Existing tests fill the ring once and check only the position counter.",
 ["src/storage.cpp", "include/catima/storage.h"],
 [("ring buffer insertion and wrap-around", "src/storage.cpp"), ("linear key search", "src/storage.cpp")],
 CACHE_STATE[:1], ["cache accessor functions"], "smaller cache capacity")

prop("C03", "An explicitly passed configuration governs every output",
 "When a calculation is given a configuration, every field of its result (time of flight, position straggling and survival probability included) and every single-quantity function follows that configuration, so changing the process-wide default configuration beforehand changes nothing. A call that omits the configuration returns exactly what the same call returns with the current default configuration passed explicitly.",
 ["configurations", "histories"], "All pairs (explicit configuration, default configuration) from a menu covering every configuration field, for single layers, stacks and all single-quantity functions.",
 "Tests use a non-default configuration only for single quantities and never change the default at the same time.",
 ["src/catima.cpp", "include/catima/catima.h", "src/reactions.cpp"],
 [("configuration argument threaded through every call", "src/catima.cpp")], CACHE_STATE, ["result structure fields"])

prop("C04", "Energy loss in a layer balances and matches the range difference",
 "For a single layer and any incident energy from 0.001 to 1e7 MeV/u the exit energy lies between zero and the incident energy and the energy loss equals (incident minus exit energy) times the projectile mass. The exit energy is zero exactly when the thickness is at least the range; otherwise the range at the exit energy equals the incident range minus the thickness to within 1e-5 g/cm2. The stopping powers reported for entrance and exit are those at the incident and at the exit energy, and a layer of zero thickness leaves the energy unchanged.",
 ["inputs", "configurations"], "All projectiles Z=1..108 against all elements and predefined compounds on an energy x thickness-fraction grid that includes the end-of-range neighbourhood and very low energies, and all configurations for selected pairs.",
 "Tests check a handful of projectile/target/thickness points, none near the end of the range or below 1 MeV/u.",
 ["src/catima.cpp", "include/catima/spline.h"],
 [("root search for the exit energy", "src/catima.cpp"), ("range interpolation", "include/catima/spline.h")], None, ["exit energy, energy loss, range"])

prop("C05", "Range and exit energy are monotone in energy and thickness",
 "The range is zero at 0.001 MeV/u and strictly increases with energy up to 1e7 MeV/u. For fixed incident energy a thicker layer never yields a higher exit energy, and for fixed thickness a higher incident energy never yields a lower exit energy, beyond the 1e-5 g/cm2 accuracy of the exit-energy search.",
 ["inputs", "configurations"], "All energies of a grid finer than the internal table for all projectiles and all materials; all ordered thickness and energy pairs of the grid.",
 "Tests compare isolated range values with published numbers.",
 ["src/catima.cpp", "include/catima/spline.h"],
 [("cumulative range table and spline", "src/catima.cpp"), ("root search for the exit energy", "src/catima.cpp")], None, ["range and exit energy"])

prop("C06", "Every reported quantity is finite and non-negative",
 "For every projectile, material, configuration, incident energy from 0.001 to 1e7 MeV/u and positive thickness, all result fields are finite and non-negative, with the single exception of the survival probability which is either in [0,1] or exactly -1. With the Highland and Gottschalk scattering models this is promised from 1 MeV/u upwards and for thicknesses of at least one percent of the range. If the projectile stops, exit energy, exit stopping power, energy straggling, angular straggling and time of flight are zero; an energy below 0.001 MeV/u gives an all-zero result.",
 ["inputs", "configurations"], "All effective-charge models, straggling, correction, low-energy and scattering switches times projectiles, materials, energies and thickness fractions of the grid.",
 "Tests never look at extreme energies or thicknesses together with non-default switches.",
 ["src/catima.cpp", "src/calculations.cpp", "src/reactions.cpp"],
 [("guards in the full calculation", "src/catima.cpp")], None, ["all result fields"])

prop("C07", "A layer stack is the chain of its single layers",
 "The per-layer results of a stack equal single-layer calculations in which each layer receives the exit energy of the previous one, in order, one result per layer. The totals are: energy loss and time of flight summed, angular and energy straggling added in quadrature, survival probability multiplied (or -1 as soon as one layer reports -1), exit energy that of the last layer, and position variance and covariance transported from the incoming phase space through each layer's length. If the beam stops in the stack the total angular and energy straggling are zero, and an empty stack returns the incoming energy and phase space.",
 ["programs", "inputs", "histories"], "All layer sequences up to length 4 over a layer menu (thin, thick, zero-thickness, stopping, repeated materials), all incoming phase spaces of a menu, several energies and configurations.",
 "Tests use one or two fixed stacks and check a few fields.",
 ["src/catima.cpp", "include/catima/structures.h"],
 [("loop over layers accumulating totals", "src/catima.cpp")], None, ["per-layer and total results"])

prop("C08", "Cutting a layer into pieces does not change the outcome",
 "Replacing one homogeneous layer by consecutive layers of the same material with the same total thickness leaves the exit energy (measured in remaining range, 2e-5 g/cm2 per piece), total energy loss, time of flight, total angular straggling, position straggling and survival probability unchanged within numerical accuracy. Inserting zero-thickness layers anywhere changes nothing.",
 ["programs", "inputs"], "All compositions of the thickness into up to 4 pieces on an eighth grid, times projectiles, materials, energies.",
 "No test relates two different stacks of the same matter.",
 ["src/catima.cpp", "src/reactions.cpp"],
 [("additive tables and covariance transport", "src/catima.cpp")], None, ["total results"])

prop("C09", "Stopping power follows the documented model for all inputs",
 "The stopping power of every projectile (Z 1-108) in every element is the sum of nuclear stopping and an electronic part which is the SRIM parametrisation (1985 or 1995 version as configured) up to 10 MeV/u, the Bethe formula with the selected effective charge and with Barkas, Lindhard-Soerensen, shell and above 50 GeV/u high-energy corrections unless switched off from 30 MeV/u, and their linear mix in between. For compounds it is the weight-fraction sum over constituents, a custom ionisation potential replacing the elemental one in the Bethe part only; it is positive and continuous at the region boundaries, zero at non-positive energy and independent of density and thickness.",
 ["inputs", "configurations"], "All 108 projectiles x 98 elements x energies covering every branch of the model, all correction/charge/low-energy switch combinations for selected pairs, all compounds.",
 "Tests compare a few dozen points to published values with tolerances of percent.",
 ["src/calculations.cpp", "src/srim.cpp", "src/catima.cpp"],
 [("electronic and nuclear stopping functions", "src/calculations.cpp"), ("low-energy parametrisation", "src/srim.cpp")], None, ["stopping power"])

prop("C10", "Straggling and scattering power follow the documented model",
 "The energy-loss variance per length is the relativistic Lindhard-Soerensen value with the selected effective charge, plus the optional inner-shell term when configured, limited by the Firsov value below 30 MeV/u, and is summed over constituents by weight. The angular scattering power is the squared scattering energy of the chosen model times squared charge over radiation length and squared momentum-velocity product, scaled by the configured scattering factor, with the radiation length of a compound combined by inverse weight-fraction sum.",
 ["inputs", "configurations"], "All projectiles x elements x energies on the branch-covering grid, all scattering and straggling switches, all compounds.",
 "Tests check a few values of each.",
 ["src/calculations.cpp", "src/catima.cpp"],
 [("variance and scattering power functions", "src/calculations.cpp")], None, ["straggling and scattering power functions"])

prop("C11", "Effective charge is the configured parametrisation",
 "For each selectable effective-charge model the charge used in a calculation is the published formula of that model evaluated for projectile charge, velocity or energy, and target charge; the 'none' model uses exactly the charge state given by the user. The default (Pierce-Blann) charge lies between zero and the atomic number and strictly grows with energy until it saturates.",
 ["inputs", "configurations"], "All models x projectiles 1..108 x targets 1..98 x energies on the grid, charge states for the 'none' model.",
 "Tests check a few points for uranium.",
 ["src/calculations.cpp"], [("effective charge dispatch and formulas", "src/calculations.cpp")], None, ["effective charge functions; stopping power ratio"])

prop("C12", "Range and straggling tables are the integrals of the local quantities",
 "At every energy from 0.002 MeV/u the range equals the projectile mass times the integral of inverse stopping power from 0.001 MeV/u to within 1e-3, and the range variance the projectile mass times the integral of energy-loss variance over the cubed stopping power to within 8e-3. The reported stopping power is the inverse slope of the range and agrees with the local stopping power to within 1e-3 wherever the latter is smooth. Range, range variance and their slopes are continuous in energy everywhere, without jumps at internal interpolation points.",
 ["inputs", "configurations"], "Every table point and points between for all projectiles and materials; one-sided slopes at every table point.",
 "Tests compare a few interpolated stopping powers with direct ones within half a percent.",
 ["src/catima.cpp", "include/catima/spline.h", "include/catima/storage.h"],
 [("numerical integration per table interval", "src/catima.cpp"), ("cubic spline construction", "include/catima/spline.h")], None, ["range, range straggling, stopping power from range"])

prop("C13", "All entry points for the same quantity agree",
 "The full calculation, the single-quantity functions, the list versions (element by element, any list length and order), the energy-argument overloads, the simplified single-call form and the one-layer stack all return the same values for the same physical request. List versions return one value per input in input order, with zero for energies below 0.001 MeV/u.",
 ["inputs", "programs"], "All entry points x projectiles x materials x energies; all lists up to length 3 over an energy menu with repeats and out-of-range values.",
 "Tests check two of these pairings at one point.",
 ["src/catima.cpp", "include/catima/catima.h"],
 [("overload set", "include/catima/catima.h")], None, ["return values"])

prop("C14", "The C interface returns the same numbers as the C++ interface",
 "Each C function returns what the C++ interface returns for the equivalent projectile, material (element with given or natural mass, or predefined compound id above 200, with the tabulated density when the given one is not positive), energies and effective-charge setting. All arguments, the energy in particular, take effect.",
 ["inputs", "configurations"], "All C functions x projectiles x elements and all compound ids x energies x densities x effective-charge settings.",
 "The single C test calls one function with fixed arguments.",
 ["src/cwrapper.cpp", "include/catima/cwrapper.h"], [("argument conversion", "src/cwrapper.cpp")], None, ["C return values"])

prop("C15", "C calls do not influence each other",
 "The result of a C call depends only on its arguments and on the C-side effective-charge setting at the time of the call. Earlier C calls, earlier values of that setting, and earlier changes of the C++ default effective charge or scattering model do not change it.",
 ["histories"], "All histories up to length 4 over set-the-effective-charge operations, every C function with several arguments, and changes to the C++ defaults.",
 "The C test makes independent single calls.",
 ["src/cwrapper.cpp"], [("copying the C setting into the process-wide configuration", "src/cwrapper.cpp")], CACHE_STATE, ["C return values"])

prop("C16", "A material means the same however it was built",
 "Building a material in the constructor or element by element gives equal materials, and describing the same composition by atom counts, by scaled atom counts or by weight fractions gives the same weight fractions, stopping power, range, number density of each element and reaction probability. Weight fractions sum to one; zero mass means the natural atomic weight; setting or reading thickness by mass or by length is consistent with the density; copies are independent.",
 ["programs", "inputs"], "All build programs (constructor, element-by-element, permutations of setters) for all compositions of up to 3 constituents from an element menu with amounts 1..3, and all predefined compounds.",
 "Tests build two or three fixed materials and compare two of the properties.",
 ["src/structures.cpp", "include/catima/structures.h", "src/reactions.cpp"],
 [("molar mass bookkeeping", "src/structures.cpp"), ("fraction accessors", "include/catima/structures.h")], None, ["material accessors and calculation results"])

prop("C17", "Every predefined material is what its name says",
 "Each predefined id yields a material with the documented composition and density: chemical-formula and well-known compound names match their chemical formula, mixtures list each element once with weight fractions summing to one, constituents carry natural atomic weights (heavy hydrogen excepted). Element ids 1-98 yield the pure natural element with its tabulated density, and every other id yields an empty material.",
 ["inputs"], "All ids from -10 to 400 through both lookup functions.",
 "Tests look up three ids.",
 ["src/material_database.cpp", "include/catima/material_database.h", "src/nucdata.cpp"],
 [("compound table", "src/material_database.cpp")], None, ["material accessors"])

prop("C18", "Element and isotope lookups are total and correct",
 "Natural atomic weights (Z 1-109), element densities (Z 1-98), isotope counts, mass numbers and abundances are the tabulated natural values, with the abundances of an element in descending order summing to one where natural isotopes exist. Any proton number or isotope index outside the tables, negative ones included, yields zero and reads no foreign data.",
 ["inputs"], "All proton numbers -5..200 and isotope indices -5..20.",
 "Tests check a few elements and no negative index.",
 ["src/abundance_database.cpp", "src/nucdata.cpp", "include/catima/nucdata.h"],
 [("index guards", "src/abundance_database.cpp")], None, ["lookup results"])

prop("C19", "Table lookup is correct and in bounds for every floating-point energy",
 "For every energy, including those one or several floating-point steps from a table point and outside the table, the logarithmic and linear tables locate an interval that contains the energy (up to rounding) and never one outside the table, with -1 below the first and the last index at or above the last point. Interpolated values reproduce the tabulated values at table points, stay between neighbouring values for linear interpolation, and are continuous across table points.",
 ["inputs"], "All table points of several table sizes and ranges with every neighbour within 64 floating-point steps, interval interior points, and values outside; both lookup build variants.",
 "Tests check table points and midpoints only; no neighbouring floating-point values.",
 ["include/catima/storage.h", "include/catima/spline.h"],
 [("index computation with rounding correction", "include/catima/storage.h")], None, ["index and interpolation functions"])

prop("C20", "Quadrature rules are exact to their order",
 "Every provided Gauss-Legendre rule integrates all polynomials up to degree twice its order minus one exactly (to rounding) on any interval, in one and two dimensions, and every Gauss-Kronrod rule up to its Kronrod degree, with an error estimate of zero size for polynomials below its Gauss degree. The adaptive form meets its requested tolerance, and reported sample points are exactly the points where the function is evaluated, in ascending order.",
 ["inputs", "programs"], "All orders x all monomial degrees (all degree pairs in two dimensions) x intervals; an integrand menu for the adaptive form.",
 "Tests integrate a few functions with one order.",
 ["include/catima/glq_integrator.h", "include/catima/gkq_integrator.h"],
 [("node and weight tables", "include/catima/glq_integrator.h")], None, ["integrals and sample points"])

prop("C21", "Survival probability follows the reaction cross sections",
 "The survival probability is exp(-integral of number density times Kox reaction cross section along the path), summed over all atoms of the material, within three percent of its exponent; it is in [0,1], 1 for zero thickness, -1 when the energy is or falls below 30 MeV/u, and never increases with thickness. The cross section and rate helper functions follow their formulas, production rates are non-negative and consistent between their two branches.",
 ["inputs"], "All projectiles x elements x compounds x energies x thickness fractions of the grid.",
 "Tests check three points.",
 ["src/reactions.cpp", "include/catima/reactions.h"],
 [("cross-section average and integration", "src/reactions.cpp")], None, ["survival probability and rate functions"])

prop("C22", "Build options change speed, not results",
 "Building the library with or without stored interpolators, with calculated or searched table lookup, and with or without reactions gives the same results for every quantity both builds provide. Switching the thin-target approximation off changes only energy and angular straggling of layers in which less than a thousandth of the energy is lost, and by less than two percent there (energy loss above a hundred-thousandth, below 100 GeV/u).",
 ["configurations", "inputs"], "All 16 combinations of the four build options x a grid of projectiles, materials, energies, thicknesses and histories.",
 "The test build uses one combination.",
 ["src/storage.cpp", "include/catima/storage.h", "src/catima.cpp", "include/catima/constants.h"],
 [("conditional compilation", "include/catima/storage.h")], None, ["results of the builds"])

prop("C23", "The MOCADI export describes the given setup and reports failure",
 "The exported file contains the beam energy, mass, charge and phase space and then one matter block per layer in order, each with the element's mass and charge or the predefined compound id, the density in mg/cm3 and the length in cm, so that reading the file back recovers projectile and layers to the printed precision. Every predefined compound is exported under an id that denotes the same material. The function returns true only if the whole file was written.",
 ["programs", "fault_sequences", "inputs"], "All layer sequences up to length 3 over a menu with elements, compounds and custom materials, every predefined compound, and write faults at open, during writing and at close.",
 "No test exercises the export.",
 ["include/catima/convert.h"], [("compound id search and text output", "include/catima/convert.h")], None, ["file contents and return value"])

prop("C24", "The command-line calculator computes what its input file says",
 "For any valid input file the program prints, for each requested energy (number, numeric string, list, or min/max with step or num) in order, the values that the library returns for the described projectile and layers, honouring mass, charge, density and thickness of every layer and the documented defaults. For an input with a missing or malformed required field it prints an error and no results and does not crash.",
 ["inputs", "programs"], "All input files generated by a bounded grammar: energy forms x material forms x optional keys x one malformation at a time.",
 "The program is not built or run by the tests.",
 ["bin/catima_calculator.cpp", "docs/catima_calculator.md"], [("JSON interpretation", "bin/catima_calculator.cpp")], None, ["program output"])

prop("C25", "Precalculated Lindhard-Soerensen values equal the computed ones",
 "The precalculated Lindhard-Soerensen stopping and straggling corrections agree with the direct series calculation at the tabulated energies for every projectile Z 1-108 to the precision of the table (straggling: up to 700 GeV/u), vary linearly between table points and linearly with the mass deviation, and are held constant outside the table range (straggling correction: one below 1 MeV/u). Projectiles beyond the last tabulated charge use the last tabulated one.",
 ["inputs"], "All 108 projectiles x table energies x two masses; table neighbours and out-of-range energies and charges.",
 "Tests compare a few uranium points.",
 ["include/catima/generated_LS_coeff.h", "src/calculations.cpp", "utils/generator.cpp"],
 [("table lookup and mass extrapolation", "src/calculations.cpp")], None, ["precalculated and direct correction functions"])

prop("C26", "Layer stacks behave like a list of independent layers",
 "Adding a material or a stack appends copies in order, adding a stack to itself doubles it, concatenation leaves both operands unchanged, indexing gives access to exactly that layer, and the total thickness in mass and length units is the sum over layers. Changing a material or a stack after it was added or copied does not affect the stack it was added to or copied from.",
 ["histories", "programs"], "All operation sequences up to length 5 over add-material, add-stack (self included), concatenate, copy and modify-layer on two stacks, against a list model.",
 "Tests run two fixed sequences.",
 ["src/structures.cpp", "include/catima/structures.h"], [("vector of materials", "src/structures.cpp")], None, ["stack accessors"])

prop("C27", "Time of flight and kinematics are consistent",
 "The time of flight through a layer that is not stopping the beam is the integral of inverse velocity along the path: it lies between length over incident and length over exit velocity, grows with thickness, scales inversely with density at fixed mass thickness and equals the sum over pieces (to two thousandths for layers up to 80 percent of the range). Velocity, Lorentz factor and momentum helpers satisfy the relativistic relations, and the reported energy and momentum magnifications equal the derivative of exit with respect to incident energy and momentum in relative units.",
 ["inputs", "configurations"], "All projectiles, materials, energies, thickness fractions, densities and configurations of the grid.",
 "Tests check one time of flight.",
 ["src/catima.cpp", "src/calculations.cpp"], [("time integral", "src/catima.cpp")], None, ["time of flight, kinematic helpers, magnification"])

prop("C28", "Angular and position straggling are moments of the scattering power",
 "The angular variance, angle-position covariance and position variance of a layer are the zeroth, first and second lever-arm moments of the scattering power along the path for every scattering model, computed up to the stopping point if the projectile stops, so that covariance squared never exceeds the product of the variances. Position straggling scales inversely with density, and all single-quantity straggling functions given entry and exit energies agree with the full calculation.",
 ["inputs", "configurations"], "All scattering models x projectiles x materials x energies x thickness fractions of the grid.",
 "Tests check a few angular straggling values.",
 ["src/catima.cpp", "src/calculations.cpp"], [("moment integrals", "src/catima.cpp")], None, ["angular straggling, covariance, position straggling"])

prop("C29", "Neighbouring inputs give neighbouring results",
 "Changing the incident energy, the layer thickness, the projectile mass or the mean ionisation potential by a vanishing amount changes every result field and every local quantity by a vanishing amount: the regions of validity of the individual parametrisations are joined, and no output jumps by more than a few thousandths where the input is changed by one part in ten million (larger only at the documented switching energies of the low-energy parametrisation). This holds wherever the range is at least 0.01 g/cm2 and the energy at most 400 GeV/u.",
 ["inputs", "configurations"], "All projectile-target pairs and configurations of the grid, along complete axes of energy, thickness, mass and ionisation potential; every step that sticks out is bisected down to one part in ten million.",
 "Tests look at isolated points and cannot see a step between two of them.",
 ["src/calculations.cpp", "src/catima.cpp", "src/srim.cpp", "include/catima/data_atima.h"],
 [("switching between parametrisations and table intervals", "src/calculations.cpp")], None, ["all result fields and local quantities"])

prop("C30", "Quantities depend only on what they are documented to depend on",
 "At fixed mass thickness the density changes only lengths and times (position spread, covariance and time of flight scale inversely with it) and nothing else. The charge state has no influence unless it is configured to be the effective charge, the energy stored in the projectile has none where the energy is an argument, and the layer thickness has none on range, stopping power and the other thickness-independent quantities. Listing the constituents of a material in another order, in parts, or with all atom counts multiplied by a number does not change any result.",
 ["inputs", "configurations", "programs"], "All projectile-target pairs and all 768 configurations of the grid with every irrelevant argument varied; all predefined compounds rewritten in every listed way.",
 "Tests never compare two descriptions of the same physical situation.",
 ["src/catima.cpp", "src/calculations.cpp", "src/structures.cpp"], [("use of projectile, material and configuration in a query", "src/catima.cpp")], None, ["all result fields and local quantities"])

prop("C31", "Interpolation between table energies is the natural cubic spline",
 "For any table of values over the library's energies or a user's table, interpolation returns the tabulated values at the table points and follows the natural cubic spline between them: value, slope and curvature are continuous at every table point, the curvature vanishes at both ends and the curve is continued straight outside. The range between two table energies therefore is the one the neighbouring tabulated ranges determine.",
 ["inputs"], "All unit tables of the library's table (interpolation is linear in the values, so they span every table), all small tables over three values, all projectiles and a list of targets for the range.",
 "Tests evaluate two interpolators at a handful of points.",
 ["src/spline.cpp", "include/catima/spline.h", "src/storage.cpp", "include/catima/storage.h"],
 [("solution of the spline equations", "src/storage.cpp")], None, ["interpolated values and slopes, range"])

prop("C32", "The published contributions follow their formulas and add up",
 "The individual contributions a user can ask for (electronic and nuclear stopping, Bethe term with Barkas, shell, density, Lindhard-Soerensen and pair corrections, straggling terms and the special functions behind them) equal the documented formulas. Nuclear and electronic part add up to the total stopping power for every projectile, material and energy, and a compound is the weighted sum of its constituents.",
 ["inputs"], "All 108 projectiles x 98 elements x energies and all 149 compounds; grids of complex arguments for the special functions.",
 "Tests check totals at few points, so that two contributions with compensating or locally vanishing errors go unnoticed.",
 ["src/calculations.cpp", "include/catima/calculations.h"],
 [("contributions to the stopping power", "src/calculations.cpp")], None, ["contribution functions, total stopping power"])

prop("C33", "Unreasonable arguments do no harm",
 "Any call of the C++ or C interface with unreasonable numbers (not-a-number, infinite, negative, zero, tiny or huge energies, thicknesses, densities, masses, charges, amounts and ionisation potentials, unknown elements or model numbers, empty or large compositions) returns or throws in bounded time without touching memory outside the library's tables. Valid queries after it give exactly the values they gave before.",
 ["inputs", "fault_sequences"], "All single deviations and pairs of deviations from a valid call over lists of unreasonable values for 17 arguments.",
 "Tests pass a handful of invalid values and do not check memory accesses or later queries.",
 ["src/calculations.cpp", "src/catima.cpp", "src/storage.cpp", "src/structures.cpp", "src/srim.cpp", "src/reactions.cpp", "include/catima/storage.h"],
 [("table lookups with user supplied numbers", "src/calculations.cpp")], None, ["absence of crashes and invalid accesses, later valid queries"])

prop("C34", "Every header can be used alone, together and from C",
 "Every installed header compiles on its own, a second time and before or after every other header, and several source files which include them link into one program with the library. The C interface compiles with a C compiler and a C program gets the same numbers as the C++ caller.",
 ["programs", "configurations"], "All ordered pairs of headers with the first one included again; one program with a file per header; C programs in three dialects over all charge models.",
 "Each test file includes two or three headers in one order and is a program of its own.",
 ["include/catima/reactions.h", "include/catima/srim.h", "include/catima/convert.h", "include/catima/cwrapper.h", "include/catima/catima.h"],
 [("include guards, inline definitions, C linkage", "include/catima/reactions.h")], None, ["compiler and linker result, output of the programs"])

prop("C35", "The table generator writes what the library reads",
 "The program which generates the table of Lindhard-Soerensen coefficients writes a header with which the library builds. The library then returns, for every projectile charge and every tabulated energy and for other masses by linear continuation, the stopping and straggling coefficients which the direct calculation gave the generator, to the printed precision.",
 ["programs", "inputs"], "All 108 projectiles x all 200 energies x masses, for several functions in place of the direct calculation.",
 "No test runs the generator; it is only compiled.",
 ["utils/generator.cpp", "src/calculations.cpp", "include/catima/generated_LS_coeff.h"],
 [("layout and energies of the generated table", "utils/generator.cpp")], None, ["precalculated coefficients of a library built with the generated table"])

prop("C36", "Equality tells apart exactly what differs",
 "Two projectiles are equal exactly when mass, charge and charge state agree, whatever their energy. Two materials are equal exactly when their constituents (mass, charge and amount), density, ionisation potential and molar mass agree, whatever their thickness and the way they were built (densities closer than a millionth and reordered constituents excepted), two configurations exactly when every setting agrees, and two stored entries exactly when all three agree. Equality is symmetric, and equal projectiles give equal results.",
 ["inputs", "programs", "configurations"], "All pairs of 360 projectiles, 9360 materials of up to three constituents in three ways of construction, 6144 configurations, 149 predefined materials and 100 stored entries; every value of every setting; materials of up to 12 constituents with one difference in every place; densities from 1e-5 to 1000 g/cm3 which differ by two millionths or more.",
 "Tests compare a handful of materials and configurations.",
 ["src/structures.cpp", "src/catima.cpp", "src/storage.cpp"],
 [("comparison operators", "src/structures.cpp"), ("comparison of configurations", "src/catima.cpp")], None, ["results of comparisons"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

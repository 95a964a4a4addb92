"""writes DESIGN.md: introduction, one section per property (bounds taken from checks.py, statements from properties.jsonl), experience"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
P = {}
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    P[p["id"]] = p
# id: (cost of the quick tier in s on 8 cores, what is enumerated and monitored, oracle, notes)
N = {}


def note(i, cost, explored, oracle, notes=""):
    N[i] = (cost, explored, oracle, notes)


note("C01", 100,
     "Histories of queries. A state is the content of the cache plus what earlier calls left on stack and heap; a transition is one query for one (projectile, material, configuration) combination or a clear. All words of bounded length are run with caches of capacity 2 and 3 (hook `CATIMA_MC_STORAGE`), so that every eviction pattern occurs; with the shipped capacity all ordered pairs of combinations which differ in one identifying field, all windows of three operations, overruns of the ring in several orders and groups of neighbouring combinations which fit in at once (every configuration, every exchange of two constituents of a compound, every mass/charge/charge state).",
     "The value the same query returns as the first query of a fresh process (bit-identical: the same arithmetic on the same numbers). A second job runs builds in which uninitialised variables start as zero and as a pattern.",
     "Found the missing scattering factor in the cache key and results which depended on leftovers on the stack.")
note("C02", 70,
     "Words over get, insert and clear on the cache object (capacities 2 and 3, from the empty and from a full cache) and long histories at the shipped capacity.",
     "A model which does not fix the replacement order: the entry returned belongs to the combination asked for, its tables are those of a fresh calculation, entries do not move or change while fewer insertions than the capacity have happened since, and the cache never holds more than its capacity.",
     "LRU, FIFO or random replacement within the bound are all accepted.")
note("C03", 8,
     "Explicit configuration x process-wide default configuration x query x system, with a warm and a cleared cache.",
     "The explicit configuration's result under the untouched default; calls without configuration must equal calls with an explicit copy of the default in force.")
note("C04", 50,
     "The grid of projectiles, targets, energies and thickness fractions; the dense grid around the stopping thickness; configurations.",
     "Identities: energy in = energy out + deposited; range(in) - thickness = range(out) within the accuracy of the search (1e-5 g/cm2); stopping layers deposit everything; zero thickness changes nothing.",
     "At a thickness within 1e-11 of the range rounding decides, so this point is left out.")
note("C05", 21,
     "Ranges on a grid eight times finer than the table; exit energies for all ordered pairs of energies and of thicknesses.",
     "Order relations only.")
note("C06", 76,
     "The grid including energies below the limit, extremely thin and very thick layers, all configurations.",
     "Every number finite and non-negative, survival within [0,1]; below the limit the documented zeros.")
note("C07", 7,
     "All stacks up to four layers over seven kinds of layers (programs) x projectile x configuration x phase space; long stacks of every length up to 130.",
     "The chain of single-layer calculations, with variances, covariance, time and survival combined by the transport equations in the harness.")
note("C08", 18,
     "All compositions of eight eighths of a layer into up to four pieces, with empty layers inserted at all places.",
     "The uncut layer. Exit energy compared in units of remaining range; straggling within the accuracy of the fixed-order quadrature (measured on the unchanged tree, stated in the property).",
     "Targets 85-88 have a kink in the density effect and get the wider bound; slices below the thin-target limit have a job of their own.")
note("C09", 85,
     "Every projectile x element x energy x switch (charge model, corrections, SRIM version) and every compound.",
     "`ref.hpp`: independent re-implementation of the documented formulas on frozen copies of the data tables, 1e-7.")
note("C10", 43,
     "As C09 for energy-loss variance and scattering power, radiation and scattering length.",
     "`ref.hpp`; Particle Data Group radiation lengths, published scattering length of water, smoothness from element to element.",
     "The reference was first copied from the code; comparison with the literature then showed two defects (sign of the Coulomb correction, truncated mass), now fixed. The published values are part of the check since.")
note("C11", 18,
     "All effective-charge models x projectile x target x energy, every charge state; the two models which need an external code are built with a stand-in for that code (`stub/`).",
     "`ref.hpp`; default model bounded by Z and growing with energy.")
note("C12", 35,
     "Every table point and mid point for every pair of the grid.",
     "Integrals of the published local quantities by a fine Simpson rule in the harness; slope of the range against local stopping power; no jumps of slope at table points.",
     "Found the wrong spline matrix.")
note("C13", 19,
     "Every pair of entry points that promise the same number; all energy lists up to length 3 (4) over 9 energies, lists of every length up to 64 in 5 orders.",
     "Pairwise equality (1e-9).")
note("C14", 16, "All C functions over projectiles, elements, compounds, charge models, energies, thicknesses, densities.", "The C++ call the documentation names.")
note("C15", 8, "All words over 12 C calls, 3 C settings and 4 changes of C++ defaults.", "The value of the same call in a fresh process with the settings in force.")
note("C16", 9, "All compositions of up to three constituents in up to ten ways of construction (programs over constructors and setters).", "A composition model (atoms per gram, weight fractions, molar mass) in the harness; equal physics for equal substances.")
note("C17", 3, "Every id through three lookups.", "Chemical formulas and published compositions, by name; frozen table of densities and ionisation potentials.")
note("C18", 5, "All proton numbers and isotope indices, far beyond the valid ones, under ASan.", "Frozen table; mean isotope mass against natural weight; documented answers outside.")
note("C19", 32, "Every table point, floating-point steps to either side, every interval, in calculated and searched lookup, for 64 tables.", "Bracketing: the interval found contains the argument up to rounding; interpolation reproduces node values and straight lines.")
note("C20", 10, "All orders of the quadrature rules x all degrees up to the degree of exactness x intervals.", "Exact integrals of monomials; the next degree must not be exact, so the check is not vacuous.")
note("C21", 17, "Survival over the grid, cross section over all isotope pairs, production over a five-dimensional grid.", "`ref.hpp` Kox formula with own integral along the path; bookkeeping identities.", "Literature comparison found the missing e^2 in the barrier.")
note("C22", 62, "All 16 combinations of four build options, each built from the working tree and run on the same list of calls.", "Pairwise equality of the builds except where the property admits a difference.", "The GSL options need the GSL library, which is not installed; they are outside the bound.")
note("C23", 5, "All layer sequences over nine materials, all beams, all compounds and near-compounds; write faults at every byte offset (the device accepts n bytes, for every n).", "An independent parser of the exported file; return value false whenever the file is not complete.", "Files go to a scratch directory made by the check. The fault is injected by a file-size limit of the forked worker.")
note("C24", 22, "A grammar of input files, every truncation of a valid file, malformed fields; the program is built from the working tree and run in a scratch directory.", "The library called directly with what the file says.", "The program's exit status (1 on success) is left alone. The `config` key is read but has no documented effect; it is not judged.")
note("C25", 70, "Every projectile x table energy x mass x offset.", "Frozen table and the direct series of the library.")
note("C26", 7, "All words of length 4 over 22 operations on two stacks and two materials, under ASan.", "A list of plain structs.", "Found use after free when a stack is added to itself.")
note("C27", 13, "Grid, cuts, densities; kinematics at 2001 energies.", "Bounds by incident and exit velocity; integral in the harness; textbook kinematics.", "Close to the end of the range the fixed-order quadrature of the time is inaccurate; the property says up to 80 % of the range.")
note("C28", 33, "Grid x scattering models x moments.", "Moment integrals in the harness over the published scattering power; Cauchy-Schwarz; scaling with density and factor.", "dHighland and Gottschalk are promised from 1 MeV/u and 1 % of the range on.")
note("C29", 35, "Complete axes of energy, thickness, mass and ionisation potential for every pair; any step which sticks out of its neighbours is bisected on the real code down to 1e-7.", "What remains of a step after bisection is a jump; admitted jumps are the documented switches of the model.", "Two known findings: the density-effect data of Z=85 and 87 are placeholders (see known-findings.txt); no published replacement was at hand, so the tables are left.")
note("C30", 81, "Pairs of queries which differ only in an argument that must not matter; compounds rewritten (order, split constituents, scaled amounts).", "Equality (1e-9), or exact scaling where the property names one.")
note("C31", 14, "Unit tables of the library's table: interpolation is linear in the values, so these span all tables; all small tables over three values; ranges between table energies.", "Natural cubic spline solved in long double in the harness.", "If the interpolator is renamed, the harness falls back to the ranges (`NO_INTERNALS`).")
note("C32", 10, "Every contribution to stopping and straggling for all projectiles, elements, energies; complex special functions on grids.", "`ref.hpp` and long-double references; sums and weighted sums.", "If a contribution is not available under its name, the sums remain.")
note("C33", 50, "Deviations (faults) from a valid call: all single ones and pairs over 17 arguments.", "Address and bounds checking, a time limit per job, and bit-identical answers to 19 valid queries afterwards. Throwing an exception is accepted.", "Found the table index made from nan and the reads before the tables for charges below one.")
note("C34", 21, "All ordered pairs of headers, programs of one file per header, C dialects.", "The compiler, the linker and the numbers printed by the programs.", "Found two broken include guards and header functions which were not inline.")
note("C35", 15, "The generator is linked with marker functions in place of the two series (they take minutes, and C25 compares the shipped table with them), run in a scratch directory, and the library is rebuilt with the header it wrote.", "The marker functions, which are linear in the mass, at every tabulated point.")
note("C36", 10, "Every object is made from a tuple of values; all pairs of objects are compared in both directions.", "Equality of the tuples.")

INTRO = open(os.path.join(HERE, "tools", "design-intro.md")).read()
OUTRO = open(os.path.join(HERE, "tools", "design-outro.md")).read()
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(INTRO.rstrip() + "\n")
    for i in sorted(P):
        cost, explored, oracle, notes = N[i]
        p = P[i]
        f.write("\n## %s – %s\n\n" % (i, p["title"]))
        f.write("*Explored.* %s\n\n*Oracle.* %s\n\n" % (explored, oracle))
        f.write("*Bounds.* Quick: %s. Thorough: %s.\n\n" % (CHECKS[i]["bounds"]["quick"], CHECKS[i]["bounds"]["thorough"]))
        f.write("*Cost.* about %d s (quick, 8 cores).\n\n*Beyond the tests.* %s\n" % (cost, p["why_tests_cant"]))
        if notes:
            f.write("\n*Notes.* %s\n" % notes)
    f.write("\n" + OUTRO)

"""Library variants and checks."""
import os
REL = ["-O2", "-DNDEBUG"]
ASAN = ["-O1", "-g", "-DNDEBUG", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "rel": {"flags": REL},
    "asan": {"flags": ASAN},
    "cap2": {"flags": ASAN + ["-DCATIMA_MC_STORAGE=2"]},
    "cap3": {"flags": ASAN + ["-DCATIMA_MC_STORAGE=3"]},
    "cap4": {"flags": ASAN + ["-DCATIMA_MC_STORAGE=4"]},
    "search": {"flags": REL, "opts": {"ET_CALCULATED_INDEX": False}},
    "zinit": {"flags": REL + ["-ftrivial-auto-var-init=zero"]},
    "pinit": {"flags": REL + ["-ftrivial-auto-var-init=pattern"]},
    "global": {"flags": REL + ["-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub")], "opts": {"GLOBAL": True}},
}
# the 16 combinations of the build options; bit 1 splines not stored, 2 searched index, 4 no thin target approximation, 8 no reactions
for _b in range(16):
    VARIANTS["o%d" % _b] = {"flags": ["-O1", "-DNDEBUG"], "opts": {
        "STORE_SPLINES": not _b & 1, "ET_CALCULATED_INDEX": not _b & 2, "THIN_TARGET_APPROXIMATION": not _b & 4, "REACTIONS": not _b & 8}}
CHECKS = {
    "C01": {
        "runs": [{"harness": "C01", "variant": "rel", "defs": ["-DPAIRS"]},
                 {"harness": "C01", "variant": "cap2"}, {"harness": "C01", "variant": "cap3"},
                 {"harness": "C01init", "variant": "rel", "variants_arg": ("C01dump", ["zinit", "pinit"])}],
        "bounds": {"quick": '34 combinations which pairwise differ in one identifying field: all ordered pairs x 17 queries x 3 energies from a cleared cache; all length-3 windows over 17 queries x 2 combinations x 2 energies in which first and last query coincide or are selected, with stack contents overwritten before every call; 140 combinations through the shipped capacity in 8 orders, refill depths 50-70; capacity 2: all words of length 5 over 4 combinations and clear, capacity 3: length 4 over 5 combinations and clear; initial memory zero against pattern',
                   "thorough": 'as quick, with all length-3 windows over the 68 operations, words of length 6 (capacity 2) and 5 (capacity 3)'},
    },
    "C02": {
        "runs": [{"harness": "C02", "variant": "cap2"}, {"harness": "C02", "variant": "cap3"}, {"harness": "C02", "variant": "rel"}],
        "bounds": {"quick": 'capacity 2 and 3: all words of length 4 over get (capacity+2 combinations), insert (2) and clear, from the empty cache and, every third word, from a full one; shipped capacity: 8 histories of more than twice the capacity with repeated requests after every step',
                   "thorough": 'capacity 2: words of length 5, every third also from a full cache; capacity 3: words of length 4, every one from the empty and from a full cache'},
    },
    "C03": {
        "runs": [{"harness": "C03", "variant": "rel"}],
        "bounds": {"quick": '19 configurations (default and every one-field change) x 19 process-wide defaults x 17 queries x 5 systems, with warm and cleared cache; the same without explicit configuration',
                   "thorough": 'as quick with 21 systems'},
    },
    "C04": {
        "runs": [{"harness": "C04", "variant": "rel"}],
        "bounds": {"quick": '4260 projectile-target pairs (every Z 1-108 with 12 targets, 12 projectiles with every of the 247 predefined targets and 12 own materials) x 27 energies (8 of them from a grid of 2560, spread over the pairs) x 19 thickness fractions, plus a dense grid 95 energies x 39 fractions; 192 configurations x 12 systems x 5 energies x 19 fractions',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials) on the same grids; 768 configurations x 12 systems'},
    },
    "C05": {
        "runs": [{"harness": "C05", "variant": "rel"}],
        "bounds": {"quick": '4260 projectile-target pairs (every Z 1-108 with 12 targets, 12 projectiles with every of the 247 predefined targets and 12 own materials): range at 4792 energies, exit energy on 7 sets of 14 energies x 16 thicknesses with all ordered pairs compared; 192 configurations (one of 12 systems each)',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials): 9584 energies; 192 configurations x 12 systems'},
    },
    "C06": {
        "runs": [{"harness": "C06", "variant": "rel"}],
        "bounds": {"quick": '4260 projectile-target pairs (every Z 1-108 with 12 targets, 12 projectiles with every of the 247 predefined targets and 12 own materials) x 53 energies x 14 thickness fractions and 5 energies below the limit; 768 configurations x 24 systems x 13 energies x 7 fractions',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials) on the same grid; 768 configurations x 144 systems'},
    },
    "C07": {
        "runs": [{"harness": "C07", "variant": "rel"}],
        "bounds": {"quick": 'all stacks of up to 4 layers over 7 layers (thin, thick, foil, gas, empty, stopping, other density) x 5 projectiles x 3 configurations x 5 phase spaces (2 for the longest stacks)',
                   "thorough": 'all of them with 5 phase spaces'},
    },
    "C08": {
        "runs": [{"harness": "C08", "variant": "rel"}],
        "bounds": {"quick": 'about 1300 pairs x 6 energies x 4 fractions x all compositions of 8 eighths into 1-2 pieces and one in seven of those into 3-4, empty layers inserted at all places of the two-piece cuts',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials) with all 64 compositions into 1-4 pieces'},
    },
    "C09": {
        "title": "stopping power against reference model",
        "runs": [{"harness": "C09", "variant": "rel"}],
        "bounds": {"quick": "108 projectiles x 98 elements x 53 energies (and a grid of 2560 energies and the target isotopes spread over the pairs) x (6 charge models x 16 correction sets x 2 SRIM versions; below 10 MeV/u only single corrections) + 149 compounds x 10 projectiles x 53 energies x 3 ionisation potentials x 12 configurations",
                   "thorough": "as quick with all correction sets everywhere and all 108 projectiles for compounds"},
    },
    "C10": {
        "runs": [{"harness": "C10", "variant": "rel"}],
        "bounds": {"quick": '108 x 98 elements x 53 energies (and a grid of 2560 energies and the target isotopes spread over the pairs) x 2 masses x (6 charge models x 2 straggling modes, 4 scattering models x 3 factors); 149 compounds x 12 projectiles',
                   "thorough": 'as quick, 149 compounds x 108 projectiles'},
    },
    "C11": {
        "runs": [{"harness": "C11", "variant": "rel"}, {"harness": "C11global", "variant": "global"}],
        "bounds": {"quick": '108 projectiles x 98 targets x 153 energies (and a grid of 2560 spread over the pairs) x 5 models (and the 2 models which need the external GLOBAL code, with a stand-in for it), every charge state 1..Z at 53 energies, 4001 energies for growth of the default model',
                   "thorough": '453 energies instead of 153'},
    },
    "C12": {
        "runs": [{"harness": "C12", "variant": "rel"}],
        "bounds": {"quick": '4260 projectile-target pairs (every Z 1-108 with 12 targets, 12 projectiles with every of the 247 predefined targets and 12 own materials) x 599 table points and mid points; 192 configurations, one of 12 systems each',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials); 192 configurations x 12 systems'},
    },
    "C13": {
        "runs": [{"harness": "C13", "variant": "rel"}],
        "bounds": {"quick": '4260 projectile-target pairs (every Z 1-108 with 12 targets, 12 projectiles with every of the 247 predefined targets and 12 own materials) x 15 energies (4 from a grid of 2560, spread over the pairs) x 6 fractions; 768 configurations; all lists up to length 3 over 9 energies x 9 systems x 2 projectile energies',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials); 768 configurations x 6 systems; lists up to length 4'},
    },
    "C14": {
        "runs": [{"harness": "C14", "variant": "rel"}],
        "bounds": {"quick": 'every projectile with one in nine elements (12 projectiles with all), 149 compounds x 4 projectiles, charge models 0-5, 3-6 energies x 5 thicknesses x 2-4 densities',
                   "thorough": 'all 108 x 98 elements, 149 compounds x 12 projectiles, full grids'},
    },
    "C15": {
        "runs": [{"harness": "C15", "variant": "rel"}],
        "bounds": {"quick": 'all words of length 4 over 19 operations (12 C calls, 3 C settings, 4 changes of C++ defaults) = 130321 histories, each call compared with its first-call value; all triples of 73 calls of seven functions which differ from one another in one argument',
                   "thorough": 'all words of length 5 = 2476099 histories'},
    },
    "C16": {
        "runs": [{"harness": "C16", "variant": "rel"}],
        "bounds": {"quick": 'all compositions of 1-3 constituents over 6 elements x amounts 1-3 (6156) in up to 10 ways of construction; 2160 compositions of 4-12 constituents; all single elements; 149 compounds rewritten by weight and by count; weight fractions from 1e-4 to 0.9999, also when rounding makes their sum 0.998 or 1.002',
                   "thorough": 'as quick with ranges and reactions for more of them'},
    },
    "C17": {
        "runs": [{"harness": "C17", "variant": "rel"}],
        "bounds": {"quick": 'all ids -10..399 through 3 lookups, 120 formulas',
                   "thorough": 'same'},
    },
    "C18": {
        "runs": [{"harness": "C18", "variant": "asan"}],
        "bounds": {"quick": 'all proton numbers -2000..2000 and extreme ones x isotope indices -20..330 and extreme ones',
                   "thorough": 'proton numbers -70000..70000'},
    },
    "C19": {
        "runs": [{"harness": "C19", "variant": "asan"}, {"harness": "C19", "variant": "search"}],
        "bounds": {"quick": '8 table sizes x 8 limits: every table point, 64 floating-point steps to either side, 12 larger offsets, 5 interior points; 7 functions on each table; all value patterns over {0,1,-2} on 3-7 points; own table with 256 steps; calculated and searched lookup',
                   "thorough": '512 steps, own table 4096'},
    },
    "C20": {
        "runs": [{"harness": "C20", "variant": "rel"}],
        "bounds": {"quick": '14 Gauss-Legendre orders x all degrees up to 2n-1 x all intervals of the menu x monomial families, two-dimensional products (degrees at the edges above order 20), 5 Kronrod orders x all degrees up to the Kronrod degree, adaptive form on 10 integrands x 9 tolerances',
                   "thorough": 'same'},
    },
    "C21": {
        "runs": [{"harness": "C21", "variant": "rel"}],
        "bounds": {"quick": '4260 projectile-target pairs (every Z 1-108 with 12 targets, 12 projectiles with every of the 247 predefined targets and 12 own materials) x 9 energies and those of a spread fine grid x 10 thickness fractions; 19 configurations x 24 systems; cross section of 108 projectiles x 3 masses x all isotopes of 98 elements x 8 energies; production rates on a 7 x 5 x 8 x 7 x 18 grid',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials) on the same grid'},
    },
    "C22": {
        "runs": [{"harness": "C22", "variant": "o0", "variants_arg": ("C22dump", ["o%d" % b for b in range(16)])}],
        "bounds": {"quick": 'all 16 combinations of four build options; 108 systems x 4 energies x 7 fractions, stacks, single functions, every 29th table point with 3 floating-point steps to either side',
                   "thorough": '864 systems x 13 energies, every fifth table point'},
    },
    "C23": {
        "runs": [{"harness": "C23", "variant": "rel"}, {"harness": "C23", "variant": "asan", "defs": ["-DCOMPOUNDS"]}],
        "bounds": {"quick": 'all layer sequences up to length 4 over 9 materials (7380), 108 beams x 5 energies x 4 phase spaces, every compound in 3 constructions, 2 variations and with constituents dropped or added with and without its molar mass (also with the address sanitizer), every element x 3 densities; write faults at every byte offset of files of 0-3 layers and at the selected offsets (all around buffer boundaries, one in 128 elsewhere) of files of 60-200 layers',
                   "thorough": 'layer sequences up to length 5; write faults at every byte offset of all files'},
    },
    "C24": {
        "runs": [{"harness": "C24", "variant": "rel", "tools": ["bin/catima_calculator.cpp"]}],
        "bounds": {"quick": 'grammar of 16 energy forms x 5 projectiles x 125 material forms, every fifth of the products; every element and compound as target with and without density, every projectile charge; 54 malformed fields and every truncation of a valid file',
                   "thorough": 'the whole product of 10000 files'},
    },
    "C25": {
        "runs": [{"harness": "C25", "variant": "rel"}],
        "bounds": {"quick": '108 projectiles x 200 table energies x 6 masses x 6 offsets and 10 edge energies against the frozen table; every fifth table energy and both ends x 2 masses against the series; charges beyond the table',
                   "thorough": 'every table energy x 2 masses against the series'},
    },
    "C26": {
        "runs": [{"harness": "C26", "variant": "asan"}],
        "bounds": {"quick": 'all words of length 4 over 24 operations on two stacks and two materials, empty ones and ones without thickness included (331776), compared with a list model after every operation; growth by doubling up to 1152 layers',
                   "thorough": 'all words of length 5 (7962624)'},
    },
    "C27": {
        "runs": [{"harness": "C27", "variant": "rel"}],
        "bounds": {"quick": 'one in three of 4260 pairs x 9 energies and those of a spread fine grid x 7 thickness fractions x (2 densities, 2 cuts, magnification); 16 configurations x 12 systems; kinematics at 6001 energies x 3 masses',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials); 20001 energies'},
    },
    "C28": {
        "runs": [{"harness": "C28", "variant": "rel"}],
        "bounds": {"quick": 'one in four of 4260 pairs x 4 scattering models x 3-10 energies and those of a spread fine grid x 9 fractions x 3 moments; 19 configurations x 12 systems; scattering power of 247 targets x 108 projectiles x 5 energies x 4 models x 2 factors',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials) x 4 scattering models'},
    },
    "C29": {
        "runs": [{"harness": "C29", "variant": "rel"}],
        "bounds": {"quick": '12 x 247 projectile-target pairs and 768 configurations along axes of thickness (5 energies), energy (0.01 to 4e5 MeV/u, 2 thicknesses), local quantities (8, 0.0011 to 4e5 MeV/u, steps of 5 %), mass and ionisation potential (+-50 %); every step sticking out of its neighbours bisected to 1e-7; 97 round energies and 14 round thicknesses against their neighbours at 1e-9',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials)'},
    },
    "C30": {
        "runs": [{"harness": "C30", "variant": "rel"}],
        "bounds": {"quick": 'every pair of the grid and 768 configurations x 2-3 energies x 5 thickness fractions x 2 density factors; 4 charge states (a quarter of the pairs); 4 stored energies x 3 thicknesses in 30 queries (a sixth of the pairs); 149 compounds in up to 20 rewritings x 4 projectiles x 3 energies; 512 materials of two or three constituents, amounts below and above one, in all orders',
                   "thorough": 'all 27972 projectile-target pairs (Z 1-108 x 98 elements, 149 compounds and 12 own materials), 6 systems per configuration'},
    },
    "C31": {
        "runs": [{"harness": "C31", "variant": "asan"}],
        "bounds": {"quick": 'the 600 unit tables (a basis of all tables) and 11 functions on the library table, values and slopes at 6 places of every interval and outside; all tables over {-1,0,2} with 3-7 points; ranges of 108 projectiles in one of 7 of the 247 targets between all table energies',
                   "thorough": 'ranges in all 247 targets'},
    },
    "C32": {
        "runs": [{"harness": "C32", "variant": "rel"}],
        "bounds": {"quick": '108 projectiles x 98 elements x energy grid for every contribution to the stopping power and their sum; 149 compounds x projectiles; logarithm of the gamma function and confluent hypergeometric function on grids of complex arguments',
                   "thorough": 'finer energy grid'},
    },
    "C33": {
        "runs": [{"harness": "C33", "variant": "asan"}],
        "bounds": {"quick": 'all 117 single deviations and every second pair of deviations (nan, infinite, negative, zero, tiny, huge; out-of-range charges, model numbers, compositions) of 17 arguments in 17 queries, the C interface and all lookups, with bounds and address checks; 19 valid queries after each',
                   "thorough": 'all pairs at 3 base energies'},
    },
    "C34": {
        "runs": [{"harness": "C34", "variant": "rel"}],
        "bounds": {"quick": 'all 289 ordered pairs of 17 headers, the first one included again after the second, as C++17 (each header also as C++20); one program with every header in a file of its own; the C interface as C99, C11 and gnu17 with 6 models x 17 numbers',
                   "thorough": 'all pairs also as C++20'},
    },
    "C35": {
        "runs": [{"harness": "C35", "variant": "rel"}],
        "bounds": {"quick": '3 pairs of marker functions in place of the two series; 108 projectiles x 200 energies x 3 masses read back through the library rebuilt with the generated table',
                   "thorough": 'same'},
    },
    "C36": {
        "runs": [{"harness": "C36", "variant": "rel"}],
        "bounds": {"quick": 'all pairs of 360 projectiles, 9360 materials of 0-3 constituents (each also built in two other ways), 6144 configurations, 149 predefined materials, 100 stored entries; all pairs of 256 values of every setting; one difference in every place of materials of 1-12 constituents',
                   "thorough": 'same'},
    },
}

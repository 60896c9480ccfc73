"""What each check builds, and the bounds it explores (see DESIGN.md)."""

COUNTS_MEAN = ("states: enumerated cases (operand assignments, program states, texts or schedules) "
               "decided in this run; transitions: library operations executed on them; traces: "
               "multi-step sequences and law instances whose outcome on the real code was compared "
               "with the reference model; distinct outcomes: distinct result values seen.")

ASSUMPTIONS = [
    "IEEE 754 double arithmetic and a correct compiler, C++ library and libm of this sandbox",
    "the reference model (harness/ref.hpp: the algebra built from basis-blade bit masks in long double) "
    "is the intended algebra",
    "behaviour beyond the stated bound is not covered",
]


def check(source=None, quick="", thorough=None, **more):
    entry = {"level": "model_checking",
             "bound": {"quick": quick, "thorough": thorough or quick}}
    if source:
        entry["source"] = source
    entry.update(more)
    return entry


SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]

CHECKS = {
    "C01": check(
        "c01.cpp",
        "operands of every pair of sizes, and such that hardly differ at every size; 99 ordered pairs of kinds (all but double*double): every integer operand word of the pair over the widest "
        "alphabet of at most 5e6 words, operands with up to 2 components of magnitudes from 1e-153 to 1e150, operands "
        "that nearly cancel or nearly coincide (ladder), an infinite component on either side, every use of one object as both operands; object histories; operands held as constants, variables, temporaries",
        "as quick with alphabets of at most 5e7 words and 20 wide magnitudes including subnormals",
        units=["c01.cpp", "c01_held0.cpp", "c01_held1.cpp"],
        unit_flags={u: ["-O0"] for u in ("c01_held0.cpp", "c01_held1.cpp")}),
    "C02": check(
        "c02.cpp",
        "all typed programs of up to three operands over products, sums, differences and unary operations in both "
        "groupings; all words of basis blades up to length 5 in every grouping; state space of typed entities "
        "under all operations to depth 2; products of three with near-equal and near-conjugate factors in both groupings; chains of 12 squares and of 9 "
        "factors with every assignment of two sizes (5 ratios down to 1e-60) to the components",
        "blade words to length 7, state space to depth 3, 24 squares and 17 factors"),
    "C03": check(
        "c03.cpp",
        "operands of every pair of sizes, and such that hardly differ at every size; all ordered pairs of kinds for + and -: integer words (at most 6e6 per pair), special values including "
        "infinities and NaN in up to 2 places; commutation, association, difference-as-sum-of-negation laws",
        "integer words to 5e7, special values in up to 3 places",
        units=["c03.cpp", "c03_held0.cpp", "c03_held1.cpp"],
        unit_flags={u: ["-O0"] for u in ("c03_held0.cpp", "c03_held1.cpp")}),
    "C04": check(
        "c04.cpp",
        "entities of every size; five sign operations on ten kinds: integer words (5e5), 15 special values in up to 2 places; complete "
        "state space of compositions of any length (breadth-first to the fixed point) from generic entities and "
        "all words (7e3); (anti)automorphism laws on all pairs of kinds",
        "integer words 6e6, special values in up to 3 places"),
    "C05": check(
        "c05.cpp",
        "ten kinds: integer words (5e6), all letters scaled by every third decade from 1e-148 to 1e148, two "
        "components of 12 own magnitudes, ladder of component ratios, infinite components; product law on all pairs of kinds",
        "integer words 5e7, every decade, three components of own magnitude"),
    "C06": check(
        "c06.cpp",
        "nine kinds: integer words (6e6), scaled letters over every third decade 1e-148..1e148, two components "
        "of 11 own magnitudes, ladder of component ratios and of near-real and near-imaginary squares, infinite components; product law on all pairs of kinds",
        "integer words 5e7, every decade, three components of own magnitude"),
    "C07": check(
        "c07.cpp",
        "nine kinds: integer words (3e6), scaled letters over every third decade 1e-140..1e140, two components of "
        "11 own magnitudes or NaN, ladder of component ratios, all words over NaN, infinities, 0 and 1",
        "integer words 5e7, every decade, three components of own magnitude"),
    "C08": check(
        "c08.cpp",
        "the six invertible kinds: integer words, scaled letters by decades (blades 1e-140..1e140, others "
        "1e-60..1e60), mixed magnitudes, ladder of component ratios, exact null-divisors and a climb of 1e-1..1e-13 towards them",
        "as quick with larger alphabets, every decade and three components of own magnitude"),
    "C09": check(
        "c09.cpp",
        "entities of every size; all words over 22 special values where fewer than 3e5, else up to three deviations from three patterns; "
        "all words over 5 values of each class; arrays of 1 to 8 values; write histories to depth 3",
        "all words over 8 values of each class, write histories to depth 4"),
    "C10": check(
        "c10.cpp",
        "operands of every pair of sizes with one component missing; every operation, every non-empty set of NaN components of either operand, against zero, unit and generic "
        "partners; the complete reachable state space (kind, NaN set) from the null entities, any length",
        "as quick with further partners of extreme magnitude"),
    "C11": check(
        "c11.cpp",
        "ten kinds: 18 relative deviations in up to 2 components of patterns of 5 scales x 12 tolerances, whole "
        "grades scaled, invalid components in up to 2 places, integer pairs (2e5), exact boundary cases",
        "all zero-component subsets of the patterns, integer pairs to 5e6"),
    "C12": check(
        "c12.cpp",
        "entities of every size, equal or one step apart; seven kinds: integer pairs of operands (5e6), 25 special values in up to 2 places of two bases, equal "
        "deviations on both sides, one unit in the last place at every binary exponent, one object on both sides, write histories that return to their start",
        "integer pairs 5e7, special values in up to 3 places"),
    "C13": check(
        "c13.cpp",
        "bivectors and spinors: words, scales 1e-300..1e4, multiples of eighth turns with offsets, mixed "
        "magnitudes, ladder of component ratios, single axes up to 1e15, scalar parts from -1e300 over the underflow of the exponential up to 709.5, sequences of three exponentials about one axis",
        "as quick with finer scale and angle grids and three components of own magnitude"),
    "C14": check(
        "c14.cpp",
        "all words of eight components over {-1,0,1}, scaled words, two components of 12 own magnitudes, families "
        "with nilpotent and nearly nilpotent directed part, ladder of component ratios, multiples of eighth turns, decay beyond underflow",
        "words over {-2,-1,0,1} and {0,.5,1,3}, every fifth decade, three components of own magnitude"),
    "C15": check(
        "c15.cpp",
        "fall-back planes of every kind (infinite, null, extreme) that must not matter unless needed; spinors: words (1e4), letters scaled over 1e-14..1e140, angles of multiples of 1/48 turn and 48 near-axis "
        "offsets x 10 planes x 6 scales x 6 fall-back planes, real spinors, NaN words, ladder of component ratios, round trips through exp",
        "words (1e5), every decade, finer letters"),
    "C16": check(
        "c16.cpp",
        "fall-back planes of every kind (infinite, null, extreme) that must not matter unless needed; spinors: words (1e4), letters scaled over 1e-14..1e140, angles of multiples of 1/48 turn and near-axis "
        "offsets x 10 planes x 6 scales x 6 fall-back planes, real spinors, ladder of component ratios, all pairs of angles for halving",
        "words (1e5), every decade"),
    "C17": check(
        "c17.cpp",
        "28 axes x 22 angles on vectors, bivectors and the compound kinds; every ordered pair of turns; sequences "
        "of 3 and 4 turns from six; all pairs of mirrors; closure of the quarter-turn group to its fixed point",
        "28 axes x 71 angles"),
    "C18": check(
        "c18.cpp",
        "entities of every size; fixed-point text: all words of the text values for kinds of up to 3 components, two deviations for "
        "larger ones; format grids; all sequences of three kinds in one stream",
        "all words for kinds of up to 4 components, two deviations with all formats"),
    "C19": check(
        "c19.cpp",
        "entities of every size; scientific text: text values and decades -307..307 in up to 2 places, precision grid, all decades for "
        "one-component kinds",
        "every decade in up to 2 places, two deviations with all formats"),
    "C20": check(
        "c20.cpp",
        "all token sequences up to length 5 over 9 tokens (valid, malformed, overflowing, subnormal, missing), up "
        "to two of 26 unusual tokens at any place, every truncation and separator, the next character after each "
        "success; arrays of entities and the state of the stream; extraction histories of three kinds with a failure anywhere",
        "sequences over 12 tokens"),
    "C21": check(
        "c21.cpp",
        "entities of every size; round trips of text values, decades and words; every combination of stream settings and both operators; reading with every "
        "combination of reading settings (noskipws, bases, boolalpha, width); 36 pairs of stream and global locales",
        "more decades, patterns and settings"),
    "C22": check(
        "c22.cpp",
        "entities of every size; all constructors, accessors and conversions over integer words, special values, copies, moves, swaps and stays "
        "in containers of every pair of words, and every "
        "component write history of length 2 to 3",
        "write histories of length 4"),
    "C23": check(
        "c23.cpp",
        "operands of every pair of sizes; operand words of two and three complex numbers against std::complex, all rotations of special values, "
        "commutation with every kind over words, ladder of part ratios",
        "larger alphabets"),
    "C24": check(
        "c24.cpp",
        "entities of every size; complete multiplicative closure of the basis constants (16 signed elements, 48 typed entities), all "
        "pairwise identities, angle constants, values seen during static initialisation"),
    "C25": check(
        None,
        "about 1000 calls of 508 operations: each first in a fresh process, then every ordered pair of calls, every "
        "ordered pair among operand variants of one operation (near-equal ones included) and long runs of one "
        "operation, with output descriptors, heap balance, rounding mode and operands watched; all aliasing "
        "patterns; calls within calls (from stream devices at every character, from number formatting); every operation "
        "on constants, variables and temporaries",
        "also every ordered triple of operations",
        units=["c25.cpp", "c25_held.cpp", "c25_held2.cpp", "repo:src/engabra.cpp"],
        unit_flags={u: ["-O0"] for u in ("c25_held.cpp", "c25_held2.cpp")}),
    "C26": check(
        None,
        "every pair of 508 operations in two real threads under a controlled scheduler, at first use and after both "
        "have run, with operands of their own or shared, and all operations on 17 special operand sets that write "
        "shared memory; independent pairs in both serial orders, dependent pairs in all schedules with up to 2 preemptions at shared accesses; race and "
        "deadlock detection",
        "up to 3 preemptions",
        units=["c26_ops.cpp", "repo:src/engabra.cpp", "sched.cpp", "c26.cpp"],
        unit_flags={"c26_ops.cpp": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
                    "repo:src/engabra.cpp": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
                    "sched.cpp": ["-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]},
        link=["-lpthread", "-ldl"]),
    "C27": check(
        None,
        "every public header alone and twice, with both compilers; every header before and after the umbrella "
        "header and every pair chosen in the script; operators from namespaces and templates; all that each "
        "main header is for, with it alone; and after any other header; operators named in the global namespace; kind predicates on all kinds and qualified types; programs with names of their own, macros left or taken away by each header; programs of several units",
        "every ordered pair of headers, three language levels",
        script="script_c27"),
    "C28": check(
        "c28.cpp",
        "operands of every pair of sizes; every operation on kinds (A,B) against every wider pair of kinds (A',B') that has it: 1658 pairs of "
        "operations x component words, ladder of component ratios, special values, exponentials beyond underflow",
        "larger words"),
    "C29": check(
        None,
        "every operation under AddressSanitizer and UndefinedBehaviorSanitizer: edge values in up to 2 places, "
        "all subscripts of interest, all short texts, format widths",
        "edge values in up to 3 places, longer texts",
        units=["c29.cpp", "repo:src/engabra.cpp"], flags=SAN, link=SAN),
    "C30": check(
        None,
        "nine configurations (two compilers, five optimisation levels, four language levels, NDEBUG, DEBUG, library debug mode, vector instructions, char "
        "signedness, uninitialised locals filled with zeros or a pattern): every operation on a grid of operands and on operands of ten sizes in every pair",
        "twenty-one configurations",
        script="script_c30"),
    "C31": check(
        None,
        "four builds of the library (two compilers, three build types), each configured, built, installed and moved; "
        "three consumer projects per package (compilers, build types, language levels) found by find_package, their values "
        "against the source tree; every installed header alone; the distribution package (cpack) file by file against an installation; identity at every moment of a program",
        "ten builds, eighteen consumer projects each, headers with both compilers",
        script="script_c31"),
    "C32": check(
        None,
        "every allocation of every operation failing (alone, and with all after it), at the first use in a process and "
        "in steady use, each followed by one call of every operation; the device of a stream failing at every "
        "character in four ways and at every flush, with four settings and four exception masks, for writing and "
        "reading, each followed by the same on a device that works; allocations failing under stream operations",
        "also two allocations failing, more operands and texts",
        units=["c32.cpp", "repo:src/engabra.cpp"]),
    "C33": check(
        "c33.cpp",
        "all ordered pairs of the nine entity kinds with each other, fifteen arithmetic and seventeen foreign types: implicit, "
        "explicit and assigning conversion, and 21 binary and 6 unary operators that the library leaves out; numbers of "
        "fifteen types times every integer word of each kind; every integer word of each pair of kinds (7e4 per pair) "
        "under * + - == with operands held in eight ways",
        "words to 5e4 and 1e6", flags=["-O0"]),
    "C34": check(
        "c34.cpp",
        "every operation with a value or a truth value as result (about 420) x 48 signed permutations of the axes (operations of two operands: "
        "8 of them per pair of operands, by turns) and 14 units, x integer words, generic entities, entities with one component missing, "
        "of another size or nearly equal to its neighbour (pairs: every pair of them)",
        "all 48 for every pair, more letters")
}

"""What each property's check builds and runs (single source for run.py and MANIFEST.json)."""
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
PLAIN = ["-O1"]
INC = ["-I/repo/include"]


def unit(src, parts=1, flags=None, omp=True, defs=(), name=None, rt=("omprt.cpp",), link=(), pre=None, cxx="g++"):
    return dict(name=name or src.replace(".cpp", ""), src=src, parts=parts, flags=list(flags if flags is not None else ASAN),
                omp=omp, defs=list(defs), rt=list(rt), link=list(link), pre=pre, cxx=cxx)


CHECKS = {}


def check(pid, units, technique, note, assumptions=()):
    CHECKS[pid] = dict(units=units, technique=technique, note=note, assumptions=list(assumptions))


A_SEQ = ["C++ undefined behaviour is only detected where AddressSanitizer or the reference comparison sees it",
         "values outside the stated bounds are not covered"]

check("P01", [unit("p01.cpp", parts=7)],
      "bounded exhaustive enumeration of transition systems on the real builders against a canonical-diagram reference model",
      "every transition table within the stated level/width/arity bounds, every specification base class, serial and (fixed-schedule) parallel; thresholds via parametric sweeps", A_SEQ)
check("P02", [unit("p02.cpp", name="p02a"), unit("p02.cpp", name="p02r", flags=["-O1", "-fsanitize=thread"], defs=["-DRACES"], rt=("omprt.cpp", "tsanrt.cpp"), link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"])],
      "stateless model checking of the real parallel code: a controlled OpenMP runtime enumerates all schedules with at most d deviations from three base schedules; a second build finds unordered memory accesses by vector clocks and makes them scheduling points",
      "construction, subsetting, three reductions, evaluation and their chain; 2-8 threads; deviation bound 2 on a battery of tables of 2-5 levels, 1 on wide ones and on all/every k-th bounded table; every runtime entry, user callback and racy access is a scheduling point; results, sizes and allocations compared with serial execution",
      ["interleavings are sequentially consistent: weak-memory reorderings are not explored", "schedules with more deviations than the bound are not explored", "scheduling points are the OpenMP runtime entries, user callbacks and the racy accesses found; race-free code between them is executed atomically"])
check("P03", [unit("p03.cpp", parts=3)],
      "bounded exhaustive enumeration of diagrams, each reduction rule compared with an independently computed canonical minimal diagram",
      "every transition table / family within bounds, every rule, serial and (fixed-schedule) parallel, repeated and chained reductions", A_SEQ)

check("P04", [unit("p04.cpp", parts=3)],
      "bounded exhaustive enumeration of diagram/specification pairs on the real subsetters against set intersection of canonical diagrams",
      "every pair of bounded tables/families, operand forms reduced/unreduced/serial/parallel, diagrams as specifications, two-step chains", A_SEQ)

check("P05", [unit("p05.cpp", parts=11)],
      "bounded exhaustive enumeration of operand pairs, triples and quadruples against combination of canonical diagrams",
      "every pair of bounded tables (all level alignments up to 3-4 levels), every operand kind pair, three and four operands, nesting, arities 3 to 5, composition with lookahead, unreduction and subsetting", A_SEQ)

check("P06", [unit("p06.cpp", parts=4)],
      "bounded exhaustive enumeration of specifications and variable counts against canonical diagrams of the expanded meaning",
      "every bounded table and all functions on 4 variables, every variable count from 0 to top+extra, round trips, nested wrappers", A_SEQ)

check("P07", [unit("p07.cpp", parts=3)],
      "bounded exhaustive enumeration of diagrams and variable counts against independent exact counting",
      "every bounded table (arities 2-5), layered diagrams at every depth across all 63-bit word boundaries up to several hundred levels, numeric variants where the count fits", A_SEQ)

check("P08", [unit("p08.cpp")],
      "bounded exhaustive enumeration of diagrams and iterator histories against the set of accepting paths",
      "all families on up to 4 items, every bounded unreduced table, copies of the iterator at every position, interleaved iterators", A_SEQ)

check("P09", [unit("p09.cpp", parts=2)],
      "bounded exhaustive enumeration of diagram pairs against structural canonicalisation",
      "all ordered pairs of small tables, every table against every one-branch mutant / other root / reduction, reduced families against each other, duplicate-node layouts", A_SEQ)

check("P10", [unit("p10.cpp", parts=3)],
      "bounded exhaustive enumeration of diagrams with an instrumented evaluator checked against the node graph",
      "every bounded table raw/reduced/subsetted, trivially-copyable and counted object values, serial and parallel with 1-4 threads, thread-unsafe evaluators, every root of a table", A_SEQ)
check("P11", [unit("p11.cpp")],
      "exhaustive enumeration of operation sequences on sets of diagram objects against a value-semantics model",
      "all sequences up to the stated depth over 2-3 objects and 45-78 operations (construct, assign incl. self, reduce, subset by spec and by diagram incl. itself, convert, union, swap, iterate, evaluate), AddressSanitizer plus allocation counting", A_SEQ)

check("P12", [unit("p12.cpp", parts=4)],
      "exhaustive enumeration of transition tables and of all merge-answer sequences, decisions replayed breadth-first on the specification as reference",
      "every bounded table x every sequence of answers (0/1/2) up to the stated number of merges, serial and fixed-schedule parallel construction and subsetting, scalar/array/hybrid states, lookahead and intersection wrappers; 1-terminal merging in parallel mode is a recorded finding", A_SEQ)

check("P13", [unit("p13.cpp", parts=6)],
      "exhaustive enumeration of transition tables with state objects that are tracked by an ownership monitor",
      "every bounded table with counted state objects (scalar, hybrid), every library operation that creates states, serial and fixed-schedule parallel, merging specifications", A_SEQ)
check("P14", [unit("p14.cpp", parts=2)],
      "bounded exhaustive enumeration of specifications and of all random-choice sequences of the searcher",
      "every bounded table, every value sequence the random source can return (stubbed rand), diagrams and wrapped specifications", A_SEQ)
check("P15", [unit("p15.cpp", parts=4)],
      "bounded exhaustive enumeration of specifications and diagrams whose dumps are parsed back and compared with the reachable state graph",
      "every bounded table (arities 1-5), every state kind and wrapper, raw and reduced diagrams, terminal-only diagrams, wide levels", A_SEQ)

check("P16", [unit("p16.cpp")],
      "exhaustive enumeration of operation sequences on hash tables and maps against set/map models",
      "all sequences up to depth 3-4 (5 thorough) over two tables from every starting size around growth thresholds, 7 hash functions incl. constant, coarser equalities, every integer type", A_SEQ)
check("P17", [unit("p17.cpp", parts=2)],
      "exhaustive enumeration of operation sequences on vectors, lists, pools and tables against sequence models with an object-lifetime monitor",
      "all sequences up to depth 3-6 over 6-33 operations, element sizes 1-24 bytes, block sizes 1-1000, allocation sizes around every pool threshold", A_SEQ)
check("P18", [unit("p18.cpp")],
      "exhaustive enumeration of edge-word numbers, pairs and operation sequences against independent arbitrary-precision arithmetic",
      "all pairs of numbers of up to 5 words over edge words, every shift 0..260, 13 divisors, all sequences of 4 (5) operations on two numbers, fixed-size numbers of 1-3 words", A_SEQ)
check("P19", [unit("p19.cpp")],
      "exhaustive enumeration of operation sequences on the set types against finite-set models with guarded neighbouring memory",
      "all sequences of 3-5 operations at every word edge, 1-3 words, pool-allocated sets of every size up to 200 bits, element types of 1-8 bytes", A_SEQ)

check("P20", [unit("p20.cpp", parts=3)],
      "bounded exhaustive enumeration of constraint instances against brute force over all selections",
      "all size sets on 1-7 items, all graphs/edge orders on 4 vertices (5 bounded) with all uniform and per-vertex constraints, all 1-3 constraint linear systems over small weights and bounds, three number types", A_SEQ)
check("P21", [unit("p21.cpp")],
      "bounded exhaustive enumeration of graphs, edge orders and terminal pairs against brute force over all edge subsets",
      "every edge order on 4 vertices, up to 5 edges on 5 vertices, all graphs on 5-6 vertices in fixed orders, every set of disjoint terminal pairs, lookahead on/off, map-based variant; grids against depth-first enumeration", A_SEQ)
check("P22", [unit("p22.cpp")],
      "bounded exhaustive enumeration of graphs, colourings and parameters against brute force over all edge subsets",
      "all graphs on 4 vertices (edge orders, rotations) with all colourings, graphs on 5-6 vertices with bounded colourings, every component count, loops and lookahead on/off", A_SEQ)
check("P23", [unit("p23.cpp")],
      "exhaustive enumeration of edge sequences, colourings, input texts and operation histories against independently computed tables",
      "all edge sequences of up to 5 over 4 names, all edge orders x colourings on 4 vertices, all histories of up to 4 operations, all layouts of edge, adjacency and group files", A_SEQ)

check("P24", [unit("p24.cpp", parts=6)],
      "bounded exhaustive enumeration of specifications and of number-growth patterns against exact dynamic programming",
      "every bounded table of arities 1-4 with every state kind and wrapper, all layered specifications of depth 1-400, all combinations of branch count, doubling depth around word edges, jump length and jump shape", A_SEQ)
check("P25", [unit("p25.cpp")],
      "bounded exhaustive enumeration of families and functions, dump layouts, offsets and variable orders against canonical diagrams, with a stand-in for the external package",
      "all families on up to 4 items in the exchange format (node orders, numberings, layouts, sources), all families/functions on up to 4 variables through the package bridges with every offset and three variable orders, serial and parallel, handle-lifetime and concurrent-entry monitors", A_SEQ)
check("P26", [unit("p26.cpp")],
      "exhaustive enumeration of board sizes, option combinations and small families against backtracking search",
      "queens 1-9 and rooks 1-7 with every first column, coloured boards 1-7, digit strings, all pairs/triples of small families interleaved and coloured, the real program in process under all option combinations with its dump parsed back", A_SEQ)
check("P27", [unit("p27.cpp")],
      "exhaustive enumeration of boards, blank limits and options against all path systems of the grid",
      "all boards of up to 9 boxes with up to 4 pairs (1-wide ones included), 12 boxes with up to 2 (3 thorough), 4x4 with up to 2 (3 thorough), every blank limit on the small ones, four input layouts, label groups and large labels; the real program in process with its drawn answers compared", A_SEQ)

check("P28", [unit("p28.cpp")],
      "exhaustive enumeration of graphs, terminal files and option combinations, the real program run in process against brute force over all edge subsets",
      "all graphs on 4 vertices under all 64 algorithm option sets and 10 size bounds, every terminal pairing / colour grouping / component count, graphs on 5 vertices with options rotating; solution dumps, diagrams and exports parsed back; refusals of bad input", A_SEQ)

check("P29", [unit("p29.cpp")],
      "exhaustive enumeration of small formulas, input layouts and option sets, the two real programs run in process against brute force over all assignments, with a stand-in for the external package",
      "all clause sequences of up to 3 over 1-2 variables under all 64 option sets and six outputs, all sequences of 3 and multisets of 4 over 3 variables, pairs and triples over 4, shifted patterns over 7, every literal sequence of up to 4 as a clause, damaged inputs; package reference counts monitored", A_SEQ)

check("P30", [unit("p30.cpp")],
      "exhaustive enumeration of graphs, group files, imported families and option combinations, the real program run in process against brute force over all edge subsets",
      "all graphs on 4 vertices with all 128 switch settings, every grouping, all size bounds and component counts; every family on up to 3 edges of every such graph and on the 4 edges of two graphs imported; graphs on 5 vertices rotating; dumps, diagrams and exports parsed back; refusals", A_SEQ)

check("P31", [unit("p31.cpp", parts=3)],
      "exhaustive fault injection: every bounded table, operation and callback invocation as the point where a user exception is thrown, on the real code against a value-semantics model",
      "11 kinds of callbacks, every call index of every run, serial construction, subsetting, reduction, evaluation, dumping, searching, counting, combined and wrapped specifications; afterwards every object is compared, reused and the operation repeated, allocations and state lifetimes monitored", A_SEQ + ["parallel mode is excluded: an exception may not leave an OpenMP region", "allocation failure is not injected"])

check("P32", [unit("p32.cpp", parts=2)],
      "explicit-state exploration of all message-handler operation sequences under a controlled clock against a reference page model, and exhaustive enumeration of bounded tables with messages on, off and aborted at each callback",
      "all sequences of up to 5 operations out of 17 on up to 4 nested handlers; every number of steps up to 130 at four clock rates; 13 library operations on every bounded table, serial and 3 threads (fixed schedule), reported numbers compared with the true ones", A_SEQ + ["messages are not switched while a report is open"])

def variant(name, text, deep, thr, **kw):
    return unit("p33.cpp", name="p33" + name, parts=2, defs=['-DVARIANT="%s-"' % name, '-DVARIANTTEXT="%s"' % text, "-DDEEP=%d" % deep, "-DNTHR=%d" % thr], **kw)


check("P33", [variant("seq", "g++, no OpenMP, NDEBUG, -O3", 1, 1, flags=["-O3", "-DNDEBUG"], omp=False),
              variant("cl", "clang++, no OpenMP, -O1, undefined-behaviour monitor", 1, 1, flags=["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"], omp=False, cxx="clang++"),
              variant("dbg", "g++, OpenMP, DEBUG, -O0, address monitor", 0, 3, flags=["-O0", "-DDEBUG", "-fsanitize=address"]),
              variant("omp", "g++, OpenMP, NDEBUG, -O3", 0, 3, flags=["-O3", "-DNDEBUG"])],
      "bounded exhaustive enumeration of transition systems run through about 30 operations in four differently configured builds of the library, each against the reference model",
      "builds with and without OpenMP, assertions and debugging code, -O0 to -O3, both compilers, undefined-behaviour and address monitors; every state graph up to 5 levels / 5 states, arities 2-4, serial and parallel mode (fixed schedules, 1 and 3 threads)", A_SEQ)

NOT_APPLICABLE = {}

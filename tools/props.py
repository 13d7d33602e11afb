#!/usr/bin/env python3
"""Single source of properties.jsonl (run me to regenerate it)."""
import json, os
H='include/tdzdd/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Construction yields exactly the function its specification describes",
  "For every specification (scalar-state, array-state, hybrid-state or stateless; any arity; with or without skipped levels), the constructed diagram maps every assignment of values to the terminal that the specification's own transition function reaches, and it never has more nodes than there are reachable distinct (level, state) pairs. This holds for every state type, state size and array length the specification interface admits, and for every number of states per level.",
  ["inputs","programs"],"every bounded transition table over every specification base class, plus parametric families that cross each internal size threshold",
  "Tests construct a handful of specs; the guarantee is over all transition systems, including skips, early terminals and per-level populations that cross hash-table, node-pruning and memory-block thresholds.",
  [H+"DdStructure.hpp",H+"DdSpec.hpp",H+"dd/DdBuilder.hpp",H+"dd/DdSweeper.hpp",H+"dd/NodeTable.hpp"],
  [("DdBuilder::initialize/construct",H+"dd/DdBuilder.hpp"),("DdSpec/PodArrayDdSpec/HybridDdSpec/StatelessDdSpec",H+"DdSpec.hpp"),("DdSweeper::update",H+"dd/DdSweeper.hpp")])

p("P02","Parallel mode gives the same diagrams and values as serial mode",
  "With multi-processor algorithms enabled, construction, subsetting, reduction and evaluation give, for every thread count and every interleaving of the threads, a diagram representing the same function (after reduction: an equal diagram of equal size) and the same evaluation result as serial execution. No interleaving deadlocks, corrupts memory or drops or duplicates nodes.",
  ["schedules","inputs"],"all interleavings of 2-3 worker threads at synchronisation points up to a preemption bound, for a battery of specifications",
  "A test run sees one lucky interleaving; the parallel code distributes states to per-thread tables and tasks and must be right for each schedule.",
  [H+"dd/DdBuilder.hpp",H+"dd/DdReducer.hpp",H+"DdStructure.hpp"],
  [("DdBuilderMP::construct",H+"dd/DdBuilder.hpp"),("ZddSubsetterMP::subset",H+"dd/DdBuilder.hpp"),("DdReducer::reduceMP_",H+"dd/DdReducer.hpp"),("DdStructure::evaluate",H+"DdStructure.hpp")])

p("P03","Reduction preserves meaning and gives the canonical minimal diagram",
  "BDD reduction keeps the Boolean function, ZDD reduction keeps the family of sets and QDD reduction keeps the set of accepted assignments of every diagram; two diagrams with the same meaning become equal, with the same node count as the mathematically minimal diagram of that kind. Reduction is idempotent, leaves no unreachable or duplicate node, its result does not depend on how the diagram was built, and the marks it puts on edges (whether the empty set is contained) agree with the edges.",
  ["inputs","histories"],"all small diagrams and all small families, for arities 2 to 4, each reduction rule, serial and parallel",
  "Canonicity and minimality are statements about all diagrams; tests compare counts on a few.",
  [H+"dd/DdReducer.hpp",H+"DdStructure.hpp"],
  [("DdReducer::algorithmR/algorithmZdd/reduce_",H+"dd/DdReducer.hpp"),("DdStructure::reduce",H+"DdStructure.hpp")])

p("P04","Subsetting keeps exactly the member sets the other spec accepts",
  "Restricting a ZDD by a specification leaves exactly the sets that both the ZDD and the specification contain, whatever levels either side skips, whatever their top levels are, and whichever of the two ends earlier. Copies of the diagram made beforehand are unaffected.",
  ["inputs","histories"],"all pairs of bounded families / transition tables, reduced and unreduced, serial and parallel flags, arities 2 and 3",
  "Correctness depends on how skipped levels on the two sides line up; only exhaustive pairing reaches every alignment.",
  [H+"DdStructure.hpp",H+"dd/DdBuilder.hpp"],
  [("DdStructure::zddSubset",H+"DdStructure.hpp"),("ZddSubsetter::subset/downTable/downSpec",H+"dd/DdBuilder.hpp")])

p("P05","AND/OR/intersection/union combine specifications exactly",
  "The combined specifications for logical AND, logical OR, set intersection and set union of two or more operands describe exactly the conjunction, disjunction, intersection and union of the operands' functions, for any operand specification kinds, operand counts and level-skipping patterns. Nesting and mixing operators composes correctly.",
  ["inputs","programs"],"all pairs (and bounded triples/quadruples) of families and transition tables over mixed specification kinds",
  "The BDD and ZDD rules for a skipped level differ; only exhaustive operand pairs reach each level alignment and terminal short-cut.",
  [H+"op/BinaryOperation.hpp",H+"DdSpecOp.hpp"],
  [("BddAnd/BddOr/ZddIntersection/ZddUnion",H+"op/BinaryOperation.hpp"),("bddAnd/bddOr/zddIntersection/zddUnion",H+"DdSpecOp.hpp")])

p("P06","Lookahead, unreduction and BDD/ZDD conversion preserve meaning",
  "Looking ahead never changes the function (BDD rule) or family (ZDD rule) a specification describes, never makes the diagram larger, and never stops at a node that its rule removes by looking one step ahead; unreduction over n variables gives a diagram that skips no level yet has the same meaning. Converting BDD to ZDD and ZDD to BDD over n variables represents the same set of assignments for every n not below the top level, and converting back after reduction restores an equal diagram.",
  ["inputs"],"all families/functions on up to 4 variables, all bounded transition tables, each n from the top level upwards, arity 2 and 3",
  "Skipped-level bookkeeping must be right for every pattern of skips, including variables above the root.",
  [H+"op/Lookahead.hpp",H+"op/Unreduction.hpp",H+"DdStructure.hpp"],
  [("BddLookahead/ZddLookahead",H+"op/Lookahead.hpp"),("BddUnreduction/ZddUnreduction",H+"op/Unreduction.hpp"),("bdd2zdd/zdd2bdd",H+"DdStructure.hpp")])

p("P07","Cardinalities are exact, however large",
  "The ZDD cardinality equals the number of sets represented and the BDD cardinality equals the number of satisfying assignments over the stated number of variables, as an exact decimal string of arbitrary length, for every diagram, reduced or not, of every arity, and for every variable count not below the top level. The numeric-type variants agree with the string variant whenever the count fits the type.",
  ["inputs"],"all small diagrams, and parametric diagrams whose counts pass each machine-word boundary up to several hundred levels",
  "Big counts exercise carry, shift and word-size paths that small tests never reach.",
  [H+"eval/Cardinality.hpp",H+"util/BigNumber.hpp",H+"DdStructure.hpp"],
  [("ZddCardinality/BddCardinality",H+"eval/Cardinality.hpp"),("zddCardinality/bddCardinality",H+"DdStructure.hpp")])

p("P08","Iteration visits every member set exactly once",
  "Iterating over a binary ZDD from begin to end produces every set of the represented family exactly once and nothing else, for every diagram, reduced or not, including the empty family and the family holding only the empty set. Independent and copied iterators on one diagram do not disturb each other.",
  ["inputs","histories"],"all families on up to 4 items and all small unreduced diagrams, with interleaved copies of iterators",
  "The backtracking cursor must be right for every pattern of dead branches; tests iterate a few diagrams.",
  [H+"DdStructure.hpp"],[("DdStructure::const_iterator::next",H+"DdStructure.hpp")])

p("P09","Equality means structural identity, unequal meaning is never equal",
  "Comparing two diagrams answers true exactly when they have the same structure (up to sharing of identical sub-diagrams and numbering of nodes); it is reflexive, symmetric and transitive, true for every diagram and its copy, and for two reduced diagrams of the same kind it is true exactly when they represent the same function. Inequality is always its negation.",
  ["inputs"],"all ordered pairs of small diagrams, reduced and unreduced, plus triples for transitivity",
  "An equivalence relation is a statement about all pairs; tests compare a few.",
  [H+"DdStructure.hpp"],[("DdStructure::operator==",H+"DdStructure.hpp")])

p("P10","Bottom-up evaluation hands each node its true children",
  "Evaluation visits every node of the diagram once, from lower to higher levels, passing for each branch the value computed for that child and that child's level, sets terminals by their number, frees a level's values only after every parent has been evaluated, and returns the root's value. The result is the same in serial and parallel mode and the diagram is unchanged.",
  ["inputs","schedules"],"all small diagrams with an evaluator that rebuilds the function, with long edges of every span, arities 2 to 4",
  "Early release of a level still referenced by a long edge only shows on particular skip patterns.",
  [H+"DdStructure.hpp",H+"DdEval.hpp",H+"dd/NodeTable.hpp",H+"dd/DataTable.hpp"],
  [("DdStructure::evaluate",H+"DdStructure.hpp"),("NodeTableEntity::makeIndex/lowerLevels",H+"dd/NodeTable.hpp")])

p("P11","Diagram objects behave as independent values under any history",
  "Copying, assigning (including self-assignment), reducing, subsetting, converting, evaluating, iterating and destroying diagrams in any order never changes what any other diagram object represents, and each object always represents the value a plain value-semantics model predicts. No operation sequence reads freed memory or leaks.",
  ["histories"],"all operation sequences up to a depth bound over three diagram variables",
  "Sharing is reference-counted with copy-on-write; defects need a particular sequence of copies and mutations.",
  [H+"dd/NodeTable.hpp",H+"DdStructure.hpp"],
  [("NodeTableHandler ref/deref/privateEntity/derefLevel",H+"dd/NodeTable.hpp"),("DdStructure copy/assign/zddSubset/reduce",H+"DdStructure.hpp")])

p("P12","State-merging specifications get exactly the merge outcome they ask for",
  "When a specification merges states at a node, the construction honours each answer: merged states share one node, and a state rejected in favour of another is forwarded to the 0-terminal while the other survives, so that every path of the diagram leads where the specification's merge decisions send it. This holds for construction and subsetting, in serial and parallel mode.",
  ["inputs","histories","schedules"],"all bounded transition tables whose merge answers range over every combination",
  "The three merge answers times the order of state arrival is a combinatorial space; no existing test uses rejection.",
  [H+"dd/DdBuilder.hpp",H+"DdSpec.hpp"],
  [("DdBuilder::construct (merge_states)",H+"dd/DdBuilder.hpp"),("DdBuilderMP/ZddSubsetter/ZddSubsetterMP merging",H+"dd/DdBuilder.hpp")])

p("P13","Every state object is constructed, copied and destroyed exactly once",
  "For specifications with non-trivial state objects, every library operation (construction, subsetting, combination, lookahead, dumping, instance search, counting; serial and parallel) destroys every state it created exactly once, never uses a state before creation or after destruction, and leaves none alive at the end. States held alive at the same time never overlap in memory.",
  ["inputs","histories","schedules"],"all bounded transition tables run through every operation with an instrumented state type that tracks its lifetime",
  "Leaks and double destruction do not change results, so ordinary tests cannot see them.",
  [H+"dd/DdBuilder.hpp",H+"DdSpec.hpp",H+"dd/DepthFirstSearcher.hpp",H+"dd/PathCounter.hpp",H+"op/BinaryOperation.hpp",H+"op/Lookahead.hpp",H+"util/MyList.hpp",H+"util/MemoryPool.hpp"],
  [("get_root/get_copy/destruct protocol",H+"DdSpec.hpp"),("DdBuilder/ZddSubsetter state handling",H+"dd/DdBuilder.hpp"),("DepthFirstSearcher",H+"dd/DepthFirstSearcher.hpp")])

p("P14","Instance search returns a member, or reports that there is none",
  "Searching for one instance of any specification or diagram returns a list of (level, value) choices that, followed through the specification, ends at the 1-terminal, in level order with each visited level listed exactly once; it throws a runtime error exactly when the specification accepts nothing. Whatever random choices are made, the outcome satisfies this.",
  ["inputs","fault_sequences"],"all bounded transition tables with every answer of the random source enumerated",
  "The search draws random branches; a test sees one draw.",
  [H+"DdSpec.hpp",H+"dd/DepthFirstSearcher.hpp"],[("DepthFirstSearcher::findOneInstance",H+"dd/DepthFirstSearcher.hpp")])

p("P15","Dumps describe exactly the dumped diagram",
  "The DOT output of any specification or diagram, read back as a graph, is exactly its reachable state graph with the edges to the 0-terminal left out: same levels, same labels as the specification prints, same edges per branch value and the same function; the table dump of a binary diagram lists exactly its nodes and root so that reading it back restores the same family.",
  ["inputs"],"all bounded transition tables, arities 2 and 3, all families on up to 3 items",
  "Dump tests inspect no output; edge style and node numbering must be right for each shape.",
  [H+"dd/DdBuilder.hpp",H+"DdStructure.hpp",H+"DdSpec.hpp"],
  [("DdDumper::dump",H+"dd/DdBuilder.hpp"),("DdStructure::dumpSapporo",H+"DdStructure.hpp")])

p("P16","The hash table and hash map behave as a set and a map",
  "Over any sequence of insertions, lookups, clears, re-initialisations, copies and moves, the hash table answers as a mathematical set and the hash map as a mathematical map: an equal element is found iff it was added, adding returns the element already present, size counts distinct elements, and iteration yields each once. This holds for any hash function, including one that collides always, and across every growth of the table.",
  ["histories","inputs"],"all operation sequences up to a depth over a few keys and several hash functions, and fills through each growth step",
  "Collision chains and rehash points depend on the sequence of operations; tests never call the table directly.",
  [H+"util/MyHashTable.hpp"],[("MyHashTable::add/get/rehash/clear",H+"util/MyHashTable.hpp"),("MyHashMap::operator[]/getValue",H+"util/MyHashTable.hpp")])

p("P17","Vectors, lists, pools and tables store exactly what was put in",
  "Over any sequence of their operations the vector, the block lists, the memory pools and the per-level data tables behave as their obvious sequence models: elements keep their values and addresses as documented, iteration order is insertion order as documented, objects are constructed and destroyed exactly once, and allocated cells never overlap. This holds for every element size and across each block boundary.",
  ["histories","inputs"],"all operation sequences up to a depth, and size sweeps across every block boundary",
  "Block-boundary and resize behaviour depends on element size and on the history of operations.",
  [H+"util/MyVector.hpp",H+"util/MyList.hpp",H+"util/MemoryPool.hpp",H+"dd/DataTable.hpp"],
  [("MyVector",H+"util/MyVector.hpp"),("MyList/MyListOnPool",H+"util/MyList.hpp"),("MemoryPool(s)",H+"util/MemoryPool.hpp"),("DataTable",H+"dd/DataTable.hpp")])

p("P18","Big-number arithmetic is exact",
  "Storing, adding, shifting, dividing by a small number, converting, comparing and printing the multi-word natural numbers agree with exact integer arithmetic for all values, including every carry across word boundaries and values that occupy different numbers of words. Equal values compare equal and print identically whatever sequence of operations produced them.",
  ["inputs","histories"],"all operand pairs from a boundary alphabet of word patterns, and all operation sequences up to a depth",
  "Carries across 63-bit words occur only for specific large operands.",
  [H+"util/BigNumber.hpp"],[("BigNumber::store/add/shiftLeft/print",H+"util/BigNumber.hpp"),("FixedBigNumber",H+"util/BigNumber.hpp")])

p("P19","Small-integer set types behave as mathematical sets",
  "The bit-set and sorted-array set types answer membership, insertion, removal, pulling out (removal with renumbering), intersection and containment tests, comparison, hashing, size and iteration exactly as finite sets of integers do, touching no memory outside the set, over every sequence of operations within their capacity.",
  ["histories","inputs"],"all operation sequences up to a depth, across word boundaries",
  "No existing test touches these types.",
  [H+"util/MySet.hpp"],[("MyBitSet/MyBitSetOnPool/MySet/MySmallSet/MySetOnPool",H+"util/MySet.hpp")])

p("P20","Size, degree and linear constraints accept exactly the solutions",
  "The size-constraint, degree-constraint and linear-constraint specifications accept a selection exactly when its size lies in the allowed set, when every constrained vertex has an allowed degree, or when every weighted sum lies between its bounds; an unconstrained part imposes nothing. Integer ranges contain exactly start, start+step, ... up to the end.",
  ["inputs"],"all small graphs with all constraint assignments, all small weight vectors and bounds with several simultaneous constraints, all ranges",
  "Early acceptance/rejection and state compression must be right for every bound; tests sample a few sizes.",
  [H+"spec/SizeConstraint.hpp",H+"spec/DegreeConstraint.hpp",H+"spec/LinearConstraints.hpp",H+"util/IntSubset.hpp"],
  [("SizeConstraint",H+"spec/SizeConstraint.hpp"),("DegreeConstraint",H+"spec/DegreeConstraint.hpp"),("LinearConstraints",H+"spec/LinearConstraints.hpp"),("IntRange",H+"util/IntSubset.hpp")])

p("P21","Path and cycle specifications accept exactly the paths and cycles",
  "For any graph without self-loops and at least one pair of coloured vertices, the path specifications accept exactly the edge sets that connect the two vertices of each colour by vertex-disjoint simple paths and use nothing else; on an uncoloured graph the cycle specifications accept exactly the single simple cycles; the Hamiltonian variants accept exactly those that cover every vertex. Lookahead on or off and the map-based variant give the same family.",
  ["inputs","configurations"],"all small graphs with all edge orders up to a bound and all colourings into pairs",
  "Frontier bookkeeping depends on vertex arrival and departure order, hence on graph and edge order.",
  [H+"spec/PathZdd.hpp",H+"spec/PathZddByStdMap.hpp"],
  [("PathZddBase (PathZdd, HamiltonPathZdd, CycleZdd, HamiltonCycleZdd)",H+"spec/PathZdd.hpp"),("PathZddByStdMap",H+"spec/PathZddByStdMap.hpp")])

p("P22","Frontier-based search accepts exactly the requested edge partitions",
  "For any graph without self-loops and any colouring, the frontier-based search specification accepts exactly the edge sets in which each colour's vertices are connected together, different colours are apart, the number of uncoloured edge components is as requested (any number when negative), and no cycle exists when loops are forbidden. Lookahead on or off gives the same family.",
  ["inputs","configurations"],"all small graphs, colourings and parameter values",
  "Component bookkeeping on the frontier depends on the order in which vertices leave it.",
  [H+"spec/FrontierBasedSearch.hpp"],[("FrontierBasedSearch",H+"spec/FrontierBasedSearch.hpp")])

p("P23","Graph input and frontier tables describe the given graph",
  "Reading or adding edges gives a graph with exactly the distinct undirected edges in their given order, numbered consistently between names, vertex numbers and edge numbers; for every edge the first active vertex, the last and second-last uses of its ends, the last edge and the point at which all colours have appeared are correct; colour numbers and pair mates reflect the groups given. Input that is malformed, names unknown vertices or exceeds the limits is rejected with an exception, never altered or cut off silently.",
  ["inputs","histories"],"all edge sequences up to a bound over a few names (with repeats and reversals) and all colourings, and update histories",
  "The per-edge flags drive every frontier-based spec; tests do not look at them.",
  [H+"util/Graph.hpp"],[("Graph::update/readEdges/readAdjacencyList/readVertexGroups",H+"util/Graph.hpp")])

p("P24","Path counting over a specification equals the cardinality",
  "Counting the paths of a specification without building its diagram gives exactly the number of accepted paths, the same as constructing the diagram and counting, for the exact, the fast and the machine-word variants, whatever the arity, the level skips and the magnitude of the count.",
  ["inputs"],"all bounded transition tables, and parametric specs whose counts pass each word boundary",
  "The counter keeps partial sums per state with its own storage sizing; errors appear at skips and word boundaries.",
  [H+"dd/PathCounter.hpp"],[("countPaths/PathCounter",H+"dd/PathCounter.hpp")])

p("P25","Diagram exchange formats and library bridges are faithful",
  "A table in the exchange format that the set-operations tool reads and writes is imported as exactly the family it describes, for any numbering order of its nodes; exporting a diagram through the external BDD/ZDD package's interface builds exactly the same function or family there, and importing from the package yields exactly the package's family or function.",
  ["inputs"],"all families on up to 4 items, in several node orders and universe sizes, and all functions on up to 4 variables",
  "Item numbering is reversed between the sides, and a test would need the external tools.",
  [H+"spec/GraphillionZdd.hpp",H+"spec/SapporoZdd.hpp",H+"spec/SapporoBdd.hpp",H+"eval/ToZBDD.hpp",H+"eval/ToBDD.hpp"],
  [("GraphillionZdd::load",H+"spec/GraphillionZdd.hpp"),("SapporoZdd/SapporoBdd",H+"spec/SapporoZdd.hpp"),("ToZBDD/ToBDD",H+"eval/ToZBDD.hpp")])

p("P26","The queens application's specifications enumerate exactly the solutions",
  "For each board size the queens, rooks, first-column-restricted, coloured, one-hot and interleaving specifications represent exactly the placements they stand for, and the program reports the right number of solutions under every combination of its options.",
  ["inputs","configurations"],"all board sizes up to a bound, all option combinations, all pairs of small families for interleaving",
  "The repository has no test of the applications.",
  ["apps/ddqueens/NQueenZdd.hpp","apps/ddqueens/NAryZdd.hpp","apps/ddqueens/ColoredZdd.hpp","apps/ddqueens/ZddInterleave.hpp","apps/ddqueens/ddqueens.cpp"],
  [("NQueenZddBase/ColoredNQueenZddBase","apps/ddqueens/NQueenZdd.hpp"),("main","apps/ddqueens/ddqueens.cpp")])

p("P27","The number-link solver finds exactly the solutions of every board",
  "For every board of at least two boxes the solver with the all-solutions option enumerates exactly the ways to join equal numbers by disjoint simple paths within the allowed number of blank boxes, each once, with the vertical links reconstructed consistently; without that option every reported answer is a solution and, with no blank limit, every solvable board gets an answer and a unique solution is reported.",
  ["inputs","configurations"],"all boards up to a size bound with all placements of one or two number pairs, every blank bound",
  "The repository has no test of the applications; dead-end cases are shape specific.",
  ["apps/numberlink/NumlinZdd.cpp","apps/numberlink/DegreeZdd.cpp","apps/numberlink/ConstraintZdd.cpp","apps/numberlink/Board.cpp","apps/numberlink/ddnumlin.cpp"],
  [("NumlinZdd::getChild","apps/numberlink/NumlinZdd.cpp"),("DegreeZdd::getChild","apps/numberlink/DegreeZdd.cpp"),("Board","apps/numberlink/Board.cpp")])

p("P28","The path-enumeration program answers right for every option set",
  "For any input graph and terminal file the path-enumeration program reports the exact number of solutions and dumps exactly those solutions, for every combination of problem type, algorithm choice, filters, size bounds and parallel option; options that select only an algorithm never change the answer.",
  ["inputs","configurations"],"all small graphs under all option combinations up to a bound",
  "Option combinations multiply and no test runs the program.",
  ["apps/ddpaths/ddpaths.cpp",H+"util/Graph.hpp"],[("main","apps/ddpaths/ddpaths.cpp")])

p("P29","The CNF programs list exactly the satisfying assignments",
  "For any CNF formula in DIMACS format with at least one clause line, both CNF programs report the exact number of satisfying assignments, print exactly those assignments once each, dump diagrams of the formula (or of its clause set), and refuse malformed input; clause sorting, reachability analysis with any size limit, clause mapping and the parallel option never change the answer, and the external BDD package is entered by one thread at a time with balanced references.",
  ["inputs","configurations"],"all formulas up to a size bound under all option sets and input layouts",
  "The programs need an external package and have no tests; pruning and clause merging depend on the clause order and on the frontier.",
  ["apps/cnfbdd/CnfToBdd.cpp","apps/cnfbdd/CnfToBdd.hpp","apps/cnfbdd/Cudd.hpp","apps/cnfbdd/cnfbdd.cpp","apps/cnf2ztdd2bdd/CnfToZtdd.cpp","apps/cnf2ztdd2bdd/CnfToZtdd.hpp","apps/cnf2ztdd2bdd/ZtddToCudd.hpp","apps/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp"],
  [("CnfToBdd::getChild/badState","apps/cnfbdd/CnfToBdd.cpp"),("CnfToZtdd::getChild","apps/cnf2ztdd2bdd/CnfToZtdd.cpp")])

p("P30","The graph-enumeration example program answers right for every option set",
  "For any input graph, vertex grouping and imported family the graph-enumeration example program reports the exact number of edge sets that satisfy all given restrictions (degree options, spanning, forests, component count, size bounds, colours) and belong to the imported family, dumps exactly those (at most as many as asked for), and refuses bad input; the lookahead option never changes the answer.",
  ["inputs","configurations"],"all small graphs, groupings and imported families under all option combinations up to a bound",
  "Option combinations multiply, and the program needs an external package and has no test.",
  ["apps/graphillion/graphillion_example.cpp",H+"spec/GraphillionZdd.hpp"],[("main","apps/graphillion/graphillion_example.cpp"),("dumpSapporo",H+"DdStructure.hpp")])

p("P31","An exception thrown by user code leaves all diagrams usable",
  "When any callback of a specification or evaluator (root, child, merge, print, hash, compare, copy, terminal, node, result, initialisation) throws during serial construction, subsetting, evaluation, dumping, searching or counting, the exception reaches the caller unchanged; every other diagram and every copy keeps its meaning and value, constant operands are unchanged, the object that failed can be assigned and reused, repeating the operation gives the right result, no state is destroyed twice or used after its end, and the library loses no memory of its own.",
  ["fault_sequences","inputs","histories"],"every callback invocation of every operation on every bounded transition table as the point of failure",
  "The failure point ranges over every call of every callback; tests never throw.",
  [H+"dd/DdBuilder.hpp",H+"DdStructure.hpp",H+"dd/NodeTable.hpp",H+"dd/DepthFirstSearcher.hpp",H+"dd/PathCounter.hpp"],
  [("DdStructure construct_/zddSubset/evaluate",H+"DdStructure.hpp"),("DdBuilder/ZddSubsetter/DdDumper",H+"dd/DdBuilder.hpp")])

p("P32","Progress messages change no result, report true numbers and stay nested",
  "Switching progress messages on never changes the result of construction, subsetting, reduction, evaluation, conversion, counting or dumping, and with messages off nothing is printed. With messages on, every report that is begun is closed exactly once (as done with the true node count or greatest level width, or as aborted when an exception leaves it), the nesting depth returns to where it was, text of different reports never shares a line, and progress marks are in proportion to the steps made, for any nesting and history of reports and any passing of time. Printing resource usage leaves the stream's number format unchanged.",
  ["histories","inputs","fault_sequences"],"all sequences of message-handler operations up to a depth under a controlled clock; all bounded transition tables with messages on, off and aborted at each callback",
  "Nesting, clock and abort points multiply; tests run with messages off or ignore the text.",
  [H+"util/MessageHandler.hpp",H+"util/ResourceUsage.hpp",H+"DdStructure.hpp",H+"dd/DdSweeper.hpp",H+"dd/PathCounter.hpp"],
  [("MessageHandler_",H+"util/MessageHandler.hpp"),("ResourceUsage operator<<",H+"util/ResourceUsage.hpp"),("DdSweeper::update",H+"dd/DdSweeper.hpp")])

p("P33","Every build configuration gives the same correct results",
  "Compiled with or without OpenMP, with or without assertions (NDEBUG) and debugging code (DEBUG), at any optimisation level and by either compiler, construction, subsetting, reduction, operators, wrappers, conversion, evaluation, counting, searching, iteration, comparison and dumping give the same correct results; asking for parallel mode in a build without OpenMP works and gives the serial result; no operation relies on undefined behaviour.",
  ["configurations","inputs"],"all bounded state graphs through the whole operation set in each of several build configurations",
  "The existing tests are built one way only; conditional code is otherwise never compiled or run.",
  [H+"dd/DdBuilder.hpp",H+"dd/DdReducer.hpp",H+"DdStructure.hpp",H+"DdEval.hpp"],
  [("DdBuilderMP/ZddSubsetterMP without _OPENMP",H+"dd/DdBuilder.hpp"),("DdReducer",H+"dd/DdReducer.hpp"),("evaluate",H+"DdStructure.hpp")])

if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P),"properties")

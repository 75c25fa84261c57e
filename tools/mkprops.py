#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
P = []
def prop(id, title, st, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))
NOT = "The 30 existing tests only exercise the vendored CUDD; no planner code is run by any of them. "
IN = "every well-formed grounded problem (total-order, partial-order, recursive, zero-cost, multi-valued variables, redundant orderings)"

prop("P01", "Plans printed by progression search are solutions",
 "Whatever plan the progression search prints between ==> and <== is a real solution of the input problem: the actions, in the printed order, are executable from the initial state and reach the state goal, and the printed decompositions form a tree rooted in the initial task that uses only methods of the problem, yields exactly these actions and respects every method's ordering. This holds for every choice of heuristics, g-value, weight, seed, visited-list option and for suboptimal search.",
 ["inputs", "configurations"], "All inputs and all combinations of search options: " + IN + ".",
 NOT + "A plan is wrong only for particular interleavings of partially ordered tasks and particular decomposition choices, which samples miss.",
 ["src/ProgressionNetwork.cpp", "src/Model.cpp", "src/search/PriorityQueueSearch.h"],
 [("successor generation", "Model::apply / Model::decompose"), ("solution extraction", "extractSolutionFromSearchNode")], ["stdout of the engine"])
prop("P02", "Progression search is complete: unsolvable means unsolvable",
 "When progression search reports that a problem is proven unsolvable, no solution exists; conversely, on a solvable problem it reports a solution (given time and memory). This holds for every heuristic, g-value, seed and duplicate-detection setting that is documented as complete.",
 ["inputs", "configurations"], "All inputs and all complete search configurations: " + IN + ".",
 NOT + "Refuting the claim needs the one pruned branch that contained the only solution.",
 ["src/search/PriorityQueueSearch.h", "src/VisitedList.cpp", "src/Model.cpp", "src/heuristics/rcHeuristics/hhRC2.h"],
 [("search loop", "PriorityQueueSearch::search"), ("duplicate detection", "VisitedList::insertVisi"), ("pruning by heuristic", "hhRC2::setHeuristicValue")], ["- Status: line"])
prop("P03", "Cost-optimal search returns a cheapest solution",
 "With the action-cost g-value, weight 1 and an admissible heuristic (zero, or the relaxed-composition heuristic with LM-cut or filter estimating costs), the plan found has the minimal sum of action costs over all solutions of the problem.",
 ["inputs", "configurations"], "All inputs with admissible cost configurations: " + IN + ".",
 NOT + "Optimality is a statement about every other solution of the problem.",
 ["src/search/PriorityQueueSearch.h", "src/search/fringes/OneQueueWAStarFringe.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/VisitedList.cpp"],
 [("A* expansion order", "OneQueueWAStarFringe"), ("re-opening of cheaper paths", "VisitedList::insertVisi")], ["- Total costs of actions"])
prop("P04", "Blind search by path length finds a shortest derivation",
 "With the zero heuristic, weight 1 and the path g-value (which counts decompositions and actions) the solution has the minimal number of decompositions plus actions over all solutions, and with the mixed g-value the minimal sum of action costs and number of decompositions.",
 ["inputs", "configurations"], "All inputs: " + IN + ".", NOT + "Minimality is a statement about every other solution.",
 ["src/search/PriorityQueueSearch.h", "src/search/fringes/OneQueueWAStarFringe.cpp", "src/Model.cpp"],
 [("modification depth bookkeeping", "Model::apply / Model::decompose"), ("g-values", "OneQueueWAStarFringe::push")], ["- Found solution of length"])
prop("P05", "Reported solution length and cost are those of the plan",
 "The solution length and total action cost the progression search reports are the number of actions plus decompositions and the summed action costs of the very plan it prints.",
 ["inputs", "configurations"], "All inputs and configurations that find a plan.",
 NOT + "The counters are maintained incrementally along every transition, including the greedy and single-modification ones, so they can drift apart on some path only.",
 ["src/ProgressionNetwork.cpp", "src/search/PriorityQueueSearch.h", "src/Model.cpp"],
 [("length and cost counters", "searchNode::modificationDepth, actionCosts"), ("printing", "PriorityQueueSearch::search")], ["stdout of the engine"])
prop("P06", "Only equivalent search nodes are treated as duplicates",
 "Duplicate detection discards a search node only if a node with the same state and an isomorphic task network (same tasks, same partial order) was stored before with no greater cost, for every combination of hashing and ordering options except the two the planner announces as incomplete (no topological order on totally ordered or parallel-sequence problems, no isomorphism test on partially ordered ones); on totally ordered and parallel-sequence problems it does recognise every such node.",
 ["inputs", "histories", "configurations"], "All pairs and sequences of search nodes that reach the visited list, for totally ordered, parallel-sequence and partially ordered problems.",
 NOT + "A confusion needs two particular networks whose encodings collide.",
 ["src/VisitedList.cpp", "src/VisitedList.h", "src/intDataStructures/HashTable.cpp", "src/intDataStructures/CompressedSequenceSet.cpp"],
 [("network encodings", "state2Int, dfsdfs, to_dfs"), ("isomorphism test", "matching / matchingGenerate"), ("hash tables and tries", "HashTable::get, compressed_sequence_trie::insert")])
prop("P07", "Progression generates exactly the HTN successors",
 "Decomposing an unconstrained task by a method yields the network in which the task is replaced by the method's subtasks with its ordering inherited, and applying an executable unconstrained action yields the network without it and the state with deletes removed before adds are set; no successor is added or lost except by the documented commutation (greedy execution of effect-free executable actions, expansion of one chosen abstract task).",
 ["inputs", "histories"], "All reachable search nodes of all inputs: " + IN + ".",
 NOT + "Every reachable network shape matters, including joins, forks and repeated tasks.",
 ["src/Model.cpp", "src/ProgressionNetwork.cpp"],
 [("progression", "Model::decompose / Model::apply / progressEffectLess"), ("ordering inheritance", "planStep::successorList")])
prop("P08", "Heuristics call a node a dead end only if it is one",
 "Whenever a heuristic reports that the goal is unreachable from a search node, no solution can be reached from that node. This holds for all selectable heuristics and after any sequence of evaluations by the same heuristic object.",
 ["inputs", "histories", "configurations"], "All reachable nodes, heuristics and evaluation orders.",
 NOT + "The relaxed model is built once and reset incrementally between evaluations, so errors depend on the history of evaluations.",
 ["src/heuristics/rcHeuristics/RCModelFactory.cpp", "src/heuristics/rcHeuristics/hhRC2.h", "src/heuristics/rcHeuristics/hsAddFF.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/heuristics/rcHeuristics/hsFilter.cpp"],
 [("relaxed composition model", "RCModelFactory::getRCmodelSTRIPS"), ("state and goal update", "hhRC2::setHeuristicValue")])
prop("P09", "Admissible heuristics never overestimate the remaining cost",
 "The zero, filter and (without the correction by task counts) LM-cut based relaxed-composition estimates of remaining cost, in the cost measure the search was given, never exceed the cheapest cost of completing the search node to a solution, at every node reachable in a search.",
 ["inputs", "histories", "configurations"], "All reachable nodes and evaluation orders.",
 NOT + "Overestimation shows only where the cuts or the task-count correction count one action twice.",
 ["src/heuristics/rcHeuristics/hsLmCut.cpp", "src/heuristics/rcHeuristics/hhRC2.h", "src/heuristics/rcHeuristics/hsFilter.cpp", "src/Model.cpp"],
 [("LM-cut", "hsLmCut::getHeuristicValue"), ("task-count correction", "hhRC2::setHeuristicValue")])
prop("P10", "Node-level task statistics match the task network",
 "In every search node, the recorded multiset of contained tasks equals the tasks of its network, and the recorded reachable actions are exactly those that can still be introduced by decomposing the tasks of the network, whatever sequence of decompositions and actions led to the node.",
 ["inputs", "histories"], "All reachable nodes of all inputs.",
 NOT + "The statistics are maintained incrementally and depend on the path to the node.",
 ["src/Model.cpp", "src/ProgressionNetwork.cpp"],
 [("incremental contained-task counts", "searchNode::containedTasks"), ("reachability maintenance", "Model::updateReachability, updateTaskCounterM/A")])
prop("P11", "Analyses of the decomposition hierarchy are exact",
 "The properties derived from the input on loading are true of it: the stored method orderings are the transitive reduction (or, where asked for, closure) of the given ones, the classifications totally-ordered and cyclic/acyclic are correct, strongly connected components group exactly the mutually reachable tasks, and the minimal implied cost and distance per task are lower bounds that some decomposition attains.",
 ["inputs"], "All inputs: " + IN + ".", NOT + "Graph analyses fail on particular shapes (joins, nested cycles, repeated subtasks).",
 ["src/Model.cpp"],
 [("ordering reduction and classification", "Model::computeTransitiveChangeOfMethodOrderings"), ("Tarjan", "Model::calcSCCs"), ("minimal implied costs", "Model::calcMinimalImpliedX")], ["- Instance is totally-ordered: line", "- The problem is acyclic line"])
prop("P12", "HDDL export describes the same problem",
 "The HDDL domain and problem written by --writeInputToHDDL have exactly the same solutions (action sequences and costs aside) as the problem that was read: the same tasks, methods, subtasks, transitive ordering, preconditions, effects, initial state and goal up to renaming.",
 ["inputs"], "All inputs, including methods with preconditions and no-op tasks.", NOT,
 ["src/Model.cpp"], [("export", "Model::writeToPDDL")], ["the two written files"])
prop("P13", "Plans of the symbolic planner are solutions",
 "When the BDD-based planner announces that the goal is reached it prints a plan, and whatever plan it prints is a solution of the input (totally ordered, at most two subtasks per method): executable, reaching the goal and generated by the printed decomposition tree.",
 ["inputs"], "All totally ordered inputs in two-normal form.", NOT + "CUDD's own tests do not touch the planner's extraction of plans from layered BDDs.",
 ["src/symbolic_search/automaton.cpp", "src/symbolic_search/transition_relation.cpp", "src/symbolic_search/sym_variables.cpp"],
 [("plan extraction", "generatePredecessor / extract"), ("transition relations", "TransitionRelation::init / image")], ["stdout of the engine"])
prop("P14", "The symbolic planner is complete and its cost layers are optimal",
 "The BDD-based planner reports a problem unsolvable only if it is, and otherwise the cost layer in which it announces the goal is the minimal action cost of any solution.",
 ["inputs"], "All totally ordered inputs in two-normal form.", NOT + "Both are statements about every derivation of the problem.",
 ["src/symbolic_search/automaton.cpp", "src/symbolic_search/transition_relation.cpp", "src/symbolic_search/sym_variables.cpp"],
 [("cost-layered saturation", "build_automaton")], ["Goal reached / Problem is unsolvable lines"])
prop("P15", "Plans of the SAT planner are solutions",
 "Whatever plan the SAT-based planner prints, first or improved, is a solution of the input, for every combination of pruning, block compression, mutex encoding, separate method-precondition leaves and for total- as well as partial-order problems.",
 ["inputs", "configurations"], "All inputs and option combinations.", NOT + "The SAT planner is not even linked in the tested build.",
 ["src/sat/sat_planner.cpp", "src/sat/pdt.cpp", "src/sat/sog.cpp", "src/sat/partial_order.cpp", "src/sat/state_formula.cpp", "src/sat/disabling_graph.cpp", "src/sat/sat_encoder.cpp"],
 [("encoding", "createFormulaForDepth"), ("decoding", "printSolution")], ["stdout of the engine"])
prop("P16", "The SAT planner's formula at depth d is satisfiable iff a plan exists there",
 "For every depth bound the SAT planner tries, its formula is satisfiable exactly if the problem has a solution whose decomposition tree is no deeper than the bound; so it stops at the smallest such depth, whatever pruning and encoding options are chosen.",
 ["inputs", "configurations"], "All inputs, depths and option combinations.", NOT + "An over-constrained encoding loses single plans only.",
 ["src/sat/sat_planner.cpp", "src/sat/pdt.cpp", "src/sat/sog.cpp", "src/sat/partial_order.cpp", "src/sat/state_formula.cpp", "src/sat/disabling_graph.cpp", "src/Invariants.cpp"],
 [("path decomposition tree", "PDT::expandPDTUpToLevel"), ("pruning", "filter_leafs_ff / filter_leafs_Rintanen")], ["Generating formula for depth / Solver state lines"])
prop("P17", "Derived mutexes and invariants hold in every reachable state",
 "Every binary invariant the engine extracts or computes (from mutex groups, variables, resolution and the h2-style fixpoint) holds in every state reachable from the initial state by executable actions.",
 ["inputs", "histories"], "All inputs with true mutex information and all reachable states.", NOT + "An invariant is a statement about all reachable states.",
 ["src/Invariants.cpp"], [("resolution", "extract_invariants_from_parsed_model"), ("fixpoint", "compute_Rintanen_Invariants")])
prop("P18", "The translation to SAS+ preserves solvability within its bound",
 "For every encoding (push, total-order, parallel sequences, partial-order STRIPS and conditional effects) the generated classical problem is solvable only if the hierarchical problem is, and is solvable once the progression bound suffices for some solution.",
 ["inputs", "configurations"], "All inputs, encodings and bounds.", NOT + "Equisolvability is about all plans of both problems.",
 ["src/translation/htnToSAS.cpp", "src/translation/translationController.cpp"],
 [("encodings", "HTNToSASTranslation::tohtnToStrips, htnToCondSorted, htnPS, htnToStrips"), ("output", "writeToFastDown")], ["the generated SAS+ file"])
prop("P19", "Classical plans are translated back to solutions",
 "Every plan a classical planner finds for the generated SAS+ problem is turned by the engine into a solution of the hierarchical problem, with real costs preserved when they are asked for.",
 ["inputs", "configurations"], "All inputs, encodings and plans of the generated problem.", NOT,
 ["src/translation/htnToSAS.cpp", "src/translation/translationController.cpp"],
 [("plan decoding", "HTNToSASTranslation::planToHddl")], ["stdout of the engine"])
prop("P20", "Visited-state stores behave as exact maps",
 "The compressed-sequence tries and hash tables used for duplicate detection behave as exact maps from keys to payloads under every sequence of insertions: a key is reported as known exactly if it was inserted before, and its payload is the last one stored.",
 ["histories", "inputs"], "All operation sequences over keys of all lengths, including prefixes of each other and long shared prefixes.", NOT + "Splits and merges of trie nodes depend on the insertion history.",
 ["src/intDataStructures/CompressedSequenceSet.cpp", "src/intDataStructures/SequenceSet.cpp", "src/intDataStructures/HashTable.cpp"],
 [("trie", "compressed_sequence_trie::insert"), ("hash table", "hash_table::get")])
prop("P21", "Priority queues and integer sets of the heuristics are exact",
 "The integer heaps pop elements in order of their current keys, and the set and bucket structures used by the heuristics contain exactly the elements inserted and not removed, under every sequence of operations including clearing and reuse.",
 ["histories"], "All operation sequences.", NOT + "The structures are reused between evaluations with partial resets.",
 ["src/intDataStructures/IntPairHeap.h", "src/intDataStructures/bucketSet.cpp", "src/intDataStructures/bIntSet.cpp", "src/intDataStructures/noDelIntSet.cpp", "src/intDataStructures/FlexIntStack.cpp", "src/intDataStructures/IntStack.cpp", "src/intDataStructures/IntUtil.cpp"],
 [("binary heap", "IntPairHeap::pop"), ("sets", "noDelIntSet, bIntSet, bucketSet")])
prop("P22", "Landmarks hold in every solution",
 "Every landmark the engine extracts for a problem or search node - facts, tasks and methods from the AND/OR graphs and the local analysis, disjunctions of actions and methods from LM-cut - occurs in every solution from there, and nothing its planning graph calls unreachable occurs in any.",
 ["inputs", "histories"], "All inputs and search nodes.", NOT + "A landmark is a statement about all solutions.",
 ["src/heuristics/landmarks/lmExtraction/LmCausal.cpp", "src/heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.cpp", "src/heuristics/landmarks/lmExtraction/LmAoNode.cpp", "src/heuristics/planningGraph.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/heuristics/rcHeuristics/hhRC2.h"],
 [("landmark fixpoints", "LMsInAndOrGraphs::generateAndOrLMs, generateLocalLMs, LmCausal::calcLMs"), ("cuts", "hhRC2::setHeuristicValue"), ("reachability", "planningGraph::calcReachability")])
prop("P23", "Runs are reproducible for a given seed",
 "Two runs of the progression search on the same input with the same options and seed perform the same search and print the same plan.",
 ["inputs", "configurations", "histories"], "All inputs, options and seeds.", NOT,
 ["src/SearchEngine.cpp", "src/search/PriorityQueueSearch.h", "src/Model.cpp", "src/search/fringes/OneQueueWAStarFringe.cpp"],
 [("seeding", "main"), ("random choices", "rand() in Model and fringe")], ["stdout of the engine"])
prop("P24", "Parallel-sequence and uniqueness shortcuts never change results",
 "Problems classified as parallel sequences or unique-path are handled with dedicated encodings, and the verdict and optimum are the same as with these optimisations disabled.",
 ["inputs", "configurations"], "All inputs whose initial method consists of several chains, forks or joins over totally ordered tasks.", NOT + "Only particular initial networks are affected.",
 ["src/Model.cpp", "src/VisitedList.cpp"],
 [("classification", "Model::computeTransitiveChangeOfMethodOrderings"), ("sequence encoding", "to_dfs in VisitedList.cpp")])

CT = "The CUDD tests replay 30 fixed runs and compare printed statistics; "
C = "src/symbolic_search/cudd-3.0.0/cudd/"
prop("C01", "BDD operations compute the Boolean functions they are named for",
 "Every BDD operation (and, or, xor, xnor, nand, nor, if-then-else, implication and intersection tests, the bounded variants when they return a result) returns the diagram of exactly that function of its operands, and equal functions are always represented by the identical node.",
 ["inputs", "histories"], "All functions over a bounded number of variables and all histories of operations, cache states and reference counts.", CT + "operands and histories not on these runs are not compared with the function's definition.",
 [C + "cuddBddIte.c", C + "cuddTable.c", C + "cuddCache.c", C + "cuddRef.c"],
 [("apply recursions", "cuddBddAndRecur, cuddBddIteRecur, cuddBddXorRecur"), ("unique table", "cuddUniqueInter"), ("computed table", "cuddCacheLookup2")])
prop("C02", "Quantification, cofactors, composition and renaming are exact",
 "Existential and universal quantification, relational products, Boolean difference, cofactors, composition, vector composition, permutation, variable swapping and mapping return exactly the function given by their definition.",
 ["inputs", "histories"], "All functions, cubes and substitutions over a bounded number of variables.", CT + "substitutions that cross levels in unusual ways are not reached.",
 [C + "cuddBddAbs.c", C + "cuddAndAbs.c", C + "cuddCof.c", C + "cuddCompose.c", C + "cuddGenCof.c"],
 [("quantification", "cuddBddExistAbstractRecur, cuddBddAndAbstractRecur"), ("substitution", "cuddBddComposeRecur, Cudd_bddPermute, Cudd_bddSwapVariables")])
prop("C03", "Reordering and garbage collection never change a function",
 "Dynamic variable reordering with any method, explicit shuffling, garbage collection and creation of new variables leave every referenced diagram representing the same function, keep the diagrams canonical and leave the manager's internal counts consistent, at any point of any history of operations.",
 ["histories", "schedules"], "All interleavings of operations, dereferencing, garbage collection and reordering.", CT + "reordering happens at few fixed points there.",
 [C + "cuddReorder.c", C + "cuddGroup.c", C + "cuddSymmetry.c", C + "cuddWindow.c", C + "cuddLinear.c", C + "cuddAnneal.c", C + "cuddGenetic.c", C + "cuddExact.c", C + "cuddTable.c", C + "cuddRef.c"],
 [("adjacent swap", "cuddSwapInPlace"), ("garbage collection", "cuddGarbageCollect"), ("reference counting", "Cudd_RecursiveDeref")])
prop("C04", "Minimisation and approximation respect their care and containment sets",
 "Constrain, restrict, minimisation, LI-compaction, squeezing and interpolation agree with the function on the care set (or lie between the bounds); sub- and superset approximations are contained in, respectively contain, the original function; conjunctive and disjunctive decompositions recombine to it.",
 ["inputs"], "All functions and care sets over a bounded number of variables.", CT + "only sizes of results on fixed circuits are compared.",
 [C + "cuddGenCof.c", C + "cuddSubsetHB.c", C + "cuddSubsetSP.c", C + "cuddApprox.c", C + "cuddDecomp.c", C + "cuddClip.c"],
 [("generalised cofactors", "cuddBddConstrainRecur, cuddBddRestrictRecur"), ("approximation", "Cudd_SubsetHeavyBranch, Cudd_UnderApprox")])
prop("C05", "Counting, support, enumeration and cube queries are exact",
 "Minterm, path and node counts, supports, essential variables, evaluation, shortest paths, cube and prime enumeration and cube picking describe exactly the function of the queried diagram.",
 ["inputs"], "All functions over a bounded number of variables.", CT + "the printed numbers of a few circuits are compared.",
 [C + "cuddUtil.c", C + "cuddSat.c", C + "cuddEssent.c", C + "cuddApa.c", C + "cuddZddIsop.c"],
 [("counting", "Cudd_CountMinterm, Cudd_ApaCountMinterm"), ("enumeration", "Cudd_FirstCube, Cudd_FirstPrime"), ("paths", "Cudd_ShortestPath, Cudd_LargestCube")])
prop("C06", "ADD operations compute the arithmetic functions they are named for",
 "Every ADD operation (apply with each operator, if-then-else, negation, abstraction, min/max search, thresholding to BDDs, composition, permutation, matrix multiplication) returns exactly the pseudo-Boolean function given by its definition.",
 ["inputs", "histories"], "All integer-valued functions over a bounded number of variables.", CT + "one matrix is used.",
 [C + "cuddAddApply.c", C + "cuddAddIte.c", C + "cuddAddAbs.c", C + "cuddAddNeg.c", C + "cuddAddFind.c", C + "cuddMatMult.c", C + "cuddBridge.c"],
 [("apply", "cuddAddApplyRecur"), ("terminal cases", "Cudd_addPlus, Cudd_addTimes, ...")])
prop("C07", "ZDD operations compute the set-family operations they are named for",
 "ZDD union, intersection, difference, subset, change, product, division, if-then-else, counting, cover conversion and porting from and to BDDs return exactly the family of sets given by their definition.",
 ["inputs", "histories"], "All families over a bounded number of elements.", CT + "few ZDD runs.",
 [C + "cuddZddSetop.c", C + "cuddZddFuncs.c", C + "cuddZddIsop.c", C + "cuddZddPort.c", C + "cuddZddCount.c"],
 [("set operations", "cuddZddUnion, cuddZddIntersect, cuddZddDiff"), ("covers", "cuddZddIsop")])
prop("C08", "Diagrams survive being written to and read from files",
 "A BDD or ADD (or an array of them) written by the DDDMP library in text or binary form and read back, into the same or another manager with any variable matching mode and order, represents the same function, with complement edges, constants and sharing intact, roots matched by position or name, and the manager's tables unharmed; the CNF exported for a function has, over the added variables, exactly its models (the CNF of several functions stored node by node is their conjunction).",
 ["inputs", "configurations"], "All functions, formats and matching modes.", CT + "seven scripted examples.",
 ["src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreBdd.c", "src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c", "src/symbolic_search/cudd-3.0.0/dddmp/dddmpBinary.c", "src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c", "src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c"],
 [("store", "Dddmp_cuddBddStore"), ("load", "Dddmp_cuddBddLoad")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

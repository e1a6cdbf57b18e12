"""The properties, what in the code each is anchored to, and which functions' effects decide it."""
NT = "The 30 existing tests exercise only the vendored decision-diagram package; no planner input is ever run, and a sampled run would fix one input while the statement ranges over all of them."
P = []
def prop(id, title, statement, over, qtext, files, mech, funcs, why=NT, state=(), observe=(), prints=(), rule=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, files=files, mech=mech, funcs=funcs, why=why, state=list(state), observe=list(observe), prints=list(prints), rule=rule, technique=technique, note=note))

prop("C01", "Progression applies actions with exact STRIPS semantics",
 "In progression search an action may be executed in a state exactly when every one of its preconditions holds there; executing it yields the predecessor's facts minus its delete effects plus its (unconditional and triggered conditional) add effects, an added fact winning over a deletion of the same fact, and touches no other node's state. A node is a goal exactly when no task remains and every goal fact holds.",
 ["inputs", "histories"], "every grounded model, every reachable state and every action applicable or not in it",
 ["src/Model.cpp"], [("applicability test", "src/Model.cpp:Model::isApplicable"), ("successor construction", "src/Model.cpp:Model::apply"), ("goal test", "src/Model.cpp:Model::isGoal")],
 [("^Model.cpp$", r"Model::(isApplicable|apply|isGoal)$")], rule="conditional",
 state=[("state bit vector", "set of facts true in the node", "src/ProgressionNetwork.h")])

prop("C02", "Decomposition and task execution respect the task network order",
 "Only tasks without an unfinished predecessor are progressed. Applying a method replaces the chosen abstract task by exactly the method's subtasks under the method's ordering, every former successor of that task comes after all last subtasks (or becomes first when nothing precedes it any more), all other tasks and orderings stay; executing a primitive task removes it and releases exactly the successors with no other predecessor.",
 ["inputs", "histories"], "every method, every partially ordered task network and every choice of first task",
 ["src/Model.cpp", "src/ProgressionNetwork.cpp"], [("method application", "src/Model.cpp:Model::decompose"), ("subnetwork instantiation", "src/Model.cpp:Model::initializeMethod"), ("action application", "src/Model.cpp:Model::apply"), ("first/last task tables", "src/Model.cpp:Model::generateMethodRepresentation")],
 [("^Model.cpp$", r"Model::(decompose|apply|initializeMethod|generateMethodRepresentation|prepareTNi|generateVectorRepresentation)$"), ("^ProgressionNetwork", r".")])

prop("C03", "The reported plan is the decomposition trace of the found goal node",
 "Every successor node records its parent's trace extended by exactly the action executed or the method applied, with the position of the parent task it was decomposed from, and its cost and depth counters grow by exactly that step's amount. The printed plan lists each recorded step once, in execution order, each decomposition naming its task, its method and the ids of its subtasks, and the root line naming the decomposition of the initial task.",
 ["inputs", "histories"], "every solvable input and every path to a goal node",
 ["src/Model.cpp", "src/ProgressionNetwork.cpp", "src/SearchEngine.cpp"], [("trace extraction", "src/ProgressionNetwork.cpp:extractSolutionFromSearchNode"), ("trace growth", "src/Model.cpp:Model::apply, Model::decompose")],
 [("^ProgressionNetwork", r"."), ("^Model.cpp$", r"Model::(decompose|apply|initializeMethod)$"), ("PriorityQueueSearch", r"handleNewSolution$")],
 prints=["progression::extractSolutionFromSearchNode", "progression::printTraceOfSearchNode"])

prop("C04", "Progression search expands every non-duplicate node and reports honestly",
 "The search generates, for every expanded node, the successor of every applicable first action and of every method of every first abstract task selected for decomposition, and discards a successor only when it is a duplicate, provably a dead end, or cannot improve on a kept solution. It reports a problem solved only with a goal node in hand, keeps the cheapest one found, and reports unsolvability only after its open list ran empty without time or memory cutting it short.",
 ["inputs", "histories", "configurations"], "every input, search strategy, heuristic set and time limit",
 ["src/search/PriorityQueueSearch.h", "src/search/PriorityQueueSearch.cpp", "src/search/fringes/OneQueueWAStarFringe.cpp"], [("expansion loop", "src/search/PriorityQueueSearch.h:PriorityQueueSearch::search"), ("solution update", "src/search/PriorityQueueSearch.cpp:handleNewSolution"), ("open list", "src/search/fringes/OneQueueWAStarFringe.cpp")],
 [("PriorityQueueSearch", r"."), ("OneQueueWAStarFringe", r"."), ("^Model.cpp$", r"Model::(isGoal|isApplicable|apply|decompose|updateReachability|calcReachability|updateTaskCounter[AM])$"), ("^VisitedList", r"VisitedList::insertVisi")],
 prints=["progression::PriorityQueueSearch::search"])

prop("C05", "Duplicate detection only discards nodes equal to one already seen",
 "A search node is declared already visited only if a node with the same state and an equivalent remaining task network was recorded before; hash values only ever select where to look. Every configured hash or comparison refinement keeps this, and a node that is declared new is recorded, so that an equal one arriving later is recognised.",
 ["inputs", "histories", "configurations"], "every sequence of nodes inserted, and every combination of hash options",
 ["src/VisitedList.cpp", "src/intDataStructures/SequenceSet.cpp", "src/intDataStructures/CompressedSequenceSet.cpp", "src/intDataStructures/HashTable.cpp"], [("membership test and insertion", "src/VisitedList.cpp:VisitedList::insertVisi"), ("network isomorphism matching", "src/VisitedList.cpp:matching, matchingDFS, matchingGenerate"), ("compressed sequence storage", "src/intDataStructures/CompressedSequenceSet.cpp")],
 [("^VisitedList", r"."), ("SequenceSet", r"^(compressed_)?sequence_trie::(insert|split_me_at|(compressed_)?sequence_trie|getZero|getOne)|^(alloc|getCell|bitmask_)"), ("HashTable", r"."), ("primeNumbers", r".")])

prop("C06", "Shared plan steps and solution steps are released exactly when unused",
 "Task-network steps and trace steps are shared between search nodes through reference counts: every new reference increments the count of the referenced step and every released reference decrements it, and a step is freed exactly when its last reference goes, together with what it alone referred to. A node dropped by the search is freed once and never used afterwards.",
 ["inputs", "histories"], "every sequence of node expansions, duplicates, prunings and solutions",
 ["src/ProgressionNetwork.cpp", "src/Model.cpp", "src/search/PriorityQueueSearch.h"], [("step destructors", "src/ProgressionNetwork.cpp:planStep::~planStep, solutionStep::~solutionStep, searchNode::~searchNode"), ("reference taking", "src/Model.cpp:Model::apply, Model::decompose")],
 [("^ProgressionNetwork", r"(planStep|solutionStep|searchNode)::(~?(planStep|solutionStep|searchNode)|operator)"), ("^Model.cpp$", r"Model::(decompose|apply|initializeMethod)$"), ("PriorityQueueSearch", r"search::(search|handleNewSolution)|Search::(search|handleNewSolution)")])

prop("C07", "The relaxed composition model encodes exactly actions, methods and reachability",
 "The delete- and ordering-relaxed composition model has one bottom-up fact per task and one top-down fact per primitive task besides the state facts; each action needs its own preconditions and its top-down fact and adds its effects and its bottom-up fact, each method needs its subtasks' bottom-up facts and adds that of its task. Costs per estimate type and the per-node start state and goal are those of the node's remaining task network, so the heuristic reports a dead end only when the relaxed goal is unreachable.",
 ["inputs", "configurations"], "every model, node and estimate type",
 ["src/heuristics/rcHeuristics/RCModelFactory.cpp", "src/heuristics/rcHeuristics/hhRC2.h"], [("model construction", "src/heuristics/rcHeuristics/RCModelFactory.cpp:getRCmodelSTRIPS"), ("per-node state and goal", "src/heuristics/rcHeuristics/hhRC2.h:hhRC2::setHeuristicValue")],
 [("RCModelFactory", r"."), ("hhRC2", r"."), ("hsFilter", r"."), ("^heuristics/Heuristic.cpp", r"."), ("bIntSet|noDelIntSet", r"::(insert|append|clear|getFirst|getNext|get|getSize|init)$"), ("^Model.cpp$", r"Model::(updateReachability|calcReachability|updateTaskCounter[AM]|calcMinimalImpliedX)$")])

prop("C08", "Additive and FF heuristics compute the delete-relaxed fixpoint",
 "The additive heuristic gives every fact the least value obtainable as action cost plus the sum of its preconditions' values, starting from zero for the facts of the evaluated state, and the goal the sum of its facts; it reports a dead end exactly when some goal fact has no such value. The FF variant sums the costs of the distinct actions in the relaxed plan found by following each needed fact's best achiever.",
 ["inputs"], "every relaxed task, state and goal",
 ["src/heuristics/rcHeuristics/hsAddFF.cpp", "src/intDataStructures/IntPairHeap.h"], [("value propagation", "src/heuristics/rcHeuristics/hsAddFF.cpp:getHeuristicValue"), ("relaxed plan", "src/heuristics/rcHeuristics/hsAddFF.cpp:getFF"), ("priority queue", "src/intDataStructures/IntPairHeap.h")],
 [("hsAddFF.cpp", r"hsAddFF::(hsAddFF|getHeuristicValue|getFF|assertPrecAddDelSets)$"), ("IntPairHeap", r"."), ("noDelIntSet|/IntStack", r"::(insert|clear|getFirst|getNext|get|getSize|init|push|pop|isEmpty)$")])

prop("C09", "LM-cut sums disjoint landmark costs until the goal value is zero",
 "LM-cut repeatedly computes maximum-based reachability values, takes the cut between the facts reachable at no cost and those from which the goal is reachable through zero-cost justifications, adds the cheapest cut action to the estimate and lowers every cut action by that amount, until the goal's value is zero. Cut actions are exactly those whose supporting precondition is reachable before the goal zone and that add a fact in it; an infinite goal value is reported as a dead end.",
 ["inputs"], "every relaxed task, state and goal",
 ["src/heuristics/rcHeuristics/hsLmCut.cpp"], [("main loop", "src/heuristics/rcHeuristics/hsLmCut.cpp:getHeuristicValue"), ("maximum values", "src/heuristics/rcHeuristics/hsLmCut.cpp:getHMax, updateHMax"), ("goal zone and cut", "src/heuristics/rcHeuristics/hsLmCut.cpp:calcGoalZone, forwardReachabilityDFS")],
 [("hsLmCut.cpp", r"hsLmCut::(hsLmCut|getHeuristicValue|getHMax|updateHMax|calcGoalZone|forwardReachabilityDFS)$"), ("LMCutLandmark", r"."), ("IntPairHeap", r"."), ("noDelIntSet|bIntSet|/IntStack", r"::(insert|append|clear|getFirst|getNext|get|getSize|init|push|pop|isEmpty)$")])

prop("C10", "Nodes are expanded in the order the chosen strategy prescribes",
 "The open list always yields a node of least evaluation value, where the value combines path cost or depth and heuristic as the chosen strategy says, weights only scale the heuristic part, ties are broken by the next configured heuristic and then in a fixed way. The simple cost- and depth-based heuristics return exactly the counter they are named after, and negated if inverted.",
 ["inputs", "histories", "configurations"], "every sequence of insertions and every strategy, weight and heuristic list",
 ["src/search/fringes/OneQueueWAStarFringe.cpp", "src/heuristics/hhSimple.cpp", "src/ProgressionNetwork.cpp"], [("evaluation value", "src/search/fringes/OneQueueWAStarFringe.cpp:push"), ("tie breaking", "src/search/fringes/OneQueueWAStarFringe.cpp:TieBreakingNodePointerComaprator")],
 [("OneQueueWAStarFringe", r"."), ("hhSimple", r"."), ("hhZero", r"."), ("^ProgressionNetwork.cpp", r"searchNode::"), ("^Model.cpp$", r"Model::(apply|decompose)$"), ("PriorityQueueSearch", r"PriorityQueueSearch::search"), ("search/(Queue|Stack|Unsorted|Unsrt)Fringe", r".")])

prop("C11", "The grounded input is read into the model field by field as written",
 "Reading a grounded problem fills the model's facts, mutexes, invariants, actions, initial state, goal, tasks, methods and orderings with exactly the values in the file in the order given (a deletion of a fact the same action adds is dropped, as additions win), and builds the derived index tables (which actions need or add a fact, which methods decompose a task, predecessor and successor lists of methods) consistently with them. Sizes of all tables come from the counts in the same file.",
 ["inputs"], "every well-formed grounded problem file",
 ["src/Model.cpp"], [("classical part", "src/Model.cpp:Model::readClassical"), ("hierarchical part", "src/Model.cpp:Model::readHierarchical"), ("derived tables", "src/Model.cpp:calcAddToActionMapping, generateMethodRepresentation, buildOrderingDatastructures")],
 [("^Model.cpp$", r"Model::(read|readClassical|readHierarchical|readIntList|readConditionalIntList|calcAddToActionMapping|generateVectorRepresentation|generateMethodRepresentation|buildOrderingDatastructures|Model)$"), ("^Model.cpp$", r"tOrMnode"), ("IntUtil", r".")])

prop("C12", "Hierarchy analysis: components, orderings and size bounds are exact",
 "Two tasks are put into one component exactly when each can be reached from the other by decomposition, components are numbered and linked in a consistent order, and recursion is classified accordingly. Method orderings are closed transitively and sorted without contradicting any ordering, total order is reported only if it holds, and the minimal size and cost bounds of every task are those of its cheapest decomposition.",
 ["inputs"], "every grounded hierarchical model, cyclic or not",
 ["src/Model.cpp", "src/heuristics/planningGraph.cpp"], [("strongly connected components", "src/Model.cpp:calcSCCs, tarjan, constructSCCGraph, analyseSCCcyclicity"), ("bounds", "src/Model.cpp:calcMinimalImpliedX"), ("orderings", "src/Model.cpp:computeTransitiveChangeOfMethodOrderings, methodTopSortDFS"), ("relaxed reachability", "src/heuristics/planningGraph.cpp:calcReachability")],
 [("^Model.cpp$", r"Model::(calcSCCs|tarjan|constructSCCGraph|topsortDFS|analyseSCCcyclicity|calcSCCGraph|calcMinimalImpliedX|methodTopSortDFS|isMethodTotallyOrdered|computeTransitive\w+|updateReachability|calcReachability|buildOrderingDatastructures|prepareTNi|updateTaskCounter[AM])$"), ("planningGraph", r"."), ("hhSimple|bIntSet", r"bIntSet::(insert|append|clear|getFirst|getNext|get|getSize|init)$")])

prop("C13", "Every command line setting selects exactly what it names",
 "Each command line option and each named value of it selects the planner component, heuristic, estimate type, search strategy, solving method or numeric limit it documents, defaults are the documented ones, and combinations the planner knows it cannot serve are refused or reported instead of silently replaced. Requested options reach the component that implements them unchanged.",
 ["configurations"], "every command line accepted by the option parser",
 ["src/SearchEngine.cpp", "src/options.ggo"], [("option dispatch", "src/SearchEngine.cpp:main"), ("heuristic argument parsing", "src/SearchEngine.cpp:parse_heuristic_with_arguments_from_braced_expression"), ("option table", "src/options.ggo")],
 [("^SearchEngine.cpp$", r"^(main|parse_\w+)$"), ("OneQueueWAStarFringe.h", r"::OneQueueWAStarFringe$"), ("hhRC2|hhSimple|hhZero", r"::(hhRC2|hhZero|hh\w+)$"), ("^VisitedList", r"VisitedList::VisitedList$")], rule="options")

prop("C14", "Clause helpers emit exactly the clauses of the constraint they are named after",
 "Each helper of the SAT encoder (assertion, implication, implication of a conjunction, a disjunction or negations, at-most-one, at-most-k, at-least-one) adds to the solver a set of terminated clauses whose models, restricted to the given literals, are exactly those of the named constraint. Fresh auxiliary variables never coincide with existing ones.",
 ["inputs"], "every literal list of every length, on both sides of the switch between direct and logarithmic encodings",
 ["src/sat/sat_encoder.cpp"], [("clause helpers", "src/sat/sat_encoder.cpp"), ("fresh variables", "src/sat/sat_encoder.cpp:sat_capsule::new_variable")],
 [("sat_encoder", r"^(assertYes|assertNot|implies\w*|notImpliesAllNot|andImplies|notAll|atMostOne\w*|atMostK|atLeastOne|sat_capsule::.*)$")])

prop("C15", "The SAT state formula encodes exactly the STRIPS transition of each time step",
 "For each time step the formula makes an executed action imply its preconditions before and its effects after that step, allows a fact to change only if an executed action changes it, fixes the initial state completely at the first step and requires every goal fact at the last one. Actions allowed to share a step never interfere, and at most one action is chosen per position.",
 ["inputs"], "every model, plan length bound and arrangement of actions into steps",
 ["src/sat/state_formula.cpp", "src/sat/sat_encoder.cpp"], [("transition clauses", "src/sat/state_formula.cpp:generate_state_transition_formula"), ("mutual exclusion", "src/sat/state_formula.cpp:generate_mutex_formula"), ("state atoms", "src/sat/state_formula.cpp:get_linear_state_atoms, get_partial_state_atoms")],
 [("state_formula", r"."), ("sat_encoder", r"^(atMostOne\w*|atMostK|sat_capsule::new_variable)$")])

prop("C16", "The SAT decomposition tree encodes exactly the method applications",
 "In the path decomposition tree a node's task is either absent, kept (primitive) or decomposed by exactly one applicable method whose subtasks are exactly the tasks present at the assigned children, and no child task appears without such a cause. A node's possible tasks and children cover every decomposition up to the depth bound, and pruning removes only possibilities that cannot occur.",
 ["inputs"], "every hierarchy and decomposition depth",
 ["src/sat/pdt.cpp", "src/sat/sog.cpp"], [("tree expansion", "src/sat/pdt.cpp:PDT::expandPDT"), ("clauses", "src/sat/pdt.cpp:PDT::addDecompositionClauses, addPrunedClauses"), ("pruning", "src/sat/pdt.cpp:propagatePruning, initialisePruning"), ("child arrangement", "src/sat/sog.cpp")],
 [("sat/pdt", r"PDT::(?!print)"), ("sat/sog", r"^(optimiseSOG|run|add|linear|generateSOG|SOG::)")])

prop("C17", "Partial-order plans found by SAT are linearised consistently with the network",
 "The ordering network over the leaves contains exactly the orderings implied by the applied methods, transitively closed where predecessor and successor sets are used. In the partially ordered encoding every leaf holding a primitive task is matched to exactly one time step, every step holding an action is matched to exactly one such leaf with the same task, and matched leaves never violate an ordering.",
 ["inputs"], "every hierarchy, depth and number of time steps",
 ["src/sat/partial_order.cpp", "src/sat/sog.cpp"], [("matching clauses", "src/sat/partial_order.cpp:generate_matching_formula"), ("leaf ordering", "src/sat/sog.cpp:generateSOGForLeaf, SOG::expandSOG, calcSucessorSets, calcPredecessorSets, removeTransitiveOrderings")],
 [("partial_order", r"."), ("sat/sog", r"."), ("state_formula", r"get_partial_state_atoms")])

prop("C18", "Invariants and interference information used for pruning are sound",
 "A pair of fact literals is recorded as an invariant only if the given mutex groups or the inductive invariant computation establish that one of them holds in every reachable state; a candidate is dropped as soon as an applicable action can violate it. Two actions are treated as compatible in one step only if no action of an earlier component can disable a later one there.",
 ["inputs"], "every model and every candidate pair",
 ["src/Invariants.cpp", "src/sat/disabling_graph.cpp"], [("inductive invariants", "src/Invariants.cpp:compute_Rintanen_Invariants"), ("input invariants", "src/Invariants.cpp:extract_invariants_from_parsed_model"), ("interference graph", "src/sat/disabling_graph.cpp")],
 [("^Invariants", r"."), ("disabling_graph", r"^(?!.*dot_string)"), ("sat_planner", r"^(insert_invariant|filter_leafs_\w+)$")])

prop("C19", "SAT planning reports a plan only for a satisfied formula and no wrong failure",
 "A plan is printed only after the solver reported the formula of that bound satisfiable, and lists the primitive tasks and method applications true in that model under their solver-variable names. Bounds are increased in the announced order, unsatisfiability of one bound leads to the next larger one and ends the search only when no larger bound can help; any unexpected solver answer aborts instead of being taken as an answer.",
 ["inputs", "configurations", "schedules"], "every input, bound sequence, time budget and solver answer",
 ["src/sat/sat_planner.cpp"], [("bound loop", "src/sat/sat_planner.cpp:solve_with_sat_planner_linear_bound_increase, solve_with_sat_planner_time_interleave"), ("formula assembly", "src/sat/sat_planner.cpp:createFormulaForDepth"), ("plan output", "src/sat/sat_planner.cpp:printSolution")],
 [("sat_planner", r"."), ("sat/pdt", r"PDT::(assignOutputNumbers|getNextOutputTask|assignVariableIDs|printDecomposition)")], prints=["printSolution", "PDT::printDecomposition"])

prop("C20", "Decision-diagram encodings of states and actions match the model",
 "Each state variable is encoded by enough binary variables in separate current, next and auxiliary copies that pairwise correspond; the diagram of a state describes exactly that state. An action's relation holds between a state and its successor exactly under STRIPS semantics with unaffected variables unchanged, so that image and preimage compute exactly the successors and predecessors of a set.",
 ["inputs"], "every model, variable order, action and set of states",
 ["src/symbolic_search/sym_variables.cpp", "src/symbolic_search/transition_relation.cpp"], [("variable layout", "src/symbolic_search/sym_variables.cpp:SymVariables::init, generateBDDVar, getStateBDD"), ("relations", "src/symbolic_search/transition_relation.cpp:TransitionRelation::init, image, preimage, merge")],
 [("sym_variables", r"^(?!.*(bdd_to_dot|print_options|get_fd_variable_names))"), ("transition_relation", r".")])

prop("C21", "Symbolic search explores configurations by cost and reconstructs a real plan",
 "The symbolic planner processes layers in order of cost and decomposition depth, adds to each layer exactly the configurations reachable from earlier ones by executing a primitive or decomposing an abstract task of the automaton, and expands no configuration twice. It reports a plan only for a reached goal configuration and reconstructs it by choosing at each step a predecessor that really leads to the current configuration; unsolvability is reported only when no layer is left.",
 ["inputs"], "every totally ordered hierarchical input",
 ["src/symbolic_search/automaton.cpp"], [("layered exploration", "src/symbolic_search/automaton.cpp:build_automaton"), ("plan reconstruction", "src/symbolic_search/automaton.cpp:extract, extract2From, generatePredecessor, checkStack")],
 [("automaton", r"^(build_automaton.*|extract\w*|generatePredecessor|checkStack|addToPlan|ensureBDD\w*|reconstructed_plan::.*|get_\w+|prev|graph_to_file)$")])

prop("C22", "HTN-to-classical translations preserve the solvable plans up to the bound",
 "Each translation to a classical problem creates exactly the state variables, actions, initial values and goal that simulate task progression with the given network size bound: a method action consumes its task's token and creates its subtasks' tokens in order, a primitive action requires and consumes its own token and keeps its original preconditions and effects, and the goal requires the empty network and the original goal. The size bound used is never below the minimum the problem needs.",
 ["inputs", "configurations"], "every hierarchy, bound and translation variant",
 ["src/translation/htnToSAS.cpp", "src/translation/htnToSAS.h"], [("encodings", "src/translation/htnToSAS.cpp:htnToCond, htnToCondSorted, htnToStrips, tohtnToStrips, htnPS"), ("bounds", "src/translation/htnToSAS.cpp:calcMinimalProgressionBound"), ("output", "src/translation/htnToSAS.cpp:writeToFastDown")],
 [("translation/htnToSAS", r"HTNToSASTranslation::(combination|bin|power|sasPlus|calculatePrecsAndAdds|reorderTasks|m\w+ProgressionBound|calcMinimalProgressionBound|htn\w+|tohtnToStrips|writeToFastDown|HTNToSASTranslation)$"), ("translation/htnToSAS", r"tOrMnode")], prints=["HTNToSASTranslation::writeToFastDown"])

prop("C23", "Classical solver runs are interpreted faithfully and converted back to HTN plans",
 "The translation planner starts with an allowed bound, runs the external planner on the translated problem and accepts a result only if the produced plan file exists and checks out, otherwise continuing with a larger bound or reporting failure. The external plan is turned into a hierarchical plan by attributing every translated action to the task it executes or the method it applies, in plan order.",
 ["inputs", "configurations", "fault_sequences"], "every external planner outcome and every plan it may return",
 ["src/translation/translationController.cpp", "src/translation/htnToSAS.cpp"], [("controller", "src/translation/translationController.cpp:runTranslationPlanner"), ("plan conversion", "src/translation/htnToSAS.cpp:planToHddl, checkFastDownwardPlan")],
 [("translationController", r"."), ("translation/htnToSAS", r"(planToHddl|checkFastDownwardPlan)$")], prints=["HTNToSASTranslation::planToHddl"])

prop("C24", "The exported HDDL problem restates the grounded model",
 "When asked to write the input back as HDDL, the planner writes one predicate per fact, one task per abstract task, one action per action that occurs in a method, and one method per method with exactly its subtasks and orderings; preconditions, add and delete effects, initial task, initial state and goal are those of the model. Only no-op subtasks and a leading method-precondition action, which becomes the method's precondition, are left out, with the orderings that mention them; every name is written through the same cleaning function.",
 ["inputs"], "every grounded model, with totally or partially ordered methods, with or without no-op and method-precondition actions",
 ["src/Model.cpp", "src/intDataStructures/StringUtil.cpp"], [("export", "src/Model.cpp:Model::writeToPDDL"), ("total order detection", "src/Model.cpp:Model::isMethodTotallyOrdered, methodTopSortDFS"), ("name cleaning", "src/intDataStructures/StringUtil.cpp:StringUtil::cleanStr")],
 [("^Model.cpp$", r"Model::(writeToPDDL|isMethodTotallyOrdered|methodTopSortDFS)$"), ("StringUtil.cpp", r"::(cleanStr|toLowerString)$")], prints=["progression::Model::writeToPDDL"])

prop("C25", "All random choices of a run follow from the configured seed",
 "Every random choice of the planner is drawn from one generator that is seeded once, at the start, with the seed option (42 by default); nothing reachable from the main program reseeds it or draws on a source the seed does not determine (clock, process id, hardware), so that a run can be repeated.",
 ["inputs", "configurations"], "every input, option combination and seed",
 ["src/SearchEngine.cpp", "src/search/fringes/OneQueueWAStarFringe.cpp", "src/search/PriorityQueueSearch.h"], [("seeding", "src/SearchEngine.cpp:main"), ("tie-breaking draw", "src/search/fringes/OneQueueWAStarFringe.cpp"), ("task choice draw", "src/search/PriorityQueueSearch.h:search")],
 [], rule="seed", why="Repeatability ranges over every run; no existing test runs the planner at all.",
 technique="interprocedural call-graph rule over LLVM IR (reachable randomness sources) plus the seeding effect of main",
 note="Decides which randomness sources are reachable from main and what seeds the generator. Orders of pointer-keyed containers, which vary with memory layout, are outside it.")

prop("C28", "Integer sets, stacks, heaps and tables keep their contracts",
 "The integer containers used by search and heuristics hold exactly the elements inserted and not removed, iterate over each of them once, report their true size and emptiness, and yield elements in the order their kind promises (heap: least key first; stack: last in, first out). Growing a container keeps its contents, and no operation writes outside the allocated storage for in-range elements.",
 ["histories", "inputs"], "every sequence of operations on in-range elements",
 ["src/intDataStructures"], [("containers", "src/intDataStructures")],
 [("intDataStructures/(bIntSet|noDelIntSet|delIterIntSet|bucketSet|IntStack|FlexIntStack|IntUtil|HashTable)", r"."), ("IntPairHeap", r"."), ("SequenceSet", r"^(compressed_)?sequence_trie::(insert|split_me_at|(compressed_)?sequence_trie|getZero|getOne)|^(alloc|getCell|bitmask_)"), ("search/(Queue|Stack|Unsorted|Unsrt)Fringe", r".")])

NOTE = ("Decides, for every function the property is anchored to, that each of its effects (stores, calls, outputs, emitted clauses, with operands, ranges, conditions and order) "
        "is the reviewed reference effect, modulo normalisation (reordering, helper extraction, loop forms, algebra). All inputs are covered because nothing is executed; "
        "functions whose form the analysis cannot compare are listed as undecided in the evidence, not claimed.")

NA = []
def na(id, title, statement, over, qtext, files, mech, why, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, files=files, mech=mech, why=why, state=[], observe=[], na=reason))

na("C90", "Plans found with an admissible configuration are cost optimal",
 "With an admissible heuristic and the optimal suboptimality setting, no cheaper plan exists than the one reported.",
 ["inputs"], "every solvable input", ["src/search/PriorityQueueSearch.h", "src/heuristics/rcHeuristics/hsLmCut.cpp"], [("search", "src/search/PriorityQueueSearch.h:search")],
 "Optimality compares the returned plan with every other plan of the input; tests run none.",
 "Optimality compares runtime costs over all plans; no source-level argument in reach bounds it. Its structural parts (expansion order, duplicate and dead-end pruning, landmark cuts) are claimed as C04, C05, C09 and C10.")
na("C91", "Every run ends within the time and memory limits it was given",
 "A planner run stops, with an honest report, soon after the configured time limit and does not exhaust memory first.",
 ["inputs", "configurations", "schedules"], "every input and limit", ["src/search/PriorityQueueSearch.h", "src/sat/sat_planner.cpp"], [("time checks", "src/search/PriorityQueueSearch.h:search")],
 "Time and memory depend on the input and machine; no test runs the planner.",
 "Running time and memory of a heuristic evaluation, a solver call or a decision-diagram operation are runtime quantities that static analysis of this source cannot bound. The presence and meaning of the limit checks is part of C04 and C19.")
na("C92", "The SAT and decision-diagram libraries answer correctly",
 "The external SAT solver reports satisfiable exactly for satisfiable formulas, and every decision-diagram operation returns the canonical diagram of the function it names.",
 ["inputs"], "every formula and diagram", ["src/symbolic_search/cudd-3.0.0/cudd", "src/sat/ipasir.h"], [("diagram operations", "src/symbolic_search/cudd-3.0.0/cudd/cuddBddIte.c")],
 "Correctness ranges over all Boolean functions; the existing tests compare a few fixed diagrams.",
 "Functional correctness of recursive diagram algorithms on all operands is a numerical-result property; the SAT solver's source is not in the repository.")

#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PR="libclingo-dl/src/propagator.cc"; GR="libclingo-dl/src/graph.cc"; DL="libclingo-dl/src/clingo-dl.cc"; APP="app/lib/src/app.cc"; MAIN="app/src/main.cc"; PARSE="libclingo-dl/src/parsing.cc"
T17="The 17 stable tests run a handful of fixed programs"
p("C01","Every reported solution satisfies all its difference constraints",
 "Whenever a solution is reported, the integer assignment shown with it satisfies every difference constraint that the solution enforces: each head constraint whose rule fires, each true body constraint and the negation of each false body constraint. The assignment also gives a value to every variable of an enforced constraint and to no other variable, and solving a well-formed program never ends in an internal error.",
 ["schedules","inputs","configurations"],
 "all programs over all relation kinds, all propagation modes/options, all solver-thread counts and all search orders (decision order, batching of literal deliveries, backjumps, restarts, clause sharing)",
 T17+" with clasp's default search order and one or two threads; which path of decisions, backjumps and partial deliveries leads to a solution is never varied.",
 [PR,GR,DL],[("incremental negative cycle detection with potentials","Graph::check_cycle_"),("check of total assignments","DLPropagator::check"),("per-level backtracking of potentials","Graph::backtrack")],
 ["clingodl_assignment_* during a model","clingo_model_extend"],
 [("potentials","per-thread vertex potentials whose inverse is the reported value","Graph::vertices_")])
p("C02","No answer is lost or invented by the theory in any configuration",
 "Enumerating all solutions of a program yields exactly the answer sets for which the enforced difference constraints are satisfiable, each one reported and none missing, and unsatisfiable programs are reported unsatisfiable. The result is the same for every propagation mode, root level, budget, mutex, edge order, heuristic, component and thread setting and for every search order.",
 ["schedules","inputs","configurations"],
 "all programs, all option combinations including per-thread ones, all thread interleavings and search orders",
 T17+" under a few option sets; a lemma that removes an answer only under one search order and option mix cannot be sampled by them.",
 [PR,GR,DL,PARSE],[("conflict and propagation clauses","Graph::check_cycle_, propagate_simple_, propagate_zero_, propagate_full_"),("normalisation of relations to edges","DLPropagator::normalize_constraint_"),("mutex clauses","DLPropagator::calculate_mutexes_")],
 ["set of models of an exhaustive search","solve result"])
p("C03","Every clause given to the solver follows from the theory",
 "Every clause the theory hands to the solver, before or during search, is implied by the meaning of the difference constraints (together with what is already fixed), so it can never exclude a consistent choice of constraints. A conflict reported during propagation is real: the clause is violated or becomes unit under the assignment it was derived from, and it is not handed over in a state in which the solver must refuse it.",
 ["schedules","inputs","configurations"],
 "all reachable partial assignments of every thread, all delivery orders, all propagation modes and mutex settings",
 "The tests only look at final models; wrong lemmas that happen not to remove a sampled model are invisible, and internal path structures depend on the delivery order that clasp picks.",
 [GR,PR],[("negative cycle extraction","Graph::check_cycle_"),("path reconstruction for propagated edges","Graph::propagate_edge_false_, cheap_propagate_"),("mutex search","DLPropagator::calculate_mutexes_")],
 ["clingo_propagate_control_add_clause","clingo_propagate_init_add_clause"])
p("C04","Inconsistent constraints are detected at the fixpoint that creates them",
 "As soon as the solver has told a thread about a set of enforced constraints that is contradictory, that thread's search does not continue past the current propagation fixpoint: the theory reports a conflict before the next decision. Constraints whose condition was undone no longer count, whatever the order in which levels were entered and left.",
 ["schedules","inputs","histories"],
 "all sequences of deliveries, decisions, backjumps, restarts and re-deliveries, including levels without deliveries and several levels undone at once",
 "Tests only see complete models, where a final check hides late detection; late or missed detection depends on histories of backtracking they never force.",
 [PR,GR],[("todo queue processing","DLPropagator::do_propagate"),("cycle detection","Graph::check_cycle_"),("undo","Graph::backtrack")],
 ["state of the simulated solver at each fixpoint"],
 [("changed_trail_","per-level undo information","Graph::changed_trail_")])
p("C05","Each propagation mode derives what its documentation promises",
 "After a conflict-free propagation fixpoint, mode 'full' (and root-level limited full propagation below its level) has made false every undecided constraint that would immediately contradict the enforced ones; mode 'zero' has done so for contradictions running through the constant zero; mode 'inverse' for pairs of directly opposed constraints. Limits and per-thread suffixes affect only the levels and threads they name.",
 ["schedules","inputs","configurations","histories"],
 "all histories of propagation and backtracking, all option values including per-thread values, all thread counts and steps of multi-shot solving",
 "No test observes propagation strength; a mode that silently propagates less, or stops after some backtracking history, returns the same models.",
 [GR,PR],[("full propagation with relevance counting","Graph::propagate_full_, Impl::dijkstra_full"),("bounds through zero","Graph::propagate_zero_, Impl::dijkstra_bounds"),("candidate edge bookkeeping","Graph::disable_edge, add_candidate_edge_, backtrack"),("watch removal and re-adding","DLPropagator::do_propagate")],
 ["truth values of constraint literals at simulated fixpoints"])
p("C06","Reported values depend only on the enforced constraints, not on history",
 "For a given program, component setting and initial solver assignment, the values reported with a solution, and which variables have one, are a function of the constraints that solution enforces. They do not depend on the order of decisions, on conflicts and backjumps before the solution, on the thread that found it, or on the propagation, sorting or heuristic options.",
 ["schedules","histories","configurations"],
 "all search histories leading to the same solution, across threads, schedules and options",
 T17+" once each with the deterministic default search, so no two histories for the same solution are ever compared.",
 [GR,PR],[("potential stack per level","Graph::set_potential_, Graph::backtrack"),("adjustment by the zero vertex of the component","DLPropagator::lower_bound, extend_model")],
 ["clingodl_assignment_* for equal solutions of different runs"])
p("C07","Multi-shot solving gives the answers of the accumulated program",
 "In multi-shot solving, each solve call reports exactly the solutions of the program accumulated so far under the current externals and assumptions, including constraints and facts added in earlier steps, whatever was searched, learnt or interrupted in between. This also holds when the number of solver threads changes between steps.",
 ["histories","schedules","configurations"],
 "all sequences of ground, assign/release external, thread-count change, (possibly interrupted) solve calls; all schedules within each",
 "Tests cover two or three fixed multi-shot sequences with a constant thread count; the interplay of top-level facts, rebuilt thread states, watches and new components over arbitrary histories is not reached.",
 [PR,GR],[("facts recorded at level 0 and replayed","DLPropagator::propagate/check, FactState"),("states rebuilt per step","DLPropagator::initialize_states_"),("watches","DLPropagator::add_edge_"),("component recalculation","DLPropagator::cc_calculate_")],
 ["models and result of each step"],[("facts_","per-thread level-0 literals","DLPropagator::facts_")])
p("C08","Solver threads do not influence each other through the theory",
 "Callbacks of different solver threads may interleave at any instruction without affecting one another: each thread sees exactly the conflicts, propagations, assignments and configuration it would see running alone with the same deliveries. No two threads access the same memory of the theory without synchronisation unless both only read.",
 ["schedules","configurations"],
 "all interleavings of the callbacks of 2 to 4 solver threads at basic-block granularity, all per-thread configurations",
 "A few two-thread runs exercise one accidental interleaving each; nothing controls or records which one, so shared state would show up only by luck.",
 [PR,GR,DL,PARSE],[("per-thread state, statistics and facts","DLPropagator::states_, facts_, Statistics::thread_statistics"),("thread-specific configuration","PropagatorConfig::get_*")],
 ["memory accesses and callbacks of simulated solver threads"])
p("C09","Minimising a variable ends with its true minimum",
 "With a variable to minimise, the application reports strictly improving solutions, ends with the smallest value the variable takes in any solution (or unsatisfiable exactly if there is no solution within the initial bound), and stops. The optimisation value and lower bound it publishes never contradict the true minimum, for any step factor and initial bound, and after an interrupt the values published so far are still correct.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all programs with a bounded variable, all factors and initial bounds, every order in which the solver finds solutions, threads, interrupts at any point",
 "Three fixed programs are optimised in one search order; which intermediate solutions appear, hence which bounds are tried and when a bound fails, is decided by the solver.",
 [APP,MAIN,"app/lib/clingo-dl-app/app.hh",PR],[("exponential bound search","Optimizer::solve, on_model, prepare_"),("published bounds","Optimizer::add_stats")],
 ["models, statistics and solve calls of the application"])
p("C10","Running out of memory is reported, never crashes or corrupts",
 "If any single memory allocation fails while the theory is created, configured, registered, rewriting programs, initialising, propagating or reporting, the call reports an error to its caller; the process does not crash, hang or report a wrong solution, and everything can still be destroyed. A later solve call on the same control either reports an error or gives correct answers.",
 ["fault_sequences","schedules","histories"],
 "every allocation made by the library's code in any run, one failure (and, rarely, a burst) at any position, followed by the solver's normal clean-up or another solve",
 "No test makes an allocation fail.",
 [DL,PR,GR,PARSE],[("exception barrier of the C API and callbacks","CLINGODL_TRY/CLINGODL_CATCH"),("noexcept undo","DLPropagator::undo, Graph::backtrack")],
 ["return values and error codes of callbacks and API calls; process survival"])
p("C11","Errors of the solver interface and of bad input are passed on",
 "If any call the library makes into clingo fails, or a constraint is malformed or unsupported, the surrounding operation fails with that error: it is neither swallowed nor turned into a crash, a hang or a wrong result. After such a failure the theory can still be destroyed, and no solution violating the constraints is reported.",
 ["fault_sequences","inputs","schedules"],
 "a failure of any one call into the clingo API at any position of any run, and any unsupported constraint at any position of a program",
 "Tests check two malformed inputs; failing API calls never happen in them.",
 [DL,PR,PARSE,APP],[("handle_error on every API call","clingo-dl.cc, clingo.hh wrappers"),("syntax and normalisation checks","parsing.cc, DLPropagator::add_edges_")],
 ["return values and error messages"])
p("C12","A search can be stopped at any instant and resumed",
 "Stopping a search at any point (interrupt, model limit, or a callback asking to stop) leaves the theory in a consistent state: all levels are undone, statistics can be collected, the theory can be destroyed, and solving again yields exactly the solutions of the program. No solution reported before the stop is wrong.",
 ["fault_sequences","schedules","histories"],
 "every point between two steps of any thread, repeated stops, followed by re-solving or destruction",
 "No test interrupts a search.",
 [PR,GR],[("undo","Graph::backtrack"),("rebuilding of thread states","DLPropagator::initialize_states_")],
 ["models before and after the stop"])
p("C13","Statistics are exact and accumulate over steps",
 "The per-step statistics count exactly this step: edge and thread counters match the work the threads did, times are non-negative and no longer than the callbacks they measure, and thread entries match the number of threads. The accumulated statistics are the sums over all steps so far (latest value for sizes), also when the number of threads changes or a step is interrupted.",
 ["histories","schedules","configurations"],
 "all sequences of solve steps with varying thread counts, interrupts and any clock behaviour",
 "No test reads the theory's statistics.",
 [DL,PR,GR],[("accumulation and reset per step","DLPropagatorFacade::on_statistics, Statistics::accu/reset"),("timers","Timer in util.hh")],
 ["statistics tree filled by clingodl_on_statistics"])
p("C14","The decision heuristic only chooses signs and follows its documentation",
 "With the heuristic enabled, the theory answers each decision request with the proposed literal or its complement, choosing the sign by the documented rule: 'min' avoids enforcing a constraint the current values violate, 'max' prefers doing so (two variables without values count as equal), and it leaves literals alone that carry no constraint. It is consulted exactly when configured, and it never changes the set of solutions.",
 ["schedules","inputs","configurations"],
 "all partial assignments at which decisions are requested, all option values, all threads",
 "One test enables the heuristic and only counts models; the sign chosen at a decision is never observed.",
 [PR,DL,GR],[("sign selection","DLPropagator::decide"),("registration of the callback","DLPropagatorFacade constructor")],
 ["decide callback of the registered propagator"])
p("C15","Theory instances in one process are independent",
 "Several theory objects in one process, with different options and number types, registered with different controls and used interleaved or from different threads, each behave exactly as if they were alone. In particular the options of one instance never take effect in another and destroying one leaves the others usable.",
 ["histories","schedules","configurations"],
 "all interleavings of create/configure/register/solve/destroy over 2 to 3 instances, sequentially and from concurrently scheduled threads",
 "Tests create one instance at a time and never compare behaviour across configurations of the heuristic within a process.",
 [DL,PARSE],[("per-instance facade and configuration","clingodl_theory, DLPropagatorFacade"),("callback table given to clingo","DLPropagatorFacade constructor")],
 ["registered callbacks and models per instance"])
p("C16","The assignment interface and the shown solution agree",
 "During a solution, iterating the assignment of its thread visits exactly the variables that have a value, each once; symbol lookup and index are inverse to each other, indices are stable within and across steps, and the values equal the dl(variable,value) terms added to the shown solution. This holds at any instant for the thread asked about, whatever other threads are doing.",
 ["schedules","histories","configurations"],
 "all solutions of all steps and threads under every interleaving with other threads",
 "Tests read the assignment of a few models in single-threaded runs and never while another thread is inside the theory.",
 [DL,PR],[("assignment iteration","DLPropagatorFacade::next/has_value/get_value"),("model extension","DLPropagator::extend_model")],
 ["clingodl_assignment_*, clingodl_lookup_symbol, clingodl_get_symbol, clingo_model_extend"])
p("C17","Real-valued mode is sound and complete for its constraints",
 "With real-valued difference constraints enabled, the reported values satisfy all enforced constraints (up to the documented epsilon for strict ones), exactly the satisfiable combinations are reported, and body constraints are rejected with an error. This holds in every configuration and search order.",
 ["schedules","inputs","configurations"],
 "all programs with head constraints over exactly representable weights, all options and search orders",
 "Two fixed real-valued programs are tested.",
 [PR,GR,PARSE,"libclingo-dl/src/theory.cc"],[("double instantiation of propagator and graph","DLPropagator<double>, Graph<double>"),("epsilon","theory.cc")],
 ["models of real-valued programs"])
p("C18","Everything acquired is released on every path",
 "Destroying a theory and its control returns all memory the library allocated, on success and after any error, interrupt or failed allocation, and the lifetime of syntax-tree nodes handed in or out is balanced. Repeating the same work in one process does not accumulate memory.",
 ["fault_sequences","histories"],
 "all runs, with and without injected allocation failures, API failures and interrupts",
 "No test measures memory or reference counts, and none takes an error path during search.",
 [DL,PR,APP,MAIN],[("ownership by unique_ptr/containers","clingodl_theory"),("AST node reference counts","clingodl_rewrite_ast")],
 ["allocation ledger of the simulated allocator","acquire/release calls on syntax-tree nodes"])
p("C19","Propagation makes progress and terminates",
 "Every callback and API call of the theory terminates, with work bounded by a polynomial of the number of constraints and variables, also when it adds clauses and re-enters the solver. A solver that follows the protocol reaches a verdict: the theory never makes it run forever by repeating conflicts or propagations that change nothing.",
 ["schedules","inputs","configurations"],
 "all programs (including zero-weight cycles, self loops, parallel and duplicate constraints), search orders and configurations",
 "A hang under a rare search order shows up in tests only if clasp happens to take it.",
 [GR,PR],[("dijkstra-like traversals with non-negative reduced costs","Graph::check_cycle_, dijkstra_full, dijkstra_bounds")],
 ["basic-block counter per callback; number of clauses per fixpoint"])
p("C20","Shifting constraints keeps the regular answers",
 "Rewriting with constraint shifting enabled yields the same regular answer sets as without it in every search: an integrity constraint over a difference constraint excludes exactly the same combinations of regular atoms. Shifting changes how constraints are enforced only as documented.",
 ["schedules","inputs","configurations"],
 "all programs with integrity constraints over one or more difference constraints, in all configurations and search orders",
 "Only the rewritten text of a few rules is tested, never the answers under search.",
 [PARSE,PR],[("shifting of body constraints into heads","shift_rule"),("one-directional versus strict semantics","normalize_constraint_")],
 ["models with and without shift-constraints"])
p("C21","Python bindings expose the same behaviour",
 "The Python class offers the operations of the C interface with the same results and lifetimes, and errors raised by the library surface as Python exceptions.",
 ["inputs","histories"],"all uses of the Python module","The module is only parsed for syntax in the baseline tests.",
 ["libpyclingo-dl/clingodl/__init__.py"],[("cffi/ctypes wrapper","libpyclingo-dl")],["Python API"])
p("C22","Option values and constraint terms are parsed as documented",
 "Option values outside their documented grammar are rejected and valid ones set exactly the documented option; arithmetic in constraint terms is evaluated exactly, and overflow is reported as an error instead of wrapping.",
 ["inputs"],"all option strings and constraint terms","Tests sample a few terms and no invalid option values.",
 [DL,PARSE,"libclingo-dl/clingo-dl/impl/util.hh"],[("option parsers","parse_mode etc."),("checked arithmetic","safe_add etc.")],["clingodl_configure, grounding errors"])
p("C23","Limits set by options on the derived information are respected",
 "Options that limit or order what the theory derives are respected in every search: initialisation adds only mutually exclusive sets within the configured size and search effort, propagation derives consequences only below the configured decision level or within the configured budget, and a thread with sorted propagation adds the constraints of a batch in the configured order. A setting made for one thread applies to that thread and only to it.",
 ["schedules","inputs","configurations"],
 "all programs, all values of add-mutexes, propagate, propagate-root, propagate-budget and sort-edges, alone and with thread suffixes, all search orders and batches of literals",
 T17+"; none observes what is derived at which level, in which order, or how much work initialisation does under a cutoff.",
 [PR,GR,DL],[("mutex enumeration with size and queue cutoff","DLPropagator::calculate_mutexes_"),("root level and budget test","DLPropagator::do_propagate"),("sorting of new edges","DLPropagator::sort_edges")],
 ["clauses added during initialisation and search; levels at which they are added; constraints a conflict uses; basic blocks of initialisation"],
 [("propagate_root, propagate_budget","limits of a thread's propagation","ThreadState")])
p("C24","The same calls give the same behaviour in every process",
 "What the theory does is determined by the calls made to it and the answers it gets from the solver: repeating them gives the same clauses, watches, decisions, conflicts, values, shown terms, statistics counters and errors. It never depends on what memory it was given contained before, on the addresses of objects, on the time or how long a callback took, or on random numbers.",
 ["inputs","configurations","schedules"],
 "all programs, options, searches and thread schedules, executed with different contents and addresses of fresh memory, clocks and random numbers",
 T17+" once, in a process whose fresh memory is mostly zero and whose clock runs normally; a value read before it is set or a choice that depends on addresses or time happens to be the same each time.",
 [PR,GR,DL,APP],[("initialisation of per-thread state, vertices and options","ThreadState, Graph::Vertex, clingodl_create"),("timers only feed statistics","Timer in util.hh")],
 ["every call the library makes into clingo with its arguments; models, values, statistics; results of each call"],
 [("theory object and per-thread state","all members of the library's objects","clingodl_theory, DLPropagator, Graph")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2, x["id"]
print(len(P))

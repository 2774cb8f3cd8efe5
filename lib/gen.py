#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json (python3 lib/gen.py rewrites both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NA = []  # (property, reason)


def P(pid, title, statement, over, qtext, why, files, mech, tech, note, state=None):
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, state=state)


C = "gcs/constraints/"
MODELS = "Every model over bounded integer variables built from these constraints: all domains (including holes, negative and huge-offset values), operands that are variables, views or constants, all argument lists and reification conditions."
RUNTIME = "runtime monitoring: the real solver is run on seeded random models, and an oracle with an independently written meaning for every constraint judges "
SAMPLED = "Bounded by seeded generation: small domains so that the oracle can enumerate every assignment; no claim beyond the models run. "
ALL = [
    P("P01", "Exact solution sets: arithmetic, comparison, linear and logical constraints",
      "For every model made of one arithmetic (absolute value, plus, minus, multiply, divide, modulus, power, minimum, maximum), comparison, equality, linear (also half or fully reified), logical or parity constraint, solving reports exactly the assignments that satisfy the constraint's mathematical meaning. No solution is missed, none is invented and none is reported twice, whichever consistency level is chosen.",
      ["inputs", "configurations"], MODELS,
      "Upstream tests sample a few hand-picked or random ranges per constraint with one configuration; the space of domains, coefficients, signs, overlaps and views is unbounded.",
      [C + "linear/propagate.cc", C + "abs/abs.cc", C + "power/power.cc", C + "plus_minus/plus.cc", C + "comparison/comparison.cc", C + "logical/logical.cc"],
      [("bounds and tabulated propagation", C + "linear/propagate.cc"), ("reified dispatch", C + "innards/reified_dispatcher.hh"), ("tabulation", C + "extensional_utils.cc")],
      "the multiset of reported solutions against exhaustive evaluation", SAMPLED + "Coefficients stay within +-10 and domains within 7 values except for huge-offset variables."),
    P("P02", "Exact solution sets: counting, matching and ordering constraints",
      "For every model made of one all-different (also with exceptions or symmetric), all-equal, among, at-most-one, count, cardinality, inverse, number-of-values, lexicographic, increasing, sorting, array minimum/maximum or value-precedence constraint, solving reports exactly the assignments that satisfy its mathematical meaning, each once. This holds for every consistency level, starting index, open or closed form and reification offered.",
      ["inputs", "configurations"], MODELS,
      "Upstream tests sample a few arities and ranges; failures need a particular combination of arity, aliasing, fixed variables, starting indices or value order.",
      [C + "all_different/all_different.cc", C + "global_cardinality/global_cardinality.cc", C + "inverse/inverse.cc", C + "lex/lex.cc", C + "n_value/n_value.cc", C + "count/count.cc", C + "among/among.cc", C + "value_precede/value_precede.cc"],
      [("matching and strongly connected components", C + "all_different/gac_all_different.cc"), ("counting bounds", C + "count/count.cc")],
      "the multiset of reported solutions against exhaustive evaluation", SAMPLED),
    P("P03", "Exact solution sets: tables, automata, decision diagrams, element",
      "For every model made of one positive, negative or smart table, regular-language (automaton or regular expression, every propagation strategy), decision-diagram, or element (constant or variable array, one or two dimensions) constraint, solving reports exactly the satisfying assignments, each once. Wildcards, repeated tuples, shared tuple storage, partial transition functions and starting offsets mean what the interface documents.",
      ["inputs", "configurations"], MODELS,
      "Upstream tests sample a handful of tables and automata; tables with wildcards, unsorted or repeated rows, unreachable or dead states and views multiply beyond what they reach.",
      [C + "table/table.cc", C + "table/negative_table.cc", C + "smart_table/smart_table.cc", C + "regular/regular.cc", C + "mdd/mdd.cc", C + "element/element.cc"],
      [("table propagation", C + "extensional_utils.cc"), ("layered graph propagation", C + "regular/regular.cc"), ("smart table trees", C + "smart_table/smart_table.cc")],
      "the multiset of reported solutions against exhaustive evaluation", SAMPLED),
    P("P04", "Exact solution sets: scheduling, packing, routing and difference constraints",
      "For every model made of one cumulative, disjunctive (one or two dimensional, optional tasks), bin-packing, knapsack, circuit or subcircuit, difference-system or minimum-distance constraint, solving reports exactly the satisfying assignments, each once. The answer does not depend on which optional inference rules, propagation algorithm or simplification the caller switches on.",
      ["inputs", "configurations"], MODELS,
      "Upstream tests cover each rule on a few instances; the interactions of rule subsets, optional tasks, zero durations, variable heights and capacities are combinatorial.",
      [C + "cumulative/cumulative.cc", C + "disjunctive/disjunctive.cc", C + "bin_packing/bin_packing.cc", C + "knapsack/knapsack.cc", C + "circuit/circuit_scc.cc", C + "difference/difference_graph.cc", C + "min_distance/min_distance.cc"],
      [("time tabling, edge finding, overload rules", C + "cumulative/cumulative.cc"), ("incremental difference reasoning", C + "difference/difference_graph.cc")],
      "the multiset of reported solutions against exhaustive evaluation", SAMPLED),
    P("P05", "Conjunctions of constraints mean the intersection of their meanings",
      "For every model made of several constraints over shared variables, including operands that are aliased, negated or offset views or constants, the reported solutions are exactly the assignments that satisfy all of them, each once. The order in which the constraints are posted and how their propagations interleave make no difference.",
      ["inputs", "programs", "schedules"], "Every conjunction of up to five constraints of any kind over shared, aliased, viewed and constant operands, in every posting order.",
      "Tests exercise constraints alone; interaction through the shared propagation queue, watches and idempotence claims needs particular combinations in one model.",
      ["gcs/innards/propagators.cc", "gcs/innards/inference_tracker.hh", "gcs/innards/state.cc", "gcs/problem.cc"],
      [("propagation queue, watches and idempotence claims", "gcs/innards/propagators.cc"), ("constraint installation", "gcs/problem.cc")],
      "the multiset of reported solutions against exhaustive evaluation of the conjunction", SAMPLED),
    P("P06", "Optimisation finds and proves the true optimum, improving monotonically",
      "When a variable or view is to be minimised or maximised, every reported candidate satisfies the model and is strictly better than the one before, the last one reported is a true optimum, and no candidate is reported exactly when the model is unsatisfiable. This holds with and without restarts and for every branching strategy.",
      ["inputs", "configurations"], "Every model, objective variable or view, direction, branching strategy and restart schedule.",
      "Tests optimise a few example problems; a bound that is applied wrongly needs a particular order of incumbents to show.",
      ["gcs/solve.cc", "gcs/problem.cc", "gcs/search_heuristics.cc"],
      [("branch and bound", "gcs/solve.cc"), ("objective as a view", "gcs/problem.cc")],
      "every incumbent as it is reported, and the final one against the enumerated optimum", SAMPLED),
    P("P07", "Answers do not depend on search configuration",
      "The set of solutions reported for a model, each exactly once, is the same whatever variable order, value order, restart schedule (with its learned nogoods), posting order, internal algorithm threshold or naming of constraints is used.",
      ["configurations", "inputs", "schedules"], "Every model under every combination of heuristics, restart cutoffs, nogood storage modes, posting orders and documented tuning thresholds.",
      "Tests fix one heuristic and default thresholds; restarts and the alternative algorithms only run on a few examples.",
      ["gcs/solve.cc", "gcs/restarts.cc", C + "nogoods/nogoods.cc", "gcs/search_heuristics.cc", C + "linear/propagate.cc"],
      [("restart loop", "gcs/solve.cc"), ("learned nogoods", C + "nogoods/nogoods.cc"), ("incremental and watch-based linear propagation", C + "linear/propagate.cc")],
      "repeated solves of the same model under different configurations against one enumerated answer, with a per-node soundness monitor", SAMPLED),
    P("P08", "Presolving never changes the solutions",
      "Adding any presolver, alone or combined, with any of its options, to any model leaves the set of reported solutions unchanged, each solution being reported once. Any bound a presolver certifies (for example on a makespan) is a true bound.",
      ["inputs", "configurations"], "Every model (scheduling models in particular), every presolver, option set and combination, with and without restarts.",
      "Presolver tests use a few crafted schedules; what they infer depends on the constraints around them and on propagator set-up order.",
      ["gcs/presolvers/auto_table/auto_table.cc", "gcs/presolvers/difference_logic/difference_logic.cc", "gcs/presolvers/cumulative_strengthening/cumulative_strengthening.cc", "gcs/presolvers/inferred_cumulative/inferred_cumulative.cc", "gcs/presolvers/inferred_disjunctive/inferred_disjunctive.cc"],
      [("presolver run and installation of derived constraints", "gcs/solve.cc"), ("derived bounds", "gcs/presolvers/innards/makespan_links.cc")],
      "the multiset of reported solutions and certified bounds against enumeration", SAMPLED),
    P("P09", "Constraints achieve the consistency they advertise at every search node",
      "Where a constraint is documented or asked to achieve domain consistency, then after propagation at every search node each value left in each of its variables' domains belongs to a solution of that constraint within the current domains.",
      ["inputs", "histories"], "Every single-constraint model of the constraints that claim domain consistency, at every node of every search over it.",
      "Upstream tests check this on sampled instances in one search order; incremental state can lose pruning only after a particular sequence of guesses and backtracks.",
      [C + "all_different/gac_all_different.cc", C + "table/table.cc", C + "regular/regular.cc", C + "element/element.cc", C + "logical/logical.cc", C + "abs/abs.cc"],
      [("per-constraint propagation to fixpoint", "gcs/innards/propagators.cc")],
      "the domains at every node for values with no support", SAMPLED + "Only the consistency claims in the documentation and upstream tests are demanded."),
    P("P10", "Propagation is sound at every node and backtracking restores the past",
      "During search, propagation never removes a value, nor declares failure, when a not yet reported solution agreeing with the guesses so far uses it. Every guess is in force below it, no value outside the declared domain ever appears, and what held at a node holds again for its next branch.",
      ["histories", "inputs", "schedules"], "Every model, search strategy and sequence of guesses, failures and backtracks.",
      "Tests only compare final answers, and a lost value that another branch happens to recover, or a value reappearing, is invisible to them.",
      ["gcs/innards/state.cc", "gcs/innards/propagators.cc", "gcs/solve.cc"],
      [("state epochs and backtracking", "gcs/innards/state.cc"), ("guess, propagate, backtrack", "gcs/solve.cc")],
      "domains, failures and closed subtrees at every node against the tracked set of solutions", SAMPLED),
    P("P11", "Domain state behaves as sets with exact inference results and exact backtracking",
      "For any sequence of inferences, guesses, new epochs and backtracks, the domain of every variable and of every view of it is exactly the set obtained by applying those operations mathematically, every query (bounds, size, membership, iteration, intersection, literal truth) agrees with that set, each inference reports precisely how the domain changed, and backtracking restores exactly the domains, constraint state and callbacks of that point.",
      ["histories", "inputs"], "Every history of operations over variables with interval, holed, boolean, singleton and huge domains, through views and constants.",
      "There is almost no direct test of the state; constraint tests exercise only the transitions they happen to make.",
      ["gcs/innards/state.cc", "gcs/innards/state.hh", "gcs/interval_set.hh", "gcs/current_state.hh"],
      [("domain representations and mutation", "gcs/innards/state.cc"), ("epochs", "gcs/innards/state.cc")],
      "every query after every operation against a model made of plain sets and a stack of snapshots", "Random histories of up to a few hundred operations; domains up to a few dozen values, offsets up to 2^60."),
    P("P12", "Every step of a written proof is justified by what came before it",
      "Whenever a model is solved with proof logging on and full justification, the proof file is accepted by the rules of the proof format with respect to the model file: every derived line follows from the lines still alive, every definition uses a fresh literal, no line that was deleted is used, every logged solution satisfies the model, and the final conclusion is supported. No step is taken on trust. This holds for every constraint kind, consistency level, presolver, search, restart schedule, objective and naming or encoding option.",
      ["inputs", "configurations", "histories"], "Every model, search configuration, objective, presolver, and proof naming and encoding option.",
      "Without an installed proof checker the upstream tests write proofs without anybody reading them; with one, they still verify proofs of a handful of models only.",
      ["gcs/innards/proofs/proof_logger.cc", "gcs/innards/proofs/names_and_ids_tracker.cc", "gcs/innards/proofs/pol_builder.cc", "gcs/innards/justification.hh", C + "cumulative/cumulative.cc"],
      [("justification of inferences", "gcs/innards/proofs/infer_explicitly.hh"), ("proof lines and their numbering", "gcs/innards/proofs/proof_logger.cc"), ("lazily introduced literals", "gcs/innards/proofs/names_and_ids_tracker.cc")],
      "every step of the proofs written along the way, replayed by an independent checker of the proof rules (unit propagation, cutting planes, redundance, deletion, solution and objective steps)",
      SAMPLED + "Combinations of constraints and aliased operands that the proof writer is known not to support are kept out of the random models and reported as known findings from fixed models; proofs over the checker's size limits are counted, not judged."),
    P("P13", "The written model file says exactly what the constraints mean",
      "With every problem that is solved with proof logging, the pseudo-Boolean model file admits, for each choice of values of the problem's variables, a completion exactly when that choice is within the domains and satisfies every constraint. The variables map locates those variables' bits, all of these are listed as preserved, and the objective row, present exactly for optimisation problems, orders the choices as the problem's objective does.",
      ["inputs", "configurations"], "Every model and objective, encoding and naming option, and every assignment of bit patterns to the variables.",
      "Proof checking takes the model file on trust: a wrong encoding makes wrong answers verify, and no test compares the file with the meaning of the constraints.",
      ["gcs/innards/proofs/proof_model.cc", "gcs/innards/proofs/emit_inequality_to.cc", "gcs/innards/proofs/names_and_ids_tracker.cc", C + "linear/linear_equality.cc", "gcs/innards/proofs/bits_encoding.cc"],
      [("model rows", "gcs/innards/proofs/proof_model.cc"), ("variable encodings", "gcs/innards/proofs/names_and_ids_tracker.cc")],
      "the satisfiability of the written model under each assignment, decided by an independent search, against the constraints' meanings", SAMPLED + "Up to a few hundred assignments per model plus bit patterns outside the domains."),
    P("P14", "Proofs tell the story of the search, and writing one changes nothing",
      "Solving the same problem with and without a proof visits the same search nodes and reports the same solutions (only the solutions, where a presolver was told to limit the length of its part of the proof), and doing it twice writes identical files. The solutions logged are those reported, in the same order; before each, no solution that is still wanted has been ruled out, at every assertion level; and the conclusion is the one the search is entitled to: unsatisfiable, all solutions listed, or the true bounds, when it was complete, and never a false one.",
      ["inputs", "configurations", "histories"], "Every model, search configuration, objective, stopping point and assertion level.",
      "Tests never compare runs with and without proofs, never read the logged solutions back, and use assertion levels in one place.",
      ["gcs/innards/proofs/proof_logger.cc", "gcs/solve.cc", "gcs/proof.cc", "gcs/innards/proofs/infer_explicitly.hh", "gcs/innards/inference_tracker.hh"],
      [("solution, backtracking and conclusion lines", "gcs/innards/proofs/proof_logger.cc"), ("assertion levels", "gcs/innards/proofs/infer_explicitly.hh"), ("end of search", "gcs/solve.cc")],
      "the recorded search and the enumerated answer against what the proof file says, read back by an independent checker", SAMPLED + "At assertion levels other than full justification the individual steps are not required to check by themselves."),
    P("P15", "Solving is deterministic",
      "Solving the same model twice with the same configuration, in the same process after arbitrary other allocations or in another process, visits the same nodes with the same domains in the same order, reports the same solutions in the same order and ends with the same statistics.",
      ["inputs", "configurations"], "Every model, heuristic (seeded), restart schedule and objective, across memory layouts and processes.",
      "Tests never compare two runs; dependence on addresses, hash order or uninitialised memory shows only across layouts.",
      ["gcs/solve.cc", "gcs/innards/propagators.cc", "gcs/search_heuristics.cc", "gcs/restarts.cc"],
      [("deterministic queue order", "gcs/innards/propagators.cc"), ("seeded heuristics", "gcs/search_heuristics.cc")],
      "recorded event logs of repeated runs (in-process after heap disturbance, and in a child process)", SAMPLED),
    P("P17", "Text terms parse to what was written and print back to the same text",
      "Reading what the symbolic-expression printer wrote gives an equal term, printing what was read normalises only whitespace and comments, and every malformed text (unbalanced, stray or empty) is rejected with an error rather than misread.",
      ["inputs"], "Every term and every text.",
      "The unit tests read a few literals.",
      ["gcs/innards/s_expr.cc", "gcs/innards/s_expr.hh"], [("reader and printer", "gcs/innards/s_expr.cc")],
      "round trips of generated terms and an independent reader's verdict on generated and mutated texts", "Depth and length bounded by generation."),
    P("P18", "Integer arithmetic is exact or throws, never wraps",
      "Every operation on solver integers returns the mathematically exact result, and throws when that result is not representable; comparison, hashing, conversion and printing agree with the mathematical value over the whole 64-bit range.",
      ["inputs"], "Every pair of 64-bit operands, weighted towards extremes and overflow boundaries.",
      "Unit tests sample a few dozen values.",
      ["gcs/integer.hh", "gcs/innards/integer_overflow.hh"], [("checked arithmetic", "gcs/integer.hh")],
      "each operation against 128-bit or arbitrary precision arithmetic", "Sampled operand pairs, boundary-weighted."),
    P("P19", "Bounds arithmetic for products, powers, roots and division is exact",
      "Power, integer logarithm and square root, rounding division and the bounds computed for products and quotients are exact over their whole argument range: they contain every achievable value, are attained, and throw rather than wrap when they cannot be represented.",
      ["inputs"], "Every argument box, including zero-crossing, negative and near-overflow ones.",
      "Tests sample small boxes.",
      ["gcs/innards/power.hh", "gcs/constraints/innards/product_bounds.hh", "gcs/constraints/innards/arithmetic_utils.hh"], [("bounds of products and powers", "gcs/constraints/innards/product_bounds.hh")],
      "results against 128-bit brute force over boxes", "Sampled boxes, boundary-weighted."),
    P("P20", "The binary encoding of a range represents exactly its values",
      "For every variable range the chosen bit width, bit coefficients and sign convention can represent every value of the range, uniquely, and are the narrowest that can.",
      ["inputs"], "Every range of 64-bit integers.",
      "Tests sample a few ranges.",
      ["gcs/innards/proofs/bits_encoding.cc", "gcs/innards/proofs/bits_encoding.hh"], [("bit width selection", "gcs/innards/proofs/bits_encoding.cc")],
      "coverage of range ends and random members by the returned coefficients", "Sampled ranges, boundary-weighted."),
    P("P21", "Interval sets behave as mathematical sets",
      "After any sequence of insertions, erasures and bound changes, an interval set contains exactly the values those operations imply, in sorted, disjoint, maximal intervals, and all its queries (size, bounds, membership, gaps, iteration forwards, backwards and over intervals) agree with that set.",
      ["histories", "inputs"], "Every sequence of operations on sets of 64-bit values.",
      "Unit tests apply a few fixed sequences.",
      ["gcs/interval_set.hh"], [("interval merging and splitting", "gcs/interval_set.hh")],
      "every query after every operation against std::set", "Random histories over small universes at random offsets."),
    P("P22", "Interval trees answer range queries as the plain sequence would",
      "For every sequence of updates, each prefix, range and search query on the tree-structured time lines equals the answer computed directly from the plain sequence.",
      ["histories", "inputs"], "Every history of updates and queries.",
      "Unit tests use fixed sequences.",
      ["gcs/innards/interval_tree.hh"], [("tree combination", "gcs/innards/interval_tree.hh")],
      "each answer against a linear scan", "Random histories on up to a few dozen leaves."),
    P("P23", "Views, conditions, literals and linear expressions obey their algebra",
      "A view of a variable denotes exactly its sign and offset applied to the variable, in any nesting; conditions on it, their negations and their range forms hold for exactly the values they describe; and building, adding, scaling, negating and simplifying linear expressions preserves their value for every assignment. Two-dimensional array arguments give the element at the row and column asked for.",
      ["inputs"], "Every nesting of negation and offset, every condition and every expression built from them, evaluated at every assignment.",
      "Unit tests cover a few forms.",
      ["gcs/variable_id.hh", "gcs/variable_id.cc", "gcs/variable_condition.hh", "gcs/expression.hh", "gcs/array_param.hh", C + "linear/utils.hh"], [("views", "gcs/variable_id.cc"), ("tidying linear sums", C + "linear/utils.cc")],
      "each value evaluated through the built object against direct evaluation", "Random nestings and expressions, small assignments."),
    P("P24", "Regular expressions compile to automata accepting exactly their language",
      "For every regular expression in the documented syntax the compiled automaton accepts exactly the words of its language over the given alphabet, and malformed or out of range expressions are rejected with an error instead of being misread.",
      ["inputs"], "Every expression and every word.",
      "Unit tests check a few expressions on a few words.",
      ["gcs/constraints/regular/regex.cc", "gcs/constraints/regular/regex.hh"], [("parser and automaton construction", "gcs/constraints/regular/regex.cc")],
      "acceptance of all short words against an independent derivative-based matcher", "Words up to length five over small alphabets."),
    P("P25", "Difference-graph algorithms preserve meaning and compute exact distances",
      "Simplifying a system of difference constraints keeps exactly the same set of feasible assignments, reports infeasibility exactly when there is none, and the incremental distance and potential maintenance gives exactly the bounds a from-scratch shortest-path computation gives after every change.",
      ["histories", "inputs"], "Every difference system and every sequence of bound changes.",
      "Unit tests use fixed graphs.",
      [C + "difference/difference_simplify.cc", C + "difference/difference_incremental.cc"], [("graph simplification", C + "difference/difference_simplify.cc"), ("incremental shortest paths", C + "difference/difference_incremental.cc")],
      "feasible sets and bounds against brute force and Bellman-Ford", "Up to eight nodes."),
    P("P26", "Restart cutoffs follow the documented sequence exactly",
      "A restart schedule yields exactly its documented sequence of cutoffs (the Luby sequence times its scale) for arbitrarily many restarts, each schedule object advancing independently of its copies. A search given a schedule is cut off exactly when a run has failed as often as its next term says, and at no other time.",
      ["inputs", "histories"], "Every scale, every position in the sequence and every search using a schedule.",
      "Unit tests check the first few terms.",
      ["gcs/restarts.cc", "gcs/restarts.hh"], [("Luby sequence", "gcs/restarts.cc"), ("cut-offs during search", "gcs/solve.cc")],
      "each term against the recursive definition; the runs a search monitor sees against the terms", "Prefixes up to a few thousand terms; searches of small models."),
    P("P28", "Callbacks run in order, tell the truth, and stopping stops",
      "Callbacks arrive in the documented order, solutions are reported only with every variable fixed, and once a callback asks to stop or the abort flag is set no further solution or branch is reported. Completion is announced exactly once when, and only when, the whole space was covered, and what was reported before a stop is a correct part of the full answer.",
      ["schedules", "fault_sequences", "inputs"], "Every model and every point at which a callback declines or the abort flag is raised, from inside or from another thread.",
      "Tests almost never stop a search part way, and never from another thread.",
      ["gcs/solve.cc", "gcs/solve.hh", "gcs/innards/propagators.cc"], [("abort polling and stop results", "gcs/solve.cc")],
      "recorded callback traces against a protocol automaton and the enumerated answer, with stops injected at random points", SAMPLED),
    P("P32", "Instance files are read exactly as written or rejected",
      "The instance readers (MiniZinc data, ProGen/max scheduling, RCPSP data, dispersion distances, table layout) return exactly the values the file states, in order and shape, whatever its layout, comments and wrappers; a file with a missing, ragged, out of range, unparsable, duplicate or dangling item is rejected with an error instead of being read with something dropped or changed.",
      ["inputs", "fault_sequences"], "Every file text, well formed or damaged.",
      "Tests read a few small well formed files.",
      ["examples/dzn.hh", "examples/rcpsp/rcpsp_instance.hh", "examples/p_dispersion/p_dispersion_instance.hh", "examples/table_layout/table_layout_instance.hh"],
      [("data file tokens", "examples/dzn.hh"), ("scheduling files", "examples/rcpsp/rcpsp_instance.hh")],
      "each reader's answer against an independent reading of generated files, well formed, reformatted and damaged in known ways", "Files of a few hundred characters; an item followed by stray text in a distance file is not judged."),
    P("P35", "Instance generators and schedule bounds are deterministic and sound",
      "The instance generators obey their options, give the same instance for the same seed, and keep the rest of an instance when time lags are switched on; an instance asked to be infeasible is. Earliest starts, tails, longest paths, critical path, default horizon and the serial schedule are exact or sound bounds, the feasibility test accepts exactly the schedules meeting every precedence, capacity, machine and lag, and derived requirements, sums and extents follow their definitions.",
      ["inputs"], "Every option, seed, instance and schedule.",
      "Tests use a handful of fixed instances.",
      ["examples/rcpsp/rcpsp_instance.hh", "examples/p_dispersion/p_dispersion_instance.hh", "examples/table_layout/table_layout_instance.hh"],
      [("generator and bounds", "examples/rcpsp/rcpsp_instance.hh")],
      "every derived quantity against its definition computed by brute force or closure", "Instances of up to eight tasks or points."),
    P("P16", "Written problem descriptions read back as the same problem",
      "The .scp description written beside a proof names every variable, constraint and objective of the problem, and reading it back gives a problem with the same solutions and objective order whose own description is the same text. Every keyword the writer produces is one the reader accepts; text that is not a well formed description (version, sections, declarations, operators, labels, names, numbers) is refused with an error, never read as something else.",
      ["inputs", "fault_sequences"], "Every model over variables and constants (views and nondeterministic automata may be refused), and every damaged text.",
      "Tests check that keywords can be read, on one model per constraint and without comparing what the two problems mean.",
      ["gcs/scp_reader.cc", "gcs/scp_reader.hh", "gcs/innards/proofs/scp_writer.cc", "gcs/innards/s_expr.cc"],
      [("writer", "gcs/innards/proofs/scp_writer.cc"), ("reader", "gcs/scp_reader.cc")],
      "descriptions of models with a known meaning are read back, solved and compared with the enumerated solutions, written again and compared as text; damaged ones must be refused", SAMPLED),
    P("P31", "The description solving program answers the file it is given",
      "glasgow_scp_solver prints, as name=value lines, exactly the solutions of the file given: all of them with --all, one without, and an improving sequence ending in the optimum if there is an objective. It reads without searching on --parse-only, prints statistics and writes proof files only when asked, and ends with status 2 for an unknown constraint keyword, another failure status for a file it cannot read, and 0 otherwise.",
      ["inputs", "configurations"], "Every description and combination of options.",
      "No test runs the program on this machine; upstream's only checks that it can parse.",
      ["scp/glasgow_scp_solver.cc", "gcs/scp_reader.cc"], [("options, reporting and exit status", "scp/glasgow_scp_solver.cc")],
      "the program's output and exit status on generated files against the enumerated answer", SAMPLED),
    P("P29", "Malformed models and names are refused, well-formed ones accepted",
      "Posting or solving a malformed model is refused with the documented exception: mismatched array lengths, presence variables wider than 0/1, unknown automaton states or diagram nodes, negative sizes, counts or capacities the constraint's description excludes, empty domains, duplicate or invalid names. The refused step adds nothing a later solve sees. Well-formed models, including boundary sizes and default or generated names, are accepted.",
      ["inputs", "histories"], "Every malformation the headers describe, at every position of every constraint's arguments, and every sequence of namings.",
      "Tests check a refusal for a few constraints and one damage each, and seldom that the neighbouring good input passes.",
      ["gcs/problem.cc", "gcs/constraint.cc", "gcs/exception.hh", "gcs/constraints/regular/regular.cc", "gcs/constraints/mdd/mdd.cc", "gcs/constraints/cumulative/cumulative.cc", "gcs/constraints/global_cardinality/global_cardinality.cc", "gcs/constraints/knapsack/knapsack.cc"],
      [("argument checks", "gcs/constraints"), ("names and ids", "gcs/problem.cc")],
      "each good model and its damaged copies are posted and solved; refusal, acceptance and what is left behind are compared with the description", SAMPLED),
    P("P27", "No memory error or undefined behaviour in solving, proving or reading",
      "No use of the library, the .scp solving program, the proof writer or the instance readers reads or writes outside an object or after its lifetime, breaks a standard library precondition, overflows a signed integer, shifts out of range, converts an unrepresentable floating value or dereferences null, whatever the model, options, order of destruction, stop point or malformed text.",
      ["inputs", "histories", "configurations"], "Every workload of the other checks, repeated under instrumentation, including hostile text and early stops.",
      "The test build has no sanitizer or library assertions, so a stray access usually passes unnoticed.",
      ["gcs/innards/state.cc", "gcs/innards/propagators.cc", "gcs/solve.cc", "gcs/stats.cc", "gcs/innards/proofs/proof_logger.cc", "gcs/scp_reader.cc", "gcs/innards/s_expr.cc"],
      [("lifetimes across solve, proof and statistics", "gcs/solve.cc")],
      "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions over the workloads of the other checks", "Bounded by the sampled workloads; leaks are not checked because LeakSanitizer needs ptrace, and undefined behaviour the three instruments cannot see is missed."),
    P("P36", "Solves are independent: repeated, nested, aborted and concurrent",
      "A solve leaves its problem and its constraint objects as they were: a problem solved again, after any earlier solve was completed, stopped, aborted or thrown out of, and after more constraints or another objective were added, gives exactly the answers of what it now contains. Solves inside another's callbacks, of problems made from the same constraint objects, or on other threads neither change its search nor race with it, and an abort flag may be set from another thread.",
      ["histories", "schedules"], "Every sequence, nesting and interleaving of solves.",
      "Tests solve each problem once, on one thread.",
      ["gcs/problem.cc", "gcs/solve.cc", "gcs/constraint.hh", "gcs/variable_weighting.hh", "gcs/search_heuristics.hh", "dev_docs/propagator-performance.md"],
      [("each search clones its constraints", "gcs/problem.cc"), ("the abort flag", "gcs/solve.cc")],
      "sequences, nestings and threads of solves judged against enumerated answers and the undisturbed search, the threaded ones under ThreadSanitizer", "Bounded by the sampled models, sequences and interleavings; several threads solving one and the same Problem object at once is not documented and not exercised."),
    P("P30", "The FlatZinc program answers exactly what the model means",
      "For a FlatZinc JSON model the program's printed solutions, in every output form, are exactly the model's solutions (all of them when asked, as many as asked when limited), a printed optimum is optimal, and the final status line claims completeness or unsatisfiability only when that is true, whatever search annotations, flags or variable order are given. A faulty file is refused with an error status and no claim.",
      ["inputs", "configurations"], "Every predicate of the solver library with every argument shape, combined with every flag and annotation.",
      "Tests of this program need the MiniZinc tool chain and compare a few models.",
      ["minizinc/fzn_glasgow.cc"],
      [("predicate translation and output", "minizinc/fzn_glasgow.cc")],
      "generated JSON files are run through the real program; the printed text is compared with an enumeration of independently written predicate meanings", SAMPLED),
    P("P37", "Asserted proof steps name a constraint they follow from",
      "At the assertion levels, where a proof states inferences instead of deriving them, every stated step that carries a constraint name and family names a constraint of the problem, of a kind that family belongs to, and follows from that constraint alone (with what was stated before); every other stated step follows from the whole problem and the solutions reported so far. No stated step rules out a solution that has not been reported. Unless linear, difference, distance or nogood constraints, presolvers or restarts are in play, every stated inference is attributed in this way.",
      ["inputs", "histories"], "Every inference of every propagator on every model, at every assertion level.",
      "Tests hand no assertion-level proof to a checker.",
      ["gcs/innards/assertion_hints.hh", "gcs/innards/proofs/infer_explicitly.hh", "gcs/innards/proofs/proof_logger.cc", "gcs/innards/inference_tracker.hh", "gcs/constraints/circuit/hints.hh", "gcs/constraints/linear/hints.hh"],
      [("family names and owners of assertions", "gcs/innards/assertion_hints.hh"), ("what gets stated at each level", "gcs/innards/proofs/proof_logger.cc")],
      "each stated step, decoded through the variables map, is evaluated over every assignment to the variables and judged against an independently written meaning of the constraint it names", "Bounded by the sampled models; steps that mention a constraint's own auxiliary flags are only checked for their annotation. Models with a repeated variable in the known-finding shapes are left out of the random part."),
    P("P33", "Search statistics count what actually happened",
      "The statistics returned by a solve equal what an outside observer of the same search counts: nodes, failures, solutions, maximum depth, restarts and learned nogoods, and the runs of propagators, those that had an effect and those that ended in a contradiction. Their printed form shows the same numbers.",
      ["inputs", "histories"], "Every model and search.",
      "Tests compare no statistic with an independent count.",
      ["gcs/stats.cc", "gcs/stats.hh", "gcs/solve.cc"], [("counters in search and queue", "gcs/solve.cc")],
      "the returned statistics against counts kept by a search monitor, and by propagators that count their own runs", SAMPLED),
    P("P34", "Branching heuristics choose as described and always partition the domain",
      "At every node the branches offered are on one variable with more than one value left and split its remaining values into nonempty parts that are disjoint and cover all of them, none are offered exactly when every variable is fixed, and each variable and value ordering picks what its description says; the weighted ones go by the conflicts there have been, by the scheme's formula, with weights that can be saved, merged and loaded.",
      ["inputs", "histories"], "Every variable and value ordering, model and node.",
      "Tests run one or two orderings and never look at the branches.",
      ["gcs/search_heuristics.cc", "gcs/search_heuristics.hh", "gcs/variable_weighting.hh"], [("variable and value orders", "gcs/search_heuristics.cc")],
      "the branches taken at every node against the node's domains and the ordering's description, with weights kept by a conflict observer of our own", SAMPLED),
    P("P38", "What components report is heard at once, kept, and printed in full",
      "Each note a presolver or constraint reports reaches the handler when it is said, before the search, in order, with its level, component, constraint and text, and no note reaches it after the solve; the returned statistics keep exactly those notes, and list each component's block once, also after the problem is gone. Printing shows the counters, one line for every block and every note from General up; the default handler writes exactly the Important ones. Counts and budgets a block states are kept.",
      ["inputs", "histories"], "Every model, presolver, option, handler and lifetime.",
      "Tests look at a few notes of hand-made models while the problem is still alive.",
      ["gcs/stats.cc", "gcs/stats.hh", "gcs/solve.cc", "gcs/innards/propagators.cc"], [("collecting and printing reports", "gcs/stats.cc"), ("presolver reports", "gcs/presolvers/cumulative_strengthening/cumulative_strengthening.cc")],
      "every note as the handler heard it against what the statistics keep and print, with the problem alive or gone (also under AddressSanitizer), and random operations on the report object against a plain model", SAMPLED),
    P("P39", "A problem and its search states can be inspected, and answer truthfully",
      "A problem lists its variables in creation order with their bounds and names, its constraints in posting order with their types and identifiers, those of one type, and its objective, as they were made, whatever was solved in between. In every callback, all ways of asking a search state about a variable, view or constant agree; a value is given exactly when there is only one, and otherwise the documented exception is thrown. A cloned state keeps saying what it said when it was cloned, also after the search has gone on or ended.",
      ["inputs", "histories"], "Every model, search and moment.",
      "Tests ask one or two questions of fixed models, and hardly keep a state.",
      ["gcs/problem.cc", "gcs/problem.hh", "gcs/current_state.cc", "gcs/current_state.hh"], [("listing a problem", "gcs/problem.cc"), ("asking a state", "gcs/current_state.cc")],
      "what was put into a problem against what it lists, every question about a state against every other, and kept clones against a snapshot taken when they were made", SAMPLED),
    P("P40", "The XCSP program answers exactly what the instance means",
      "For an XCSP3 instance of supported constraints, whatever the flags (search heuristic, restarts, difference logic, proof, time limit not reached), the program prints exactly the instance's solutions when all are asked for, each once and with their number, and otherwise a solution, or an optimum with strictly improving costs on the way; it says satisfiable, optimum found or unsatisfiable only when that is so. A constraint, condition or expression it does not support is reported as unsupported, with an error status and no answer.",
      ["inputs", "configurations"], "Every constraint form, condition and expression tree, combined with every flag.",
      "Tests of this program need an XML parser library and compare a few instances.",
      ["xcsp/xcsp_glasgow_constraint_solver.cc"],
      [("translation of constraints, conditions and expressions, and the answers printed", "xcsp/xcsp_glasgow_constraint_solver.cc")],
      "generated instances are run through the real program; the printed text is compared with an enumeration of independently written meanings", SAMPLED + " The XML parser library is not installed, so the program is built against a stand-in that reads the same constraints from plain text; reading XML is not covered. Circuits whose domains allow self loops are left out."),
]


def main():
    lines, checks = [], []
    known_ids = set()
    for p in ALL:
        known_ids.add(p["pid"])
        if p["pid"] not in PROPS:
            continue
        for f in p["files"] + [w for _, w in p["mech"]]:
            if not os.path.exists(os.path.join(REPO, f)):
                sys.exit("%s: no such file %s" % (p["pid"], f))
        assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = p["state"]
        lines.append(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                 "why_tests_cant": p["why"], "anchors": a}))
        tech = p["tech"] if p["tech"].startswith("runtime") or p["tech"].startswith("sanit") else RUNTIME + p["tech"]
        checks.append({"property": p["pid"], "quick_cmd": "python3 run.py %s quick" % p["pid"], "thorough_cmd": "python3 run.py %s thorough" % p["pid"],
                       "technique": tech, "level": PROPS[p["pid"]].get("level", "exploration"), "level_note": p["note"]})
    for pid in PROPS:
        if pid not in known_ids:
            sys.exit("no text for " + pid)
    open(os.path.join(VERIF, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks were needed: the monitors attach through the solver's public callbacks and the internal headers, and sanitizers through compiler flags", "source_commits": []},
         "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
    open(os.path.join(VERIF, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
    print(len(checks), "checks")


main()

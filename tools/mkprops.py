#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

M = "switss/model/"; PR = "switss/problem/"; U = "switss/utils/"

prop("C01", "Reachability-form reduction preserves the reachability problem",
 "For every DTMC or MDP with one initial state that can reach a non-empty target set, the reduction yields a model that satisfies every documented reachability-form condition (single initial/target/fail, target and fail absorbing at the last two positions, everything reachable from the initial state, everything but fail reaches the target) and contains exactly the states reachable without passing through a target that can still reach a target. "
 "The two returned maps are injective and describe exactly the retained states and state-action pairs; along them every transition probability, state label, action label and reward is carried over, transitions out of original targets become one certain step to the new target, and all lost probability mass goes to fail and nowhere else. "
 "Consequently the minimal and maximal probability of reaching the target from every retained state is the same before and after.",
 ["inputs"], "all DTMCs/MDPs (any row order, action numbering, end components, self-loops, several targets, unreachable parts, overlapping labels, rewards)",
 "The tests reduce six fixed models whose rows are already in state order and look at matrix entries of those only.",
 [M+"reachability_form.py", U+"graph.pyx"],
 [("ReachabilityForm.reduce", M+"reachability_form.py"), ("__initialize_system", M+"reachability_form.py"), ("assert_consistency", M+"reachability_form.py")],
 ["ReachabilityForm.reduce(...) return triple", "rf.system.P / labels / reward_vector", "rf.A, rf.P, rf.to_target, rf.index_by_state_action"],
 [("to_rf_cols/to_rf_rows", "maps from original states / state-action pairs to the reduced ones", M+"reachability_form.py")])

prop("C02", "Computed minimal and maximal reachability probabilities are exact",
 "For every system in reachability form, with or without end components, the minimal (maximal) reachability query returns for every state the true minimum (maximum) over all schedulers of the probability of reaching the target, up to solver tolerance, for each supported solver. "
 "The auxiliary vectors are consistent with them: the one-step value of every state-action pair is its probability to target plus the expected minimal probability of its successors, and the flow vector is a feasible flow from the initial state whose mass into the target equals the maximal probability of the initial state.",
 ["inputs", "configurations"], "all reachability forms (DTMC and MDP, end components, zero-probability states), solvers cbc and glpk",
 "Tests compare a handful of numbers on fixed models without generating end-component structures; optimality over all schedulers is a for-all statement.",
 [M+"reachability_form.py", "switss/solver/milp.py", U+"graph.pyx"],
 [("pr_min / max_z_state LP", M+"reachability_form.py"), ("pr_max LP", M+"reachability_form.py"), ("max_y_state_action LP", M+"reachability_form.py"), ("proper end components pinned to zero", M+"reachability_form.py")],
 ["rf.pr_min()", "rf.pr_max()", "rf.max_z_state_action()", "rf.max_y_state_action()", "rf.max_y_state()"])

prop("C03", "The certificate checker accepts exactly the valid Farkas certificates",
 "A vector accepted for a mode (min/max), comparison (<=, <, >=, >) and threshold proves, up to the stated tolerance, that the minimal or maximal reachability probability of the initial state compares to the threshold as claimed; no vector is accepted for a false claim. "
 "Conversely every non-negative vector that satisfies the Farkas conditions of that mode and comparison (with the zero condition on end components for min-probabilities) is accepted, and any vector violating one of the conditions by more than the tolerance is rejected.",
 ["inputs"], "all reachability forms, all four comparisons, both modes, all thresholds in [0,1], all candidate vectors (valid, mutated, random, with negative entries)",
 "Tests only check certificates produced by the library for a few thresholds; soundness is about every possible vector, including adversarial ones.",
 ["switss/certification/certificates.py", M+"reachability_form.py"],
 [("check_farkas_certificate", "switss/certification/certificates.py"), ("fark_z_constraints / fark_y_constraints", M+"reachability_form.py")],
 ["check_farkas_certificate(rf, mode, sense, thr, vec, tol)"])

prop("C04", "A certificate is generated exactly when the claim is true",
 "Whenever the minimal (maximal) reachability probability satisfies the comparison with the threshold by more than solver tolerance, certificate generation returns a vector, and that vector fulfils the Farkas conditions of the claim; whenever the claim is false by more than tolerance it returns nothing. "
 "This holds for all eight combinations of mode and comparison, with and without end components.",
 ["inputs", "configurations"], "all reachability forms x {min,max} x {<=,<,>=,>} x thresholds in [0,1] x solvers cbc/glpk",
 "Tests generate certificates for a few models at thresholds where one exists; completeness near end components and for strict comparisons is never sampled.",
 ["switss/certification/certificates.py", M+"reachability_form.py"],
 [("generate_farkas_certificate", "switss/certification/certificates.py"), ("find_interior_point", "switss/certification/certificates.py")],
 ["generate_farkas_certificate(rf, mode, sense, thr)"])

prop("C05", "Exact minimization returns a minimum-size witnessing subsystem",
 "For every reachability form and threshold the exact method reports infeasible iff the full system misses the threshold, and otherwise returns a certificate that is valid for the threshold, a subsystem consisting of the states with positive certificate entries whose own minimal (maximal) probability reaches the threshold, and a value equal to the number of states of that subsystem. "
 "No subsystem with fewer states reaches the threshold.",
 ["inputs", "configurations"], "all reachability forms (max mode: end-component free, as required by the non-gurobi backend), thresholds in (0,1], modes min/max, solvers cbc/glpk",
 "Minimality quantifies over all subsets of states; tests compare against a few recorded numbers on fixed models.",
 [PR+"milpexact.py", PR+"formulations.py", PR+"subsystem.py", "switss/solver/milp.py"],
 [("construct_MILP", PR+"formulations.py"), ("add_indicator_constraints", PR+"formulations.py"), ("compute_upper_bounds", PR+"formulations.py"), ("MILPExact._solveiter", PR+"milpexact.py")],
 ["MILPExact(solver).solve(rf, thr, mode) -> status, value, subsystem.subsystem_mask, farkas_cert"])

prop("C06", "Label-based exact minimization uses the fewest possible labels",
 "When minimizing with respect to a set of labels, the exact method returns a subsystem that reaches the threshold, and its value is the minimum number of labels from that set such that the states all of whose listed labels are chosen (states without a listed label are free) suffice to reach the threshold. "
 "Every state of the returned subsystem carries only chosen labels, so the number of listed labels occurring in the subsystem never exceeds the value; it reports infeasible iff the full system misses the threshold.",
 ["inputs", "configurations"], "all reachability forms, all (overlapping, empty, partial) label families, thresholds in (0,1], modes min/max",
 "Tests use four fixed labelings; minimality quantifies over all label subsets.",
 [PR+"formulations.py", PR+"milpexact.py"],
 [("groups_from_labels", PR+"formulations.py"), ("add_indicator_constraints", PR+"formulations.py")],
 ["MILPExact().solve(rf, thr, mode, labels=[...])"])

prop("C07", "Every heuristic iteration yields a sound witness and truthful value",
 "For every choice of initializer, updater, iteration count, mode and label set, each successful iteration of the quotient-sum heuristic yields a certificate valid for the threshold, a subsystem that itself reaches the threshold, and a value equal to the number of groups used by that iteration (states, state-action pairs or labels), which is never smaller than the exact optimum. "
 "It reports failure iff the threshold is unattainable, and yields exactly the requested number of results otherwise; solve returns the last result that solveiter yields.",
 ["inputs", "configurations"], "reachability forms (with and without end components), thresholds in (0,1], 4 initializers x 2 updaters x iteration counts x modes x label sets",
 "The test suite's heuristic tests cover only a few fixed models with default parameters.",
 [PR+"qsheur.py", PR+"qsheurparams.py", PR+"formulations.py"],
 [("QSHeur._solveiter", PR+"qsheur.py"), ("initializers / updaters", PR+"qsheurparams.py")],
 ["QSHeur(iterations, initializertype, updatertype).solveiter(rf, thr, mode, labels)"])

prop("C08", "Subsystem extraction is the exact restriction of the supersystem",
 "For any certificate vector, the subsystem consists exactly of the states with a positive entry (of the state or of one of its actions); the extracted model keeps for those states all actions, probabilities to retained states and to the target, state labels, action labels and rewards unchanged, and redirects exactly the remaining probability to fail. "
 "Reaching probabilities in the extracted model therefore equal those of the supersystem with the other states made failing, and for a certificate valid for a threshold they reach that threshold.",
 ["inputs"], "all reachability forms and all certificate vectors/masks (both forms), including masks that split end components",
 "Tests only extract subsystems returned by the solver on fixed models and do not look at labels.",
 [PR+"subsystem.py"],
 [("Subsystem.subsystem_mask", PR+"subsystem.py"), ("Subsystem.subsys", PR+"subsystem.py")],
 ["Subsystem(rf, certificate, certform).subsystem_mask / .subsys / .digraph"])

prop("C09", "SCC, MEC, reachability and neighbour queries match their definitions",
 "For every model the strongly connected components partition the states exactly by mutual reachability, and the maximal end components partition them exactly by the mathematical definition with a MEC flagged proper iff it contains an action that stays inside; the reported counts agree and component indices are contiguous. "
 "Forward/backward reachability returns exactly the states reachable from the given set when search does not continue beyond blocked states, and successor/predecessor queries return exactly the positive-probability transitions with their probability.",
 ["inputs"], "all DTMCs/MDPs of any shape and size, any internal random seed, any start set and block list",
 "Tests inspect MECs of a few toy models; the randomized treap makes behaviour depend on the clock, which a sample cannot settle.",
 [U+"graph.pyx", U+"treaps.pyx", U+"stack.pyx", M+"amdp.py"],
 [("Tarjan on sub-MDPs", U+"graph.pyx"), ("treap sets", U+"treaps.pyx"), ("reachable search", U+"graph.pyx")],
 ["model.strongly_connected_components()", "model.maximal_end_components()", "model.reachable_mask()", "model.successors/predecessors"])

prop("C10", "Saving and loading a model loses nothing",
 "For every DTMC or MDP, saving to .tra/.lab and loading again yields a model with the same states, the same state-action pairs, the same labels on the same states (including empty labels and labels with unusual characters), and the same transition probabilities, independent of the row order of the original. "
 "Explicit files in the documented PRISM format written by other tools are read exactly as written, including action labels.",
 ["inputs"], "all models, all label names without a double quote or line break, all probabilities, all orderings of file lines",
 "Tests load a few benchmark files but never compare a saved model with the original.",
 [M+"dtmc.py", M+"mdp.py", "switss/prism/prism.py", M+"amdp.py"],
 [("DTMC.save / MDP.save", M+"dtmc.py, "+M+"mdp.py"), ("_load_transition_matrix", M+"mdp.py"), ("parse_label_file", "switss/prism/prism.py")],
 ["model.save(path)", "cls.from_file(lab, tra)"])

prop("C11", "Models are validated on construction and represent exactly their input",
 "Constructing a DTMC or MDP succeeds exactly when every row is a probability distribution (sums to one within rounding, no entry outside [0,1]), rewards are non-negative and, for DTMCs, the matrix is square with all actions 0; the same matrix given as nested list, array or any sparse format yields the same model. "
 "The model then answers every query - transition probabilities, available actions, labels by state, states by label, labels by action, actions by label, state-action index - exactly as specified by its inputs.",
 ["inputs"], "all matrices (valid and invalid), all index bijections, all label maps, all input container formats",
 "Tests build a few valid models; rejection and format independence quantify over all inputs.",
 [M+"amdp.py", M+"dtmc.py", M+"mdp.py", U+"casting.py"],
 [("__check_correctness", M+"amdp.py"), ("cast_dok_matrix", U+"casting.py"), ("actions_by_state", M+"amdp.py")],
 ["DTMC(...) / MDP(...)", "model.P, actions_by_state, labels_by_state, ..."])

prop("C12", "Reward forms compute exact expected rewards and minimal reward witnesses",
 "For every model whose reduction never fails and has no end component, the reward form's minimal and maximal expected-reward queries return for every state the true optimum over all schedulers of the expected reward collected before the form's target state is entered; models violating these preconditions are rejected. "
 "The exact method on a reward form returns a valid certificate and the minimum number of states whose certificate can be positive with the reward threshold still met, and reports infeasible iff the threshold exceeds the optimal expected reward.",
 ["inputs", "configurations"], "all EC-free models with reward vectors (integer, fractional, zero rewards), thresholds >= 0, modes min/max",
 "Tests check two toy models with a fixed reward vector.",
 [M+"reward_reachability_form.py", PR+"formulations.py", PR+"milpexact.py"],
 [("RewardReachabilityForm.reduce / fromsystem", M+"reward_reachability_form.py"), ("rew_min / rew_max LPs", M+"reward_reachability_form.py"), ("fark_*_constraints", M+"reward_reachability_form.py")],
 ["RewardReachabilityForm.reduce(...)", "rrf.rew_min()", "rrf.rew_max()", "MILPExact().solve(rrf, thr, mode)"])

prop("C13", "The invertible label map and its inverse stay consistent",
 "After any sequence of additions, removals and inverse look-ups through either side of an invertible dictionary, both directions describe the same relation: a value is in the set of a key iff the key is in the set of the value. "
 "Missing keys give an empty set in default mode and an error otherwise, and labels added to a model are visible from both the label and the state side at once.",
 ["histories"], "all operation sequences on an invertible dictionary or the label interface of a model",
 "There is no test of this class at all; consistency depends on when the cached inverse was first taken.",
 [U+"invertible_dict.py", M+"amdp.py"],
 [("InvertibleDict.add/remove/inv", U+"invertible_dict.py"), ("AbstractMDP.add_label", M+"amdp.py")],
 ["InvertibleDict API", "model.add_label, labels_by_state, states_by_label"],
 [("cached inverse", "inverse map kept in step incrementally once requested", U+"invertible_dict.py")])

prop("C14", "The LP/MILP layer solves exactly the model that was built",
 "For every sequence of adding variables (real, integer, binary, bounded or free), adding and removing constraints of each sense and setting or updating the objective - or building from coefficient matrices in any format - solving reports optimal, infeasible or unbounded as is mathematically the case, and if optimal returns a feasible assignment (integral where requested) whose objective equals the reported value and the true optimum. "
 "Indices returned for variables and constraints address exactly those objects.",
 ["histories", "inputs", "configurations"], "all small LPs/MILPs and build histories, solvers cbc and glpk",
 "Tests reach this layer only through fixed probability models and never remove constraints or update objectives explicitly.",
 ["switss/solver/milp.py", U+"casting.py"],
 [("MILP.from_coefficients", "switss/solver/milp.py"), ("add_constraint / remove_constraint / set_objective_function", "switss/solver/milp.py"), ("solve status mapping", "switss/solver/milp.py")],
 ["MILP/LP API", "SolverResult.status/result_vector/value"])

prop("C15", "The command line pipeline agrees with the library",
 "For every model on disk the commands rf, minimize, certify, subsystem, info and render succeed on valid arguments and write files that say exactly what the library computes: the reduced model and its mapping, certificates that are valid for the recorded threshold (one per iteration when iterating), one certification verdict per certificate that is positive iff the certificate is valid, and a labelled model whose new label marks exactly the subsystem's states. "
 "A corrupted certificate is reported as invalid, an unattainable threshold yields an empty list of certificates, and unusable arguments are reported by the exit status without touching any file.",
 ["inputs", "configurations", "histories"], "all models and argument combinations of the documented commands (methods, modes, thresholds, labels, custom label names, output paths)",
 "There is no test of the command line tool.",
 ["bin/switss"],
 [("rfargs/minargs/certargs/subsysargs/infoargs/renderargs", "bin/switss")],
 ["exit status, stdout and files written by bin/switss"])

prop("C16", "Rendered graphs show exactly the model",
 "The graph drawn for a DTMC or MDP has exactly one node per state that occurs in a transition (plus one per state-action pair for MDPs), exactly one edge per positive transition carrying its probability, and state labels as in the model; custom style functions are called with the documented arguments. "
 "For reachability forms target and fail are styled as such and all other nodes keep the style of the original state, and for subsystems exactly the states outside the subsystem are greyed out and shown certificate weights belong to the state or action they are drawn at.",
 ["inputs", "configurations"], "all models, reachability forms and subsystems; default and custom visualization functions",
 "No test inspects a drawn graph.",
 [M+"dtmc.py", M+"mdp.py", M+"reachability_form.py", PR+"subsystem.py", U+"graphviz_utils.py"],
 [("digraph", M+"dtmc.py, "+M+"mdp.py"), ("__adapt_style", M+"reachability_form.py"), ("Subsystem.digraph", PR+"subsystem.py")],
 ["DOT source of model.digraph(), rf.system.digraph(), subsystem.digraph()"])

prop("C17", "A benchmark run records exactly what direct solves return",
 "A benchmark run evaluates the method at every threshold of the requested range in order and records, per threshold, the values of all results the method yields, stopping at the first infeasible threshold; running several methods and modes returns one dataset per combination. "
 "The JSON written equals the returned data, and rendering a run plots exactly the recorded points.",
 ["inputs", "configurations"], "all reachability forms, methods, threshold ranges, mode specifications, label sets",
 "No test runs the benchmark module.",
 ["switss/benchmarks/benchmarks.py"],
 [("run", "switss/benchmarks/benchmarks.py"), ("render", "switss/benchmarks/benchmarks.py")],
 ["bench.run(...) return value and JSON file", "bench.render(...) axis data"])

prop("C18", "PRISM and storm models are imported faithfully",
 "A storm model is translated into a model with the same states, choices, transition probabilities, state labels and choice labels; the choice model contains in addition one state per choice that carries the choice's labels and has the choice's distribution, entered with certainty by taking the choice. "
 "A PRISM model is exported with exactly the requested constants and the extra label definitions appended to an otherwise unmodified copy of the model, and a failing PRISM call is reported as failure.",
 ["inputs", "configurations"], "all storm models (via their documented interface), all model files (with or without trailing newline), constants and extra labels given as dictionary or pairs",
 "The only tests of the import need PRISM and stormpy, which are absent here.",
 ["switss/prism/prism.py", M+"dtmc.py", M+"mdp.py", M+"amdp.py"],
 [("from_stormpy_model / choice_model_from_stormpy", M+"mdp.py"), ("prism_to_tra", "switss/prism/prism.py")],
 ["cls.from_stormpy(...)", "prism_to_tra(...): command line and model text handed to prism", "cls.from_prism_model(...)"])

prop("C19", "Native graph code is memory safe, terminates and scales",
 "For every model, including long chains, dense graphs and deep nesting of end components, building the graph and running any graph query terminates without invalid memory access, stack exhaustion or crash, returns the same answer for every internal random seed, and repeated queries do not accumulate memory.",
 ["inputs", "histories"], "all models up to many thousand states, all query sequences and internal seeds",
 "Tests use toy models for which recursion depth and memory errors cannot show.",
 [U+"graph.pyx", U+"treaps.pyx", U+"stack.pyx"],
 [("strongconnect", U+"graph.pyx"), ("treap node ownership", U+"treaps.pyx"), ("stacks", U+"stack.pyx")],
 ["process exit status under AddressSanitizer", "resident memory over repeated queries", "query results"])

prop("C20", "The tree decomposition algorithm returns the size of a minimal witness",
 "For every DTMC and every partition of its reachability form whose quotient graph is a tree (any number of input states, targets in any partition, any order of partitions and rows), TreeAlgo yields exactly one result: the smallest number of states of a subsystem that reaches the threshold, whatever valid upper bound is given, or an infeasible result without a value if the threshold cannot be reached; a time limit may leave the result unsolved but never wrong; no run crashes or accesses memory it does not own. The helpers it is built on (underlying graph of a matrix, quotient by a partition with its interface states, matrix between two sets of states) match their definitions.",
 ["inputs"], "all tree-like DTMCs and partitions",
 "Its tests need graph_tool, which is not installed, and only use one partition.",
 [PR+"tree_algo.py", U+"tree_decomp.pyx", U+"graph_utils.py"],
 [("TreeAlgo", PR+"tree_algo.py"), ("min_witnesses_from_tree_decomp", U+"tree_decomp.pyx"), ("quotient, underlying_graph", U+"graph_utils.py")],
 ["TreeAlgo(partition, known_upper_bound).solve(...) / solveiter(...): status and value"])

prop("C21", "Queries are pure: results do not depend on what was asked before",
 "Any sequence of queries, solves, renderings and certificate checks on a model or reachability form leaves its observable state (matrices, labels, index maps, constraint systems) unchanged, and each query returns the same result as on a freshly built object; results handed out earlier are not altered by later calls. "
 "Inputs passed by the caller (matrices, dictionaries, vectors) are never modified.",
 ["histories"], "all sequences of public query operations over all models",
 "Tests call each query once on fresh objects.",
 [M+"reachability_form.py", M+"reward_reachability_form.py", M+"amdp.py", PR+"subsystem.py", U+"invertible_dict.py"],
 [("cached constraint systems", M+"reachability_form.py"), ("lazily built actions_by_state", M+"amdp.py"), ("cached subsystem", PR+"subsystem.py")],
 ["public query results before/after other operations", "caller-owned input objects"])

prop("C22", "Results do not depend on how states, actions and rows are numbered",
 "Renumbering the states, renumbering the actions of a state, permuting the rows of the transition matrix or renaming labels changes every result - reduced model, optimal probabilities, components, certificate verdicts, sizes of minimal witnesses - only by that same renaming. "
 "Adding a state that is unreachable from the initial state or from which no target is reachable does not change the optimal probabilities or minimal witness sizes.",
 ["inputs"], "all models x all permutations of states, actions and rows",
 "Tests use one fixed numbering in which row order and state order coincide.",
 [M+"reachability_form.py", M+"amdp.py", U+"graph.pyx", PR+"formulations.py"],
 [("index_by_state_action bijection", M+"amdp.py"), ("renumbering in reduce", M+"reachability_form.py")],
 ["all public results on a model and its renumbering"])

prop("C23", "Quotient-sum heuristic solves the documented sequence of LPs",
 "Every iterate of QSHeur is a feasible point of the certificate polytope for the threshold, ties every certificate entry to the indicator of its group (a group whose indicator is zero has no positive entry), satisfies every constraint the updater asked for in this or an earlier iteration, and minimises the weighted sum of indicators with the weights given by the initializer (first iteration) or the updater (later ones). "
 "Built-in initializers and updaters compute the documented weights: one, the inverse of the average reachability probability or of the expected visits of a group, the inverse of the last value, and the largest weight (or a fixed zero) for groups that vanished; user-defined ones are called once per iteration with the documented arguments.",
 ["inputs", "histories"], "all forms, thresholds, labellings, initializers, updaters and iteration counts",
 "Tests compare the size of the last subsystem of two models only; a wrong weight, a dropped constraint or a suboptimal iterate still yields some witness.",
 [PR+"qsheur.py", PR+"qsheurparams.py", PR+"formulations.py", "switss/solver/milp.py"],
 [("QSHeur.solveiter", PR+"qsheur.py"), ("Initializer/Updater classes", PR+"qsheurparams.py"), ("construct_MILP relaxed", PR+"formulations.py")],
 ["vectors handed to Updater.update", "weights returned by initializers and updaters", "ProblemResult certificates"])

prop("C24", "Interior points found for a region are inside it and as deep as possible",
 "For a region {x : A x <= b, selected variables zero, optionally x >= 0}, find_interior_point(A, b, xgeq0, zero_vars, solver) returns a point for which the greatest violation over all half-spaces (negative inside; non-negativity counts as half-spaces) is the least possible. It reports `optimal` only for points that lie in the region and `strict` only for points that satisfy every inequality strictly; if the region has an interior both are reported, and for an empty region neither is. The given matrix, right-hand side and variable list are not modified.",
 ["inputs"], "all matrices, right-hand sides and zero variables whose program has an optimum (regions with, without and on the edge of an interior), both open LP solvers",
 "No test calls it on anything but the certificate polytope of a toy model.",
 ["switss/solver/milp.py", "switss/certification/certificates.py"],
 [("find_interior_point", "switss/certification/certificates.py"), ("LP construction", "switss/solver/milp.py")],
 ["find_interior_point results"])

prop("C25", "Witness programs encode exactly the minimal witness problem",
 "The program built by construct_MILP for a form, threshold, mode and labelling has as optimal value the cheapest weighted selection of states or labels whose subsystem reaches the threshold (also when the caller adds further constraints or weights or supplies bounds), its relaxation never exceeds that value and its solutions are valid certificates; computed upper bounds are upper bounds of every certificate entry and equal the documented maximum; groups_from_labels groups exactly the states or state-action pairs carrying each label; and add_indicator_constraints ties each variable of a group to its indicator on any program.",
 ["inputs"], "all forms, thresholds, labellings, weightings, extra constraints and hand-made programs",
 "Tests solve the complete pipeline on fixed models with unit weights, which hides wrong bounds, wrong grouping and missing links.",
 [PR+"formulations.py", "switss/solver/milp.py", M+"reachability_form.py", M+"reward_reachability_form.py"],
 [("construct_MILP, compute_upper_bounds, groups_from_labels, add_indicator_constraints", PR+"formulations.py"), ("fark_constraints", M+"reachability_form.py")],
 ["optimal values and solution vectors", "bounds", "groups"])

prop("C26", "The Gurobi interface solves exactly the program and finds minimal witnesses",
 "GurobiMILP solves exactly the program that was built: after any sequence of adding variables (bounds that are None mean unbounded; binary variables lie in {0,1}), adding constraints (terms may be absent or repeated), adding implications `indicator = 0 => variable = 0`, putting a further variable into a constraint, removing constraints by the index they were given and setting the objective, solve reports the status of that program, and for a solvable one a feasible assignment of optimal value; a program can be changed and solved again; unknown variables are rejected. MILPExact(solver='gurobi') returns minimum-size (or fewest-label) witnesses for minimal and maximal probabilities, also for forms with end components, where no other solver is supported, and QSHeur(solver='gurobi') returns sound witnesses as with any other solver.",
 ["inputs", "histories"], "all build histories, all forms with and without end components, thresholds and label sets; gurobipy itself is assumed to do what its reference manual says",
 "No test can run this code without a Gurobi licence; half of it had never worked.",
 ["switss/solver/milp.py", PR+"formulations.py", PR+"milpexact.py", PR+"qsheur.py"],
 [("GurobiMILP", "switss/solver/milp.py"), ("add_indicator_constraints, construct_MILP", PR+"formulations.py"), ("MILPExact", PR+"milpexact.py")],
 ["SolverResult", "constraint and variable indices", "ProblemResult"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

"""Static facts about the properties used by run.py and tools/mkmanifest.py."""
EX = "exploration"
PROPS = {}


def P(i, technique, note, flavours=None, assumptions=None):
    PROPS[i] = {"level": EX, "technique": technique, "level_note": note}
    if flavours:
        PROPS[i]["flavours"] = flavours
    if assumptions:
        PROPS[i]["assumptions"] = assumptions


G = "Hypothesis generation with shrinking; "
SEARCH = "generated-input search, no exhaustiveness: "
P("C01", G + "independent reference reduction as oracle (PBT)", SEARCH + "random models up to 9 states, all documented conditions, both maps and all data compared with a reference reduction")
P("C02", G + "differential against exact policy iteration (PBT)", SEARCH + "random forms up to 9 states (larger ones up to 40), cbc and glpk, against policy iteration on dense matrices")
P("C03", G + "Farkas conditions re-evaluated from their definition (PBT)", SEARCH + "constructed valid, scaled, perturbed and arbitrary vectors for all 8 mode/comparison combinations; verdicts within the stated tolerance band are not judged")
P("C04", G + "true optimum from policy iteration decides existence (PBT)", SEARCH + "thresholds on both sides of the optimum at distances down to 1e-4 for all 8 combinations")
P("C05", G + "brute force over all state subsets as oracle (PBT)", SEARCH + "forms up to 7 states (brute force over all subsets), thresholds between/near/above the attainable values")
P("C06", G + "brute force over all label subsets as oracle (PBT)", SEARCH + "label sets of up to 4 labels, overlapping and partial")
P("C07", G + "soundness invariants per iteration + brute-force lower bound (PBT)", SEARCH + "all initializers/updaters, modes, label sets, 1-5 iterations")
P("C08", G + "reference restriction as oracle (PBT)", SEARCH + "arbitrary certificate vectors on random forms and reward forms")
P("C09", G + "reference SCC/MEC/reachability by definition (PBT)", SEARCH + "random models, several native random seeds")
P("C10", G + "round-trip and independent file writer (PBT)", SEARCH + "saved/loaded random models and hand-written PRISM files")
P("C11", G + "reference model of the constructor's inputs (PBT)", SEARCH + "valid and near-valid matrices in every supported container")
P("C12", G + "differential against policy iteration and brute force (PBT)", SEARCH + "EC-free models with rewards")
P("C13", G + "model-based operation sequences against a set-of-pairs model (stateful PBT)", SEARCH + "operation sequences up to 30 steps")
P("C14", G + "model-based build histories, optimum from HiGHS and by enumeration (stateful PBT)", SEARCH + "LPs/MILPs with up to 5 variables and 8 constraints")
P("C15", G + "CLI runs differential against library and reference model (PBT)", SEARCH + "full command pipelines on random models through a real process")
P("C16", G + "DOT source parsed and compared with the model (PBT)", SEARCH + "default and recording style functions")
P("C17", G + "differential against direct solves (PBT)", SEARCH + "random forms, methods, ranges, modes")
P("C18", G + "stand-in storm objects and a recording stand-in for prism (PBT)", SEARCH + "storm models through their documented interface; prism through its command line",
  assumptions=["stormpy and PRISM are absent; stand-ins implement the parts of their interface that are used"])
P("C19", G + "AddressSanitizer build, deep models, resident-memory growth, seed metamorphic relation (fuzzing/PBT)", SEARCH + "models up to several 10,000 states, plain and ASAN builds", flavours=["plain", "asan"])
P("C21", G + "operation histories against freshly built objects (stateful PBT)", SEARCH + "histories of up to 12 queries")
P("C22", G + "metamorphic relations (renumbering, padding) (PBT)", SEARCH + "random permutations of states, actions, rows")
P("C23", G + "every iterate against a reference LP (HiGHS), recording initializers/updaters (PBT)", SEARCH + "all built-in and random user-defined weightings, with constraints, up to 4 iterations")
P("C24", G + "constructed regions with known interior, LP optimum from HiGHS (PBT)", SEARCH + "regions with up to 5 variables and 8 half-spaces")
P("C25", G + "documented polytope and grouping as oracle (PBT)", SEARCH + "random forms, labels, bounds and hand-made programs")
P("C20", G + "brute force over all state subsets as oracle, AddressSanitizer build (PBT)", SEARCH + "DTMCs with up to 9 states in up to 5 partitions", flavours=["tree", "treeasan"],
  assumptions=["graph_tool, dd and more_itertools are absent; stand-ins implement the documented behaviour of the parts that are used"])
P("C26", G + "model-based build histories, reference program with implications enumerated; brute force (stateful PBT)", SEARCH + "programs with up to 8 variables, forms with up to 6 states with end components", flavours=["gurobi"],
  assumptions=["gurobipy is absent; a stand-in implements the documented interface for linear and mixed integer models with indicator constraints on top of scipy.optimize.linprog"])
NOT_APPLICABLE = {}

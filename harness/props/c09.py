"""C09: graph queries of models and end-component facts of reachability forms."""
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, rfs, oracles as O, big
from ..models import I


@st.composite
def graphs(draw, max_n=10):
    """models without any structural guarantee, plus structured ones"""
    if draw(I(0, 2)) == 0:
        c = draw(M.model(max_n=max_n, max_actions=3, max_succ=3))
        c["labels"], c["alabels"] = {}, {}
    else:
        n = draw(I(1, max_n))
        kind = draw(st.sampled_from(["dtmc", "mdp", "mdp"]))
        local = draw(st.sampled_from([None, 1, 2, None]))     # successors near the state: many components, deep nesting
        rows = []
        for s in range(n):
            acts = range(1) if kind == "dtmc" else draw(st.sampled_from([[0], [0, 1], [0, 1, 2], [1, 5], [3], [0, 1, 2, 3, 4]]))
            for a in acts:
                k = draw(st.sampled_from([1, 2, 1, 3, 1]))
                dests = []
                for _ in range(k):
                    d = draw(I(0, n - 1)) if local is None else max(0, min(n - 1, s + draw(I(-local, local))))
                    if d not in dests:
                        dests.append(d)
                rows.append([s, a, [[d, draw(I(1, 6)) if len(dests) > 1 else 1] for d in dests]])
        if len(rows) > 1 and draw(M.BOOL):
            rows = [rows[x] for x in draw(st.permutations(range(len(rows))))]
        c = {"kind": kind, "n": n, "rows": rows, "labels": {}, "alabels": {}, "rewards": None, "rseed": draw(I(0, 500))}
    n = c["n"]
    if draw(I(0, 3)) == 0:
        # unlikely transitions: tiny but positive probabilities
        c["rows"] = [[s, a, [[d, w * (1e-7 if draw(I(0, 3)) == 0 else 1)] for d, w in ds]] for s, a, ds in c["rows"]]
    if draw(I(0, 7)) == 0:
        # a state that is hardly ever left
        s = draw(I(0, n - 1))
        c["rows"] = [[q, a, [[d, w * 1e-10 if d != s else w] for d, w in ds]] if q == s and any(d == s for d, w in ds) else [q, a, ds] for q, a, ds in c["rows"]]
    c["from"] = sorted(draw(st.sets(I(0, n - 1), min_size=1, max_size=3)))
    c["block"] = sorted(draw(st.sets(I(0, n - 1), max_size=3)))
    return c


@st.composite
def large(draw):
    p = draw(big.params(labels=False))
    return {"big": p, "rseed": p["seed"] % 1000, "fr": draw(st.lists(I(0, 299), min_size=1, max_size=3)), "bl": draw(st.lists(I(0, 299), max_size=20))}


def run_large(case, ctx):
    c = big.full(case)
    c["from"] = sorted({x % c["n"] for x in case["fr"]})
    c["block"] = sorted({x % c["n"] for x in case["bl"]})
    run(c, ctx)


def same_partition(vec, comp, n):
    """vec: index per state; comp: reference component (frozenset) per state"""
    by = {}
    for s in range(n):
        by.setdefault(int(vec[s]), set()).add(s)
    return {frozenset(x) for x in by.values()} == set(comp.values())


def run(case, ctx):
    import numpy as np
    m = M.build(case)
    n = case["n"]
    succ = {}
    for s, a, ds in case["rows"]:
        for d, p in M.row_probs([s, a, ds]).items():
            succ[(s, a, d)] = p
    # strongly connected components
    ref = O.sccs(case)
    vec, cnt = m.strongly_connected_components()
    vec = np.asarray(vec)
    require(vec.shape == (n,), "scc-shape", str(vec.shape))
    require(same_partition(vec, ref, n), "sccs", lambda: "components %s, expected %s" % (list(vec), sorted(map(sorted, set(ref.values())))))
    require(int(cnt) == len(set(ref.values())) and sorted(set(vec.tolist())) == list(range(int(cnt))), "scc-count", lambda: "%s components, indices %s" % (cnt, list(vec)))
    # maximal end components
    mecs = O.mecs(n, [(s, a, {d for d, w in ds}) for s, a, ds in case["rows"]])
    comp = {s: S for S, pr in mecs for s in S}
    vec, proper, cnt = m.maximal_end_components()
    vec = np.asarray(vec)
    require(vec.shape == (n,), "mec-shape", str(vec.shape))
    require(same_partition(vec, comp, n), "mecs", lambda: "components %s, expected %s" % (list(vec), sorted(sorted(S) for S, _ in mecs)))
    require(int(cnt) == len(mecs) == len(proper) and sorted(set(vec.tolist())) == list(range(int(cnt))), "mec-count", lambda: "%s components, %d flags, indices %s" % (cnt, len(proper), list(vec)))
    for S, pr in mecs:
        got = proper[vec[min(S)]]
        require(got in (0, 1) and bool(got) == pr, "mec-proper", lambda: "component %s: flagged %s, expected %s" % (sorted(S), got, pr))
    # reachability
    for direction, f in (("forward", M.forward), ("backward", M.backward)):
        for block in ((), case["block"]):
            exp = f(case, case["from"], set(block))
            mask = m.reachable_mask(set(case["from"]), direction, set(block)) if block else m.reachable_mask(set(case["from"]), direction)
            require(len(mask) == n and {s for s in range(n) if mask[s]} == exp and all(x in (0, 1) for x in mask), "reachable",
                    lambda: "%s from %s blocked by %s: %s, expected %s" % (direction, case["from"], block, list(mask), sorted(exp)))
    # neighbours
    for s in range(n):
        got = [(int(d), int(a), p) for d, a, p in m.successors(s)]
        exp = {(d, a): p for (q, a, d), p in succ.items() if q == s}
        require(sorted(x[:2] for x in got) == sorted(exp), "successors", lambda: "of %d: %s, expected %s" % (s, got, exp))
        require(all(p == exp[(d, a)] for d, a, p in got), "successor-probability", lambda: "of %d: %s, expected %s" % (s, got, exp))
        got = [(int(q), int(a), p) for q, a, p in m.predecessors(s)]
        exp = {(q, a): p for (q, a, d), p in succ.items() if d == s}
        require(sorted(x[:2] for x in got) == sorted(exp), "predecessors", lambda: "of %d: %s, expected %s" % (s, got, exp))
        require(all(p == exp[(q, a)] for q, a, p in got), "predecessor-probability", lambda: "of %d: %s, expected %s" % (s, got, exp))
    big = [S for S, p in mecs if p and len(S) > 1]
    nsc = len(set(ref.values()))
    ctx.tag(case["kind"], "mecs-%d" % min(4, len(mecs)), "nested" if any(len(S) > 1 and not any(S <= T for T, _ in mecs) for S in ref.values()) else "flat")
    ctx.nontrivial(n >= 3 and len(mecs) >= 2 and (bool(big) or nsc < len(mecs)))


@st.composite
def forms(draw):
    return draw(M.model(min_n=2, max_n=9, max_succ=2))


def run_form(case, ctx):
    case = big.full(case)
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    n = v.n
    proper = [S for S, pr in v.comps if pr and not S & {n, n + 1}]
    require(bool(rf.is_ec_free) == (not proper), "is-ec-free", lambda: "%s, expected end components %s" % (rf.is_ec_free, proper))
    require(int(rf.nr_of_proper_mecs) == len(proper), "nr-of-proper-mecs", lambda: "%s, expected %s" % (rf.nr_of_proper_mecs, proper))
    vec = rf.state_to_mec
    for s in range(n):
        require(bool(rf.in_proper_ec(s)) == bool(v.ec[s]), "in-proper-ec", lambda: "state %d: %s, expected %s" % (s, rf.in_proper_ec(s), v.ec[s]))
        require(bool(rf.proper_mecs[vec[s]]) == bool(v.ec[s]), "proper-mecs", lambda: "state %d" % s)
    comp = {s: S for S, _ in v.comps for s in S}
    for s in range(n):
        for t in range(s):
            require((vec[s] == vec[t]) == (comp[s] is comp[t]), "state-to-mec", lambda: "%s, expected %s" % (vec, v.comps))
    ctx.tag("proper-%d" % min(3, len(proper)))
    ctx.nontrivial(n >= 2 and bool(proper))


CHECKS = [
    Check("graph", graphs, run, 6000, 300000,
          "random models with at most 10 states: unstructured, local (many nested components), structured; some tiny probabilities; random native seed; from/block sets random; "
          "non-trivial: at least 3 states and 2 MECs and a MEC with several states or an SCC that splits into several MECs"),
    Check("graph-larger", lambda: graphs(max_n=30), run, 600, 30000, "the same with up to 30 states"),
    Check("graph-hundreds", large, run_large, 60, 3000, "the same with 40 to 300 states (seeded generator)"),
    Check("form-ecs", forms, run_form, 2000, 80000, "random reachability forms; non-trivial: at least one proper end component besides target and fail"),
    Check("form-ecs-large", large, run_form, 60, 3000, "the same with 40 to 300 states (seeded generator)"),
]

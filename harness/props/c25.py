"""C25: building blocks for custom minimization: polytope with indicators, groups, upper bounds."""
from hypothesis import strategies as st
from ..core import Check, require, Violation, oracle, HarnessError, Inconclusive
from .. import models as M, rfs, witness as W, oracles as O
from ..models import I
from .c05 import THR
from .c06 import relabel, ENDS, with_ends
from .c23 import lp


# ------------------------------------------------------------------ construct_MILP

@st.composite
def milp_cases(draw):
    mode = draw(st.sampled_from(["min", "max"]))
    c = draw(M.model(min_n=3, max_n=6, ecfree=(mode == "max" or draw(M.BOOL)), extra_labels=True, max_w=4))
    c["mode"] = mode
    c["thr"] = draw(st.tuples(st.sampled_from(["mid", "mid", "mid", "tight", "above"]), I(0, 11), st.sampled_from([0.5, 0.25, 0.75])).map(list))
    c["relaxed"] = draw(st.sampled_from([False, False, True]))
    c["weights"] = [draw(st.sampled_from([1, 1, 2, 3, 5])) for _ in range(24)] if draw(M.BOOL) else None
    c["forbid"] = draw(I(0, 11)) if draw(I(0, 2)) == 0 else None
    c["known"] = draw(st.sampled_from([None, None, "tight", "loose"]))
    c["use"] = None
    if draw(I(0, 2)) == 0:
        relabel(draw, c)
        c["use"] = draw(st.lists(st.sampled_from([l for l in "abcd" if l in c["labels"]] + ["init"]), unique=True, min_size=1, max_size=4))
        c["ends"] = draw(ENDS)
    return c


@oracle
def entry_bounds(v, mode, lam):
    """the exact maximum of every certificate entry over the polytope (ignoring the threshold)"""
    import numpy as np
    n = v.n if mode == "min" else v.C
    if mode == "min":
        return np.array(v.pr["min"][:v.n])
    A = v.A.T
    r = np.zeros(v.n)
    r[v.init] = 1
    out = []
    for i in range(n):
        o = np.zeros(n)
        o[i] = -1
        res = lp(o, A_ub=A, b_ub=r, bounds=[(0, None)] * n)
        if res.status != 0:
            raise Inconclusive("bound of entry %d: %s" % (i, res.message))
        out.append(-res.fun)
    return np.array(out)


def run_milp(case, ctx):
    import numpy as np
    from switss.problem import construct_MILP, certificate_size
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    mode = case["mode"]
    n = v.n if mode == "min" else v.C
    require(int(certificate_size(rf, mode)) == n, "certificate-size", lambda: "%s for %d states, %d rows" % (certificate_size(rf, mode), v.n, v.C))
    labels = None
    if case["use"] is not None:
        labels = [l for l in case["use"] if l in case["labels"]] or ["init"]
        sg = {l: {int(smap[s]) for s in case["labels"][l] if s in smap} for l in labels}
        labels = with_ends(rf, v.n, labels, case.get("ends"))
        for l in labels:
            sg.setdefault(l, set())
        unit_states = [frozenset(g) for g in sg.values()]
        values = W.label_values(v, mode, sg)
    else:
        unit_states = [frozenset([s]) for s in range(v.n)]
        values = W.state_values(v, mode)
    full = v.pr[mode][v.init]
    lam = W.pick_threshold(values, case["thr"], full)
    known = None
    if case["known"]:
        known = entry_bounds(v, mode, lam) * (1.0 if case["known"] == "tight" else 3.0) + (1e-6 if case["known"] == "tight" else 1.0)
        old = known.copy()
    what = "%s %s labels %s known %s relaxed %s" % (mode, lam, labels, known, case["relaxed"])
    model, ind = construct_MILP(rf, lam, mode, labels=labels, relaxed=case["relaxed"], known_upper_bounds=known)
    if known is not None:
        require(np.array_equal(known, old), "input-modified", what)
    ctx.tag(mode, case["kind"], "relaxed" if case["relaxed"] else "binary", "labels" if labels else "states", "known:%s" % case["known"], "ec-free" if v.ecfree else "has-ecs")
    if model is None:
        require(full < lam + W.EPS, "no-model", lambda: "%s: no program, but the full system reaches %s" % (what, full))
        require(ind is None, "no-model", what)
        ctx.tag("infeasible")
        return
    groups = {int(g): {int(i) for i in x} for g, x in ind.items()}
    # which states does a group stand for
    if mode == "min":
        of = {g: frozenset(x) for g, x in groups.items()}
        expect = unit_states
    else:
        of = {g: frozenset(v.rows[i][0] for i in x if i < n) for g, x in groups.items()}
        if labels is None and case["relaxed"]:
            require(sorted(map(sorted, groups.values())) == [[i] for i in range(n)], "groups", lambda: "%s: %s" % (what, groups))
            expect = None
        else:
            require(all(x == {i for i, (q, a) in enumerate(v.rows) if q in of[g]} for g, x in groups.items()), "groups", lambda: "%s: groups %s do not contain all actions of their states" % (what, groups))
            expect = unit_states
    if expect is not None:
        require(sorted(sorted(x) for x in of.values() if x) == sorted(sorted(x) for x in expect if x), "groups", lambda: "%s: groups %s, expected %s" % (what, of, expect))
    require(min(groups, default=n) >= n and len(set(groups)) == len(groups), "indicator-variables", lambda: "%s: %s" % (what, groups))
    gs = sorted(groups)
    w = {g: (case["weights"][j % 24] if case["weights"] else 1) for j, g in enumerate(gs)}
    forbidden = None
    if case["forbid"] is not None and gs:
        forbidden = gs[case["forbid"] % len(gs)]
        model.add_constraint([(forbidden, 1)], "=", 0)
    if case["weights"]:
        model.set_objective_function([(g, w[g]) for g in gs])
    res = model.solve("cbc")
    if not case["relaxed"]:
        best = cheapest(v, mode, of, w, forbidden, lam - W.EPS), cheapest(v, mode, of, w, forbidden, lam + W.EPS)
        if res.status != "optimal":
            require(res.status == "infeasible", "status", lambda: "%s: %s" % (what, res.status))
            require(best[1] is None, "infeasible-reported", lambda: "%s: reported infeasible, but groups of total weight %s suffice (weights %s, without %s)" % (what, best[1], w, forbidden))
            ctx.tag("infeasible")
            return
        require(best[0] is not None, "witness-for-unattainable", lambda: "%s: %s" % (what, res.value))
        require(res.value >= best[0] - 1e-5, "value-too-small", lambda: "%s: %s, optimum %s (weights %s, without %s)" % (what, res.value, best[0], w, forbidden))
        require(best[1] is None or res.value <= best[1] + 1e-5, "not-minimal", lambda: "%s: %s, but %s suffices (weights %s, without %s)" % (what, res.value, best[1], w, forbidden))
        x = np.array(res.result_vector, dtype=float)
        for g in gs:
            if x[g] < 0.5:
                require(all(x[i] < 1e-4 for i in groups[g]), "indicator-ignored", lambda: "%s: %s, groups %s" % (what, x, groups))
        ctx.nontrivial(v.n >= 3 and len(gs) >= 2 and lam > 0)
    else:
        if res.status != "optimal":
            require(full < lam + W.EPS or forbidden is not None, "infeasible-reported", lambda: "%s: %s" % (what, res.status))
            return
        x = np.array(res.result_vector, dtype=float)
        c = x[:n].copy()
        c[c < 1e-9] = 0
        W.check_certificate(v, mode, lam, c, what)
        up = cheapest(v, mode, of, w, forbidden, lam + W.EPS) if expect is not None else None
        if up is not None and (v.ecfree or mode == "min"):
            require(res.value <= up + 1e-4, "relaxation-above-optimum", lambda: "%s: relaxed value %s, a 0/1 solution has %s" % (what, res.value, up))
        require(all(x[g] >= -1e-6 for g in gs), "indicator-negative", lambda: str(x))
        if forbidden is not None:
            require(all(x[i] < 1e-5 for i in groups[forbidden]), "indicator-ignored", lambda: "%s: %s" % (what, x))
        ctx.nontrivial(v.n >= 3 and len(gs) >= 2 and lam > 0)


@oracle
def cheapest(v, mode, of, w, forbidden, lam):
    """least total weight of groups whose states (and the states in no group) reach lam"""
    if lam <= 0:
        return 0
    gs = [g for g in of if of[g]]
    grouped = set().union(*of.values()) if of else set()
    rest = set(range(v.n)) - grouped
    best = None
    for m in range(1 << len(gs)):
        cost = sum(w[g] for k, g in enumerate(gs) if m >> k & 1)
        if best is not None and cost >= best:
            continue
        off = [of[g] for k, g in enumerate(gs) if not m >> k & 1]
        if forbidden in of and of[forbidden] and m >> gs.index(forbidden) & 1:
            continue
        # a variable may be positive only if all its groups are selected
        keep = set(range(v.n)) - set().union(*off) if off else set(range(v.n))
        if v.init in keep and O.pr(v.ref.restrict(sorted(keep)), mode)[v.init] >= lam:
            best = cost
    return best


# ------------------------------------------------------------------ upper bounds and groups

@st.composite
def bound_cases(draw):
    rewards = draw(M.BOOL)
    c = draw(M.model(min_n=2, max_n=6, ecfree=True, all_reach=rewards, rewards=rewards))
    relabel(draw, c)
    c["mode"] = draw(st.sampled_from(["max", "max", "min"]))
    c["frac"] = draw(st.sampled_from([0.0, 0.3, 0.5, 0.9, 1.3]))
    c["use"] = draw(st.lists(st.sampled_from([l for l in "abcd" if l in c["labels"]] + ["init", "nope", "target"]), unique=True, max_size=4))
    c["ends"] = draw(ENDS)
    c["solver"] = draw(st.sampled_from(["cbc", "cbc", "glpk"]))
    return c


def run_bounds(case, ctx):
    import numpy as np
    from switss.problem.formulations import compute_upper_bounds, groups_from_labels
    mode = case["mode"]
    if case.get("rewards") is not None:
        from .c12 import reduce as rreduce, rewards_of, values
        rf, smap, amap = rreduce(case)
        v = rfs.view(rf)
        rew = rewards_of(case, v, smap)
        b = np.array([rew[q] for q in v.rows])
        full = float(values(v, rew, mode)[v.init])
    else:
        m, rf, smap, amap = M.reduce(case)
        v = rfs.view(rf)
        b = v.b
        full = float(v.pr[mode][v.init])
    # groups
    sg = {l: {int(smap[s]) for s in case["labels"].get(l, []) if s in smap} for l in case["use"]}
    use = with_ends(rf, v.n, case["use"], case.get("ends"))
    for l in use:
        sg.setdefault(l, set())
    for ga in (False, True):
        for md in ("min", "max"):
            old = list(use)
            g = groups_from_labels(rf, md, labels=use, group_actions=ga)
            require(use == old, "input-modified", "")
            got = {k: {int(i) for i in x} for k, x in g.items() if x}
            exp = {l: (x if md == "min" else {i for i, (q, a) in enumerate(v.rows) if q in x}) for l, x in sg.items()}
            require(got == {l: x for l, x in exp.items() if x}, "groups", lambda: "%s group_actions=%s: %s, expected %s" % (md, ga, got, exp))
            g = {k: set(x) for k, x in groups_from_labels(rf, md, group_actions=ga).items()}
            if md == "max" and ga:
                exp = {s: {i for i, (q, a) in enumerate(v.rows) if q == s} for s in range(v.n)}
            else:
                exp = {i: {i} for i in range(v.n if md == "min" else v.C)}
            require(g == exp, "groups", lambda: "%s group_actions=%s: %s, expected %s" % (md, ga, g, exp))
    # bounds
    lam = full * case["frac"]
    if case.get("rewards") is None:
        lam = min(1.0, lam)
    matr, rhs = rf.fark_constraints(lam, mode)
    n = v.n if mode == "min" else v.C
    D = np.asarray(matr.toarray(), dtype=float)
    require(D.shape == ((v.C if mode == "min" else v.n) + 1, n) and np.asarray(rhs).shape == (D.shape[0],), "constraint-shape", lambda: str(D.shape))
    if mode == "min":
        E, e = np.vstack([v.A, [-1.0 if s == v.init else 0.0 for s in range(v.n)]]), np.append(b, -lam)
    else:
        E, e = np.vstack([v.A.T, -b]), np.append([1.0 if s == v.init else 0.0 for s in range(v.n)], -lam)
    require(np.allclose(D, E, atol=1e-12) and np.allclose(np.asarray(rhs, dtype=float), e, atol=1e-12), "constraints", lambda: "threshold %s mode %s: %s <= %s, expected %s <= %s" % (lam, mode, D, rhs, E, e))
    kw = {} if case["solver"] == "cbc" else {"solver": "glpk"}
    status, ub = compute_upper_bounds(matr, rhs, **kw)
    ctx.tag(mode, case["kind"], "rewards" if case.get("rewards") is not None else "prob", case["solver"])
    if lam > full * 1.001 + 1e-4:
        require(status in ("infeasible", "undefined"), "status", lambda: "threshold %s above the optimum %s: %s" % (lam, full, status))
        ctx.tag("infeasible")
        return
    if lam > full * 0.999 - 1e-4 and lam > 0:
        return
    require(status == "optimal", "status", lambda: "threshold %s, optimum %s: %s" % (lam, full, status))
    ub = np.asarray(ub, dtype=float)
    require(ub.shape == (n,), "shape", str(ub.shape))
    rel = 1e-5 if case["solver"] == "glpk" else 1e-6
    for i in range(n):
        o = np.zeros(n)
        o[i] = -1
        res = lp(o, A_ub=E, b_ub=e, bounds=[(0, None)] * n)
        if res.status != 0:
            raise Inconclusive("reference bound")
        top = -res.fun
        require(ub[i] >= top - rel * (1 + top) * 10, "not-an-upper-bound", lambda: "threshold %s mode %s: bounds %s, but entry %d can be %s" % (lam, mode, ub, i, top))
    res = lp(-np.ones(n), A_ub=E, b_ub=e, bounds=[(0, None)] * n)
    K = -res.fun
    # documented: the maximal sum for every entry (MDP), the maximizing vector (DTMC)
    if v.C == v.n:
        require(abs(ub.sum() - K) <= rel * 10 * (1 + K), "bounds-sum", lambda: "%s, maximal sum %s" % (ub, K))
    else:
        require(np.abs(ub - K).max() <= rel * 10 * (1 + K), "bounds-sum", lambda: "%s, maximal sum %s" % (ub, K))
    ctx.nontrivial(v.n >= 2)


# ------------------------------------------------------------------ indicator constraints on a hand-made program

@st.composite
def ind_cases(draw):
    n = draw(I(1, 5))
    return {"n": n, "u": [draw(st.sampled_from([1, 2, 0.5, 4])) for _ in range(n)], "a": [draw(st.sampled_from([1, 1, 2, 3, 0])) for _ in range(n)],
            "frac": draw(st.sampled_from([0.2, 0.5, 0.7, 0.95, 1.2])), "groups": [sorted(draw(st.sets(I(0, n - 1), max_size=n))) for _ in range(draw(I(1, 4)))],
            "w": [draw(st.sampled_from([1, 1, 2, 3])) for _ in range(4)], "domain": draw(st.sampled_from(["binary", "binary", "real"])), "bounds": draw(st.sampled_from(["given", "given", "none"])),
            "keys": draw(st.sampled_from(["int", "str"])), "extra": draw(I(0, 2))}


@oracle
def ind_best(case, u):
    """cheapest selection of groups (binary)"""
    n = case["n"]
    need = sum(a * x for a, x in zip(case["a"], u)) * case["frac"]
    best = None
    G = case["groups"]
    for m in range(1 << len(G)):
        off = set()
        for k, g in enumerate(G):
            if not m >> k & 1:
                off |= set(g)
        if sum(case["a"][i] * u[i] for i in range(n) if i not in off) >= need - 1e-9:
            c = sum(case["w"][k] for k in range(len(G)) if m >> k & 1)
            best = c if best is None else min(best, c)
    return best


def run_ind(case, ctx):
    import numpy as np
    from switss.problem import add_indicator_constraints
    from switss.solver import MILP
    from switss.utils import InvertibleDict
    n = case["n"]
    # without bounds the indicator itself bounds its variables (x <= sigma)
    u = [float(x) for x in case["u"]]
    if case["bounds"] == "none":
        u = [min(1.0, x) for x in u]
    need = sum(a * x for a, x in zip(case["a"], u)) * case["frac"]
    N = n + case["extra"]
    A = np.array([[-float(a) for a in case["a"]] + [0.0] * case["extra"]])
    model = MILP.from_coefficients(A, np.array([-need]), np.zeros(N), ["real"] * N, sense="<=", objective="min", bounds=[(0, x) for x in u] + [(0, 1)] * case["extra"])
    groups = {(("g%d" % k) if case["keys"] == "str" else k): set(g) for k, g in enumerate(case["groups"])}
    gi = InvertibleDict({k: set(g) for k, g in groups.items()})
    ub = np.array(u) if case["bounds"] == "given" else None
    ind = add_indicator_constraints(model, np.arange(n), ub, "min", gi, indicator_domain=case["domain"])
    got = {int(k): {int(i) for i in x} for k, x in ind.items()}
    require(sorted(got) == list(range(N, N + len(groups))), "indicator-variables", lambda: "%s for %d variables and %d groups" % (got, N, len(groups)))
    require(sorted(sorted(x) for x in got.values()) == sorted(case["groups"]), "groups", lambda: "%s vs %s" % (got, case["groups"]))
    # give every indicator the weight of its group
    left = [(sorted(g), w) for g, w in zip(case["groups"], case["w"])]
    obj = []
    for k in sorted(got):
        j = [i for i, (g, w) in enumerate(left) if g == sorted(got[k])][0]
        obj.append((k, left.pop(j)[1]))
    model.set_objective_function(obj)
    res = model.solve("cbc")
    ctx.tag(case["domain"], "bounds:" + case["bounds"])
    free = ind_best(case, u)
    if case["frac"] > 1 and need > 0:
        require(res.status == "infeasible", "status", lambda: res.status)
        ctx.tag("infeasible")
        return
    require(res.status == "optimal", "status", lambda: "%s: %s" % (case, res.status))
    x = np.array(res.result_vector, dtype=float)
    for k in got:
        for i in got[k]:
            lim = (u[i] if case["bounds"] == "given" else 1.0) * x[k]
            require(x[i] <= lim + 1e-6, "indicator-ignored", lambda: "%s: x[%d]=%s, sigma=%s" % (case, i, x[i], x[k]))
    if case["domain"] == "binary":
        require(all(abs(x[k] - round(x[k])) < 1e-6 for k in got), "not-binary", lambda: str(x))
        require(abs(res.value - free) < 1e-5, "optimum", lambda: "%s: %s, expected %s" % (case, res.value, free))
    else:
        require(res.value <= free + 1e-5, "optimum", lambda: "%s: %s, a 0/1 solution has %s" % (case, res.value, free))
        best = real_best(case, u, need)
        require(abs(res.value - best) < 1e-4, "optimum", lambda: "%s: %s, expected %s" % (case, res.value, best))
    ctx.nontrivial(n >= 2 and len(groups) >= 2 and need > 0)


@oracle
def real_best(case, u, need):
    import numpy as np
    n, G = case["n"], case["groups"]
    A = [[-float(a) for a in case["a"]] + [0.0] * len(G)]
    b = [-need]
    for k, g in enumerate(G):
        for i in g:
            r = [0.0] * (n + len(G))
            r[i] = 1
            r[n + k] = -(u[i] if case["bounds"] == "given" else 1.0)
            A.append(r)
            b.append(0)
    res = lp([0.0] * n + [float(x) for x in case["w"][:len(G)]], A_ub=np.array(A), b_ub=np.array(b), bounds=[(0, x) for x in u] + [(0, 1 if case["bounds"] == "given" else None)] * len(G))
    if res.status != 0:
        raise HarnessError("reference: %s %s" % (res.message, case))
    return float(res.fun)


CHECKS = [
    Check("program", milp_cases, run_milp, 2400, 40000,
          "construct_MILP on random forms with and without labels, known bounds, weights on the indicators and a forbidden group; the optimum must equal the cheapest set of states/labels (brute force), the relaxation "
          "must be a valid certificate below it; non-trivial: at least 3 states, 2 groups, positive threshold"),
    Check("bounds", bound_cases, run_bounds, 1500, 30000,
          "compute_upper_bounds, groups_from_labels and the constraint systems on end-component free forms and reward forms, against their definitions and HiGHS; non-trivial: at least 2 states and an attainable threshold"),
    Check("indicators", ind_cases, run_ind, 1500, 20000,
          "add_indicator_constraints on hand-made programs with overlapping groups, binary or real; reference: enumeration of all selections / HiGHS; non-trivial: at least 2 variables and groups"),
]

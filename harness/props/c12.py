"""C12: reward reachability forms."""
import contextlib, io
from hypothesis import strategies as st
from ..core import Check, require, Violation, oracle
from .. import models as M, rfs, oracles as O, witness as W, big
from ..models import I
from .c05 import THR
from .c06 import relabel, ENDS, with_ends


def reduce(case, m=None):
    from switss.model import RewardReachabilityForm
    with contextlib.redirect_stdout(io.StringIO()):
        m = m or M.build(case)
        rrf, smap, amap = RewardReachabilityForm.reduce(m, "init", "target")
        if case.get("scramble") is not None:
            from switss.model import ReachabilityForm
            plain, smap, amap = ReachabilityForm.reduce(m, "init", "target")
            plain, smap, amap = M.scramble(plain, smap, amap, case["scramble"])
            rrf = RewardReachabilityForm(plain, plain.system.reward_vector[:-2])
        return rrf, smap, amap


@oracle
def rewards_of(case, v, smap):
    """reward per (state, action) of the form, from the case"""
    r = {}
    for i, (s, a, ds) in enumerate(case["rows"]):
        if s in smap:
            r[(int(smap[s]), a)] = case["rewards"][i]
    r[(v.n, 0)] = r[(v.n + 1, 0)] = 0.0
    return r


@oracle
def values(v, rew, mode, keep=None):
    """optimal expected reward per ordinary state, the run stopping when it leaves `keep`"""
    ref = v.ref
    keep = set(range(v.n)) if keep is None else set(keep)
    rows = {s: [(a, {d: p for d, p in ds.items() if d in keep}) for a, ds in ref.rows[s]] for s in keep}
    r2 = O.Ref(v.n + 2, rows, set(range(v.n + 2)) - keep)
    import numpy as np
    return np.maximum(0.0, O.exp_reward(r2, rew, mode))


@oracle
def violation(v, rv, mode, lam, x):
    """largest violation of the reward Farkas conditions by x"""
    import numpy as np
    x = np.asarray(x, dtype=float)
    if mode == "min":
        d = v.A @ x - rv
        thr = lam - x[v.init]
    else:
        delta = np.zeros(v.n)
        delta[v.init] = 1
        d = x @ v.A - delta
        thr = lam - float(rv @ x)
    return max([-1.0, thr] + list(d) + list(-x))


@st.composite
def forms(draw, max_n=8):
    c = draw(M.model(min_n=2, max_n=max_n, ecfree=True, all_reach=True, rewards=True, extra_labels=False))
    if draw(I(0, 5)) == 0:
        c["rewards"] = [draw(st.sampled_from([0, 0, 1000, 1e-3, 0.1, 7])) for _ in c["rows"]]
    elif draw(I(0, 5)) == 0:
        # many decimals
        c["rewards"] = [draw(st.sampled_from([0, 1.00049, 0.1234567, 2 / 3, 4e-4, 2.00051, 12.3456789])) for _ in c["rows"]]
    c["solver"] = draw(st.sampled_from(["cbc", "cbc", "cbc", "glpk"]))
    c["from"] = draw(M.BOOL)
    return c


@st.composite
def large(draw):
    p = draw(big.params(ecfree=True, all_reach=True, rewards=True, labels=False))
    return {"big": p, "rseed": p["seed"] % 1000, "solver": draw(st.sampled_from(["cbc", "cbc", "cbc", "glpk"])), "from": draw(M.BOOL)}


def run_values(case, ctx):
    case = big.full(case)
    import numpy as np
    from switss.model import RewardReachabilityForm
    rf, smap, amap = reduce(case)
    v = rfs.view(rf)
    rew = rewards_of(case, v, smap)
    rv = np.array([rew[q] for q in v.rows])
    require(np.array_equal(np.asarray(rf.reward_vector, dtype=float), rv), "reward-vector", lambda: "%s, expected %s" % (rf.reward_vector, rv))
    exp = {m: np.array(values(v, rew, m)[:v.n]) for m in ("min", "max")}
    kap = rfs.kappa(v)
    tol = (1e-6 if case["solver"] == "cbc" else 1e-4) * (1 + kap) * (1 + max(exp["max"].max(), rv.max()))
    s = case["solver"]
    lo, hi = np.asarray(rf.rew_min(solver=s)), np.asarray(rf.rew_max(solver=s))
    for got, m in ((lo, "min"), (hi, "max")):
        require(got.shape == (v.n,), "shape", str(got.shape))
        require(np.abs(got - exp[m]).max() <= tol, "expected-reward", lambda: "%s %s: %s, expected %s" % (s, m, got, exp[m]))
    z = np.asarray(rf.max_z_state(solver=s))
    require(np.abs(z - exp["min"]).max() <= tol, "max-z-state", lambda: "%s, expected %s" % (z, exp["min"]))
    za = np.asarray(rf.max_z_state_action(solver=s)).reshape(-1)
    e = v.P @ exp["min"] + rv
    require(za.shape == (v.C,) and np.abs(za - e).max() <= tol, "max-z-state-action", lambda: "%s, expected %s" % (za, e))
    y = np.asarray(rf.max_y_state_action(solver=s))
    require(y.shape == (v.C,), "shape", str(y.shape))
    viol = violation(v, rv, "max", exp["max"][v.init], y)
    require(viol <= tol, "max-y", lambda: "flow %s is violated or collects too little by %s" % (y, viol))
    ys = np.asarray(rf.max_y_state(solver=s))
    acc = np.zeros(v.n)
    for i, (q, a) in enumerate(v.rows):
        acc[q] += y[i]
    require(ys.shape == (v.n,) and np.abs(ys - acc).max() <= tol, "max-y-state", lambda: "%s, expected %s" % (ys, acc))
    require(rf.is_ec_free and not any(rf.in_proper_ec(q) for q in range(v.n)), "ec-free", "")
    if case["from"]:
        # a system that already has the form: without fail, target last
        rf2 = from_system(case, v, rew)
        v2 = rfs.view(rf2)
        for m, got in (("min", rf2.rew_min()), ("max", rf2.rew_max())):
            got = np.asarray(got)
            require(got.shape == (v.n,) and np.abs(got - exp[m]).max() <= tol, "fromsystem", lambda: "%s: %s, expected %s" % (m, got, exp[m]))
        require(rf2.initial == v.init and rf2.target_label == "goal" and rf2.initial_label == "init", "fromsystem-labels", "")
        require(set(rf2.system.states_by_label["odd"]) == {q for q in range(v.n) if q % 2}, "fromsystem-labels", lambda: str(rf2.system.states_by_label["odd"]))
        ctx.tag("fromsystem")
    ctx.tag(case["kind"], s)
    ctx.nontrivial(v.n >= 2 and float(exp["max"][v.init]) > 0 and (case["kind"] == "dtmc" or not np.allclose(exp["max"], exp["min"])))


def from_system(case, v, rew):
    import numpy as np
    from scipy.sparse import dok_matrix
    from switss.model import RewardReachabilityForm, DTMC, MDP
    P = dok_matrix((v.C + 1, v.n + 1))
    for i in range(v.C):
        for d in range(v.n):
            if v.P[i, d]:
                P[i, d] = v.P[i, d]
        if v.b[i]:
            P[i, v.n] = v.b[i]
    P[v.C, v.n] = 1
    idx = {q: i for i, q in enumerate(v.rows)}
    idx[(v.n, 0)] = v.C
    rv = np.array([rew[q] for q in v.rows] + [0.0])
    if case["rseed"] % 3 and (rv == np.round(rv)).all():
        rv = rv.astype(int)
    if case["rseed"] % 2 and all(p == 1 for p in P.values()):
        P = P.astype(int)
    labels = {"init": {v.init}, "goal": {v.n}, "odd": {q for q in range(v.n) if q % 2}}
    if case["kind"] == "dtmc":
        m = DTMC(P, label_to_states=labels, index_by_state_action=idx, reward_vector=rv)
    else:
        m = MDP(P, idx, {"act": {v.rows[0]}}, labels, reward_vector=rv)
    before = (m.P.toarray().tolist(), m.N, m.C)
    with contextlib.redirect_stdout(io.StringIO()):
        rf = RewardReachabilityForm.fromsystem(m, "init", "goal")
    require(before == (m.P.toarray().tolist(), m.N, m.C), "fromsystem-modifies-system", "")
    if case["kind"] == "mdp":
        require(set(rf.system.actions_by_label["act"]) == {v.rows[0]}, "fromsystem-labels", "")
    return rf


# ------------------------------------------------------------------ preconditions

@st.composite
def any_models(draw):
    c = draw(M.model(min_n=1, max_n=7, ecfree=draw(M.BOOL), all_reach=draw(M.BOOL), rewards=draw(st.sampled_from([True, True, True, False])), extra_labels=False))
    return c


def run_reject(case, ctx):
    m, plain, smap, amap = M.reduce(case)
    v = rfs.view(plain)
    ok = v.ecfree and not (v.f > 0).any() and case["rewards"] is not None
    try:
        reduce(case, m)
        accepted = True
    except (AssertionError, ValueError):
        accepted = False
    require(accepted == ok, "precondition", lambda: "end components: %s, failure possible: %s, rewards: %s; accepted: %s" % (not v.ecfree, bool((v.f > 0).any()), case["rewards"], accepted))
    ctx.tag("accepted" if ok else "rejected", "ecs" if not v.ecfree else "ec-free", "fails" if (v.f > 0).any() else "never-fails")
    ctx.nontrivial(v.n >= 2)


# ------------------------------------------------------------------ witnesses

@st.composite
def witness_cases(draw, max_n=6):
    c = draw(M.model(min_n=2, max_n=max_n, ecfree=True, all_reach=True, rewards=True, extra_labels=True, max_w=4))
    c["mode"] = draw(st.sampled_from(["min", "max"]))
    c["thr"] = draw(THR)
    c["method"] = draw(st.sampled_from(["exact", "exact", "exact", "labels", "heur", "heur-labels"]))
    c["init"] = draw(st.sampled_from(["AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"]))
    if "labels" in c["method"]:
        relabel(draw, c)
        c["ends"] = draw(ENDS)
    return c


def run_witness(case, ctx):
    import numpy as np
    import switss.problem as sp
    rf, smap, amap = reduce(case)
    v = rfs.view(rf)
    mode = case["mode"]
    rew = rewards_of(case, v, smap)
    rv = np.array([rew[q] for q in v.rows])
    full = values(v, rew, mode)[v.init]
    labels = groups = None
    if "labels" not in case["method"] and case["rseed"] % 2:
        rf = from_system(case, v, rew)
        ctx.tag("fromsystem")
    if "labels" in case["method"]:
        labels = [l for l in "abcd" if l in case["labels"]] or ["init"]
        groups = {l: {int(smap[s]) for s in case["labels"][l] if s in smap} for l in labels}
        labels = with_ends(rf, v.n, labels, case.get("ends"))
        for l in labels:
            groups.setdefault(l, set())
    vals = []
    for m in range(1 << (len(labels) if labels else v.n)):
        if labels:
            bad = set().union(*[groups[l] for k, l in enumerate(labels) if not m >> k & 1])
            keep = [s for s in range(v.n) if s not in bad]
        else:
            keep = [s for s in range(v.n) if m >> s & 1]
        vals.append(values(v, rew, mode, keep)[v.init] if v.init in keep else 0.0)
    lam = threshold(vals, case["thr"], full)
    scale = 1 + full
    eps = 2e-4 * scale
    what = "%s %s %s labels %s" % (case["method"], mode, lam, groups)
    if case["method"].startswith("heur"):
        results = list(sp.QSHeur(iterations=3, initializertype=getattr(sp, case["init"])).solveiter(rf, lam, mode, labels=labels))
    else:
        results = [sp.MILPExact().solve(rf, lam, mode, labels=labels)]
    ctx.tag(mode, case["method"], case["kind"])
    if results[0].status != "success":
        require(len(results) == 1 and results[0].status == "infeasible", "status", lambda: "%s: %s" % (what, [r.status for r in results]))
        require(full < lam + eps and lam > 0, "infeasible-reported", lambda: "%s: the full system collects %s" % (what, full))
        ctx.tag("infeasible")
        ctx.nontrivial(v.n >= 3)
        return
    require(full >= lam - eps, "witness-for-unattainable", lambda: "%s: the full system only collects %s" % (what, full))
    kap = rfs.kappa(v)
    for r in results:
        require(r.status == "success", "status", lambda: "%s: %s" % (what, [r.status for r in results]))
        x = np.asarray(r.farkas_cert)
        require(x.shape == ((v.n,) if mode == "min" else (v.C,)), "certificate-shape", str(x.shape))
        viol = violation(v, rv, mode, lam, x)
        require(viol <= 1e-5 * (1 + np.abs(x).max(initial=0)) * (1 + rv.max()), "certificate-invalid", lambda: "%s: %s violates a condition by %s" % (what, x, viol))
        S = W.positive_states(v, mode, x)
        mask = np.asarray(r.subsystem.subsystem_mask)
        require([s for s in range(v.n) if mask[s]] == S, "mask", lambda: "%s: mask %s certificate %s" % (what, mask, x))
        got = values(v, rew, mode, S)[v.init] if v.init in S else 0.0
        require(got >= lam - 1e-5 * scale * (1 + kap), "subsystem-below-threshold", lambda: "%s: states %s collect %s" % (what, S, got))
        lo, hi = W.best(vals, lam - eps), W.best(vals, lam + eps)
        if case["method"].startswith("heur"):
            units = groups if labels else {s: {s} for s in range(v.n)}
            if labels or mode == "min":
                require(r.value >= lo, "below-optimum", lambda: "%s: value %s, optimum %s" % (what, r.value, lo))
        else:
            val = r.value
            require(abs(val - round(val)) < 1e-6 and val >= lo - 1e-6, "value-too-small", lambda: "%s: value %s, optimum %s" % (what, val, lo))
            require(hi is None or val <= hi + 1e-6, "not-minimal", lambda: "%s: value %s, but %s suffice" % (what, val, hi))
            if labels:
                occ = [l for l in labels if groups[l] & set(S)]
                require(len(occ) <= round(val), "labels-exceed-value", lambda: "%s: value %s, labels %s" % (what, val, occ))
            else:
                require(len(S) == round(val), "value-vs-subsystem", lambda: "%s: value %s, states %s" % (what, val, S))
    ctx.nontrivial(v.n >= 2 and lam > 0 and 0 < len(S) < v.n)


def threshold(vals, code, full):
    vs = sorted(set(round(x, 9) for x in vals if x > 1e-6))
    kind, k, f = code
    if not vs or kind == "zero":
        return [0.0, 1.0, 0.5][k % 3] if not vs else 0.0
    i = k % len(vs)
    hi, lo = vs[i], vs[i - 1] if i else 0.0
    if kind == "mid":
        return lo + (hi - lo) * f
    if kind == "tight":
        return max(0.0, hi - 1e-3 * (1 + full))
    if kind == "above":
        return full * (1 + f) + 0.1
    return full * f


CHECKS = [
    Check("values", forms, run_values, 2500, 100000,
          "random EC-free models with rewards (zero, fractional, from 1e-3 to 1000) that never fail; all reward queries under cbc and glpk against policy iteration, and the same form built with fromsystem; "
          "non-trivial: at least 2 states, positive reward, and (MDPs) minimal and maximal reward differ"),
    Check("values-larger", lambda: forms(max_n=20), run_values, 200, 10000, "the same with up to 20 states"),
    Check("values-hundreds", large, run_values, 32, 1500, "the same with 40 to 300 states (seeded generator)"),
    Check("preconditions", any_models, run_reject, 1500, 50000, "random models that may fail, have end components or lack rewards; non-trivial: at least 2 states in the form"),
    Check("witness", witness_cases, run_witness, 2000, 60000,
          "exact and heuristic witnesses on reward forms with at most 6 states, with and without labels, against brute force over all subsets of states or labels; non-trivial: positive threshold and a proper non-empty subset of the states (or unattainable)"),
]

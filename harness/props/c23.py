"""C23: the quotient-sum heuristics solve the documented sequence of LPs."""
from hypothesis import strategies as st
from ..core import Check, foreign, require, Violation, oracle, HarnessError, Inconclusive
from .. import models as M, rfs, witness as W
from ..models import I
from .c06 import relabel, ENDS, with_ends

INITS = ["AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer", "custom", "custom"]
UPDS = ["InverseResultUpdater", "InverseResultFixedZerosUpdater", "custom", "custom", "custom-constraints"]
WG = st.sampled_from([1, 1, 2, 5, 10, 0.5, 0.1, 0])


@st.composite
def cases(draw, rewards=False):
    mode = draw(st.sampled_from(["min", "max"]))
    ec = True if rewards else draw(M.BOOL)
    c = draw(M.model(min_n=2, max_n=7, ecfree=ec, all_reach=rewards, rewards=rewards, max_w=4))
    c["mode"] = mode
    c["frac"] = draw(st.sampled_from([0.5, 0.25, 0.75, 0.9, 0.1]))
    c["iters"] = draw(st.sampled_from([1, 2, 3, 3, 4]))
    c["init"] = draw(st.sampled_from(INITS))
    c["upd"] = draw(st.sampled_from(UPDS))
    c["weights"] = [[draw(WG) for _ in range(8)] for _ in range(4)]
    c["use"] = None
    if draw(M.BOOL):
        relabel(draw, c)
        have = [l for l in "abcd" if l in c["labels"]] + ["init"]
        c["use"] = draw(st.lists(st.sampled_from(have), unique=True, min_size=1, max_size=4))
        c["ends"] = draw(ENDS)
    return c


def lp(obj, **kw):
    from scipy.optimize import linprog
    for method in ("highs", "highs-ds", "highs-ipm"):
        res = foreign(linprog, obj, method=method, **kw)
        if res.status in (0, 2) and (res.status == 2 or res.x is not None):
            return res
    raise Inconclusive("reference LP: %s" % res.message)


@oracle
def lp_optimum(v, b, thr_row, lam, mode, groups, K, weights, extra, bounded):
    """minimum of sum_g weights[g]*sigma_g over the documented polytope. extra: list of (dict var->coef, sense, rhs) over x ("x",i) and ("s",g)"""
    import numpy as np
    n = v.n if mode == "min" else v.C
    gs = list(groups)
    nv = n + len(gs)
    col = {g: n + k for k, g in enumerate(gs)}
    A, r = [], []
    if mode == "min":
        for i in range(v.C):
            A.append(list(v.A[i]) + [0] * len(gs))
            r.append(b[i])
        row = [0.0] * nv
        row[v.init] = -1
    else:
        for s in range(v.n):
            A.append(list(v.A[:, s]) + [0] * len(gs))
            r.append(1.0 if s == v.init else 0.0)
        row = list(-np.asarray(b)) + [0.0] * len(gs)
    A.append(row)
    r.append(-lam)
    for g in gs:
        for i in groups[g]:
            row = [0.0] * nv
            row[i] = 1
            row[col[g]] = -K[i]
            A.append(row)
            r.append(0.0)
    E, e = [], []
    for coefs, sense, rhs in extra:
        row = [0.0] * nv
        for (k, i), x in coefs.items():
            row[i if k == "x" else col[i]] += x
        if sense == "=":
            E.append(row)
            e.append(rhs)
        else:
            sg = 1 if sense == "<=" else -1
            A.append([sg * x for x in row])
            r.append(sg * rhs)
    obj = [0.0] * n + [weights[g] for g in gs]
    ub = []
    for i in range(n):
        s = i if mode == "min" else None
        ub.append(0.0 if mode == "min" and v.ec[s] and thr_row == "prob" else None)
    res = lp(obj, A_ub=np.array(A), b_ub=np.array(r), A_eq=np.array(E) if E else None, b_eq=np.array(e) if e else None,
                  bounds=[(0, u) for u in ub] + [(0, 1 if bounded else None)] * len(gs))
    if res.status == 2:
        return None
    return float(res.fun)


@oracle
def bounds_for(v, b, mode, lam, rewards):
    """the bound K that the documented constraint x <= K*sigma uses: 1 for probabilities in z form; for end-component free y
    forms the expected visits (DTMC, the exact maximum per entry) or one common bound (MDP)"""
    import numpy as np
    n = v.n if mode == "min" else v.C
    if mode == "min" and not rewards:
        return np.ones(n), True
    if not v.ecfree:
        return np.ones(n), False
    # maximal sum of the entries
    if mode == "max":
        A = v.A.T
        r = np.zeros(v.n)
        r[v.init] = 1
        A = np.vstack([A, -np.asarray(b)])
        r = np.append(r, -lam)
    else:
        A = np.vstack([v.A, [-1.0 if s == v.init else 0 for s in range(v.n)]])
        r = np.append(np.asarray(b, dtype=float), -lam)
    res = lp(-np.ones(n), A_ub=A, b_ub=r, bounds=[(0, None)] * n)
    if res.status != 0:
        raise Inconclusive("reference bound LP: %s" % res.message)
    if v.C == v.n:
        return np.maximum(res.x, 0), True
    return np.full(n, -res.fun), True


def run(case, ctx):
    import numpy as np
    import switss.problem as sp
    import contextlib, io
    rewards = case.get("rewards") is not None
    if rewards:
        from .c12 import reduce as rreduce, rewards_of, values
        rf, smap, amap = rreduce(case)
    else:
        m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    mode = case["mode"]
    if rewards:
        rew = rewards_of(case, v, smap)
        b = np.array([rew[q] for q in v.rows])
        full = values(v, rew, mode)[v.init]
        if full > 1e6:
            return
    else:
        b = v.b
        full = v.pr[mode][v.init]
    lam = float(full) * case["frac"]
    n = v.n if mode == "min" else v.C
    labels = None if case["use"] is None else [l for l in case["use"] if l in case["labels"]] or ["init"]
    if labels is None:
        want = [{i} for i in range(n)]
    else:
        sg = {l: {int(smap[s]) for s in case["labels"][l] if s in smap} for l in labels}
        labels = with_ends(rf, v.n, labels, case.get("ends"))
        for l in labels:
            sg.setdefault(l, set())
        want = [(g if mode == "min" else {i for i, (q, a) in enumerate(v.rows) if q in g}) for g in sg.values()]

    log = {"init": [], "upd": [], "cons": [], "obj": []}

    def weight(k, j):
        w = case["weights"][k % 4]
        return w[j % len(w)]

    def checked_args(kw, what):
        require(kw.get("reachability_form") is rf and kw.get("mode") == mode and "indicator_to_group" in kw, "arguments", lambda: "%s called with %s" % (what, kw))
        g = {k: set(x) for k, x in kw["indicator_to_group"].items()}
        require(sorted(map(sorted, g.values())) == sorted(map(sorted, [w for w in want if w or labels is None or mode == "min"])) or sorted(sorted(x) for x in g.values() if x) == sorted(sorted(x) for x in want if x),
                "groups", lambda: "%s: groups %s, expected %s" % (what, g, want))
        require(all(k >= n for k in g), "groups", lambda: "%s: groups %s of indicator variables below the certificate size %d" % (what, g, n))
        return g

    IBase = sp.Initializer if case["init"] == "custom" else getattr(sp, case["init"])
    UBase = sp.Updater if case["upd"].startswith("custom") else getattr(sp, case["upd"])
    state = {"u": 0}

    class RecInit(IBase):
        def __init__(self, **kw):
            log["groups"] = checked_args(kw, "initializer")
            super().__init__(**kw)

        def initialize(self):
            if case["init"] == "custom":
                r = [(g, weight(0, j)) for j, g in enumerate(sorted(self.groups))]
            else:
                r = super().initialize()
            r = [(int(g), float(w)) for g, w in r]
            log["init"].append(r)
            return r

    class RecUpd(UBase):
        def __init__(self, **kw):
            g = checked_args(kw, "updater")
            require(g == log.get("groups", g), "groups", "the updater got other groups than the initializer")
            super().__init__(**kw)

        def update(self, last_result):
            last = np.array(last_result, dtype=float)
            log["upd"].append(last)
            state["u"] += 1
            if case["upd"].startswith("custom"):
                r = [(g, weight(state["u"], j)) for j, g in enumerate(sorted(self.groups))]
            else:
                r = super().update(last_result)
            r = [(int(g), float(w)) for g, w in r]
            log["obj"].append(r)
            return r

        def constraints(self, last_result):
            if case["upd"] == "custom":
                r = []
            elif case["upd"] == "custom-constraints":
                # groups that were small stay below twice their value plus something
                r = []
                for j, g in enumerate(sorted(self.groups)):
                    if (j + state["u"]) % 3 == 0:
                        r.append(([(g, 1.0)], "<=", float(last_result[g]) + 0.01))
                i = state["u"] % n
                r.append(([(i, 1.0)], "<=", float(last_result[i]) + 0.02))
            else:
                r = super().constraints(last_result)
            log["cons"].append([([(int(g), float(x)) for g, x in lhs], s, float(rhs)) for lhs, s, rhs in r])
            return r

    heur = sp.QSHeur(iterations=case["iters"], initializertype=RecInit, updatertype=RecUpd)
    results = list(heur.solveiter(rf, lam, mode, labels=labels))
    what = "%s threshold %s labels %s %s/%s" % (mode, lam, labels, case["init"], case["upd"])
    ctx.tag(mode, case["init"], case["upd"], "labels" if labels else "states", "rewards" if rewards else "prob", "ec-free" if v.ecfree else "has-ecs")
    require(len(log["init"]) == 1, "initialize-calls", lambda: "%s: initialize called %d times" % (what, len(log["init"])))
    groups = log["groups"]
    K, bounded = bounds_for(v, b, mode, lam, rewards)
    extra = []
    done = 0
    for k in range(case["iters"]):
        obj = dict(log["init"][0]) if k == 0 else dict(log["obj"][k - 1])
        if k < len(log["upd"]):
            x = log["upd"][k]
            require(x.shape == (n + len(groups),), "result-shape", lambda: "%s iteration %d: %s entries for %d variables and %d groups" % (what, k, x.shape, n, len(groups)))
            w = max([1.0] + list(obj.values()))
            sc = 1 + float(np.abs(x).max(initial=0))
            # feasibility
            viol = max([-float(x.min(initial=0))] + [x[i] - K[i] * x[g] for g in groups for i in groups[g]])
            require(viol <= 1e-5 * sc, "iterate-infeasible", lambda: "%s iteration %d: %s exceeds its indicator by %s (groups %s, bounds %s)" % (what, k, x, viol, groups, K))
            for lhs, s, rhs in extra:
                val = sum(x[i] * cf for i, cf in lhs)
                ok = abs(val - rhs) <= 1e-5 if s == "=" else (val <= rhs + 1e-5 if s == "<=" else val >= rhs - 1e-5)
                require(ok, "constraint-ignored", lambda: "%s iteration %d: %s violates %s" % (what, k, x, (lhs, s, rhs)))
            require(np.array_equal(np.asarray(results[k].farkas_cert, dtype=float), x[:n]), "certificate-vs-result", what)
            # optimality
            ex = [({(("x", i) if i < n else ("s", i)): cf for i, cf in lhs}, s, rhs) for lhs, s, rhs in extra]
            best = lp_optimum(v, b, "rew" if rewards else "prob", lam, mode, groups, K, {g: obj.get(g, 0.0) for g in groups}, ex, bounded)
            got = sum(obj.get(g, 0.0) * x[g] for g in groups)
            if best is not None:
                require(got <= best + 1e-5 * (1 + abs(best)) + 2e-6 * w * len(groups), "iterate-not-optimal", lambda: "%s iteration %d: objective %s, but %s is possible (weights %s, result %s)" % (what, k, got, best, obj, x))
            done += 1
            # the next objective
            if k < len(log["obj"]) and not case["upd"].startswith("custom"):
                nxt = dict(log["obj"][k])
                require(set(nxt) == set(groups), "objective-groups", lambda: "%s: %s" % (what, nxt))
                pos = {g: x[g] for g in groups if x[g] > 0}
                for g, s in pos.items():
                    if s > 1e-8:
                        require(abs(nxt[g] * s - 1) < 1e-6, "updated-weight", lambda: "%s: group %d had %s and gets weight %s" % (what, g, s, nxt[g]))
                zeros = [g for g in groups if x[g] == 0]
                if case["upd"] == "InverseResultUpdater":
                    require(all(nxt[z] >= 1e6 and nxt[z] >= nxt[g] * (1 - 1e-9) for z in zeros for g in list(pos) or zeros), "updated-weight", lambda: "%s: removed groups %s do not get the largest weight: %s" % (what, zeros, nxt))
                    require(log["cons"][k] == [], "constraints", what)
                else:
                    fixed = sorted(lhs[0][0] for lhs, s, rhs in log["cons"][k] if len(lhs) == 1 and s == "=" and rhs == 0 and lhs[0][1] != 0)
                    require(fixed == sorted(zeros) == sorted(lhs[0][0] for lhs, s, rhs in log["cons"][k]), "constraints", lambda: "%s: groups %s are zero, constraints %s" % (what, zeros, log["cons"][k]))
            extra += log["cons"][k] if k < len(log["cons"]) else []
    require(done == len([r for r in results if r.status == "success"]), "update-calls", lambda: "%s: %d updates for %d results" % (what, done, len(results)))
    if case["init"] != "custom":
        initial_weights(case, rf, v, mode, groups, dict(log["init"][0]), rewards, what)
    ctx.tag("iterations-%d" % done)
    ctx.nontrivial(done >= 1 and len(groups) >= 2 and v.n >= 2 and lam > 0)


def initial_weights(case, rf, v, mode, groups, o, rewards, what):
    import numpy as np
    require(set(o) == set(groups), "initial-groups", lambda: "%s: weights %s for groups %s" % (what, o, groups))
    if case["init"] == "AllOnesInitializer":
        require(all(o[g] == 1 for g in groups), "initial-weights", lambda: "%s: %s" % (what, o))
        return
    if case["init"] == "InverseReachabilityInitializer":
        # documented: inverse of the average (minimal) probability of the group
        if rewards:
            val = np.asarray(rf.max_z_state() if mode == "min" else rf.max_z_state_action())
        else:
            val = v.pr["min"][:v.n] if mode == "min" else v.P @ v.pr["min"][:v.n] + v.b
        avg = {g: (float(np.mean([val[i] for i in groups[g]])) if groups[g] else 0.0) for g in groups}
    else:
        e = np.asarray(rf.max_y_state() if mode == "min" else rf.max_y_state_action())
        if case["init"] == "InverseCombinedInitializer":
            e = e * np.asarray(rf.max_z_state() if mode == "min" else rf.max_z_state_action())
        avg = {g: float(sum(e[i] for i in groups[g])) for g in groups}
    for g in groups:
        if avg[g] > 1e-4:
            require(abs(o[g] * avg[g] - 1) < 1e-2 * min(1, 1e-3 / avg[g]) + 1e-5, "initial-weights", lambda: "%s: group %s has value %s and weight %s" % (what, groups[g], avg[g], o[g]))
        elif avg[g] < 1e-9:
            require(o[g] >= 1e6, "initial-weights", lambda: "%s: group %s has value %s and weight %s" % (what, groups[g], avg[g], o[g]))


@st.composite
def weight_cases(draw):
    n = draw(I(1, 6))
    return {"n": n, "groups": [sorted(draw(st.sets(I(0, n - 1), max_size=n))) for _ in range(draw(I(1, 5)))], "w": [draw(st.sampled_from([1, 2, 0.5, 10, 3])) for _ in range(5)],
            "x": [draw(st.sampled_from([0, 0, 1, 0.5, 0.001, 3, 0.2, -3e-14])) for _ in range(12)], "mode": draw(st.sampled_from(["min", "max"])), "weighted": draw(M.BOOL)}


def run_weights(case, ctx):
    import numpy as np
    import switss.problem as sp
    from switss.utils import InvertibleDict
    n = case["n"]
    groups = {n + j: set(g) for j, g in enumerate(case["groups"])}
    ig = InvertibleDict({k: set(g) for k, g in groups.items()})
    w = {g: case["w"][j] for j, g in enumerate(groups)}
    kw = {"weights": dict(w)} if case["weighted"] else {}
    if not case["weighted"]:
        w = {g: 1 for g in groups}
    x = np.array([0.3] * n + case["x"][:len(groups)], dtype=float)
    old = x.copy()
    o = dict(sp.AllOnesInitializer(indicator_to_group=ig, **kw).initialize())
    require(o == w, "all-ones", lambda: "%s, weights %s" % (o, w))
    u = sp.InverseResultUpdater(None, case["mode"], ig, **kw)
    a = dict(u.update(x))
    f = sp.InverseResultFixedZerosUpdater(None, case["mode"], ig, **kw)
    b = dict(f.update(x))
    cons = f.constraints(x)
    require(set(a) == set(b) == set(groups), "groups", lambda: "%s %s" % (a, b))
    for g in groups:
        if x[g] > 0:
            require(abs(a[g] * x[g] - w[g]) < 1e-9 * w[g] and abs(b[g] * x[g] - w[g]) < 1e-9 * w[g], "inverse", lambda: "group %d: result %s, weight %s, objective %s / %s" % (g, x[g], w[g], a[g], b[g]))
        else:
            require(a[g] >= max([a[h] for h in groups if x[h] > 0] + [1e6]), "removed", lambda: "removed group %d gets %s: %s" % (g, a[g], a))
    require(list(u.constraints(x)) == [], "constraints", "")
    got = sorted((tuple((int(i), float(c)) for i, c in lhs), s, float(r)) for lhs, s, r in cons)
    require(got == sorted((((g, 1.0),), "=", 0.0) for g in groups if x[g] <= 0), "constraints", lambda: "%s for %s" % (got, x))
    require(np.array_equal(x, old), "input-modified", "")
    ctx.nontrivial(len(groups) >= 2 and any(x[g] <= 0 for g in groups) and any(x[g] > 0 for g in groups))


CHECKS = [
    Check("weights", weight_cases, run_weights, 1500, 20000,
          "updaters and the all-ones initializer applied to arbitrary result vectors, groups and weights, against their formulas; non-trivial: removed and kept groups"),
    Check("sequence", cases, run, 2400, 40000,
          "random reachability forms, thresholds below the optimum, with and without labels, built-in or user-written initializers and updaters (random weights, additional constraints); every iterate must be feasible "
          "and optimal for the objective in force (HiGHS), constraints accumulate, and the built-in weights must follow their documented formulas; non-trivial: at least one iteration over at least 2 groups"),
    Check("sequence-rewards", lambda: cases(rewards=True), run, 700, 15000, "the same on reward forms"),
]

"""C01: reachability-form reduction."""
from hypothesis import strategies as st
from ..core import Check, require, Violation
from .. import models as M, oracles as O, big
from ..models import I


@st.composite
def cases(draw):
    odd = draw(M.BOOL)
    c = draw(M.model(max_n=8, rewards="maybe", max_succ=5 if odd else 3))
    if odd:
        if c["kind"] == "mdp" and draw(M.BOOL):
            # an action that leads to states without any path to the target only
            dead = [s for s in range(c["n"]) if s not in M.backward(c, c["labels"]["target"])]
            while len(dead) < 2 + draw(I(0, 2)):
                dead.append(c["n"])
                c["rows"].append([c["n"], 0, [[c["n"], 1]]])
                if c.get("rewards") is not None:
                    c["rewards"].append(1.0)
                c["n"] += 1
            s = draw(I(0, c["n"] - 1))
            c["rows"].append([s, 1 + max(a for q, a, ds in c["rows"] if q == s), [[d, 1] for d in dead]])
            if c.get("rewards") is not None:
                c["rewards"].append(0.5)
        M.odd_weights(draw, c)
    c["tl"] = draw(st.sampled_from(["rf_target", "rf_target", "goal!"]))
    c["fl"] = draw(st.sampled_from(["rf_fail", "rf_fail", "bad"]))
    return c


@st.composite
def large(draw):
    p = draw(big.params(rewards="maybe"))
    return {"big": p, "rseed": p["seed"] % 1000, "tl": "rf_target", "fl": "rf_fail"}


def expected_states(case):
    T = set(case["labels"]["target"])
    return M.forward(case, case["labels"]["init"], block=T) & M.backward(case, T)


def run_reduce(case, ctx):
    from switss.model import ReachabilityForm
    import numpy as np
    case = big.full(case)
    m = M.build(case)
    rf, smap, amap = ReachabilityForm.reduce(m, "init", "target", new_target_label=case["tl"], new_fail_label=case["fl"])
    T = set(case["labels"]["target"])
    R = expected_states(case)
    smap = {int(k): int(v) for k, v in smap.items()}
    amap = {tuple(map(int, k)): tuple(map(int, v)) for k, v in amap.items()}
    require(set(smap) == R, "retained-states", lambda: "retained %s, expected %s" % (sorted(smap), sorted(R)))
    n = len(R)
    require(sorted(smap.values()) == list(range(n)), "state-map", lambda: "state map %s" % smap)
    SA = {(s, a) for s, a, _ in case["rows"] if s in R}
    require(set(amap) == SA, "retained-actions", lambda: "retained %s expected %s" % (sorted(amap), sorted(SA)))
    require(len(set(amap.values())) == len(amap), "action-map-injective", str(amap))
    for (s, a), (s2, a2) in amap.items():
        require(s2 == smap[s], "action-map-state", lambda: "(%s,%s)->(%s,%s)" % (s, a, s2, a2))
    sysm = rf.system
    require(type(sysm) is type(m), "type", str(type(sysm)))
    N, C = n + 2, len(SA) + 2
    require((sysm.N, sysm.C) == (N, C) and sysm.P.shape == (C, N), "size", "%s %s" % (sysm, sysm.P.shape))
    idx = {tuple(map(int, k)): int(v) for k, v in sysm.index_by_state_action.items()}
    require(sorted(idx.values()) == list(range(C)), "index", str(idx))
    require(set(idx) == set(amap.values()) | {(N - 2, 0), (N - 1, 0)} and idx[(N - 2, 0)] == C - 2 and idx[(N - 1, 0)] == C - 1, "index-keys", str(idx))
    P = sysm.P.toarray()
    lost_any = False
    for r in case["rows"]:
        s, a, _ = r
        if s not in R:
            continue
        exp = np.zeros(N)
        if s in T:
            exp[N - 2] = 1
            lost = False
        else:
            lost = False
            for d, p in M.row_probs(r).items():
                if d in R:
                    exp[smap[d]] += p
                else:
                    exp[N - 1] += p
                    lost = True
        lost_any |= lost
        got = P[idx[amap[(s, a)]]]
        require(np.abs(got - exp).max() < 1e-9, "transition", lambda: "row of %s: got %s expected %s" % ((s, a), got, exp))
        require(all((g != 0) == (e != 0) for g, e in zip(got, exp)), "transition-support", lambda: "row of %s: got %s expected %s" % ((s, a), got, exp))
    for k in (1, 2):
        e = np.zeros(N)
        e[N - k] = 1
        require((P[C - k] == e).all(), "absorbing", lambda: "row %d: %s" % (C - k, P[C - k]))
    # labels
    lab = {l: {smap[s] for s in ss if s in R} for l, ss in case["labels"].items()}
    lab[case["tl"]] = {N - 2}
    lab[case["fl"]] = {N - 1}
    got = {l: set(map(int, sysm.states_by_label[l])) for l in set(lab) | set(sysm.states_by_label.keys())}
    for l in set(lab) | set(got):
        require(got.get(l, set()) == lab.get(l, set()), "state-labels", lambda: "label %s: got %s expected %s" % (l, got.get(l), lab.get(l)))
    for q in range(N):
        require(set(sysm.labels_by_state[q]) == {l for l in lab if q in lab[l]}, "labels-by-state", lambda: "state %d: %s" % (q, sysm.labels_by_state[q]))
    if case["kind"] == "mdp":
        al = {l: {amap[tuple(x)] for x in xs if tuple(x) in amap} for l, xs in case["alabels"].items()}
        keys = set(al) | set(sysm.actions_by_label.keys())
        for l in keys:
            require(set(sysm.actions_by_label[l]) == al.get(l, set()), "action-labels", lambda: "label %s: got %s expected %s" % (l, sysm.actions_by_label[l], al.get(l)))
    if case["rewards"] is not None:
        rv = sysm.reward_vector
        require(rv is not None and len(rv) == C, "rewards", "reward vector %s" % (rv,))
        for i, (s, a, _) in enumerate(case["rows"]):
            if s in R:
                require(abs(rv[idx[amap[(s, a)]]] - case["rewards"][i]) < 1e-12, "rewards", lambda: "reward of %s: %s" % ((s, a), rv))
        require(rv[C - 1] == 0 and rv[C - 2] == 0, "rewards-absorbing", str(rv))
    else:
        require(sysm.reward_vector is None, "rewards-none", "")
    # RF accessors
    require(rf.initial == smap[case["labels"]["init"][0]], "initial", "%s" % rf.initial)
    require((rf.target_state_idx, rf.fail_state_idx, rf.target_sap_idx, rf.fail_sap_idx) == (N - 2, N - 1, C - 2, C - 1), "indices", "")
    require((rf.initial_label, rf.target_label, rf.fail_label) == ("init", case["tl"], case["fl"]), "label-names", "")
    core = {k: v for k, v in idx.items() if v < C - 2}
    require({tuple(map(int, k)): int(v) for k, v in rf.index_by_state_action.items()} == core, "rf-index", str(rf.index_by_state_action))
    A = np.zeros((C - 2, N - 2))
    for (s, a), i in core.items():
        A[i, s] += 1
    A -= P[:C - 2, :N - 2]
    require(np.abs(rf.P.toarray() - P[:C - 2, :N - 2]).max() == 0, "rf-P", "")
    gA = rf.A.toarray() if hasattr(rf.A, "toarray") else np.asarray(rf.A)
    require(gA.shape == A.shape and np.abs(gA - A).max() < 1e-12, "rf-A", lambda: "%s\n%s" % (gA, A))
    tt = np.asarray(rf.to_target).reshape(-1)
    require(tt.shape == (C - 2,) and np.abs(tt - P[:C - 2, N - 2]).max() == 0, "rf-to-target", str(tt))
    # accepted by the form's own consistency check
    try:
        ReachabilityForm(sysm, "init", case["tl"], case["fl"])
    except AssertionError as e:
        raise Violation("inconsistent-form", str(e)[:300])
    # probabilities preserved (reference computation on the original and on the reduced model)
    ref = O.ref_of(case)
    ref2 = O.ref_of_rf(rf)
    tiny = min(w for r in case["rows"] for _, w in r[2]) < 1e-6      # then rounding alone moves the probabilities
    for mode in ("min", "max") if not tiny else ():
        a, b = O.pr(ref, mode), O.pr(ref2, mode)
        for s in R:
            require(abs(a[s] - b[smap[s]]) < 1e-7, "probability", lambda: "Pr%s of state %d: %s before, %s after" % (mode, s, a[s], b[smap[s]]))
    ctx.tag(case["kind"])
    if lost_any:
        ctx.tag("loses-mass")
    if len(R) < case["n"]:
        ctx.tag("removes-states")
    if len(R & T) > 1:
        ctx.tag("several-targets")
    if any(smap[s] != s for s in R):
        ctx.tag("renumbered")
    ctx.nontrivial(n >= 2 and (lost_any or len(R) < case["n"] or any(smap[s] != s for s in R)))


# ------------------------------------------------------------------ the consistency validator

@st.composite
def form_cases(draw):
    c = draw(M.model(max_n=6, extra_labels=False))
    c["mut"] = draw(I(0, 10))
    c["at"] = draw(I(0, 20))
    return c


def run_validator(case, ctx):
    """a system in the documented form is accepted; one breaking a single documented condition is rejected"""
    from switss.model import ReachabilityForm, DTMC, MDP
    from scipy.sparse import dok_matrix
    R = sorted(expected_states(case))
    T = set(case["labels"]["target"])
    sm = {s: i for i, s in enumerate(R)}
    n = len(R)
    rows = []
    for s, a, ds in case["rows"]:
        if s not in sm:
            continue
        tot = sum(w for _, w in ds)
        e = {}
        if s in T:
            e[n] = 1.0
        else:
            for d, w in ds:
                k = sm[d] if d in sm else n + 1
                e[k] = e.get(k, 0) + w / tot
        rows.append([sm[s], a, e])
    init = sm[case["labels"]["init"][0]]
    labels = {"init": {init}, "rf_target": {n}, "rf_fail": {n + 1}}
    tail = [[n, 0, {n: 1.0}], [n + 1, 0, {n + 1: 1.0}]]
    N = n + 2
    mut, at = case["mut"], case["at"]
    bad = True
    def remap(f):
        for r in rows + tail:
            r[0] = f[r[0]]
            r[2] = {f[d]: p for d, p in r[2].items()}
        for l in labels:
            labels[l] = {f[s] for s in labels[l]}
    if mut == 0 or mut > 8:
        bad = False
    elif mut == 1:      # a second initial state / none
        if n > 1 and at % 2:
            labels["init"].add((init + 1) % n)
        else:
            labels["init"] = set()
    elif mut == 2:      # fail not absorbing
        tail[1][2] = {n + 1: 0.5, at % n: 0.5}
    elif mut == 3:      # target not absorbing
        tail[0][2] = {n: 0.5, at % n: 0.5}
    elif mut == 4:      # target and fail columns swapped
        f = list(range(N)); f[n], f[n + 1] = n + 1, n
        remap(f)
    elif mut == 5:      # target/fail rows swapped
        tail.reverse()
    elif mut == 6:      # an unreachable state (which reaches the target)
        f = {s: s + 1 for s in range(N)}
        remap(f)
        rows.append([0, 0, {n + 1: 1.0}])
        N += 1
    elif mut == 7:      # a state that cannot reach the target
        f = {s: s + 1 for s in range(N)}
        remap(f)
        rows.append([0, 0, {0: 1.0}])
        r = rows[at % (len(rows) - 1)]
        if n + 1 in r[2] and len(r[2]) == 1:
            r[2] = {n + 1: 0.5, 0: 0.5}
        else:
            r[2] = {k: v / 2 for k, v in r[2].items()}
            r[2][0] = 0.5
        N += 1
    elif mut == 8:      # fail label missing / doubled
        if at % 2:
            labels["rf_fail"] = set()
        else:
            labels["rf_target"].add(at % n)
    allr = rows + tail
    P = dok_matrix((len(allr), N))
    for i, r in enumerate(allr):
        for d, p in r[2].items():
            P[i, d] = p
    idx = {(r[0], r[1]): i for i, r in enumerate(allr)}
    if case["kind"] == "dtmc":
        m = DTMC(P, labels, idx)
    else:
        m = MDP(P, idx, {}, labels)
    try:
        rf = ReachabilityForm(m, "init")
        ok = True
    except AssertionError as e:
        ok = False
    except (KeyError, IndexError, StopIteration) as e:
        if not bad:
            raise
        ok = False
    ctx.tag("mutation-%d" % mut)
    ctx.nontrivial(n >= 2)
    require(ok != bad, "validator", "form with mutation %d was %s" % (mut, "accepted" if ok else "rejected"))


CHECKS = [
    Check("reduce", cases, run_reduce, 2400, 60000,
          "random DTMC/MDP with up to 8 states (end components, sinks, several targets, unreachable parts, permuted rows, sparse action ids, labels, rewards); "
          "non-trivial: at least 2 retained states and states are removed, renumbered or probability is lost to fail"),
    Check("reduce-large", large, run_reduce, 60, 3000, "the same with 40 to 300 states (seeded generator); non-trivial as before"),
    Check("validator", form_cases, run_validator, 800, 20000,
          "hand-built reachability forms, valid or with exactly one documented condition broken; non-trivial: at least 2 ordinary states"),
]

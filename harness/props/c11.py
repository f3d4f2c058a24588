"""C11: construction and queries of models."""
from hypothesis import strategies as st
from ..core import Check, require, Violation
from .. import models as M, big
from ..models import I

FMT = ["list", "array", "matrix", "dok", "csr", "csc", "coo", "lil", "bsr", "dia", "csr-zeros", "coo-zeros", "coo-dup", "csc-unsorted"]
DEFECT = st.sampled_from([None, None, None, "sum", "sum", "sum", "negative", "above", "rewards", "nonsquare", "action", "nan", "emptyrow", "reward-nan", "compensated"])
DEV = st.sampled_from([1e-7, -1e-7, 1e-4, -1e-4, 0.01, -0.25, 0.3, -1e-8, 1e-8])


@st.composite
def cases(draw, large=False):
    if large:
        p = draw(big.params(rewards="maybe"))
        c = {"big": p, "rseed": p["seed"] % 1000}
    else:
        c = draw(M.model(max_n=7, min_n=1, max_actions=4, max_succ=4, rewards="maybe"))
    if draw(I(0, 3)) == 0:
        # gaps and large numbers as actions, arbitrary state/label types are not supported
        pass
    c["fmt"] = draw(st.sampled_from(FMT))
    c["bi"] = draw(M.BOOL)
    c["noidx"] = draw(M.BOOL)
    c["defect"] = draw(DEFECT)
    c["at"] = [draw(I(0, 900 if large else 30)), draw(I(0, 300 if large else 30))]
    c["dev"] = draw(DEV)
    c["noise"] = draw(st.sampled_from([0, 0, 1e-12, -1e-12, 1e-10]))
    c["rtype"] = draw(st.sampled_from(["array", "list", "dict"]))
    c["probe"] = draw(st.permutations(["P", "A", "L", "S", "X", "Y", "R"]))
    return c


def as_format(D, fmt):
    import numpy as np
    from scipy import sparse as sp
    A = np.array(D, dtype=float)
    if fmt == "list":
        if all(float(x).is_integer() for r in D for x in r):
            return [[int(x) for x in r] for r in D]
        return [list(r) for r in D]
    if fmt == "array":
        return A
    if fmt == "matrix":
        return np.matrix(A)
    if fmt in ("dok", "csr", "csc", "coo", "lil", "bsr", "dia"):
        return getattr(sp, fmt + "_matrix")(A)
    C, N = A.shape
    if fmt in ("csr-zeros", "coo-zeros"):
        ii = [i for i in range(C) for j in range(N)]
        jj = [j for i in range(C) for j in range(N)]
        m = sp.coo_matrix((A.reshape(-1), (ii, jj)), shape=A.shape)
        return m if fmt == "coo-zeros" else sp.csr_matrix((A.reshape(-1), np.array(jj), np.arange(0, C * N + 1, N)), shape=A.shape)
    if fmt == "coo-dup":
        ii = [i for i in range(C) for j in range(N) if A[i, j] != 0] * 2
        jj = [j for i in range(C) for j in range(N) if A[i, j] != 0] * 2
        return sp.coo_matrix(([A[i, j] / 2 for i, j in zip(ii, jj)], (ii, jj)), shape=A.shape)
    if fmt == "csc-unsorted":
        ind, data, ptr = [], [], [0]
        for j in range(N):
            for i in reversed(range(C)):
                if A[i, j] != 0:
                    ind.append(i)
                    data.append(A[i, j])
            ptr.append(len(ind))
        return sp.csc_matrix((np.array(data), np.array(ind, dtype=int), np.array(ptr)), shape=A.shape)


def run(case, ctx):
    import numpy as np
    from bidict import bidict
    from switss.model import DTMC, MDP
    case = big.full(case)
    D = M.dense(case)
    kind = case["kind"]
    idx = M.index_map(case)
    rew = None if case["rewards"] is None else list(case["rewards"])
    C, N = len(D), case["n"]
    i, j = case["at"][0] % C, case["at"][1] % N
    defect = case["defect"]
    bad = True
    if case["noise"] and defect is None:
        k = max(range(N), key=lambda q: D[i][q] if D[i][q] < 0.999 else 0)
        if D[i][k] > 0.05 and D[i][k] < 0.999:
            D[i][k] += case["noise"]
    if defect == "sum":
        k = max(range(N), key=lambda q: D[i][q])
        D[i][k] += case["dev"]
        if not 0 <= D[i][k] <= 1:
            D[i][k] -= 2 * case["dev"]
    elif defect == "negative":
        k = max(range(N), key=lambda q: D[i][q])
        k2 = (k + 1) % N
        if k2 == k:
            D[i][k] = -1.0
        else:
            D[i][k] = D[i][k] + D[i][k2] + abs(case["dev"])
            D[i][k2] = -abs(case["dev"])
    elif defect == "compensated":
        # one row too large, another too small
        if C < 2:
            bad = False
        else:
            for r, sg in ((i, -1), ((i + 1) % C, 1)):
                k = max(range(N), key=lambda q: D[r][q])
                D[r][k] += sg * abs(case["dev"])
    elif defect == "above":
        k = max(range(N), key=lambda q: D[i][q])
        D[i][k] = 1.0 + abs(case["dev"])
    elif defect == "rewards":
        rew = [0.5] * C
        rew[i] = -abs(case["dev"])
    elif defect == "reward-nan":
        rew = [0.5] * C
        rew[i] = float("nan")
    elif defect == "nonsquare":
        if kind == "dtmc":
            D = [r + [0.0] for r in D]
            N += 1
        else:
            bad = False
    elif defect == "action":
        if kind == "dtmc":
            s = [k for k, v in idx.items() if v == i][0]
            del idx[s]
            idx[(s[0], 1 + case["at"][1])] = i
        else:
            bad = False
    elif defect == "nan":
        D[i][j] = float("nan")
    elif defect == "emptyrow":
        D[i] = [0.0] * N
    else:
        bad = False
    P = as_format(D, case["fmt"])
    idxarg = bidict(idx) if case["bi"] else dict(idx)
    if rew is not None:
        rarg = np.array(rew) if case["rtype"] == "array" else (list(rew) if case["rtype"] == "list" else {k: x for k, x in enumerate(rew)})
    else:
        rarg = None
    labels = {l: set(case["labels"][l]) for l in M.ordered(case, "labels")}
    alabels = {l: set(map(tuple, case["alabels"][l])) for l in M.ordered(case, "alabels")}
    kw = {} if rarg is None else {"reward_vector": rarg}
    try:
        if kind == "dtmc":
            straight = all(idx.get((s, 0)) == s for s in range(N))
            if straight and case["noidx"] and defect != "action":
                m = DTMC(P, label_to_states=labels, **kw)
            else:
                m = DTMC(P, label_to_states=labels, index_by_state_action=idxarg, **kw)
        else:
            m = MDP(P, idxarg, alabels, labels, **kw)
    except (AssertionError, ValueError) as e:
        if bad:
            ctx.tag("rejected", "defect-%s" % defect)
            ctx.nontrivial(C >= 2)
            return
        raise Violation("valid-model-rejected", "%s: %s" % (case["fmt"], e))
    require(not bad, "invalid-model-accepted", lambda: "defect %s in %s" % (defect, D))
    for q in case["probe"]:
        probe(q, case, m, D, idx, rew, labels, alabels)
    ctx.tag("accepted", case["fmt"], kind)
    ctx.nontrivial(N >= 2 and C >= 2)


def probe(q, case, m, D, idx, rew, labels, alabels):
    import numpy as np
    C, N = len(D), len(D[0])
    if q == "P":
        require(int(m.C) == C and int(m.N) == N and m.P.shape == (C, N), "shape", lambda: "%s %s %s" % (m.C, m.N, m.P.shape))
        G = m.P.toarray()
        require(np.array_equal(G, np.array(D)), "matrix", lambda: "%s, given %s" % (G, D))
        items = {(int(a), int(b)): float(p) for (a, b), p in m.P.items() if p != 0}
        require(items == {(a, b): D[a][b] for a in range(C) for b in range(N) if D[a][b] != 0}, "matrix-items", lambda: "%s" % items)
        got = {(int(s), int(a)): int(k) for (s, a), k in m.index_by_state_action.items()}
        require(got == idx, "index", lambda: "%s, given %s" % (got, idx))
        for k, v in idx.items():
            require(m.index_by_state_action[k] == v and tuple(m.index_by_state_action.inv[v]) == k, "index", lambda: "%s" % (k,))
        # transitions as seen by the neighbour queries
        for s in range(N):
            exp = {(d, a): D[k][d] for (t, a), k in idx.items() if t == s for d in range(N) if D[k][d] != 0}
            got = [(int(d), int(a), float(p)) for d, a, p in m.successors(s)]
            require(len(got) == len(exp) and {(d, a): p for d, a, p in got} == exp, "successors", lambda: "of %d: %s, expected %s" % (s, got, exp))
    elif q == "A":
        for s in range(N):
            exp = {a for t, a in idx if t == s}
            require({int(a) for a in m.actions_by_state[s]} == exp, "actions-by-state", lambda: "of %d: %s, expected %s" % (s, m.actions_by_state[s], exp))
    elif q == "L":
        for s in range(N):
            exp = {l for l, v in labels.items() if s in v}
            require(set(m.labels_by_state[s]) == exp, "labels-by-state", lambda: "of %d: %s, expected %s" % (s, m.labels_by_state[s], exp))
    elif q == "S":
        require(set(m.states_by_label.keys()) == set(labels), "label-names", lambda: "%s" % list(m.states_by_label.keys()))
        for l, v in labels.items():
            require(set(m.states_by_label[l]) == v, "states-by-label", lambda: "of %s: %s, expected %s" % (l, m.states_by_label[l], v))
        require(set(m.states_by_label["no such label"]) == set(), "unknown-label", "")
    elif q == "X" and case["kind"] == "mdp":
        require(set(m.actions_by_label.keys()) == set(alabels), "action-label-names", lambda: "%s" % list(m.actions_by_label.keys()))
        for l, v in alabels.items():
            require(set(m.actions_by_label[l]) == v, "actions-by-label", lambda: "of %s: %s, expected %s" % (l, m.actions_by_label[l], v))
    elif q == "Y":
        for k in idx:
            exp = {l for l, v in alabels.items() if k in v} if case["kind"] == "mdp" else set()
            require(set(m.labels_by_action[k]) == exp, "labels-by-action", lambda: "of %s: %s, expected %s" % (k, m.labels_by_action[k], exp))
    elif q == "R":
        if rew is None:
            require(m.reward_vector is None, "rewards", str(m.reward_vector))
        else:
            require([float(m.reward_vector[k]) for k in range(C)] == rew, "rewards", lambda: "%s, given %s" % (m.reward_vector, rew))
        t = repr(m)
        require(type(m).__name__ in t and "C=%d" % C in t and "N=%d" % N in t and all("%s (%d)" % (l, len(v)) in t for l, v in labels.items()), "repr", t)


CHECKS = [
    Check("construct", cases, run, 8000, 300000,
          "random models handed over in 14 containers (with explicit zeros, duplicate and unsorted entries), index maps as dict or bidict, with or without one planted defect (row sum off by 1e-8..0.3, entry outside [0,1], "
          "NaN, empty row, negative reward, non-square or non-zero action for DTMCs), row sums off by at most 1e-10 count as rounding; queries in random order; non-trivial: at least 2 rows"),
    Check("construct-large", lambda: cases(large=True), run, 80, 4000, "the same with 40 to 300 states (seeded generator)"),
]

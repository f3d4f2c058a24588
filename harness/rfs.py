"""Reachability forms seen by the oracles: plain data read off the public model inside the form."""
import numpy as np
from . import oracles as O
from .core import oracle


class RF:
    """n ordinary states 0..n-1, rows[i] = (s, a), P (C x n), b (C), init, ec[s] (in a proper end component)"""
    pass


def view(rf):
    s = rf.system
    v = RF()
    v.n = s.N - 2
    v.C = s.C - 2
    full = s.P.toarray()
    v.P = full[:v.C, :v.n]
    v.b = full[:v.C, v.n]
    v.f = full[:v.C, v.n + 1]
    inv = {int(i): (int(q), int(a)) for (q, a), i in s.index_by_state_action.items()}
    v.rows = [inv[i] for i in range(v.C)]
    v.init = int(next(iter(s.states_by_label[rf.initial_label])))
    v.ref = O.Ref(s.N, {}, {v.n})
    rr = {q: [] for q in range(s.N)}
    for i, (q, a) in enumerate(v.rows):
        rr[q].append((a, {d: float(p) for d, p in enumerate(full[i]) if p != 0}))
    rr[v.n].append((0, {v.n: 1.0}))
    rr[v.n + 1].append((0, {v.n + 1: 1.0}))
    v.ref.rows = rr
    _ecs(v)
    I = np.zeros((v.C, v.n))
    for i, (q, a) in enumerate(v.rows):
        I[i, q] = 1
    v.A = I - v.P
    v.pr = {"min": np.array(O.pr_min(v.ref)), "max": np.array(O.pr_max(v.ref))}
    return v


@oracle
def _ecs(v):
    m = O.mecs(v.n + 2, [(q, a, set(ds)) for q in v.ref.rows for a, ds in v.ref.rows[q]])
    v.ec = np.zeros(v.n, dtype=bool)
    v.comps = m
    for S, proper in m:
        if proper:
            for q in S:
                if q < v.n:
                    v.ec[q] = True
    v.ecfree = not v.ec.any()


@oracle
def kappa(v):
    """largest expected number of steps before leaving the ordinary states over all schedulers (EC-free forms)"""
    ref = v.ref
    rew = {(q, a): 1.0 for q in ref.rows for a, ds in ref.rows[q]}
    r2 = O.Ref(v.n + 2, ref.rows, {v.n, v.n + 1})
    return max(O.exp_reward(r2, rew, "max") + [1.0])


@oracle
def violation(v, mode, sense, lam, x):
    """largest violation of the Farkas conditions (negative: none) of claim Pr^mode(init) sense lam by vector x; also returns
    the violation of the threshold row alone. Strictness of < and > is not taken into account."""
    x = np.asarray(x, dtype=float).reshape(-1)
    ge = sense in (">=", ">")
    viol = [-1.0]
    viol.extend(-x)                                   # non-negativity
    if (mode == "min") == ge:                         # z form, indexed by states
        assert len(x) == v.n
        d = v.A @ x - v.b
        viol.extend(d if ge else -d)
        thr = lam - x[v.init] if ge else x[v.init] - lam
        if mode == "min":
            viol.extend(np.abs(x[v.ec]))
    else:                                             # y form, indexed by state-action pairs
        assert len(x) == v.C
        delta = np.zeros(v.n)
        delta[v.init] = 1
        d = x @ v.A - delta
        if mode == "min":
            # states in proper end components have value zero: no flow has to be conserved there
            d = d[~v.ec]
            viol.extend(np.abs(x[i]) for i, (q, a) in enumerate(v.rows) if v.ec[q])
        viol.extend(d if ge else -d)
        thr = lam - float(v.b @ x) if ge else float(v.b @ x) - lam
    return max(max(viol), thr), thr


@oracle
def flow(v, pol):
    """expected visits of a memoryless deterministic policy (dict state -> row index), or None if not finite"""
    P = np.zeros((v.n, v.n))
    for q, i in pol.items():
        P[q] = v.P[i]
    e = np.zeros(v.n)
    e[v.init] = 1
    # only states reachable under the policy
    seen, todo = {v.init}, [v.init]
    while todo:
        q = todo.pop()
        for d in range(v.n):
            if P[q, d] > 0 and d not in seen:
                seen.add(d)
                todo.append(d)
    idx = sorted(seen)
    M = np.eye(len(idx)) - P[np.ix_(idx, idx)].T
    if np.linalg.cond(M) > 1e9:
        return None
    x = np.linalg.solve(M, e[idx])
    y = np.zeros(v.C)
    for k, q in enumerate(idx):
        y[pol[q]] = x[k]
    return y


@oracle
def optimal_policy(v, mode):
    val = v.pr[mode]
    pol = {}
    # break ties towards progress for max: use distance in greedy graph
    for q in range(v.n):
        best = None
        for i, (s, a) in enumerate(v.rows):
            if s == q:
                w = float(v.P[i] @ val[:v.n] + v.b[i])
                if best is None or (w < best[0] - 1e-9 if mode == "min" else w > best[0] + 1e-9):
                    best = (w, i)
        pol[q] = best[1]
    return pol

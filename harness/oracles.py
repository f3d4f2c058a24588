"""Independent reference computations (no code of the repository is used here)."""
import itertools
import numpy as np
from .core import oracle, HarnessError, Inconclusive
from .models import forward, backward, row_probs

EPS = 1e-12


class Ref:
    """Reference model: explicit sub-stochastic rows. rows[s] = list of (action, {dest: p}); missing mass is lost.
    targets absorb with value 1 (reachability) and their rows are ignored."""

    def __init__(self, n, rows, targets):
        self.n, self.rows, self.targets = n, rows, set(targets)

    def restrict(self, keep):
        """states outside `keep` (targets stay) become losing"""
        keep = set(keep) | self.targets
        rows = {}
        for s, acts in self.rows.items():
            if s in keep:
                rows[s] = [(a, {d: p for d, p in ds.items() if d in keep}) for a, ds in acts]
            else:
                rows[s] = [(0, {})]
        return Ref(self.n, rows, self.targets)


@oracle
def ref_of(case, targets=None):
    rows = {s: [] for s in range(case["n"])}
    for r in case["rows"]:
        rows[r[0]].append((r[1], row_probs(r)))
    return Ref(case["n"], rows, case["labels"]["target"] if targets is None else targets)


def ref_of_rf(rf):
    """Reference model of what a reachability form (as built by the code) means, read off its public system."""
    sysm = rf.system
    N = sysm.N
    rows = {s: [] for s in range(N)}
    data = {}
    for (i, d), p in sysm.P.items():
        if p != 0:
            data.setdefault(i, {})[d] = float(p)
    for (s, a), i in sysm.index_by_state_action.items():
        rows[s].append((a, data.get(i, {})))
    return Ref(N, rows, {N - 2})


def _solve(ref, pol, free, rew=None):
    """values of the free states under policy pol (index of action per state)"""
    idx = {s: i for i, s in enumerate(free)}
    k = len(free)
    A = np.eye(k)
    b = np.zeros(k)
    for s in free:
        a, ds = ref.rows[s][pol[s]]
        for d, p in ds.items():
            if d in idx:
                A[idx[s], idx[d]] -= p
            elif rew is None and d in ref.targets:
                b[idx[s]] += p
        if rew is not None:
            b[idx[s]] += rew[(s, a)]
    try:
        return dict(zip(free, np.linalg.solve(A, b)))
    except np.linalg.LinAlgError:
        return None


def _policy_iteration(ref, free, pol, sense, rew=None):
    val = {}
    for it in range(100):
        x = _solve(ref, pol, free, rew)
        if x is None:
            break
        changed = False
        for s in free:
            best, bestv = pol[s], None
            for i, (a, ds) in enumerate(ref.rows[s]):
                v = sum(p * (x.get(d, 0.0) if d not in ref.targets else (1.0 if rew is None else 0.0)) for d, p in ds.items())
                if rew is not None:
                    v += rew[(s, a)]
                if i == pol[s]:
                    cur = v
                if bestv is None or (v > bestv if sense == "max" else v < bestv):
                    best, bestv = i, v
            tol = 1e-11 * max(1.0, abs(cur))
            if (bestv > cur + tol) if sense == "max" else (bestv < cur - tol):
                pol[s] = best
                changed = True
        if not changed:
            return x
    return _exact_policy_iteration(ref, free, pol, sense, rew)


def _exact_policy_iteration(ref, free, pol, sense, rew=None):
    """the same in rational arithmetic, for models on which rounding makes the iteration cycle"""
    from fractions import Fraction as F
    if len(free) > 30:
        raise Inconclusive("policy iteration did not converge")
    idx = {s: i for i, s in enumerate(free)}
    rows = {}
    for s in free:
        rows[s] = []
        for a, ds in ref.rows[s]:
            ex = {d: F(p) for d, p in ds.items()}
            tot = sum(ex.values())
            if tot > 1:
                ex = {d: p / tot for d, p in ex.items()}
            r = F(rew[(s, a)]) if rew is not None else sum((p for d, p in ex.items() if d in ref.targets), F(0))
            rows[s].append(({idx[d]: p for d, p in ex.items() if d in idx}, r))
    for it in range(200):
        k = len(free)
        A = [[F(int(i == j)) for j in range(k)] + [F(0)] for i in range(k)]
        for s in free:
            ex, r = rows[s][pol[s]]
            for j, p in ex.items():
                A[idx[s]][j] -= p
            A[idx[s]][k] = r
        for c in range(k):
            piv = next((i for i in range(c, k) if A[i][c] != 0), None)
            if piv is None:
                raise Inconclusive("singular system in reference solver")
            A[c], A[piv] = A[piv], A[c]
            inv = 1 / A[c][c]
            A[c] = [x * inv for x in A[c]]
            for i in range(k):
                if i != c and A[i][c] != 0:
                    f = A[i][c]
                    A[i] = [x - f * y for x, y in zip(A[i], A[c])]
        x = [A[i][k] for i in range(k)]
        changed = False
        for s in free:
            vs = [r + sum((p * x[j] for j, p in ex.items()), F(0)) for ex, r in rows[s]]
            b = max(vs) if sense == "max" else min(vs)
            if b != vs[pol[s]]:
                pol[s] = vs.index(b)
                changed = True
        if not changed:
            return {s: float(x[idx[s]]) for s in free}
    raise Inconclusive("exact policy iteration did not converge")


def _can_reach(ref):
    """states with a path to a target"""
    pred = {}
    for s, acts in ref.rows.items():
        if s in ref.targets:
            continue
        for a, ds in acts:
            for d, p in ds.items():
                if p > 0:
                    pred.setdefault(d, set()).add(s)
    dist = {t: 0 for t in ref.targets}
    todo = list(ref.targets)
    for t in todo:
        for q in pred.get(t, ()):
            if q not in dist:
                dist[q] = dist[t] + 1
                todo.append(q)
    return dist


@oracle
def pr_max(ref):
    dist = _can_reach(ref)
    free = sorted(s for s in dist if s not in ref.targets)
    pol = {}
    for s in free:
        for i, (a, ds) in enumerate(ref.rows[s]):
            if any(p > 0 and d in dist and dist[d] < dist[s] for d, p in ds.items()):
                pol[s] = i
                break
    # rows restricted to states that can reach: others have value zero (their mass is lost)
    x = _policy_iteration(ref, free, pol, "max")
    return [1.0 if s in ref.targets else x.get(s, 0.0) for s in range(ref.n)]


@oracle
def pr_min(ref):
    # greatest set of non-target states from which some scheduler avoids the target for ever
    Z = set(s for s in range(ref.n) if s not in ref.targets)
    while True:
        # an action with lost mass only and successors in Z also avoids the target
        Z2 = set(s for s in Z if any(all(d in Z for d, p in ds.items() if p > 0) for a, ds in ref.rows[s]) or not ref.rows[s])
        if Z2 == Z:
            break
        Z = Z2
    free = sorted(s for s in range(ref.n) if s not in ref.targets and s not in Z)
    pol = {s: 0 for s in free}
    x = _policy_iteration(ref, free, pol, "min")
    return [1.0 if s in ref.targets else x.get(s, 0.0) for s in range(ref.n)]


def pr(ref, mode):
    return pr_min(ref) if mode == "min" else pr_max(ref)


@oracle
def exp_reward(ref, rew, mode):
    """optimal expected reward until the target; requires: no end component outside targets and no lost mass"""
    free = sorted(s for s in range(ref.n) if s not in ref.targets)
    pol = {s: 0 for s in free}
    x = _policy_iteration(ref, free, pol, mode, rew)
    return [0.0 if s in ref.targets else x[s] for s in range(ref.n)]


# ------------------------------------------------------------------ graph definitions

@oracle
def sccs(case):
    n = case["n"]
    reach = [forward(case, [s]) for s in range(n)]
    comp = {}
    for s in range(n):
        comp[s] = frozenset(t for t in range(n) if t in reach[s] and s in reach[t])
    return comp


@oracle
def mecs(n, rows):
    """rows: list of (state, action, set of successors). Returns list of (frozenset states, has_action): the maximal end
    components, by definition: greatest sets S with actions A(s) subset Act(s), closed and strongly connected; states in no
    end component form their own trivial component."""
    acts = {s: [] for s in range(n)}
    for s, a, ds in rows:
        acts[s].append(set(ds))
    todo = [set(range(n))]
    out = []
    while todo:
        S = todo.pop()
        A = {s: [d for d in acts[s] if d <= S] for s in S}
        # split into SCCs of the graph of the remaining actions
        adj = {s: set().union(*A[s]) if A[s] else set() for s in S}
        reach = {}
        for s in S:
            seen = {s}
            st = [s]
            while st:
                q = st.pop()
                for d in adj[q]:
                    if d not in seen:
                        seen.add(d)
                        st.append(d)
            reach[s] = seen
        comps = []
        left = set(S)
        while left:
            s = min(left)
            c = {t for t in reach[s] if s in reach[t]}
            comps.append(c)
            left -= c
        if len(comps) == 1:
            out.append((frozenset(S), any(A[s] for s in S)))
        else:
            todo.extend(comps)
    return out


# ------------------------------------------------------------------ minimal witnesses

@oracle
def subset_values(ref, init, states, mode, deadline=None):
    """value of the initial state for every subset of `states` (bitmask over the list)"""
    vals = []
    for m in range(1 << len(states)):
        keep = [s for i, s in enumerate(states) if m >> i & 1]
        if init not in keep:
            vals.append(0.0)
            continue
        vals.append(pr(ref.restrict(keep), mode)[init])
    return vals


def opt_size(vals, lam):
    best = None
    for m, v in enumerate(vals):
        if v >= lam:
            c = bin(m).count("1")
            if best is None or c < best:
                best = c
    return best

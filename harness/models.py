"""Model generators and the translation of generated cases to switss objects.

A model case is JSON:
 {"kind": "dtmc"|"mdp", "n": N,
  "rows": [[state, action, [[dest, weight], ...]], ...]   in matrix row order,
  "labels": {label: [states]}, "alabels": {label: [[state, action], ...]},
  "rewards": [per row] or null, "rseed": native random seed}
Transition probability = weight / (sum of the row's weights).
"""
import math, zlib
from hypothesis import strategies as st

_i = {}


def I(a, b):
    if (a, b) not in _i:
        _i[(a, b)] = st.integers(a, b)
    return _i[(a, b)]


BOOL = st.booleans()
BACK = st.sampled_from([0, 1, 0, 0, 2, 5])
NSUCC = {k: st.sampled_from([x for x in ([2, 1, 3, 2, 4, 3]) if x <= k] or [1]) for k in range(1, 9)}
SHAPE = st.sampled_from([0, 1, 2, 0, 1, 3])
LEAK = st.sampled_from([True, False, True, False, False])
WGT = {k: st.sampled_from([x for x in [1, 2, 3, 1, 5, 4, 6, 9, 17] if x <= k]) for k in range(1, 20)}
NTAR = st.sampled_from([1, 1, 1, 2, 3])
INITPOS = st.sampled_from([0, 0, 1, 0, 2])
SINKS = st.sampled_from([1, 1, 1, 0, 2])


def row_probs(row):
    tot = sum(w for _, w in row[2])
    return {d: w / tot for d, w in row[2]}


@st.composite
def model(draw, min_n=1, max_n=7, kind=None, max_actions=3, max_succ=3, ecfree=False, all_reach=False,
          rewards=None, extra_labels=True, max_w=6, init_label="init", target_label="target", min_targets=1, shuffle=True, labels_pool=("a", "b", "c", "d"), sinks=True):
    """kind None: either.  ecfree: no end component outside the absorbing states.  all_reach: additionally every
    absorbing state is a target (so that no probability is lost).  rewards: None/False no, True yes."""
    n = max(draw(I(min_n, max_n)), draw(I(min_n, max_n)))
    if kind is None:
        kind = draw(st.sampled_from(["dtmc", "mdp", "mdp"]))
    # structural order: position in `rank` counts from the absorbing end
    shape = draw(SHAPE) if not ecfree else 0
    ntar = max(min_targets, min(n, draw(NTAR)))
    n = max(n, ntar)
    perm = draw(st.permutations(range(n))) if (shuffle and n > 1) else list(range(n))
    # perm[0:ntar] are targets, perm[ntar:ntar+nsink] are sinks
    nsink = 0 if (all_reach or not sinks) else min(max(0, n - ntar - 1), draw(SINKS))
    rank = {s: k for k, s in enumerate(perm)}
    targets = list(perm[:ntar])
    rows = []
    for s in range(n):
        k = rank[s]
        absorbing = k < ntar + nsink
        na = 1 if kind == "dtmc" else draw(I(1, max_actions))
        if absorbing and ecfree:
            na = 1
        if draw(I(0, 7)) == 0 and kind == "mdp":
            acts = sorted(draw(st.sets(I(0, 9), min_size=na, max_size=na)))
        else:
            acts = list(range(na))
        for j, a in enumerate(acts):
            if absorbing and (ecfree or draw(I(0, 3)) > 0):
                dests = [s]
            else:
                m = draw(NSUCC[max_succ])
                dests = []
                for _ in range(m):
                    d = draw(I(0, n - 1))
                    if d not in dests:
                        dests.append(d)
                if not absorbing:
                    if ecfree or (j == 0 and shape < 3):
                        # one successor of lower rank: progress towards the absorbing end
                        lower = [q for q in perm[:k] if not ntar <= rank[q] < ntar + nsink]
                        lo = lower[-1 - min(len(lower) - 1, draw(BACK))]
                        if lo not in dests and (j == 0 or not any(rank[d] < k for d in dests)):
                            dests.append(lo)
                if nsink and not absorbing and draw(LEAK):
                    q = perm[ntar]
                    if q not in dests:
                        dests.append(q)
            ds = []
            for d in dests:
                ds.append([d, draw(WGT[max_w]) if len(dests) > 1 else 1])
            rows.append([s, a, ds])
    if shuffle and len(rows) > 1 and draw(I(0, 2)) == 0:
        rows = [rows[x] for x in draw(st.permutations(range(len(rows))))]
    case = {"kind": kind, "n": n, "rows": rows, "rseed": draw(I(0, 500))}
    if case["rseed"] % 16 == 3:
        # every row has one successor: one closer to the absorbing end if possible, and no sink if possible
        for r in rows:
            r[2][:] = [[min((d for d, w in r[2]), key=lambda d: (rank[d] >= rank[r[0]], ntar <= rank[d] < ntar + nsink, rank[d])), 1]]
    # initial state: one that can reach a target
    back = backward(case, targets)
    cand = [s for s in perm if s in back]
    nontar = [s for s in cand if s not in targets]
    pool = nontar if nontar and draw(I(0, 9)) > 0 else cand
    init = pool[max(0, len(pool) - 1 - draw(INITPOS))]
    labels = {init_label: [init], target_label: sorted(targets)}
    alabels = {}
    if extra_labels:
        for l in labels_pool:
            if draw(BOOL):
                labels[l] = sorted(draw(st.sets(I(0, n - 1), max_size=n)))
        if kind == "mdp":
            for l in ("x", "y", labels_pool[0]):
                if draw(I(0, 2)) == 0:
                    idx = sorted(draw(st.sets(I(0, len(rows) - 1), max_size=4)))
                    alabels[l] = [[rows[x][0], rows[x][1]] for x in idx]
    case["labels"] = labels
    case["alabels"] = alabels
    if rewards is None:
        rewards = False
    if rewards == "maybe":
        rewards = draw(I(0, 3)) == 0
    if draw(I(0, 3)) == 0:
        case["scramble"] = draw(I(1, 1000))
    case["rewards"] = [draw(I(0, 5)) / draw(st.sampled_from([1, 1, 1, 2])) for _ in rows] if rewards else None
    return case


def odd_weights(draw, case):
    """probabilities that are not exact in binary and whose sums are rounded, some of them tiny"""
    for r in case["rows"]:
        if len(r[2]) > 1:
            for e in r[2]:
                e[1] *= draw(st.sampled_from([1, 1, 2, 1 / 3, 7, 0.1, 1e-3, 1e-5, 0.7, 11, 0.05, 1e-10]))


def succs(case, s):
    r = set()
    for q, a, ds in case["rows"]:
        if q == s:
            r.update(d for d, w in ds if w > 0)
    return r


def forward(case, frm, block=()):
    adj = {s: set() for s in range(case["n"])}
    for q, a, ds in case["rows"]:
        adj[q].update(d for d, w in ds if w > 0)
    seen = set(frm)
    todo = list(frm)
    while todo:
        s = todo.pop()
        if s in block:
            continue
        for d in adj[s]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def backward(case, to, block=()):
    adj = {s: set() for s in range(case["n"])}
    for q, a, ds in case["rows"]:
        for d, w in ds:
            if w > 0:
                adj[d].add(q)
    seen = set(to)
    todo = list(to)
    while todo:
        s = todo.pop()
        if s in block:
            continue
        for d in adj[s]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def rename_states(case, sigma):
    """sigma: list, old state -> new state"""
    c = dict(case)
    c["rows"] = [[sigma[s], a, [[sigma[d], w] for d, w in ds]] for s, a, ds in case["rows"]]
    c["labels"] = {l: sorted(sigma[s] for s in ss) for l, ss in case["labels"].items()}
    c["alabels"] = {l: [[sigma[s], a] for s, a in ss] for l, ss in case["alabels"].items()}
    return c


# ---------------------------------------------------------------- building switss objects

def index_map(case):
    return {(s, a): i for i, (s, a, _) in enumerate(case["rows"])}


def dense(case):
    P = [[0.0] * case["n"] for _ in case["rows"]]
    for i, r in enumerate(case["rows"]):
        for d, p in row_probs(r).items():
            P[i][d] = p
    return P


def ordered(case, key):
    """the names under case[key] in an order of the case's own (a case read back from its file has them sorted)"""
    return sorted(case[key], key=lambda l: zlib.crc32(("%s %s" % (l, case.get("rseed"))).encode()))


def build(case, labels=None, vis=None):
    from switss.model import DTMC, MDP
    from scipy.sparse import dok_matrix
    import numpy as np
    P = dok_matrix((len(case["rows"]), case["n"]))
    for i, r in enumerate(case["rows"]):
        for d, p in row_probs(r).items():
            P[i, d] = p
    if labels is None:
        labels = {l: set(case["labels"][l]) for l in ordered(case, "labels")}
    alabels = {l: set(map(tuple, case["alabels"][l])) for l in ordered(case, "alabels")}
    rv = np.array(case["rewards"], dtype=float) if case.get("rewards") is not None else None
    # whole numbers come as integers as well
    k = case.get("rseed") or 0
    if k % 3 == 0 and all(len(r[2]) == 1 for r in case["rows"]):
        P = P.astype(int)
    if k % 2 == 0 and rv is not None and (rv == np.round(rv)).all():
        rv = rv.astype(int)
    if case["kind"] == "dtmc":
        m = DTMC(P, label_to_states=labels, index_by_state_action=index_map(case), reward_vector=rv, vis_config=vis)
    else:
        m = MDP(P, index_map(case), label_to_actions=alabels, label_to_states=labels, reward_vector=rv, vis_config=vis)
    return m


def scramble(rf, smap, amap, seed):
    """the same form built directly (no reduction involved), its ordinary states and state-action rows in a random order"""
    import random
    import numpy as np
    from bidict import bidict
    from scipy.sparse import csr_matrix
    from switss.model import ReachabilityForm
    rnd = random.Random(seed)
    m = rf.system
    n, C = m.N - 2, m.C - 2
    sp, rp = list(range(n)), list(range(C))
    rnd.shuffle(sp)
    rnd.shuffle(rp)
    sp, rp = sp + [n, n + 1], rp + [C, C + 1]
    old = m.P.toarray()
    P = np.zeros_like(old)
    for i in range(C + 2):
        for d in range(n + 2):
            P[rp[i], sp[d]] = old[i, d]
    idx = bidict({(sp[int(q)], int(a)): rp[int(i)] for (q, a), i in sorted(m.index_by_state_action.items(), key=lambda x: rp[int(x[1])])})
    labels, alabels = {}, {}
    for s in range(n + 2):
        for l in m.labels_by_state[s]:
            labels.setdefault(l, set()).add(sp[s])
    for q, a in m.index_by_state_action:
        for l in m.labels_by_action[(q, a)]:
            alabels.setdefault(l, set()).add((sp[int(q)], int(a)))
    rv = None
    if m.reward_vector is not None:
        rv = np.zeros(C + 2)
        rv[rp] = m.reward_vector
        if seed % 3 and (rv == np.round(rv)).all():
            rv = rv.astype(int)
    if seed % 2 == 0 and (P == np.round(P)).all():
        P = P.astype(int)
    new = type(m)(csr_matrix(P), index_by_state_action=idx, label_to_states=labels, label_to_actions=alabels, reward_vector=rv)
    f = ReachabilityForm(new, rf.initial_label, rf.target_label, rf.fail_label)
    return f, {s: sp[int(t)] for s, t in smap.items()}, {sa: (sp[int(t)], int(b)) for sa, (t, b) in amap.items()}


def reduce(case, **kw):
    from switss.model import ReachabilityForm
    m = build(case)
    rf, smap, amap = ReachabilityForm.reduce(m, "init", "target", **kw)
    if case.get("scramble") is not None:
        rf, smap, amap = scramble(rf, smap, amap, case["scramble"])
    return m, rf, smap, amap

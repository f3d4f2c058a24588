"""C08: subsystem extraction."""
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, rfs, oracles as O, witness as W, big
from ..models import I

POS = st.sampled_from([0.5, 1.0, 1e-3, 2.0, 1e-12, 37.5])
ZERO = st.sampled_from([0.0, 0.0, 0.0, -0.0, -1e-12])


@st.composite
def cases(draw, large=False):
    reward_form = draw(I(0, 3)) == 0
    if large:
        p = draw(big.params(ecfree=reward_form, all_reach=reward_form, rewards=True if reward_form else "maybe"))
        c = {"big": p, "rseed": p["seed"] % 1000}
    else:
        c = draw(M.model(min_n=2, max_n=8, ecfree=reward_form, all_reach=reward_form, rewards=True if reward_form else "maybe"))
    c["reward_form"] = reward_form
    c["mode"] = draw(st.sampled_from(["min", "max"]))
    c["keep"] = draw(st.lists(st.sampled_from([1, 1, 0]), min_size=8, max_size=8))
    c["pos"] = draw(st.lists(POS, min_size=8, max_size=8))
    c["zero"] = draw(st.lists(ZERO, min_size=8, max_size=8))
    c["acts"] = draw(st.lists(I(0, 1), min_size=24, max_size=24))
    c["closed"] = draw(M.BOOL)
    c["strict"] = draw(M.BOOL)
    return c


def certificate(case, v, S):
    """a certificate whose positive part is exactly the states S"""
    import numpy as np
    if case["mode"] == "min":
        return np.array([case["pos"][s % 8] if s in S else case["zero"][s % 8] for s in range(v.n)])
    x = np.zeros(v.C)
    for i, (q, a) in enumerate(v.rows):
        x[i] = case["pos"][i % 8] if q in S and case["acts"][i % 24] else case["zero"][i % 8]
    for s in S:
        ch = [i for i, (q, a) in enumerate(v.rows) if q == s]
        if not any(x[i] > 0 for i in ch):
            x[ch[case["acts"][s % 24] % len(ch)]] = case["pos"][s % 8]
    return x


def consistent(v, S):
    """every state of S is reachable inside S and reaches the target inside S"""
    succ = {s: {d for i, (q, a) in enumerate(v.rows) if q == s for d in range(v.n) if v.P[i, d] > 0 and d in S} for s in S}
    hit = {s for i, (s, a) in enumerate(v.rows) if s in S and v.b[i] > 0}
    seen, todo = {v.init}, [v.init]
    while todo:
        for d in succ[todo.pop()]:
            if d not in seen:
                seen.add(d); todo.append(d)
    back = set(hit)
    while True:
        new = {s for s in S if s not in back and succ[s] & back}
        if not new:
            break
        back |= new
    return seen & back


def compare(v, super_sys, sub, S, init_label, target_label, fail_label, what):
    """sub: system of the extracted form"""
    import numpy as np
    order = sorted(S)
    new = {s: i for i, s in enumerate(order)}
    k = len(order)
    require(type(sub) is type(super_sys), "type", what)
    rows = [(i, q, a) for i, (q, a) in enumerate(v.rows) if q in S]
    require(sub.N == k + 2 and sub.C == len(rows) + 2 and sub.P.shape == (len(rows) + 2, k + 2), "size", lambda: "%s: %s for states %s" % (what, sub, order))
    idx = {tuple(map(int, key)): int(val) for key, val in sub.index_by_state_action.items()}
    require(set(idx) == {(new[q], a) for _, q, a in rows} | {(k, 0), (k + 1, 0)} and sorted(idx.values()) == list(range(len(rows) + 2))
            and idx[(k, 0)] == len(rows) and idx[(k + 1, 0)] == len(rows) + 1, "actions", lambda: "%s: index %s" % (what, idx))
    P = sub.P.toarray()
    for i, q, a in rows:
        e = np.zeros(k + 2)
        for d in S:
            e[new[d]] = v.P[i, d]
        e[k] = v.b[i]
        lost = v.f[i] + sum(v.P[i, d] for d in range(v.n) if d not in S)
        e[k + 1] = lost
        g = P[idx[(new[q], a)]]
        require(np.abs(g - e).max() < 1e-9, "transition", lambda: "%s: row of %s: %s, expected %s" % (what, (q, a), g, e))
        require(all((x > 0) == (y > 0) for x, y in zip(g, e)), "transition-support", lambda: "%s: row of %s: %s, expected %s" % (what, (q, a), g, e))
    for j in (0, 1):
        e = np.zeros(k + 2)
        e[k + j] = 1
        require((P[len(rows) + j] == e).all(), "absorbing", lambda: "%s: %s" % (what, P[len(rows) + j]))
    labels = set(super_sys.states_by_label.keys()) | set(sub.states_by_label.keys())
    for l in labels:
        exp = {new[s] for s in super_sys.states_by_label[l] if s in S}
        if l == target_label:
            exp = {k}
        if l == fail_label:
            exp = {k + 1}
        require(set(sub.states_by_label[l]) == exp, "state-labels", lambda: "%s: label %s at %s, expected %s" % (what, l, sub.states_by_label[l], exp))
    for l in set(super_sys.actions_by_label.keys()) | set(sub.actions_by_label.keys()):
        exp = {(new[q], a) for q, a in super_sys.actions_by_label[l] if q in S}
        require(set(sub.actions_by_label[l]) == exp, "action-labels", lambda: "%s: label %s at %s, expected %s" % (what, l, sub.actions_by_label[l], exp))
    if super_sys.reward_vector is None:
        require(sub.reward_vector is None, "rewards", what)
    else:
        require(sub.reward_vector is not None and len(sub.reward_vector) == sub.C, "rewards", lambda: "%s: %s" % (what, sub.reward_vector))
        for i, q, a in rows:
            require(sub.reward_vector[idx[(new[q], a)]] == super_sys.reward_vector[i], "rewards", lambda: "%s: %s" % (what, sub.reward_vector))
        require(sub.reward_vector[len(rows)] == 0 and sub.reward_vector[len(rows) + 1] == 0, "rewards", what)
    return new


def run(case, ctx):
    import numpy as np
    from switss.problem import Subsystem
    from switss.model import RewardReachabilityForm
    case = big.full(case)
    if case["reward_form"]:
        import contextlib, io
        m = M.build(case)
        from .c12 import reduce as rreduce
        rf, smap, amap = rreduce(case, m)
        from types import SimpleNamespace
        view = rfs.view(rf)
        tl, fl = rf.target_label, "rf_fail"
    else:
        m, rf, smap, amap = M.reduce(case)
        view = rfs.view(rf)
        tl, fl = rf.target_label, rf.fail_label
    v = view
    S = {s for s in range(v.n) if case["keep"][s % 8]} | {v.init}
    if case["closed"]:
        S = consistent(v, S)
        if v.init not in S:
            S = consistent(v, set(range(v.n)))
    ok = consistent(v, S) == S
    x = certificate(case, v, S)
    x0 = x.copy()
    sub = Subsystem(rf, x, case["mode"], ignore_consistency_checks=not (ok and case["strict"]))
    what = "states %s of %d" % (sorted(S), v.n)
    mask = np.asarray(sub.subsystem_mask)
    require(mask.shape == (v.n,) and {s for s in range(v.n) if mask[s]} == S, "mask", lambda: "%s: mask %s" % (what, mask))
    require(sub.supersys is rf and sub.certform == case["mode"] and np.array_equal(np.asarray(sub.certificate), x0), "accessors", what)
    form = sub.subsys
    new = compare(v, rf.system, form.system, S, "init", tl, fl, what)
    require(form.initial == new[v.init] and form.initial_label == "init" and form.target_label == tl and form.fail_label == fl, "form-labels", what)
    require(isinstance(repr(sub), str), "repr", "")
    require(np.array_equal(x, x0), "certificate-modified", what)
    # the extracted form means the same as the supersystem with the other states failing
    ref, ref2 = v.ref.restrict(S), O.ref_of_rf(form)
    for mode in ("min", "max"):
        a, b = O.pr(ref, mode), O.pr(ref2, mode)
        for s in S:
            require(abs(a[s] - b[new[s]]) < 1e-7, "probability", lambda: "%s: Pr%s of %d is %s, restricted supersystem %s" % (what, mode, s, b[new[s]], a[s]))
    ctx.tag(case["kind"], case["mode"], "reward-form" if case["reward_form"] else "form", "consistent" if ok else "inconsistent")
    ctx.nontrivial(1 <= len(S) < v.n and v.n >= 3)


CHECKS = [
    Check("extract", cases, run, 2400, 80000,
          "random forms (also reward forms) and random certificate vectors with a chosen positive part (arbitrary or closed sets of states, tiny, negative and zero entries, several actions per state); "
          "non-trivial: at least 3 ordinary states of which some but not all are kept"),
    Check("extract-large", lambda: cases(large=True), run, 60, 3000, "the same with 40 to 300 states (seeded generator)"),
]

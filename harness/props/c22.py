"""C22: results do not depend on the numbering of states, actions and rows, nor on irrelevant states (metamorphic relations)."""
import contextlib, io
from hypothesis import strategies as st
from ..core import Check, require, Violation, oracle
from .. import models as M, rfs, witness as W, oracles as O, big
from ..models import I
from .c06 import relabel
from .c21 import partition

THRS = st.tuples(st.sampled_from(["mid", "mid", "mid", "above"]), I(0, 11), st.sampled_from([0.5, 0.25, 0.75])).map(list)
NAMES = {"init": "start", "target": "end", "a": "label one", "b": "b2", "c": "A", "d": "c"}


@st.composite
def cases(draw, max_n=6, heavy=True):
    ecfree = draw(M.BOOL)
    allr = ecfree and draw(M.BOOL)
    c = draw(M.model(min_n=2, max_n=max_n, ecfree=ecfree, all_reach=allr, rewards=allr, max_w=4))
    relabel(draw, c)
    c["heavy"] = heavy
    c["mode"] = draw(st.sampled_from(["min", "max"])) if ecfree else "min"
    c["thr"] = draw(THRS)
    c["use"] = draw(st.lists(st.sampled_from([l for l in "abcd" if l in c["labels"]] or ["init"]), unique=True, min_size=1, max_size=4))
    c["sigma"] = draw(st.permutations(range(c["n"])))
    c["rowperm"] = draw(st.permutations(range(len(c["rows"]))))
    c["actseed"] = draw(st.lists(I(0, 5), min_size=len(c["rows"]), max_size=len(c["rows"]))) if c["kind"] == "mdp" else None
    c["actstep"] = draw(st.sampled_from([1, 1, 32, 64, 1 << 16, 1 << 26]))
    c["relabel"] = draw(M.BOOL)
    c["cert"] = [draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.25, 0.1])) for _ in range(12)]
    c["frm"] = draw(st.lists(I(0, c["n"] - 1), min_size=1, max_size=2))
    c["block"] = draw(st.lists(I(0, c["n"] - 1), max_size=1))
    return c


def action_map(case):
    """(state, action) -> new action; injective per state"""
    used, out = {}, {}
    for i, (s, a, ds) in enumerate(case["rows"]):
        n = a if case["actseed"] is None else case["actseed"][i] * case.get("actstep", 1)
        while n in used.setdefault(s, set()):
            n += 1
        used[s].add(n)
        out[(s, a)] = n
    return out


def renamed(case, amap, names):
    """the same model, renumbered"""
    c = M.rename_states(case, case["sigma"])
    rows = [[r2[0], amap[(r[0], r[1])], list(reversed(r2[2]))] for r, r2 in zip(case["rows"], c["rows"])]
    c["rows"] = [rows[i] for i in case["rowperm"]]
    if case.get("rewards") is not None:
        c["rewards"] = [case["rewards"][i] for i in case["rowperm"]]
    c["labels"] = {names.get(l, l): ss for l, ss in reversed(list(c["labels"].items()))}
    c["alabels"] = {l: [[case["sigma"][s], amap[(s, a)]] for s, a in ss] for l, ss in case["alabels"].items()}
    return c


def reduce(case, names):
    from switss.model import ReachabilityForm
    m = M.build(case)
    return (m,) + ReachabilityForm.reduce(m, names.get("init", "init"), names.get("target", "target"))


def blocks(part, f):
    return sorted([sorted(f(s) for s in ss), e] for ss, e in part)


def rf_rows(rf, f, g, inv_names):
    """(state, action) -> {state: prob} with names translated by f, g"""
    out = {}
    s = rf.system
    P = s.P.toarray()
    for (q, a), i in s.index_by_state_action.items():
        out[(f(int(q)), g(int(q), int(a)))] = ({f(d): round(float(p), 12) for d, p in enumerate(P[i]) if p}, {inv_names.get(l, l) for l in s.labels_by_action[(q, a)]},
                                       None if s.reward_vector is None else float(s.reward_vector[i]))
    return out


@st.composite
def large(draw):
    p = draw(big.params(sizes=[40, 60, 130]))
    n = p["n"]
    return {"big": p, "rseed": p["seed"] % 1000, "heavy": False, "mode": "min", "thr": None, "use": [], "pseed": draw(I(0, 10**6)), "relabel": draw(M.BOOL),
            "cert": [draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.25, 0.1])) for _ in range(12)], "frm": [draw(I(0, 39))], "block": draw(st.lists(I(0, 39), max_size=2)),
            "scramble": draw(st.sampled_from([None, 7]))}


def run_large(case, ctx):
    import random
    c = big.full(case)
    r = random.Random(case["pseed"])
    c["sigma"] = r.sample(range(c["n"]), c["n"])
    c["rowperm"] = r.sample(range(len(c["rows"])), len(c["rows"]))
    c["actseed"] = [r.randint(0, 12) for _ in c["rows"]] if c["kind"] == "mdp" else None
    c["cert"] = [r.choice(case["cert"]) for _ in range(len(c["rows"]))]
    run_renumber(c, ctx)


def run_renumber(case, ctx):
    import numpy as np
    names = NAMES if case["relabel"] else {}
    inv_names = {y: x for x, y in names.items()}
    amap = action_map(case)
    c2 = renamed(case, amap, names)
    sigma = case["sigma"]
    m1, rf1, sm1, am1 = reduce(case, {})
    m2, rf2, sm2, am2 = reduce(c2, names)
    if case.get("scramble") is not None:
        rf2, sm2, am2 = M.scramble(rf2, sm2, am2, case["scramble"])
        ctx.tag("scrambled-form")
    # ---- the models
    for name in ("sccs", "mecs"):
        if name == "sccs":
            (p1, k1), (p2, k2) = m1.strongly_connected_components(), m2.strongly_connected_components()
            a, b = partition(p1), partition(p2)
        else:
            (p1, e1, k1), (p2, e2, k2) = m1.maximal_end_components(), m2.maximal_end_components()
            a, b = partition(p1, e1), partition(p2, e2)
        require(int(k1) == int(k2) and blocks(a, lambda s: sigma[s]) == blocks(b, lambda s: s), name, lambda: "%s vs renumbered %s (states -> %s)" % (a, b, sigma))
    for d in ("forward", "backward"):
        a = np.asarray(m1.reachable_mask(set(case["frm"]), d, set(case["block"])))
        b = np.asarray(m2.reachable_mask({sigma[s] for s in case["frm"]}, d, {sigma[s] for s in case["block"]}))
        require(all(bool(a[s]) == bool(b[sigma[s]]) for s in range(case["n"])), "reachable", lambda: "%s: %s vs renumbered %s (states -> %s)" % (d, a, b, sigma))
    # ---- reduced forms
    require({sigma[s] for s in sm1} == set(sm2), "kept-states", lambda: "%s vs renumbered %s (states -> %s)" % (sorted(sm1), sorted(sm2), sigma))
    require({(sigma[s], amap[(s, a)]) for s, a in am1} == set(am2), "kept-actions", "")
    psi = {int(sm1[s]): int(sm2[sigma[s]]) for s in sm1}
    n, C = rf1.P.shape[1], rf1.P.shape[0]
    require(rf2.P.shape == (C, n), "shape", lambda: "%s vs %s" % (rf1.P.shape, rf2.P.shape))
    psi[n], psi[n + 1] = n, n + 1
    act = {(int(sm1[s]), a): amap[(s, a)] for s, a in am1}
    act[(n, 0)] = act[(n + 1, 0)] = 0
    a = rf_rows(rf1, lambda s: psi[s], lambda s, x: act[(s, x)], {})
    b = rf_rows(rf2, lambda s: s, lambda s, x: x, {})
    same = a.keys() == b.keys() and all(a[k][1:] == b[k][1:] and a[k][0].keys() == b[k][0].keys() and all(abs(a[k][0][d] - b[k][0][d]) < 1e-11 for d in a[k][0]) for k in a)
    require(same, "reduced", lambda: "%s vs renumbered %s" % (a, b))
    for s in range(n + 2):
        x, y = set(rf1.system.labels_by_state[s]), {inv_names.get(l, l) for l in rf2.system.labels_by_state[psi[s]]}
        require(x == y, "labels", lambda: "state %d: %s vs %s" % (s, x, y))
    require(psi[int(rf1.initial)] == int(rf2.initial), "initial", "")
    require((int(rf1.nr_of_mecs), int(rf1.nr_of_proper_mecs), bool(rf1.is_ec_free)) == (int(rf2.nr_of_mecs), int(rf2.nr_of_proper_mecs), bool(rf2.is_ec_free)), "components", "")
    require(all(bool(rf1.in_proper_ec(s)) == bool(rf2.in_proper_ec(psi[s])) for s in range(n)), "in-proper-ec", "")
    inv2 = {(int(q), int(x)): int(i) for (q, x), i in rf2.index_by_state_action.items()}
    rowmap = [inv2[(psi[int(q)], act[(int(q), int(x))])] for i in range(C) for (q, x) in [rf1.index_by_state_action.inv[i]]]
    # ---- certificate checks and subsystems
    from switss.certification import check_farkas_certificate
    from switss.problem import Subsystem
    v = rfs.view(rf1)
    vecs = {}
    for form, size, mp in (("min", n, [psi[s] for s in range(n)]), ("max", C, rowmap)):
        x = np.array((case["cert"] * 4)[:size])
        y = np.zeros(size)
        for i in range(size):
            y[mp[i]] = x[i]
        vecs[form] = (x, y)
    z = np.array(v.pr["min"][:n])
    z2 = np.zeros(n)
    for s in range(n):
        z2[psi[s]] = z[s]
    for mode in ("min", "max"):
        for sense in ("<=", ">=", "<", ">"):
            form = "min" if (mode == "min") == (sense[0] == ">") else "max"
            for x, y in [vecs[form]] + ([(z, z2)] if form == "min" and mode == "min" else []):
                for lam in (0.0, 0.3, 0.5):
                    viol, thr = rfs.violation(v, mode, sense, lam, x)
                    if abs(viol) < 1e-6 and viol != -1.0:
                        # equality cases depend on rounding only if a tolerance boundary is near: 1e-8
                        if 1e-10 < abs(viol) or sense in "<>":
                            continue
                    r1 = check_farkas_certificate(rf1, mode, sense, lam, x)
                    r2 = check_farkas_certificate(rf2, mode, sense, lam, y)
                    require(bool(r1) == bool(r2), "check", lambda: "%s %s %s: %s accepted: %s, renumbered %s: %s" % (mode, sense, lam, x, r1, y, r2))
    for form in ("min", "max"):
        x, y = vecs[form]
        out = []
        for rf, w in ((rf1, x), (rf2, y)):
            s = Subsystem(rf, w, form)
            mask = [bool(q) for q in s.subsystem_mask]
            try:
                sub = s.subsys
                out.append((mask, sub))
            except AssertionError:
                out.append((mask, None))
        (k1, s1), (k2, s2) = out
        require(all(k1[q] == k2[psi[q]] for q in range(n)), "mask", lambda: "%s vs %s" % (k1, k2))
        require((s1 is None) == (s2 is None), "subsys", lambda: "%s: %s vs renumbered %s" % (form, s1, s2))
        if s1 is not None:
            ren1 = {q: i for i, q in enumerate([q for q in range(n) if k1[q]])}
            ren2 = {q: i for i, q in enumerate([q for q in range(n) if k2[q]])}
            chi = {ren1[q]: ren2[psi[q]] for q in ren1}
            old1 = {i: q for q, i in ren1.items()}
            k = len(ren1)
            chi[k], chi[k + 1] = k, k + 1
            a = rf_rows(s1, lambda q: chi[q], lambda q, xx: act[(old1[q], xx)] if q < k else xx, {})
            b = rf_rows(s2, lambda q: q, lambda q, xx: xx, {})
            same = a.keys() == b.keys() and all(a[q][1:] == b[q][1:] and a[q][0].keys() == b[q][0].keys() and all(abs(a[q][0][d] - b[q][0][d]) < 1e-9 for d in a[q][0]) for q in a)
            require(same, "subsys", lambda: "%s: %s vs renumbered %s" % (form, a, b))
    # ---- probabilities, witnesses
    if case["heavy"]:
        tol = 1e-5 * (1 + (rfs.kappa(v) if v.ecfree else 20) / 50)
        for name in ("pr_min", "pr_max"):
            x, y = np.asarray(getattr(rf1, name)()), np.asarray(getattr(rf2, name)())
            require(all(abs(x[s] - y[psi[s]]) < tol for s in range(n)), name, lambda: "%s vs renumbered %s (states -> %s)" % (x, y, psi))
        if case.get("rewards") is not None:
            from switss.model import RewardReachabilityForm
            with contextlib.redirect_stdout(io.StringIO()):
                q1 = RewardReachabilityForm.reduce(m1, "init", "target")[0]
                if case.get("scramble") is None:
                    q2 = RewardReachabilityForm.reduce(m2, names.get("init", "init"), names.get("target", "target"))[0]
                else:
                    q2 = RewardReachabilityForm(rf2, rf2.system.reward_vector[:-2])
            for name in ("rew_min", "rew_max"):
                x, y = np.asarray(getattr(q1, name)()), np.asarray(getattr(q2, name)())
                t = tol * (1 + np.abs(x).max(initial=0))
                require(all(abs(x[s] - y[psi[s]]) < t for s in range(n)), name, lambda: "%s vs renumbered %s (states -> %s)" % (x, y, psi))
            ctx.tag("rewards")
        witnesses(case, v, rf1, rf2, names, ctx)
    ctx.tag(case["kind"], "ec-free" if v.ecfree else "has-ecs", case["mode"])
    ctx.nontrivial(n >= 2 and (list(sigma) != list(range(case["n"])) or list(case["rowperm"]) != list(range(len(case["rows"])))) and any(psi[s] != s for s in range(n)))


def witnesses(case, v, rf1, rf2, names, ctx, labels_too=True):
    """minimal witnesses of two forms that are the same up to names have the same size"""
    from switss.problem import MILPExact, QSHeur
    mode = case["mode"]
    if mode == "max" and not v.ecfree:
        return
    full = v.pr[mode][v.init]
    lam = W.pick_threshold(W.state_values(v, mode), case["thr"], full)
    res = [MILPExact("cbc").solve(rf, lam, mode) for rf in (rf1, rf2)]
    cmp(res, "%s %s" % (mode, lam), ctx)
    if labels_too:
        use = [l for l in case["use"] if l in case["labels"]]
        groups = {l: {s for s in rf1.system.states_by_label[l] if s < v.n} for l in use}
        lam = W.pick_threshold(W.label_values(v, mode, groups), case["thr"], full)
        res = [MILPExact("cbc").solve(rf, lam, mode, labels=[nm.get(l, l) for l in use]) for rf, nm in ((rf1, {}), (rf2, names))]
        cmp(res, "%s %s labels %s" % (mode, lam, groups), ctx)
    qs = [QSHeur(iterations=2).solve(rf, lam, mode) for rf in (rf1, rf2)]
    require(qs[0].status == qs[1].status, "qs-status", lambda: "%s vs %s" % (qs[0].status, qs[1].status))


def cmp(res, what, ctx):
    a, b = res
    require(a.status == b.status, "witness-status", lambda: "%s: %s vs renumbered %s" % (what, a.status, b.status))
    if a.status == "success":
        require(abs(a.value - b.value) < 1e-5, "witness-size", lambda: "%s: %s vs renumbered %s" % (what, a.value, b.value))
        ctx.tag("witness")


# ------------------------------------------------------------------------------- padding

@st.composite
def pad_cases(draw):
    c = draw(cases(max_n=5))
    c["pad"] = []
    for _ in range(draw(I(1, 3))):
        kind = draw(st.sampled_from(["unreachable", "unreachable-target", "dead", "dead-split"]))
        succ = draw(st.lists(I(0, 30), min_size=1, max_size=3, unique=True))
        c["pad"].append([kind, succ, draw(I(0, 30)), draw(I(1, 3)), draw(M.BOOL)])
    return c


@oracle
def padded(case):
    """case with extra states that cannot matter; they get the numbers n, n+1, ..."""
    c = dict(case)
    rows = [[s, a, [list(x) for x in ds]] for s, a, ds in case["rows"]]
    labels = {l: list(ss) for l, ss in case["labels"].items()}
    rew = list(case["rewards"]) if case.get("rewards") is not None else None
    n = case["n"]
    back = M.backward(case, case["labels"]["target"])
    dead = [s for s in range(n) if s not in back]
    kinds = []
    for kind, succ, pos, w, two in case["pad"]:
        x = n
        if kind == "dead-split":
            # part of the mass into a dead state goes to the new dead state instead
            hits = [(i, k) for i, r in enumerate(rows) for k, (d, _) in enumerate(r[2]) if d in dead]
            if not hits:
                kind = "dead"
        if kind.startswith("unreachable"):
            ds = []
            for q in succ:
                d = q % (n + 1)
                if d not in [e for e, _ in ds]:
                    ds.append([d, 1 + q % 3])
            new = [[x, 0, ds]]
            if two and case["kind"] == "mdp":
                new.append([x, 3, [[x, 1]]])
            if kind == "unreachable-target":
                labels["target"] = sorted(labels["target"] + [x])
            elif two:
                labels.setdefault("a", [])
                labels["a"] = labels["a"] + [x]
        else:
            ds = [[x, 1]]
            if dead and two:
                ds.append([dead[pos % len(dead)], 1])
            new = [[x, 0, ds]]
            dead.append(x)
            if kind == "dead-split":
                i, k = hits[pos % len(hits)]
                d, wt = rows[i][2][k]
                part = wt * w / 4
                rows[i][2][k] = [d, wt - part]
                rows[i][2].append([x, part])
        n += 1
        at = pos % (len(rows) + 1)
        for k, r in enumerate(new):
            rows.insert(at + k, r)
            if rew is not None:
                rew.insert(at + k, float(w))
        kinds.append(kind)
    c.update(rows=rows, labels=labels, rewards=rew, n=n)
    return c, kinds


def run_pad(case, ctx):
    import numpy as np
    c2, kinds = padded(case)
    # the new states also get numbers in between
    n2 = c2["n"]
    k = case["pad"][0][2] % (n2)
    sigma = [(s + k) % n2 for s in range(n2)]
    c3 = M.rename_states(c2, sigma)
    m1, rf1, sm1, am1 = reduce(case, {})
    m2, rf2, sm2, am2 = reduce(c3, {})
    require({sigma[s] for s in sm1} == set(sm2), "kept-states", lambda: "%s, padded (shifted by %d) %s" % (sorted(sm1), k, sorted(sm2)))
    n = rf1.P.shape[1]
    psi = {int(sm1[s]): int(sm2[sigma[s]]) for s in sm1}
    v = rfs.view(rf1)
    tol = 1e-5 * (1 + (rfs.kappa(v) if v.ecfree else 20) / 50)
    for name in ("pr_min", "pr_max"):
        x, y = np.asarray(getattr(rf1, name)()), np.asarray(getattr(rf2, name)())
        require(x.shape == y.shape and all(abs(x[s] - y[psi[s]]) < tol for s in range(n)), name, lambda: "%s, padded %s" % (x, y))
    # rows of the states themselves are the same: what went to dead states goes to fail
    a = rf_rows(rf1, lambda s: psi.get(s, s), lambda s, q: q, {})
    b = rf_rows(rf2, lambda s: s, lambda s, q: q, {})
    same = a.keys() == b.keys() and all(a[q][0].keys() == b[q][0].keys() and all(abs(a[q][0][d] - b[q][0][d]) < 1e-11 for d in a[q][0]) for q in a)
    require(same, "reduced", lambda: "%s, padded %s" % (a, b))
    witnesses(case, v, rf1, rf2, {}, ctx)
    ctx.tag(case["kind"], *["pad:" + x for x in kinds])
    ctx.nontrivial(n >= 2)


CHECKS = [
    Check("renumber", cases, run_renumber, 700, 12000,
          "random model and its image under random permutations of states, actions, rows and label names; every result (components, reachability, reduced form, certificate verdicts, subsystems, optimal "
          "probabilities and rewards, sizes of minimal witnesses with and without labels) must be the image; non-trivial: at least 2 states in the form, of which some change their number"),
    Check("renumber-light", lambda: cases(max_n=9, heavy=False), run_renumber, 2500, 50000, "as renumber, larger models, without solver calls"),
    Check("renumber-large", large, run_large, 40, 2000, "as renumber-light, 40 to 139 states (seeded generator)"),
    Check("pad", pad_cases, run_pad, 700, 12000,
          "random model and the model with 1-3 states that are unreachable (also targets among them) or cannot reach a target, all states shifted; probabilities, the reduced form and witness sizes must agree; "
          "non-trivial: at least 2 states in the form"),
]

"""C05: exact minimal witnesses."""
from hypothesis import strategies as st
from ..core import Check, require, oracle, Violation
from .. import models as M, rfs, oracles as O, witness as W
from ..models import I

THR = st.tuples(st.sampled_from(["mid", "mid", "mid", "tight", "above", "rand", "zero"]), I(0, 11), st.sampled_from([0.5, 0.25, 0.75, 0.95, 0.05])).map(list)


TIMEOUT = st.sampled_from([None, None, None, 300])      # generous: must not matter


def limit(case):
    return {} if case.get("timeout") is None else {"timeout": case["timeout"]}


@st.composite
def cases(draw, max_n=6):
    mode = draw(st.sampled_from(["min", "max"]))
    c = draw(M.model(min_n=3, max_n=max_n, ecfree=(mode == "max"), extra_labels=False, max_w=4))
    c["mode"] = mode
    c["thr"] = draw(THR)
    c["solver"] = draw(st.sampled_from(["cbc", "cbc", "cbc", "cbc", "glpk"]))
    c["timeout"] = draw(TIMEOUT)
    c["defaults"] = draw(M.BOOL)
    return c


def solve(case, v, rf, mode, lam, labels=None):
    from switss.problem import MILPExact
    solver = W.milp_solver(case, v, mode, lam)
    return (MILPExact() if solver == "cbc" and case.get("defaults") else MILPExact(solver=solver)).solve(rf, lam, mode, labels=labels, **limit(case))


def verdict(case, v, mode, lam, res, values, what, ctx, best=W.best):
    """feasibility and value against brute force; -> True if there is a witness to look at"""
    full = v.pr[mode][v.init]
    if res.status != "success":
        require(res.status == "infeasible", "status", lambda: "%s: status %s" % (what, res.status))
        require(full < lam + W.EPS and lam > 0, "infeasible-reported", lambda: "%s: reported infeasible, the full system reaches %s" % (what, full))
        require(res.subsystem is None and res.value is None and res.farkas_cert is None, "infeasible-result", what)
        ctx.tag("infeasible")
        return False
    require(full >= lam - W.EPS, "witness-for-unattainable", lambda: "%s: the full system only reaches %s" % (what, full))
    lo, hi = best(values, lam - W.EPS), best(values, lam + W.EPS)
    val = res.value
    require(val is not None and abs(val - round(val)) < 1e-6, "value-integral", lambda: "%s: value %s" % (what, val))
    require(val >= lo - 1e-6, "value-too-small", lambda: "%s: value %s, but the optimum is %s" % (what, val, lo))
    require(hi is None or val <= hi + 1e-6, "not-minimal", lambda: "%s: value %s, but %s suffice" % (what, val, hi))
    ctx.tag("optimum-%s" % ("unique-band" if lo == hi else "band"))
    return True


def run(case, ctx):
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    mode = case["mode"]
    values = W.state_values(v, mode)
    full = v.pr[mode][v.init]
    lam = W.pick_threshold(values, case["thr"], full)
    what = "%s %s" % (mode, lam)
    res = solve(case, v, rf, mode, lam)
    ctx.tag(mode, case["kind"], "ec-free" if v.ecfree else "has-ecs")
    if verdict(case, v, mode, lam, res, values, what, ctx):
        W.check_certificate(v, mode, lam, res.farkas_cert, what)
        S = W.check_subsystem(v, mode, lam, res, what)
        require(len(S) == round(res.value), "value-vs-subsystem", lambda: "%s: value %s, but the subsystem has states %s" % (what, res.value, S))
        if len(S) < v.n:
            ctx.tag("smaller-than-full")
        ctx.nontrivial(v.n >= 3 and 1 <= len(S) < v.n)
    else:
        ctx.nontrivial(v.n >= 3 and full > 0)


# ------------------------------------------------------------------ tens of states: independent branches

@st.composite
def fans(draw):
    """init branches into chains of different lengths and losses: a witness consists of whole chains, so that the optimum is a
    knapsack over the chains"""
    mode = draw(st.sampled_from(["min", "max"]))
    kind = draw(st.sampled_from(["dtmc", "mdp"]))
    k = draw(I(3, 9))
    na = 1 if kind == "dtmc" else draw(I(1, 3))
    chains = []
    for j in range(k):
        chains.append([[draw(st.sampled_from([0, 1, 0, 3])) for a in range(1 if kind == "dtmc" else draw(st.sampled_from([1, 1, 2])))] for i in range(draw(I(1, 7)))])
    acts = [[draw(I(1, 9)) for j in range(k)] for a in range(na)]
    return {"mode": mode, "kind": kind, "chains": chains, "acts": acts, "thr": draw(THR), "solver": draw(st.sampled_from(["cbc", "cbc", "cbc", "glpk"])),
            "perm": draw(I(0, 10**6)), "rseed": draw(I(0, 500)), "selfloops": draw(M.BOOL)}


def fan_model(case):
    """-> model, chains (names of their states), probability of every chain's end per mode, distribution of every initial action"""
    import random
    names, rows = {}, []
    def new(x):
        return names.setdefault(x, len(names))
    init, T, F = new("init"), new("T"), new("F")
    chains, q = [], []
    for j, c in enumerate(case["chains"]):
        st_ = [new((j, i)) for i in range(len(c))]
        p = 1.0
        for i, losses in enumerate(c):
            nxt = st_[i + 1] if i + 1 < len(c) else T
            opts = []
            for a, l in enumerate(losses):
                ds = [[nxt, 9]] + ([[F, l]] if l else []) + ([[st_[i], 3]] if case["selfloops"] and (i + a) % 2 else [])
                rows.append([st_[i], a, ds])
                opts.append(9 / (9 + l))
            p *= min(opts) if case["mode"] == "min" else max(opts)
        chains.append(st_)
        q.append(p)
    dist = []
    for a, ws in enumerate(case["acts"]):
        rows.append([init, a, [[c[0], w] for c, w in zip(chains, ws)]])
        dist.append([w / sum(ws) for w in ws])
    rows += [[T, 0, [[T, 1]]], [F, 0, [[F, 1]]]]
    rows.sort()
    c = {"kind": case["kind"], "n": len(names), "rows": rows, "labels": {"init": [init], "target": [T]}, "alabels": {}, "rewards": None, "rseed": case["rseed"]}
    sigma = list(range(len(names)))
    random.Random(case["perm"]).shuffle(sigma)
    c = M.rename_states(c, sigma)
    c["rows"].sort()
    return c, chains, q, dist


@oracle
def fan_values(case, chains, q, dist):
    """(size, value) of every set of whole chains, with the initial and the target state"""
    f = min if case["mode"] == "min" else max
    out = []
    for m in range(1 << len(chains)):
        sel = [j for j in range(len(chains)) if m >> j & 1]
        out.append((2 + sum(len(chains[j]) for j in sel), f(sum(d[j] * q[j] for j in sel) for d in dist)))
    return out


def fan_best(values, lam):
    return 0 if lam <= 0 else min((s for s, x in values if x >= lam), default=None)


def run_fan(case, ctx):
    c, chains, q, dist = fan_model(case)
    m, rf, smap, amap = M.reduce(c)
    v = rfs.view(rf)
    mode = case["mode"]
    values = fan_values(case, chains, q, dist)
    full = v.pr[mode][v.init]
    if abs(full - values[-1][1]) > 1e-9:
        raise O.HarnessError("fan oracle: %s, policy iteration: %s" % (values[-1][1], full))
    lam = W.pick_threshold([x for s, x in values], case["thr"][:1] + [(case["thr"][1] * 47 + case["perm"]) % 512, case["thr"][2]], full)
    what = "%s %s (%d states)" % (mode, lam, v.n)
    res = solve(case, v, rf, mode, lam)
    ctx.tag(mode, case["kind"], "states>=30" if v.n >= 30 else "states<30")
    if verdict(case, v, mode, lam, res, values, what, ctx, best=fan_best):
        W.check_certificate(v, mode, lam, res.farkas_cert, what)
        S = W.check_subsystem(v, mode, lam, res, what)
        require(len(S) == round(res.value), "value-vs-subsystem", lambda: "%s: value %s, but the subsystem has states %s" % (what, res.value, S))
        ctx.nontrivial(v.n >= 10 and 1 <= len(S) < v.n)
    else:
        ctx.nontrivial(v.n >= 10 and full > 0)


CHECKS = [
    Check("exact", cases, run, 8000, 60000,
          "random reachability forms (at most 6 states; end-component free for max); thresholds between/near attainable values, unattainable or zero; reference: brute force over all state subsets; "
          "values are compared in a band of 2e-4 around the threshold; non-trivial: at least 3 states and the witness is a proper subset (or the threshold is unattainable)"),
    Check("exact-larger", lambda: cases(max_n=9), run, 400, 8000, "the same with up to 9 states"),
    Check("exact-fans", fans, run_fan, 400, 10000,
          "forms with up to 64 states that branch into independent chains, of which a witness uses a set: reference is the knapsack over all sets of chains; non-trivial: at least 10 states and a proper subset is used (or unattainable)"),
]

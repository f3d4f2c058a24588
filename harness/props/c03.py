"""C03: the Farkas certificate checker."""
from hypothesis import strategies as st
from ..core import Check, require, oracle
from .. import models as M, rfs, big
from ..models import I

SENSES = ["<=", "<", ">=", ">"]


@st.composite
def cases(draw, large=False):
    if large:
        p = draw(big.params(labels=False))
        c = {"big": p, "rseed": p["seed"] % 1000}
    else:
        c = draw(M.model(max_n=6, extra_labels=False))
    c["mode"] = draw(st.sampled_from(["min", "max"]))
    c["sense"] = draw(st.sampled_from(SENSES))
    c["tol"] = draw(st.sampled_from([None, None, 1e-8, 1e-5, 1e-3]))
    c["base"] = draw(st.sampled_from(["good", "good", "good", "good", "random", "zero", "one"]))
    c["pol"] = draw(st.lists(I(0, 5), min_size=6, max_size=6))
    c["opt"] = draw(I(0, 2)) > 0
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 2.0, 0.999, 1.001, 1.5]))
    # threshold = probability carried by the certificate + delta * tol  or  a fixed value
    c["thr"] = draw(st.sampled_from(["own", "own", "own", "true", "fixed"]))
    c["dthr"] = draw(st.sampled_from([0, 0, 10, -10, 1e-3, -1e-3, 0.1, -0.1]))
    c["fixed"] = draw(st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0]))
    c["edits"] = draw(st.lists(st.tuples(I(0, 900) if large else I(0, 30), st.sampled_from(["neg", "zero", "add10", "sub10", "add", "sub", "dbl", "big"])).map(list), max_size=2))
    # flow that circulates inside end components changes no condition, whatever its amount
    c["circ"] = draw(st.sampled_from([0, 0, 1e2, 1e6, 1e9]))
    c["rnd"] = draw(st.lists(st.sampled_from([0.0, 0.1, 0.5, 1.0, 2.0, 0.25]), min_size=8, max_size=8))
    return c


@oracle
def circulation(case, v):
    """a stationary flow inside the end components, exact for self-loops: for every end component the recurrent part of a policy that stays inside"""
    import numpy as np
    out = np.zeros(v.C)
    for S, proper in v.comps:
        if not proper or max(S) >= v.n:
            continue
        inside = {q: [i for i, (p, a) in enumerate(v.rows) if p == q and v.P[i].sum() > 1 - 1e-12 and all(d in S for d in np.nonzero(v.P[i])[0])] for q in S}
        ss = sorted(S)
        if any(not inside[q] for q in ss):
            continue
        loops = [i for q in ss for i in inside[q] if v.P[i, q] == 1]
        if loops:
            out[loops[case["pol"][0] % len(loops)]] = 1.0
            continue
        pol = [inside[q][case["pol"][q % 6] % len(inside[q])] for q in ss]
        T = np.array([[v.P[i, d] for d in ss] for i in pol])
        k = len(ss)
        M_ = np.vstack([T.T - np.eye(k), np.ones((1, k))])
        pi, _, rank, _ = np.linalg.lstsq(M_, np.append(np.zeros(k), 1.0), rcond=None)
        pi = np.where(np.abs(pi) < 1e-13, 0, pi)
        if np.abs(M_ @ pi - np.append(np.zeros(k), 1.0)).max() < 1e-12 and pi.min() >= 0:
            for i, w in zip(pol, pi):
                out[i] = w
    return out


def make_vector(case, v):
    import numpy as np
    mode, sense = case["mode"], case["sense"]
    ge = sense in (">=", ">")
    zform = (mode == "min") == ge
    D = v.n if zform else v.C
    tol = case["tol"] or 1e-8
    if case["base"] == "zero":
        x = np.zeros(D)
    elif case["base"] == "one":
        x = np.ones(D)
    elif case["base"] == "random":
        x = np.array([case["rnd"][i % 8] for i in range(D)])
    elif zform:
        x = v.pr[mode][:v.n].copy()
    else:
        pol = rfs.optimal_policy(v, mode)
        if not case["opt"]:
            for q in range(v.n):
                ch = [i for i, (s, a) in enumerate(v.rows) if s == q]
                pol[q] = ch[case["pol"][q % 6] % len(ch)]
        # flow of the policy; states of proper end components are left out for minimal probabilities
        P = v.P.copy()
        if mode == "min":
            P[:, v.ec] = 0
        w = rfs.RF()
        w.n, w.C, w.P, w.init = v.n, v.C, P, v.init
        y = rfs.flow(w, pol)
        x = y if y is not None else np.zeros(D)
        if mode == "min":
            for i, (q, a) in enumerate(v.rows):
                if v.ec[q]:
                    x[i] = 0
    x = x * case["scale"]
    if case.get("circ") and not zform and mode == "max":
        x = x + case["circ"] * circulation(case, v)
    for pos, how in case["edits"]:
        k = pos % D
        if how == "neg": x[k] = -x[k] - 10 * tol
        elif how == "zero": x[k] = 0
        elif how == "add10": x[k] += 10 * tol
        elif how == "sub10": x[k] -= 10 * tol
        elif how == "add": x[k] += 0.3
        elif how == "sub": x[k] -= 0.3
        elif how == "dbl": x[k] *= 2
        elif how == "big": x[k] = -5.0
    own = float(x[v.init]) if zform else float(v.b @ x)
    lam = own if case["thr"] == "own" else float(v.pr[mode][v.init]) if case["thr"] == "true" else case["fixed"]
    d = case["dthr"]
    lam += d * tol if abs(d) >= 1 else d
    return x, min(1.0, max(0.0, lam))


def run(case, ctx):
    import numpy as np
    from switss.certification import check_farkas_certificate
    case = big.full(case)
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    x, lam = make_vector(case, v)
    mode, sense = case["mode"], case["sense"]
    tol = case["tol"] or 1e-8
    viol, thr = rfs.violation(v, mode, sense, lam, x)
    kw = {} if case["tol"] is None else {"tol": case["tol"]}
    got = check_farkas_certificate(rf, mode, sense, lam, x.copy(), **kw)
    require(got in (True, False), "verdict-type", repr(got))
    got = bool(got)
    p = float(v.pr[mode][v.init])
    desc = lambda: "claim Pr%s=%s %s %s, vector %s, largest violation of a condition %s, tolerance %s" % (mode, p, sense, lam, x, viol, tol)
    strict = sense in ("<", ">")
    scale = 1 + float(np.abs(x).max(initial=0))
    if scale < 1e3 and viol <= 1e-13 * scale and (not strict or thr < -1e-12 * scale):
        require(got, "valid-rejected", desc)
        ctx.tag("valid")
    elif viol <= 0.5 * tol - 1e-12 * scale and not (strict and thr > 0):
        # within the stated tolerance on every condition
        require(got, "within-tolerance-rejected", desc)
        ctx.tag("within-tolerance")
    elif viol > 2 * tol + 1e-12 * scale:
        require(not got, "invalid-accepted", desc)
        ctx.tag("invalid")
    else:
        ctx.tag("borderline")
    gap = (lam - p) if sense in (">=", ">") else (p - lam)
    if got:
        kap = rfs.kappa(v) if v.ecfree else 1e4
        require(gap <= 2 * tol * (v.C + v.n + 1) * kap + 1e-9 + 1e-12 * scale, "false-claim-accepted", desc)
    ctx.tag("%s%s" % (mode, sense), "claim-true" if gap < 0 else "claim-false" if gap > 0 else "claim-tight")
    if not v.ecfree:
        ctx.tag("has-ecs")
    if scale > 1e5:
        ctx.tag("large-circulation")
    if case["edits"]:
        ctx.tag("edited")
    ctx.nontrivial(v.n >= 2 and np.abs(x).max() > 0)


CHECKS = [
    Check("checker", cases, run, 4000, 200000,
          "candidate vectors (optimal values, policy flows, scaled/edited versions, random) for random reachability forms, all modes, comparisons and several thresholds and tolerances; "
          "the verdict is compared with the conditions evaluated independently (a band around the tolerance is left open); non-trivial: at least 2 states and a non-zero vector"),
    Check("checker-large", lambda: cases(large=True), run, 120, 6000, "the same with 40 to 300 states (seeded generator)"),
]

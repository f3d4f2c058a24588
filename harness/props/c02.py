"""C02: minimal and maximal reachability probabilities."""
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, rfs, big
from ..models import I

SOLVER = st.sampled_from(["cbc", "cbc", "cbc", "glpk"])


@st.composite
def cases(draw, max_n=8, max_succ=3):
    c = draw(M.model(max_n=max_n, max_succ=max_succ, extra_labels=False))
    c["solver"] = draw(SOLVER)
    return c


@st.composite
def large(draw):
    p = draw(big.params(labels=False))
    return {"big": p, "rseed": p["seed"] % 1000, "solver": draw(SOLVER)}


def run(case, ctx):
    import numpy as np
    case = big.full(case)
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    sol = case["solver"]
    kap = rfs.kappa(v) if v.ecfree else 50.0
    tol = 1e-5 + 1e-7 * kap
    rel = 2e-5 if sol == "glpk" else 1e-6      # GLPK prints 6 significant digits
    z = rf.pr_min(solver=sol)
    w = rf.pr_max(solver=sol)
    for name, vec, mode in (("pr_min", z, "min"), ("pr_max", w, "max"), ("max_z_state", rf.max_z_state(solver=sol), "min")):
        vec = np.asarray(vec)
        require(vec.shape == (v.n,), "shape", lambda: "%s has shape %s for %d states" % (name, vec.shape, v.n))
        e = v.pr[mode][:v.n]
        require(np.abs(vec - e).max() <= tol, name, lambda: "%s = %s, expected %s" % (name, vec, e))
    za = np.asarray(rf.max_z_state_action(solver=sol))
    ea = v.P @ v.pr["min"][:v.n] + v.b
    require(za.shape == (v.C,) and np.abs(za - ea).max() <= tol, "max_z_state_action", lambda: "%s, expected %s" % (za, ea))
    y = np.asarray(rf.max_y_state_action(solver=sol))
    require(y.shape == (v.C,), "shape", lambda: "max_y_state_action has shape %s" % (y.shape,))
    viol, thr = rfs.violation(v, "max", ">=", v.pr["max"][v.init], y)
    kap2 = 1 + len(v.rows) / 4
    scale = 1 + float(np.abs(y).max(initial=0))
    require(viol <= rel * scale * kap2 + tol, "max_y_state_action", lambda: "flow %s violates its constraints or misses the maximal probability %s by %s" % (y, v.pr["max"][v.init], viol))
    require(-thr <= rel * scale * kap2 + tol, "max_y_state_action", lambda: "flow %s carries more than the maximal probability %s" % (y, v.pr["max"][v.init]))
    ys = np.asarray(rf.max_y_state(solver=sol))
    sums = np.zeros(v.n)
    y2 = np.asarray(rf.max_y_state_action(solver=sol))
    for i, (q, a) in enumerate(v.rows):
        sums[q] += y2[i]
    require(ys.shape == (v.n,) and np.abs(ys - sums).max() <= rel * scale * kap2, "max_y_state", lambda: "%s, expected the sums %s of %s" % (ys, sums, y2))
    a, b = v.pr["min"][v.init], v.pr["max"][v.init]
    ctx.tag(case["kind"], sol, "ec-free" if v.ecfree else "has-ecs")
    if b - a > 1e-6:
        ctx.tag("min<max")
    if not v.ecfree and a > 0:
        ctx.tag("ecs-and-min>0")
    ctx.nontrivial(v.n >= 2 and (1e-6 < a < 1 - 1e-6 or 1e-6 < b < 1 - 1e-6))


CHECKS = [
    Check("probabilities", cases, run, 3000, 100000,
          "reachability forms reduced from random DTMC/MDP (up to 8 states, with and without end components), solver cbc or glpk; reference: policy iteration; "
          "non-trivial: at least 2 states and a minimal or maximal probability of the initial state strictly between 0 and 1"),
    Check("probabilities-large", lambda: cases(max_n=25, max_succ=4), run, 400, 20000,
          "the same with up to 25 states"),
    Check("probabilities-hundreds", large, run, 40, 3000, "the same with 40 to 300 states (seeded generator)"),
]

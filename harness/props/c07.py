"""C07: quotient-sum heuristics."""
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, rfs, witness as W, big
from ..models import I
from .c05 import THR, TIMEOUT, limit
from .c06 import relabel, ENDS, with_ends
from .c23 import bounds_for

INITS = ["AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"]
# GLPK does not tell infeasible from undefined LPs (PuLP reports what GLPK says)
BAD = {"cbc": ["infeasible"], "glpk": ["infeasible", "undefined"], "gurobi": ["infeasible", "undefined"]}
UPDS = ["InverseResultUpdater", "InverseResultFixedZerosUpdater"]


@st.composite
def tiny_cases(draw):
    """models with small probabilities, thresholds that are fractions of the full probability"""
    c = draw(cases())
    c["solver"] = "cbc"
    for r in c["rows"]:
        if len(r[2]) > 1 and draw(I(0, 2)) > 0:
            e = r[2][draw(I(0, len(r[2]) - 1))]
            e[1] *= draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-5, 3e-6]))
    c["frac"] = draw(st.sampled_from([0.5, 0.9, 0.99, 0.1, 1.2]))
    return c


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["min", "max"]))
    c = draw(M.model(min_n=3, max_n=8, extra_labels=True, max_w=4))
    c["mode"] = mode
    c["thr"] = draw(THR)
    c["solver"] = draw(st.sampled_from(["cbc", "cbc", "cbc", "cbc", "glpk"]))
    c["timeout"] = draw(TIMEOUT)
    c["defaults"] = draw(M.BOOL)
    c["iters"] = draw(st.sampled_from([1, 2, 3, 3, 5]))
    c["init"] = draw(st.sampled_from(INITS))
    c["upd"] = draw(st.sampled_from(UPDS))
    c["use"] = None
    if draw(M.BOOL):
        if draw(I(0, 2)) > 0:
            relabel(draw, c)
        have = sorted(l for l in c["labels"])
        c["use"] = have if draw(M.BOOL) else draw(st.lists(st.sampled_from(have), unique=True, min_size=1, max_size=4))
        c["ends"] = draw(ENDS)
    return c


@st.composite
def large(draw):
    mode = draw(st.sampled_from(["min", "max"]))
    p = draw(big.params(ecfree=True, labels=True))
    return {"big": p, "rseed": p["seed"] % 1000, "mode": mode, "solver": draw(st.sampled_from(["cbc", "cbc", "cbc", "glpk"])), "timeout": None, "defaults": draw(M.BOOL), "iters": draw(st.sampled_from([1, 2, 3])),
            "init": draw(st.sampled_from(INITS)), "upd": draw(st.sampled_from(UPDS)), "use": draw(st.sampled_from([None, None, ["a", "b", "c"], ["init", "a"], ["target", "b"]])),
            "thr": None, "frac": draw(st.sampled_from([0.5, 0.9, 0.99, 0.1, 1.2]))}


def conditioning(v):
    """how much an error in a single equation can change the solution"""
    if v.ecfree:
        return rfs.kappa(v)
    k = 1.0
    for q in v.ref.rows:
        p = min(p for a, ds in v.ref.rows[q] for p in (ds.values() if isinstance(ds, dict) else [x[1] for x in ds]))
        k *= 1 / p if p < 0.05 else 1.0
    return k


def run(case, ctx):
    import numpy as np
    import switss.problem as sp
    case = big.full(case)
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    mode = case["mode"]
    labels = None if case["use"] is None else ([l for l in case["use"] if l in case["labels"]] or ["init"])
    full = v.pr[mode][v.init]
    if labels is None:
        groups = {i: {i} for i in range(v.n if mode == "min" else v.C)}
        values = W.state_values(v, mode) if v.n <= 5 else None
        lam = None if case["thr"] is None else W.pick_threshold(values if values is not None else [full, full / 2], case["thr"], full)
    else:
        sg = {l: {int(smap[s]) for s in case["labels"][l] if s in smap} for l in labels}
        labels = with_ends(rf, v.n, labels, case.get("ends"))
        for l in labels:
            sg.setdefault(l, set())
        values = W.label_values(v, mode, sg)
        lam = None if case["thr"] is None else W.pick_threshold(values, case["thr"], full)
        groups = sg if mode == "min" else {l: {i for i, (q, a) in enumerate(v.rows) if q in g} for l, g in sg.items()}
    if "frac" in case:
        lam = min(1.0, full * case["frac"])
    what = "%s %s labels %s" % (mode, lam, labels)
    if "frac" in case and conditioning(v) > 1e4:
        ctx.tag("ill-conditioned: not judged")       # solver tolerances of 1e-7 decide what is found
        return
    case["solver"] = W.milp_solver(case, v, mode, lam)
    # what equals the documented default may be left out
    kw = {"iterations": case["iters"], "initializertype": getattr(sp, case["init"]), "updatertype": getattr(sp, case["upd"]), "solver": case["solver"]}
    if case.get("defaults"):
        kw = {k: x for k, x in kw.items() if x != {"iterations": 3, "initializertype": sp.AllOnesInitializer, "updatertype": sp.InverseResultUpdater, "solver": "cbc"}[k]}
    heur = sp.QSHeur(**kw)
    results = list(heur.solveiter(rf, lam, mode, labels=labels, **limit(case)))
    ctx.tag(mode, case["init"], case["upd"], "ec-free" if v.ecfree else "has-ecs", "labels" if labels else "states")
    require(len(results) >= 1, "no-result", what)
    if full < lam - W.EPS:
        require(len(results) == 1 and results[0].status in BAD[case["solver"]], "unattainable-not-reported", lambda: "%s: the full system reaches %s, results %s" % (what, full, [r.status for r in results]))
        ctx.tag("infeasible")
        ctx.nontrivial(v.n >= 3)
        return
    x = [np.asarray(r.farkas_cert) if r.status == "success" else None for r in results]
    # an entry needs an indicator of at least its share of the bound: entries that the solver's tolerance (relative to the bound)
    # cannot make vanish are sure to be counted
    K = np.ones(v.n if mode == "min" else v.C)
    if mode == "max" and v.ecfree:
        K = np.maximum(bounds_for(v, v.b, mode, lam, False)[0], 1)
    sure_above = K * (3e-7 if case["solver"] == "cbc" else 1e-5)
    sure = [None if y is None else len([g for g in groups.values() if any(y[i] > sure_above[i] for i in g)]) for y in x]
    may = [None if y is None else len([g for g in groups.values() if any(y[i] > 0 for i in g)]) for y in x]
    done = [k for k, r in enumerate(results) if r.status != "success"]
    if done:
        # groups that are in use although their indicator vanished (solver tolerance) get fixed to zero
        fixed_noise = case["upd"] == "InverseResultFixedZerosUpdater" and any(r.value < may[k] for k, r in enumerate(results[:done[0]]))
        borderline = full < lam + W.EPS and lam > 0 and (done[0] == 0 or "frac" in case or case["upd"] == "InverseResultFixedZerosUpdater")
        ctx.tag("borderline" if borderline else "noise-fixed" if fixed_noise else "failed")
        require(borderline or fixed_noise, "failure-reported", lambda: "%s: the full system reaches %s, results %s" % (what, full, [r.status for r in results]))
        require(results[-1].status in BAD[case["solver"]] and done == [len(results) - 1], "failure-status", lambda: "%s: results %s" % (what, [r.status for r in results]))
        results = results[:-1]
    else:
        require(len(results) == case["iters"], "result-count", lambda: "%s: %d results for %d iterations" % (what, len(results), case["iters"]))
    if any(y is not None and y.max(initial=0) > 1e7 for y in x):
        ctx.tag("flow through an end component: not judged")     # huge entries, in which the 12 digits of the LP file get lost
        return
    for k, r in enumerate(results):
        w = "%s iteration %d" % (what, k)
        W.check_certificate(v, mode, lam, r.farkas_cert, w, 1e-4 if "frac" in case else 1e-5)
        S = W.check_subsystem(v, mode, lam, r, w)
        # a group is used if one of its variables is positive; entries around the solver tolerance may count or not
        require(sure[k] <= r.value <= may[k], "value", lambda: "%s: value %s, but between %d and %d groups are used, certificate %s" % (w, r.value, sure[k], may[k], x[k]))
        if values is not None:
            lo = W.best(values, lam - W.EPS)
            require(lo is not None and (r.value >= lo or r.value < may[k]), "below-optimum", lambda: "%s: value %s below the optimum %s" % (w, r.value, lo))
    if not results:
        return
    if len(results) > 1 and len({tuple(np.asarray(r.farkas_cert) > 0) for r in results}) > 1:
        ctx.tag("support-changes")
    ctx.nontrivial(v.n >= 3 and lam > 0 and results[-1].value < len(groups))


@st.composite
def sequences(draw):
    rows = draw(st.lists(st.tuples(st.sampled_from(["success", "success", "success", "infeasible", "notsolved"]), I(0, 9)), min_size=1, max_size=6))
    return {"results": [[s, x if s == "success" else None] for s, x in rows], "thr": draw(st.sampled_from([0, 1, 0.5, 1e-9, 0.999])), "mode": draw(st.sampled_from(["min", "max"])),
            "labels": draw(st.sampled_from([None, ["a"], ["a", "b"]])), "timeout": draw(st.sampled_from([None, 7]))}


def run_sequence(case, ctx):
    """solve returns the last of the results that a method of one's own yields"""
    import switss.problem as sp
    asked = []

    class Own(sp.ProblemFormulation):
        details = {"type": "Own"}

        def _solveiter(self, form, threshold, mode, labels, timeout=None):
            asked.append((form, threshold, mode, labels, timeout))
            for s, x in case["results"]:
                yield sp.ProblemResult(s, None, x, None)
    args = ("form", case["thr"], case["mode"])
    kw = {k: case[k] for k in ("labels", "timeout") if case[k] is not None}
    got = [[r.status, r.value] for r in Own().solveiter(*args, **kw)]
    require(got == case["results"], "solveiter", lambda: "%s, expected %s" % (got, case["results"]))
    r = Own().solve(*args, **kw)
    require([r.status, r.value] == case["results"][-1], "solve-last", lambda: "solve returned %s of %s" % ([r.status, r.value], case["results"]))
    require(asked == 2 * [args + (case["labels"], case["timeout"])], "arguments", lambda: str(asked))
    ctx.nontrivial(len({tuple(x) for x in case["results"]}) > 1)


CHECKS = [
    Check("heuristic", cases, run, 6000, 60000,
          "random reachability forms (at most 8 states, with and without end components), every initializer and updater, 1-5 iterations, with and without labels; "
          "non-trivial: at least 3 states, positive threshold and not all groups used, or unattainable threshold"),
    Check("heuristic-tiny", tiny_cases, run, 1500, 20000, "the same with transition probabilities down to 1e-6 and thresholds relative to the full probability"),
    Check("heuristic-large", large, run, 48, 2000, "the same with 40 to 300 states (seeded generator), without end components"),
    Check("solve-last", sequences, run_sequence, 400, 4000, "a method of one's own that yields a random sequence of results; solve against the last of them; non-trivial: different results"),
]

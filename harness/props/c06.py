"""C06: label-based exact minimization."""
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, rfs, witness as W, big
from ..models import I
from .c05 import THR, TIMEOUT, solve, verdict

LABELS = ["a", "b", "c", "d", "init", "target"]


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["min", "max"]))
    c = draw(M.model(min_n=3, max_n=8, ecfree=(mode == "max"), extra_labels=True, max_w=4))
    c["mode"] = mode
    c["thr"] = draw(THR)
    c["solver"] = draw(st.sampled_from(["cbc", "cbc", "cbc", "cbc", "glpk"]))
    c["timeout"] = draw(TIMEOUT)
    relabel(draw, c)
    have = [l for l in LABELS if l in c["labels"]]
    if draw(I(0, 2)) == 0:
        have = draw(st.lists(st.sampled_from(have), unique=True, min_size=1, max_size=5))
    c["use"] = have
    c["ends"] = draw(ENDS)
    return c


# labels that the form's own target and fail state carry: they belong to no certificate entry
ENDS = st.sampled_from([[], [], [], ["rf_target"], ["rf_fail"], ["rf_target", "rf_fail"], [["a", 0]], [["b", 1], ["init?", 0]], [["a", 0], ["a", 1], "rf_target"]])


def with_ends(rf, n, labels, ends):
    """labels the target (0) and fail (1) state and adds their own labels to the list"""
    out = list(labels)
    for x in ends or []:
        if isinstance(x, str):
            out.append(x)
        else:
            rf.system.add_label(n + x[1], x[0])
    return out


LSETS = st.sampled_from([["a"], ["b"], ["c"], ["d"], ["a"], ["b"], ["c"], ["a", "b"], ["b", "c"], [], ["c", "d"], ["a", "b", "c"]])


def relabel(draw, c):
    """gives every state few of the labels a-d"""
    labs = {l: [] for l in "abcd"}
    for s in range(c["n"]):
        for l in draw(LSETS):
            labs[l].append(s)
    for l in "abcd":
        c["labels"].pop(l, None)
        if labs[l] or draw(M.BOOL):
            c["labels"][l] = labs[l]


@st.composite
def large(draw):
    mode = draw(st.sampled_from(["min", "max"]))
    p = draw(big.params(sizes=[40, 60, 90], ecfree=(mode == "max"), labels=False))
    return {"big": p, "rseed": p["seed"] % 1000, "mode": mode, "thr": draw(THR), "solver": "cbc", "timeout": None, "use": LABELS, "ends": draw(ENDS),
            "nl": draw(I(2, 4)), "spread": draw(st.sampled_from(["blocks", "random", "few"])), "lseed": draw(I(0, 999))}


def run_large(case, ctx):
    import random
    c = big.full(case)
    r = random.Random(case["lseed"])
    used = LABELS[:case["nl"]]
    for l in used:
        c["labels"][l] = []
    for s in range(c["n"]):
        x = r.random()
        if case["spread"] == "blocks":
            c["labels"][used[s * len(used) // c["n"]]].append(s)
        elif x < (0.9 if case["spread"] == "random" else 0.08):
            c["labels"][r.choice(used)].append(s)
    run(c, ctx)


def groups_of(rf, v, labels):
    return {l: {int(s) for s in rf.system.states_by_label[l] if s < v.n} for l in labels}


def run(case, ctx):
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    mode = case["mode"]
    labels = [l for l in case["use"] if l in case["labels"]] or ["init"]
    # what the form's states are labelled with is known from the case
    inv = smap
    groups = {l: {int(inv[s]) for s in case["labels"][l] if s in inv} for l in labels}
    labels = with_ends(rf, v.n, labels, case.get("ends"))
    for l in labels:
        groups.setdefault(l, set())
    values = W.label_values(v, mode, groups)
    lam = W.pick_threshold(values, case["thr"], v.pr[mode][v.init])
    what = "%s %s labels %s" % (mode, lam, groups)
    res = solve(case, v, rf, mode, lam, labels=labels)
    ctx.tag(mode, case["kind"], "ec-free" if v.ecfree else "has-ecs")
    if case.get("ends"):
        ctx.tag("labelled-ends")
    if verdict(case, v, mode, lam, res, values, what, ctx):
        W.check_certificate(v, mode, lam, res.farkas_cert, what)
        S = set(W.check_subsystem(v, mode, lam, res, what))
        occ = [l for l in labels if groups[l] & S]
        require(len(occ) <= round(res.value), "labels-exceed-value", lambda: "%s: value %s but labels %s occur in %s" % (what, res.value, occ, S))
        ctx.tag("value-%d" % round(res.value))
        nl = len([l for l in labels if groups[l]])
        ctx.nontrivial(v.n >= 3 and nl >= 2 and lam > 0 and 0 < res.value < nl)
    else:
        ctx.nontrivial(v.n >= 3 and len(labels) >= 2)


CHECKS = [
    Check("labels", cases, run, 8000, 80000,
          "random reachability forms (at most 8 states) with overlapping, empty and universal labels, 1-5 of them listed; reference: brute force over all label subsets; "
          "non-trivial: at least 2 non-empty listed labels of which some but not all are needed, or unattainable threshold"),
    Check("labels-large", large, run_large, 80, 3000, "the same with 40 to 100 states (seeded generator), 2 to 4 labels besides init and target"),
]

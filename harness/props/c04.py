"""C04: certificate generation is sound and complete."""
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, rfs, big
from ..models import I


@st.composite
def cases(draw, large=False):
    if large:
        p = draw(big.params(labels=False))
        c = {"big": p, "rseed": p["seed"] % 1000}
    else:
        c = draw(M.model(max_n=7, extra_labels=False))
    c["thr"] = draw(st.lists(st.sampled_from([0.0, 1.0, 0.5, 0.25, "r+", "r-", "r+s", "r-s", "h", "m"]), min_size=2, max_size=2))
    c["solver"] = "cbc" if large else draw(st.sampled_from(["cbc", "cbc", "cbc", "glpk"]))      # GLPK tolerates deviations that add up over many rows
    return c


def thresholds(case, p):
    out = []
    for t in case["thr"]:
        if t == "r+": t = p + 0.05
        elif t == "r-": t = p - 0.05
        elif t == "r+s": t = p + 2e-3
        elif t == "r-s": t = p - 2e-3
        elif t == "h": t = p / 2
        elif t == "m": t = (1 + p) / 2
        out.append(min(1.0, max(0.0, t)))
    return out


def run(case, ctx):
    import numpy as np
    from switss.certification import generate_farkas_certificate
    case = big.full(case)
    m, rf, smap, amap = M.reduce(case)
    v = rfs.view(rf)
    some = False
    # every condition may be violated by the tolerance of the generator (1e-5), which adds up
    band = max(1e-3, 2e-5 * (v.n + v.C + (rfs.kappa(v) if v.ecfree else 500))) if v.n > 10 else 1e-3
    for mode in ("min", "max"):
        p = float(v.pr[mode][v.init])
        for lam in thresholds(case, p):
            solver = "cbc" if 0 < lam < 0.02 or 0.98 < lam < 1 else case["solver"]      # see witness.milp_solver
            for sense in ("<=", "<", ">=", ">"):
                gap = (p - lam) if sense in (">=", ">") else (lam - p)
                trivially = (sense == ">=" and lam == 0) or (sense == "<=" and lam == 1)
                x = generate_farkas_certificate(rf, mode, sense, lam, solver=solver)
                desc = lambda: "claim Pr%s=%s %s %s: %s" % (mode, p, sense, lam, x)
                if x is not None:
                    require(gap >= -band, "false-claim-certified", desc)
                    viol, thr = rfs.violation(v, mode, sense, lam, x)
                    require(viol <= 3e-5, "invalid-certificate", lambda: desc() + " violation %s" % viol)
                else:
                    require(gap < 1e-3 and not trivially, "true-claim-not-certified", desc)
                ctx.tag("%s%s:%s" % (mode, sense, "certified" if x is not None else "refused"))
                if 0 < lam < 1 and abs(gap) < 0.1:
                    some = True
    if not v.ecfree:
        ctx.tag("has-ecs")
    ctx.nontrivial(v.n >= 2 and some)


CHECKS = [
    Check("generate", cases, run, 1000, 12000,
          "random reachability forms with and without end components; all 8 mode/comparison combinations at 2 thresholds per mode (around the true probability, 0, 1, ...), cbc or glpk; "
          "non-trivial: at least 2 states and a threshold within 0.1 of the true probability"),
    Check("generate-large", lambda: cases(large=True), run, 16, 600, "the same with 40 to 300 states (seeded generator)"),
]

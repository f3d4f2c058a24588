"""C24: interior points of regions given by half-spaces."""
from hypothesis import strategies as st
from ..core import Check, foreign, require, Violation, oracle, HarnessError, Inconclusive
from .. import models as M
from ..models import I

COEF = st.sampled_from([0, 0, 1, 1, -1, 2, -2, 3, -3, 0.5])


@st.composite
def cases(draw):
    n, m = draw(I(1, 5)), draw(I(1, 8))
    A = [[draw(COEF) for _ in range(n)] for _ in range(m)]
    pos = draw(M.BOOL)
    x0 = [draw(I(0 if pos else -3, 4)) for _ in range(n)]
    kind = draw(st.sampled_from(["around", "around", "around", "touching", "random", "box"]))
    zero = sorted(draw(st.sets(I(0, n - 1), max_size=2))) if draw(I(0, 2)) == 0 else []
    if zero and kind != "random":
        for i in zero:
            x0[i] = 0
    if kind == "box":
        for i in range(n):
            A.append([1.0 if j == i else 0.0 for j in range(n)])
            A.append([-1.0 if j == i else 0.0 for j in range(n)])
    b = []
    for r in A:
        v = sum(a * x for a, x in zip(r, x0))
        if kind == "random":
            b.append(draw(I(-4, 8)))
        elif kind == "touching":
            b.append(v + draw(st.sampled_from([0, 0, 1, 3])))
        else:
            b.append(v + draw(st.sampled_from([1, 0.5, 2, 4, 0.1])))
    return {"A": A, "b": b, "pos": pos, "zero": zero, "kind": kind, "solver": draw(st.sampled_from(["cbc", "cbc", "cbc", "glpk"])), "form": draw(st.sampled_from(["dok", "csr", "csc"]))}


@oracle
def best_slack(case, tied):
    """least s such that Ax <= b + s (and x + s >= 0 / x >= 0, zeros) is possible; None if there is no least one"""
    import numpy as np
    from scipy.optimize import linprog
    A = np.array(case["A"], dtype=float)
    m, n = A.shape
    G = np.hstack([A, -np.ones((m, 1))])
    h = np.array(case["b"], dtype=float)
    lo = [None] * n
    if case["pos"]:
        if tied:
            G = np.vstack([G, np.hstack([-np.eye(n), -np.ones((n, 1))])])
            h = np.concatenate([h, np.zeros(n)])
        else:
            lo = [0] * n
    bounds = [(l, None) for l in lo] + [(None, None)]
    for i in case["zero"]:
        bounds[i] = (0, 0)
    res = foreign(linprog, [0] * n + [1], A_ub=G, b_ub=h, bounds=bounds, method="highs")
    if res.status == 0:
        return float(res.fun)
    if res.status in (3, 4):
        return None
    if res.status == 2:
        # HiGHS may not tell unbounded from infeasible: x = 0 and a large s is always feasible
        return None
    raise Inconclusive("reference LP: %s" % res.message)


def run(case, ctx):
    import numpy as np
    from scipy.sparse import dok_matrix, csr_matrix, csc_matrix
    from switss.certification import find_interior_point
    A = np.array(case["A"], dtype=float)
    b = np.array(case["b"], dtype=float)
    mat = {"dok": dok_matrix, "csr": csr_matrix, "csc": csc_matrix}[case["form"]](A)
    kw = {}
    if case["pos"]:
        kw["xgeq0"] = True
    if case["zero"]:
        kw["zero_vars"] = list(case["zero"])
    if case["solver"] != "cbc":
        kw["solver"] = case["solver"]
    x, optimal, strict = find_interior_point(mat, b, **kw)
    require(np.array_equal(mat.toarray(), A) and mat.shape == A.shape and np.array_equal(b, np.array(case["b"], dtype=float)) and kw.get("zero_vars", []) == case["zero"],
            "input-modified", "")
    x = np.asarray(x, dtype=float)
    require(x.shape == (A.shape[1],), "shape", str(x.shape))
    d = A @ x - b
    rel = 2e-5 if case["solver"] == "glpk" else 1e-6      # GLPK prints 6 significant digits
    tol = rel * (1 + np.abs(A) @ np.abs(x) + np.abs(b))
    what = lambda: "A=%s b=%s %s: x=%s optimal=%s strict=%s" % (case["A"], case["b"], kw, x, optimal, strict)
    if bool(strict):
        require((d < tol).all(), "strict-but-outside", what)
    if bool(optimal):
        require((d <= tol).all(), "optimal-but-outside", what)
        require(not case["pos"] or (x >= -tol.max()).all(), "negative", what)
        require(all(abs(x[i]) < 1e-6 for i in case["zero"]), "zero-vars", what)
    s = best_slack(case, True)
    free = best_slack(case, False)
    ctx.tag(case["kind"], "solver:" + case["solver"], "xgeq0" if case["pos"] else "free", *(["zeros"] if case["zero"] else []))
    if s is None:
        ctx.tag("unbounded")
        # (the solvers do not always recognize an unbounded program; the point itself was judged above)
        return
    if s > 1e-5:
        require(not bool(optimal) and not bool(strict), "empty-region-accepted", lambda: "least violation is %s; " % s + what())
        ctx.tag("empty")
    elif s < -1e-5:
        require(bool(optimal) and bool(strict), "interior-point-missed", lambda: "slack %s is possible; " % -s + what())
        # the point maximizes the least slack
        require((d <= s + tol + 1e-5).all(), "not-interior", lambda: "slack %s is possible; " % -s + what())
        ctx.tag("interior")
    else:
        require(not bool(strict) or (d < tol).all(), "boundary", what)
        ctx.tag("boundary")
    if free is not None and free > 1e-5:
        require(not bool(optimal), "empty-region-accepted", what)
    ctx.nontrivial(A.shape[1] >= 2 and len(b) >= 2 and np.count_nonzero(A) >= 3)


CHECKS = [
    Check("interior", cases, run, 4000, 80000,
          "random half-spaces around a known point, touching it, or arbitrary (also empty and unbounded regions), optional non-negativity and zero variables; reference: HiGHS on the documented program; "
          "non-trivial: at least 2 variables, 2 half-spaces and a bounded program"),
]

"""C26: the Gurobi interface (gurobipy is a stand-in, see standins_gurobi/)."""
import itertools
from hypothesis import strategies as st
from ..core import Check, require, Violation, oracle, Inconclusive
from .. import models as M, rfs, witness as W
from ..models import I
from . import c05, c06, c07, c14
from .c14 import Prob, summed, exprs, OCOEF, COEF, ORHS, SENSE, DOM, container, infeasibility


def bounded(draw, dom):
    b = list(c14.bounded(draw, dom))
    if dom == "integer" and None in b[1:]:      # (HiGHS crashes on some programs with free integers)
        b = ["integer", -3, 4]
    return b


@st.composite
def histories(draw, max_vars=6, max_ops=14):
    sense = draw(st.sampled_from(["min", "max"]))
    start = draw(st.sampled_from(["empty", "empty", "coefficients"]))
    c = {"sense": sense, "start": start, "ops": [], "ambiguous": draw(I(0, 3)) == 0}
    doms, cons = [], []

    def new(k):
        if draw(I(0, 2)):
            ds = [bounded(draw, draw(DOM)) for _ in range(k)]
            doms.extend(d[0] for d in ds)
            return ["vars", ds]
        ds = [draw(st.sampled_from(["real", "real", "binary"])) for _ in range(k)]
        doms.extend(ds)
        return ["doms", ds]
    if start == "coefficients":
        n, m = draw(I(1, 3)), draw(I(1, 4))
        ds = [bounded(draw, draw(DOM)) for _ in range(n)]
        c["bounds"] = [d[1:] for d in ds] if draw(M.BOOL) else None
        if c["bounds"] is None:
            ds = [d if d[0] != "integer" else ["real"] for d in ds]
        c["dom"] = [d[0] for d in ds]
        c["A"] = [[draw(st.sampled_from([0, 0, 1, 2, -1, 3, -1.5])) if draw(M.BOOL) else draw(OCOEF) for _ in range(n)] if draw(I(0, 5)) else [0] * n for _ in range(m)]
        c["b"] = [draw(ORHS) for _ in range(m)]
        c["opt"] = [draw(OCOEF) for _ in range(n)]
        c["csense"] = draw(st.sampled_from(["<=", ">=", None]))
        c["fmt"] = draw(st.sampled_from(["list", "array", "matrix", "dok", "csr", "csc", "coo"]))
        c["col"] = draw(M.BOOL)
        doms.extend(c["dom"])
        cons.extend(set(range(n)) for _ in range(m))
    else:
        c["ops"].append(new(draw(I(1, 3))))
    for _ in range(draw(I(0, max_ops))):
        n = len(doms)
        op = draw(st.sampled_from(["vars", "con", "con", "con", "con", "ind", "ind", "remove", "chg", "obj", "obj", "solve", "bad"]))
        if op == "vars" and n < max_vars:
            c["ops"].append(new(draw(I(0 if draw(I(0, 9)) == 0 else 1, min(2, max_vars - n)))))
        elif op == "con":
            e = draw(exprs(n, coef=OCOEF))
            c["ops"].append(["con", e, draw(SENSE), draw(ORHS)])
            cons.append({v for v, _ in e})
        elif op == "ind":
            bins = [i for i, d in enumerate(doms) if d == "binary"]
            if not bins:
                c["ops"].append(["vars", [["binary", None, None]]])
                bins = [len(doms)]
                doms.append("binary")
            b = draw(st.sampled_from(bins))
            x = draw(I(0, len(doms) - 1))
            if x != b:
                c["ops"].append(["ind", b, x])
                cons.append("ind")
        elif op == "remove" and any(x is not None for x in cons):
            i = draw(st.sampled_from([i for i, x in enumerate(cons) if x is not None]))
            cons[i] = None
            c["ops"].append(["remove", i])
        elif op == "chg":
            cand = [(i, v) for i, x in enumerate(cons) if isinstance(x, set) for v in range(n) if v not in x]
            if cand:
                i, v = draw(st.sampled_from(cand))
                cons[i].add(v)
                c["ops"].append(["chg", i, draw(COEF), v])
        elif op == "obj":
            c["ops"].append(["obj", draw(exprs(n, coef=OCOEF))])
        elif op == "solve":
            c["ops"].append(["solve"])
        elif op == "bad" and draw(I(0, 3)) == 0:
            c["ops"].append(["bad", n + draw(I(0, 2)) if draw(M.BOOL) else -1 - draw(I(0, 2))])
    return c


@oracle
def truth_ind(p, inds):
    """the reference optimum with implications (b = 0 => x = 0), by enumeration of the values of the variables b"""
    import numpy as np
    from gurobipy import bnb
    n = len(p.vars)
    sign = 1 if p.sense == "min" else -1
    c = np.array([sign * p.obj.get(i, 0.0) for i in range(n)])
    lo = [-np.inf if lb is None else lb for _, lb, _ in p.vars]
    hi = [np.inf if ub is None else ub for _, _, ub in p.vars]
    integ = [d != "real" for d, _, _ in p.vars]
    for i in range(n):
        if integ[i]:
            lo[i], hi[i] = np.ceil(lo[i]), np.floor(hi[i])
    rows = [(co, {"<=": "<", ">=": ">", "=": "="}[s], r) for co, s, r in p.cons.values()]
    bs = sorted({b for b, _ in inds})
    best = ("infeasible", None)
    for vals in itertools.product([0, 1], repeat=len(bs)):
        l, h = list(lo), list(hi)
        for b, y in zip(bs, vals):
            l[b], h[b] = max(l[b], y), min(h[b], y)
        for b, x in inds:
            if vals[bs.index(b)] == 0:
                l[x], h[x] = max(l[x], 0), min(h[x], 0)
        s, _, o = bnb(c, rows, l, h, integ, [])
        if s == "unbounded":
            return s, None
        if s == "optimal" and (best[1] is None or o < sign * best[1]):
            best = (s, sign * o)
    return best


def judge(p, inds, m, case, ctx, what):
    import numpy as np
    status, opt = truth_ind(p, inds)
    r = m.solve(solver="gurobi")
    what2 = lambda: "%s: truth %s %s, got %s %s %s" % (what(), status, opt, r.status, r.value, r.result_vector)
    ctx.tag(status)
    if status != "optimal":
        require(r.status == status or (case["ambiguous"] and r.status == "undefined"), "status", what2)
        return status
    require(r.status == "optimal", "status", what2)
    x = np.asarray(r.result_vector, dtype=float)
    require(x.shape == (len(p.vars),), "shape", what2)
    require(infeasibility(p, x) <= 1e-5, "infeasible-assignment", lambda: what2() + " violated by %s" % infeasibility(p, x))
    for b, y in inds:
        require(x[b] > 0.5 or abs(x[y]) <= 1e-5, "indicator-ignored", lambda: "%s: variable %d is zero, %d is not" % (what2(), b, y))
    val = sum(k * x[v] for v, k in p.obj.items())
    tol = 1e-5 * (1 + abs(opt) + sum(abs(k * x[v]) for v, k in p.obj.items()))
    require(r.value is not None and abs(float(r.value) - val) <= tol, "value", what2)
    require(abs(val - opt) <= tol, "not-optimal", what2)
    return status


def run_history(case, ctx):
    import gurobipy
    from switss.solver import GurobiMILP
    gurobipy.AMBIGUOUS[0] = case["ambiguous"]
    p, inds = Prob(case["sense"]), {}
    if case["start"] == "coefficients":
        A, b, opt = case["A"], case["b"], case["opt"]
        args = [container(A, case["fmt"]), container(b, case["fmt"], True, case["col"]), container(opt, case["fmt"], True, case["col"]), list(case["dom"])]
        kw = {"objective": case["sense"]}
        if case["csense"]:
            kw["sense"] = case["csense"]
        if case["bounds"]:
            kw["bounds"] = [tuple(x) for x in case["bounds"]]
        m = GurobiMILP.from_coefficients(*args, **kw)
        for i, d in enumerate(case["dom"]):
            p.add_var(d, *(case["bounds"][i] if case["bounds"] else (None, None)))
        for i, row in enumerate(A):
            p.cons[i] = (dict(enumerate(row)), case["csense"] or "<=", b[i])
        p.obj = dict(enumerate(opt))
        ncons = len(A)
    else:
        m = GurobiMILP(objective=case["sense"])
        ncons = 0
    changes, seen = 0, set()
    for k, op in enumerate(case["ops"]):
        what = lambda: "after %s of %s" % (case["ops"][:k + 1], {x: case[x] for x in case if x != "ops"})
        if op[0] in ("vars", "doms"):
            first = len(p.vars)
            if op[0] == "vars":
                desc = [tuple(x) for x in op[1]]
                got = m.add_variables_w_bounds(desc)
            else:
                desc = [(d, None, None) for d in op[1]]
                got = m.add_variables(list(op[1]))
            for d in desc:
                p.add_var(*d)
            exp = list(range(first, first + len(desc)))
            exp = exp[0] if len(exp) == 1 else exp
            require((list(got) if not isinstance(got, int) else got) == exp, "variable-index", lambda: "%s, expected %s %s" % (got, exp, what()))
        elif op[0] in ("con", "ind"):
            if op[0] == "con":
                got = m.add_constraint([tuple(x) for x in op[1]], op[2], op[3])
                p.cons[ncons] = (summed(op[1]), op[2], op[3])
            else:
                got = m.add_indicator_constraint(op[1], op[2])
                inds[ncons] = (op[1], op[2])
            require(got == ncons, "constraint-index", lambda: "%s, expected %s %s" % (got, ncons, what()))
            ncons += 1
        elif op[0] == "remove":
            m.remove_constraint(op[1])
            if op[1] in inds:
                del inds[op[1]]
            else:
                del p.cons[op[1]]
            changes += 1
        elif op[0] == "chg":
            m.add_to_constraint(op[1], op[2], op[3])
            co, s, r = p.cons[op[1]]
            p.cons[op[1]] = (dict(co) | {op[3]: op[2]}, s, r)
            changes += 1
        elif op[0] == "obj":
            m.set_objective_function([tuple(x) for x in op[1]])
            changes += bool(p.obj)
            p.obj = summed(op[1])
        elif op[0] == "bad":
            for f in (lambda: m.add_constraint([(op[1], 1)], "<=", 0), lambda: m.set_objective_function([(op[1], 1)])):
                try:
                    f()
                except (AssertionError, ValueError, IndexError):
                    continue
                raise Violation("unknown-variable", "variable %s accepted %s" % (op[1], what()))
        elif op[0] == "solve":
            seen.add(judge(p, list(inds.values()), m, case, ctx, what))
    seen.add(judge(p, list(inds.values()), m, case, ctx, lambda: "at the end of %s" % case))
    ctx.tag(case["start"], "indicators" if inds else "linear")
    ctx.nontrivial(len(p.vars) >= 2 and len(p.cons) + len(inds) >= 2 and (changes > 0 or len(seen) > 1 or bool(p.obj)))


# ------------------------------------------------------------------ minimal witnesses

@st.composite
def exact_cases(draw):
    mode = draw(st.sampled_from(["min", "max", "max"]))
    c = draw(M.model(min_n=3, max_n=6, ecfree=(mode == "max" and draw(I(0, 2)) == 0), extra_labels=False, max_w=4))
    c.update(mode=mode, thr=draw(c05.THR), solver="gurobi")
    return c


@st.composite
def label_cases(draw):
    c = draw(c06.cases())
    if c["mode"] == "max" and draw(I(0, 3)):
        o = c
        c = draw(M.model(min_n=3, max_n=6, extra_labels=True, max_w=4))
        c.update(mode="max", thr=o["thr"], ends=o["ends"], use=o["use"])
        c06.relabel(draw, c)
    c["solver"] = "gurobi"
    return c


@st.composite
def heur_cases(draw):
    c = draw(c07.cases())
    c["solver"] = "gurobi"
    return c


def plain(f):
    def run(case, ctx):
        import gurobipy
        gurobipy.AMBIGUOUS[0] = False
        before = gurobipy.SOLVES[0]
        f(case, ctx)
        ctx.tag("asked gurobi" if gurobipy.SOLVES[0] > before else "not asked")
    return run


CHECKS = [
    Check("history", histories, run_history, 8000, 200000,
          "random build histories of GurobiMILP (at most 8 variables: bounds, constraints with empty/repeated terms, implications, removals, coefficient changes, objective updates, several solves) against the reference program "
          "with implications enumerated (branch and bound on HiGHS' linear programs); non-trivial: at least 2 variables and 2 constraints and an objective, an update/removal, or two different statuses", flavour="gurobi"),
    Check("exact", exact_cases, plain(c05.run), 2500, 40000,
          "MILPExact(solver='gurobi') on random forms of at most 6 states, for maximal probabilities also with end components; reference: brute force over all state subsets; non-trivial: as C05", flavour="gurobi"),
    Check("labels", label_cases, plain(c06.run), 1500, 30000, "the same with labels; reference: brute force over all label subsets; non-trivial: as C06", flavour="gurobi"),
    Check("heuristic", heur_cases, plain(c07.run), 1500, 30000, "QSHeur(solver='gurobi'), judged as in C07", flavour="gurobi"),
]

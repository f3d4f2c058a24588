"""C14: the LP/MILP layer."""
import time
from hypothesis import strategies as st
from ..core import Check, foreign, require, Violation, oracle, HarnessError, Inconclusive
from .. import models as M
from ..models import I

COEF = st.sampled_from([-4, -3, -2, -1, -1, 0, 1, 1, 2, 3, 4, 0.5, -1.5])
OCOEF = st.one_of(COEF, COEF, COEF, st.sampled_from([0.0123456789, -1 / 3, 0.00271828182, 137.035999, -0.00271828182]))
RHS = st.sampled_from([-6, -3, -2, -1, 0, 0, 1, 2, 3, 5, 8, 10, 2.5, -0.5])
ORHS = st.one_of(RHS, RHS, RHS, st.sampled_from([1 / 3, 0.00271828182, 2.71828182, -0.012345678, 12.3456789, -137.035999]))
SENSE = st.sampled_from(["<=", ">=", "<=", ">=", "="])
NONEG = st.sampled_from([(0, None), (0, None), (None, None), (0, 1), (0, 5), (-3, 4), (None, 3), (1, None), (0.5, 2.5), (2, 2)])
BINB = st.sampled_from([(None, None), (None, None), (0, 1), (0, None), (None, 1), (0, 0), (1, 1)])
DOM = st.sampled_from(["real", "real", "integer", "binary"])
SOLVERS = st.sampled_from(["cbc", "cbc", "cbc", "glpk"])


class Prob:
    """reference problem"""
    def __init__(self, sense):
        self.sense = sense
        self.vars = []          # (domain, lb, ub)
        self.cons = {}          # index -> (coefficients by variable, sense, rhs)
        self.obj = {}

    def add_var(self, dom, lb, ub):
        if dom == "binary":
            lb, ub = max(0, 0 if lb is None else lb), min(1, 1 if ub is None else ub)
        self.vars.append((dom, lb, ub))


def summed(expr):
    d = {}
    for v, c in expr:
        d[v] = d.get(v, 0.0) + c
    return d


@oracle
def truth(p):
    """-> (status, optimal value) by HiGHS"""
    import numpy as np
    from scipy.optimize import milp, LinearConstraint, Bounds
    n = len(p.vars)
    sign = 1 if p.sense == "min" else -1
    c = np.zeros(n)
    for v, k in p.obj.items():
        c[v] = sign * k
    lo = np.array([-np.inf if lb is None else lb for _, lb, _ in p.vars], dtype=float)
    hi = np.array([np.inf if ub is None else ub for _, _, ub in p.vars], dtype=float)
    for i, (d, _, _) in enumerate(p.vars):
        if d != "real":
            lo[i], hi[i] = np.ceil(lo[i]), np.floor(hi[i])
    integ = np.array([0 if d == "real" else 1 for d, _, _ in p.vars])
    A = np.zeros((len(p.cons), n))
    L, U = np.full(len(p.cons), -np.inf), np.full(len(p.cons), np.inf)
    for i, (co, s, r) in enumerate(p.cons.values()):
        for v, k in co.items():
            A[i, v] = k
        if s in ("<=", "="):
            U[i] = r
        if s in (">=", "="):
            L[i] = r

    def run(cc, ii, presolve=True):
        kw = {"constraints": LinearConstraint(A, L, U)} if len(p.cons) else {}
        return foreign(milp, cc, integrality=ii, bounds=Bounds(lo, hi), options={"mip_rel_gap": 0, "time_limit": 10, "presolve": presolve}, **kw)
    if n == 0:
        ok = all((l <= 0 <= u) for l, u in zip(L, U))
        return ("optimal", 0.0) if ok else ("infeasible", None)
    r = run(np.zeros(n), integ)
    if r.status == 2 and run(np.zeros(n), integ, presolve=False).status != 2:
        raise Inconclusive("HiGHS contradicts itself")
    if r.status == 2:
        return "infeasible", None
    if r.status != 0:
        raise Inconclusive("HiGHS status %s" % r.status)
    # feasible with rational data: unbounded iff the relaxation is
    r = run(c, np.zeros(n))
    if r.status in (3, 4):
        return "unbounded", None
    r = run(c, integ)
    if r.status != 0:
        raise Inconclusive("HiGHS status %s" % r.status)
    return "optimal", sign * r.fun


@oracle
def infeasibility(p, x):
    """largest violation by x"""
    w = 0.0
    for (d, lb, ub), y in zip(p.vars, x):
        if lb is not None:
            w = max(w, lb - y)
        if ub is not None:
            w = max(w, y - ub)
        if d != "real":
            w = max(w, abs(y - round(y)))
    for co, s, r in p.cons.values():
        y = sum(k * x[v] for v, k in co.items())
        scale = 1 + sum(abs(k * x[v]) for v, k in co.items())
        if s in ("<=", "="):
            w = max(w, (y - r) / scale)
        if s in (">=", "="):
            w = max(w, (r - y) / scale)
    return w


@oracle
def solver_is_right(p, solver):
    """whether the solver itself, given the same problem by pulp directly, gives a right answer"""
    import pulp
    status, opt = truth(p)
    lp = pulp.LpProblem("ref", pulp.LpMinimize if p.sense == "min" else pulp.LpMaximize)
    xs = [pulp.LpVariable("y%d" % i, lowBound=lb, upBound=ub, cat=pulp.LpContinuous if d == "real" else pulp.LpInteger) for i, (d, lb, ub) in enumerate(p.vars)]
    lp.setObjective(pulp.LpAffineExpression([(x, p.obj.get(i, 0)) for i, x in enumerate(xs)]))
    for i, (co, s, r) in p.cons.items():
        lp.addConstraint(pulp.LpConstraint(pulp.LpAffineExpression([(xs[v], k) for v, k in co.items()]), {"<=": -1, "=": 0, ">=": 1}[s], "k%d" % i, r))
    try:
        lp.solve(pulp.PULP_CBC_CMD(msg=False, gapRel=1e-9, timeLimit=20) if solver == "cbc" else pulp.GLPK_CMD(msg=False, timeLimit=20))
    except pulp.PulpSolverError:
        return False
    if status != "optimal":
        if solver == "cbc" and all(d == "real" for d, _, _ in p.vars):
            return lp.status == {"infeasible": -1, "unbounded": -2}[status]
        return lp.status != 1
    if lp.status != 1:
        return False
    x = [v.value() for v in xs]
    return infeasibility(p, x) <= 1e-5 and abs(sum(k * x[v] for v, k in p.obj.items()) - opt) <= 1e-5 * (1 + abs(opt))


def judge(p, m, solver, ctx, what):
    import pulp
    try:
        return judge_raw(p, m, solver, ctx, what)
    except (Violation, pulp.PulpSolverError):
        if not solver_is_right(p, solver):
            raise Inconclusive("%s itself is wrong about the problem" % solver)
        raise


def judge_raw(p, m, solver, ctx, what):
    import numpy as np
    status, opt = truth(p)
    if not any(k for co, _, _ in p.cons.values() for k in co.values()):
        ctx.tag("no constraint: not judged")      # neither cbc nor glpsol reads such files reliably
        return status
    used = {v for co, _, _ in p.cons.values() for v, k in co.items() if k}
    if any(k and v not in used for v, k in p.obj.items()):
        ctx.tag("unconstrained variable in the objective: not judged")      # cbc misjudges these
        return status
    if any(d == "integer" and (lb is None or ub is None) for d, lb, ub in p.vars):
        # branch and bound need not terminate on these
        if solver == "glpk":
            raise Inconclusive("glpsol may not terminate on unbounded integers, whatever its time limit")
        t = time.monotonic()
        r = m.solve(solver=solver, timeout=10)
        if time.monotonic() - t > 8:
            raise Inconclusive("solver timeout on unbounded integers")
    else:
        r = m.solve(solver=solver)
    what2 = lambda: "%s %s: truth %s %s, got %s %s %s" % (solver, what(), status, opt, r.status, r.value, r.result_vector)
    integral = any(d != "real" for d, _, _ in p.vars)
    ctx.tag(status, "milp" if integral else "lp")
    if status == "infeasible" and r.status == "optimal" and infeasibility(p, r.result_vector) <= 1e-9:
        raise Inconclusive("HiGHS missed a feasible point")
    if status != "optimal":
        require(r.status != "optimal", "status", what2)
        # the solvers themselves cannot always tell the two apart for integer problems, and glpk's
        # preprocessor does not for linear ones
        if not integral and solver == "cbc":
            require(r.status == status, "status", what2)
        else:
            require(r.status in (status, "undefined", "notsolved") or integral, "status", what2)
        return status
    require(r.status == "optimal", "status", what2)
    x = np.asarray(r.result_vector, dtype=float)
    require(x.shape == (len(p.vars),), "shape", what2)
    require(not np.isnan(x).any(), "no-value", what2)
    require(infeasibility(p, x) <= 1e-5, "infeasible-assignment", lambda: what2() + " violated by %s" % infeasibility(p, x))
    val = sum(k * x[v] for v, k in p.obj.items())
    tol = 1e-5 * (1 + abs(opt) + sum(abs(k * x[v]) for v, k in p.obj.items()))
    require(r.value is not None and abs(float(r.value) - val) <= tol, "value", what2)
    require(abs(val - opt) <= tol, "not-optimal", what2)
    return status


@st.composite
def exprs(draw, n, dup=True, coef=COEF):
    if n == 0:
        return []
    k = draw(I(0, min(4, n + 1)))
    e = [[draw(I(0, n - 1)), draw(coef)] for _ in range(k)]
    if not dup or draw(I(0, 3)):
        e = [[v, c] for v, c in dict((v, c) for v, c in e).items()]
    return e


@st.composite
def histories(draw, max_vars=5, max_ops=14):
    kind = draw(st.sampled_from(["milp", "milp", "lp"]))
    sense = draw(st.sampled_from(["min", "max"]))
    start = draw(st.sampled_from(["empty", "empty", "coefficients"]))
    c = {"kind": kind, "sense": sense, "start": start, "solver": draw(SOLVERS), "ops": []}
    n = 0
    cons = []
    if start == "coefficients":
        n = draw(I(1, 3))
        m = draw(I(1, 4))
        c["A"] = [[draw(OCOEF) for _ in range(n)] for _ in range(m)]
        c["b"] = [draw(ORHS) for _ in range(m)]
        c["opt"] = [draw(OCOEF) for _ in range(n)]
        c["csense"] = draw(st.sampled_from(["<=", ">=", None]))
        c["dom"] = [draw(DOM) for _ in range(n)] if kind == "milp" else ["real"] * n
        c["bounds"] = [bounded(draw, d)[1:] for d in c["dom"]] if kind == "milp" and draw(M.BOOL) else None
        c["fmt"] = draw(st.sampled_from(["list", "array", "matrix", "dok", "csr", "csc", "coo"]))
        c["col"] = draw(M.BOOL)
        cons = list(range(m))
    else:
        n = draw(I(1, 3))
        c["ops"].append(new_vars(draw, kind, n))
    for _ in range(draw(I(0, max_ops))):
        op = draw(st.sampled_from(["vars", "con", "con", "con", "con", "remove", "obj", "obj", "solve", "bad"]))
        if op == "vars" and n < max_vars:
            k = draw(I(0 if draw(I(0, 9)) == 0 else 1, min(2, max_vars - n)))
            c["ops"].append(new_vars(draw, kind, k))
            n += k
        elif op == "con":
            c["ops"].append(["con", draw(exprs(n, coef=OCOEF)), draw(SENSE), draw(ORHS)])
            cons.append(len(cons))
        elif op == "remove" and any(x is not None for x in cons):
            i = draw(st.sampled_from([x for x in cons if x is not None]))
            cons[i] = None
            c["ops"].append(["remove", i])
        elif op == "obj":
            c["ops"].append(["obj", draw(exprs(n, coef=OCOEF))])
        elif op == "solve":
            c["ops"].append(["solve"])
        elif op == "bad" and draw(I(0, 3)) == 0:
            c["ops"].append(["bad", n + draw(I(0, 2)) if draw(M.BOOL) else -1 - draw(I(0, 2))])
    if has_free_integers(c):
        # odd coefficients make these numerically hopeless
        for op in c["ops"]:
            if op[0] in ("con", "obj"):
                op[1] = [[v, k if float(2 * k).is_integer() else 1] for v, k in op[1]]
                op[3:] = [round(2 * r) / 2 for r in op[3:]]
        if c["start"] == "coefficients":
            c["A"] = [[k if float(2 * k).is_integer() else 1 for k in r] for r in c["A"]]
            c["b"] = [round(2 * r) / 2 for r in c["b"]]
            c["opt"] = [k if float(2 * k).is_integer() else 1 for k in c["opt"]]
        c["solver"] = "cbc"
    return c


def has_free_integers(c):
    doms = [d for op in c["ops"] if op[0] == "doms" for d in op[1]]
    desc = [tuple(x) for op in c["ops"] if op[0] == "vars" for x in op[1]]
    if c["start"] == "coefficients":
        desc += [(d,) + tuple(b) for d, b in zip(c["dom"], c["bounds"] or [(None, None)] * len(c["dom"]))]
    return "integer" in doms or any(d == "integer" and None in (lb, ub) for d, lb, ub in desc)


def bounded(draw, dom):
    b = list(draw(BINB if dom == "binary" else NONEG))
    return [dom] + ([0, 2] if dom == "integer" and b == [0.5, 2.5] else b)      # glpk demands integral bounds


def new_vars(draw, kind, k):
    if kind == "lp" and draw(M.BOOL):
        return ["count", k]
    return ["vars", [bounded(draw, draw(DOM) if kind == "milp" else "real") for _ in range(k)]] if draw(I(0, 2)) else \
        (["doms", [draw(DOM) for _ in range(k)]] if kind == "milp" else ["count", k])


def container(M2, fmt, vec=False, col=False):
    import numpy as np, scipy.sparse as sp
    if fmt == "list":
        return [[x] for x in M2] if vec and col else M2
    a = np.array(M2, dtype=float)
    if vec and not (col or fmt in ("dok", "csr", "csc", "coo")):
        return a
    if vec:
        a = a.reshape(-1, 1)
    return {"array": lambda: a, "matrix": lambda: np.asmatrix(a), "dok": lambda: sp.dok_matrix(a), "csr": lambda: sp.csr_matrix(a),
            "csc": lambda: sp.csc_matrix(a), "coo": lambda: sp.coo_matrix(a)}[fmt]()


def run_history(case, ctx):
    from switss.solver import MILP, LP
    p = Prob(case["sense"])
    cls = MILP if case["kind"] == "milp" else LP
    if case["start"] == "coefficients":
        A, b, opt = case["A"], case["b"], case["opt"]
        args = [container(A, case["fmt"]), container(b, case["fmt"], True, case["col"]), container(opt, case["fmt"], True, case["col"])]
        if case["kind"] == "milp":
            args.append(case["dom"])
        kw = {"objective": case["sense"]}
        if case["csense"]:
            kw["sense"] = case["csense"]
        if case["bounds"]:
            kw["bounds"] = [tuple(x) for x in case["bounds"]]
        m = cls.from_coefficients(*args, **kw)
        require(isinstance(m, cls), "class", str(type(m)))
        for i, d in enumerate(case["dom"]):
            p.add_var(d, *(case["bounds"][i] if case["bounds"] else (None, None)))
        for i, row in enumerate(A):
            p.cons[i] = (dict(enumerate(row)), case["csense"] or "<=", b[i])
        p.obj = dict(enumerate(opt))
        ncons = len(A)
    else:
        m = cls(objective=case["sense"])
        ncons = 0
    changes = 0
    seen = set()
    for k, op in enumerate(case["ops"]):
        what = lambda: "after %s of %s" % (case["ops"][:k + 1], {x: case[x] for x in case if x != "ops"})
        if op[0] in ("vars", "doms", "count"):
            first = len(p.vars)
            if op[0] == "vars":
                desc = [tuple(x) for x in op[1]]
                got = m.add_variables_w_bounds(desc)
            elif op[0] == "doms":
                desc = [(d, None, None) for d in op[1]]
                got = m.add_variables(list(op[1]))
            else:
                desc = [("real", None, None)] * op[1]
                got = m.add_variables(op[1])
            for d in desc:
                p.add_var(*d)
            exp = list(range(first, first + len(desc)))
            exp = exp[0] if len(exp) == 1 else exp
            require((list(got) if not isinstance(got, int) else got) == exp, "variable-index", lambda: "%s, expected %s %s" % (got, exp, what()))
        elif op[0] == "con":
            got = m.add_constraint([tuple(x) for x in op[1]], op[2], op[3])
            require(got == ncons, "constraint-index", lambda: "%s, expected %s %s" % (got, ncons, what()))
            p.cons[ncons] = (summed(op[1]), op[2], op[3])
            ncons += 1
        elif op[0] == "remove":
            m.remove_constraint(op[1])
            del p.cons[op[1]]
            changes += 1
        elif op[0] == "obj":
            m.set_objective_function([tuple(x) for x in op[1]])
            if p.obj:
                changes += 1
            p.obj = summed(op[1])
        elif op[0] == "bad":
            for f in (lambda: m.add_constraint([(op[1], 1)], "<=", 0), lambda: m.set_objective_function([(op[1], 1)])):
                try:
                    f()
                except (AssertionError, ValueError, IndexError):
                    continue
                raise Violation("unknown-variable", "variable %s accepted %s" % (op[1], what()))
        elif op[0] == "solve":
            seen.add(judge(p, m, case["solver"], ctx, what))
    seen.add(judge(p, m, case["solver"], ctx, lambda: "at the end of %s" % case))
    ctx.tag(case["kind"], case["start"], case["solver"])
    ctx.nontrivial(len(p.vars) >= 2 and len(p.cons) >= 2 and (changes > 0 or len(seen) > 1 or bool(p.obj)))


# ------------------------------------------------------------------ many variables

@st.composite
def wide(draw):
    return {"wide": {"n": draw(st.sampled_from([25, 12, 60, 120])) + draw(I(0, 3)), "seed": draw(I(0, 10**6)), "milp": draw(M.BOOL), "density": draw(st.sampled_from([2, 4, 10, 40])),
                     "cons": draw(st.sampled_from([10, 20, 45, 110]))}, "sense": draw(st.sampled_from(["min", "max"])), "solver": draw(SOLVERS)}


def widened(case):
    """the history a wide case stands for: constraints around a known point (all of them satisfiable, now and then one is not and gets removed later)"""
    import random
    w = case["wide"]
    r = random.Random(w["seed"])
    n, x0, ops, cons, desc = 0, [], [], [], []
    c = {"kind": "milp" if w["milp"] else "lp", "sense": case["sense"], "start": "empty", "solver": case["solver"], "ops": ops}
    ints = 0

    def add(k):
        nonlocal n, ints
        ds = []
        for _ in range(k):
            dom = "real"
            if w["milp"] and ints < 6 and r.random() < 0.3:
                dom = r.choice(["binary", "integer"])
                ints += 1
            if dom == "binary":
                ds.append([dom, None, None])
                x0.append(r.randint(0, 1))
            elif dom == "integer":
                ds.append([dom, 0, 4])
                x0.append(r.randint(0, 4))
            else:
                lb, ub = r.choice([(0, 5), (0, 1), (-3, 4), (0, 10), (1, 6)])
                ds.append([dom, lb, ub])
                x0.append(round(r.uniform(lb, ub), 2))
        ops.append(["vars", ds])
        n += k

    def con(idx, bad=False):
        e = [[v, r.choice([-4, -3, -2, -1, 1, 1, 2, 3, 0.5, -1.5])] for v in idx]
        if r.random() < 0.2:
            e.append([idx[0], r.choice([1, -1, 2])])
        y = sum(k * x0[v] for v, k in e)
        s = r.choice(["<=", "<=", ">=", ">=", "="])
        slack = 0 if s == "=" else r.choice([0, 1, 2.5]) * (1 if s == "<=" else -1)
        if bad:
            s, slack = "<=", -sum(abs(k) * 10 for _, k in e) - 100
        ops.append(["con", e, s, round(y + slack, 6)])
        cons.append(len(cons))

    add(max(1, w["n"] // 2))
    for i in range(w["cons"]):
        con(r.sample(range(n), min(n, r.randint(1, w["density"]))))
        x = r.random()
        if x < 0.1 and n < w["n"]:
            add(min(w["n"] - n, r.choice([1, 2, 5])))
        elif x < 0.2:
            j = r.choice(cons)
            if j is not None:
                cons[j] = None
                ops.append(["remove", j])
                cons = [q for q in cons]
        elif x < 0.23:
            con(r.sample(range(n), 3), bad=True)
            if r.random() < 0.5:
                ops.append(["solve"])
            ops.append(["remove", len(cons) - 1])
            cons[-1] = None
        elif x < 0.28:
            ops.append(["obj", [[v, r.choice([-3, -1, 1, 2, 0.25])] for v in r.sample(range(n), r.randint(1, n))]])
    if n < w["n"]:
        add(w["n"] - n)
    for v in range(0, n, 7):      # every variable in a constraint
        con(list(range(v, min(n, v + 7))))
    ops.append(["obj", [[v, r.choice([-3, -1, 1, 2, 0.25])] for v in r.sample(range(n), r.randint(max(1, n // 2), n))]])
    return c


def run_wide(case, ctx):
    run_history(widened(case), ctx)


# ------------------------------------------------------------------ small integer problems, enumerated

@st.composite
def small(draw):
    n = draw(I(1, 4))
    c = {"sense": draw(st.sampled_from(["min", "max"])), "vars": [list(draw(st.sampled_from([("binary", None, None), ("integer", 0, 3), ("integer", -2, 2), ("integer", 0, 1)]))) for _ in range(n)],
         "cons": [[draw(exprs(n)), draw(SENSE), draw(RHS)] for _ in range(draw(I(0, 5)))], "obj": draw(exprs(n)), "solver": draw(SOLVERS)}
    return c


def run_small(case, ctx):
    import itertools
    import numpy as np
    from switss.solver import MILP
    m = MILP(objective=case["sense"])
    m.add_variables_w_bounds([tuple(v) for v in case["vars"]])
    for e, s, r in case["cons"]:
        m.add_constraint([tuple(x) for x in e], s, r)
    m.set_objective_function([tuple(x) for x in case["obj"]])
    best, pts = enumerate_points(case)
    if not any(k for e, _, _ in case["cons"] for k in summed(e).values()):
        ctx.tag("no constraint: not judged")
        return
    r = m.solve(solver=case["solver"])
    what = lambda: "%s: optimum %s of %s points, got %s %s %s" % (case, best, pts, r.status, r.value, r.result_vector)
    require((r.status == "optimal") == (best is not None), "status", what)
    if best is not None:
        x = np.asarray(r.result_vector, dtype=float)
        p = Prob(case["sense"])
        for v in case["vars"]:
            p.add_var(*v)
        for i, (e, s, rhs) in enumerate(case["cons"]):
            p.cons[i] = (summed(e), s, rhs)
        require(infeasibility(p, x) <= 1e-5, "infeasible-assignment", what)
        val = sum(k * x[v] for v, k in case["obj"])
        require(abs(val - best) <= 1e-5 and abs(float(r.value) - best) <= 1e-5, "not-optimal", what)
    ctx.tag("feasible" if best is not None else "infeasible", case["solver"])
    ctx.nontrivial(best is None or (pts > 1 and bool(case["obj"])))


@oracle
def enumerate_points(case):
    import itertools
    doms = [range(2) if d == "binary" else range(lb, ub + 1) for d, lb, ub in case["vars"]]
    best, pts = None, 0
    for x in itertools.product(*doms):
        if all({"<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "=": lambda a, b: a == b}[s](sum(k * x[v] for v, k in e), r) for e, s, r in case["cons"]):
            pts += 1
            y = sum(k * x[v] for v, k in case["obj"])
            if best is None or (y < best if case["sense"] == "min" else y > best):
                best = y
    return best, pts


CHECKS = [
    Check("history", histories, run_history, 12000, 300000,
          "random build histories of LPs and MILPs (at most 5 variables; coefficients, bounds, removals, objective updates, several solves, cbc and glpk), status and optimum from HiGHS; "
          "non-trivial: at least 2 variables and 2 constraints and an objective, an update/removal, or two different statuses"),
    Check("history-wide", wide, run_wide, 300, 10000, "histories with 12 to 120 variables and 10 to 130 constraints (up to 40 terms each) around a known point (seeded generator), status and optimum from HiGHS; non-trivial as before"),
    Check("enumerated", small, run_small, 6000, 150000, "small integer problems, optimum by enumerating all assignments; non-trivial: infeasible, or several feasible points and an objective"),
]

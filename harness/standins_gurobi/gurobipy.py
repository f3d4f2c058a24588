"""Stand-in for the part of gurobipy's documented interface that concerns linear and mixed integer models with
indicator constraints; programs are solved by branch and bound on scipy's linear programs. Only what the reference manual documents is accepted."""
import numbers

try:
    from harness.core import foreign, Inconclusive as Unsolved
except ImportError:
    Unsolved = RuntimeError

    def foreign(f, *a, **k):
        return f(*a, **k)

INF = 1e100


class GurobiError(Exception):
    pass


class GRB:
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = range(1, 14)
    MINIMIZE, MAXIMIZE = 1, -1
    CONTINUOUS, BINARY, INTEGER = "C", "B", "I"
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="
    INFINITY = INF
    Error = GurobiError

    class Status:
        LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = range(1, 14)

    class Param:
        OutputFlag, MIPGap, MIPGapAbs, FeasibilityTol, IntFeasTol, OptimalityTol = "OutputFlag", "MIPGap", "MIPGapAbs", "FeasibilityTol", "IntFeasTol", "OptimalityTol"
        NumericFocus, Threads, TimeLimit, DualReductions, Presolve, Seed, Method = "NumericFocus", "Threads", "TimeLimit", "DualReductions", "Presolve", "Seed", "Method"
        LogToConsole, InfUnbdInfo, MIPFocus, Cutoff = "LogToConsole", "InfUnbdInfo", "MIPFocus", "Cutoff"


PARAMS = {k.lower() for k in vars(GRB.Param) if not k.startswith("_")}
# whether optimize() reports INF_OR_UNBD where it may
AMBIGUOUS = [False]
SOLVES = [0]


def _number(x):
    return isinstance(x, numbers.Number) or (hasattr(x, "dtype") and getattr(x, "shape", None) == ())


class _Expr:
    __array_ufunc__ = None
    __array_priority__ = 10000
    __hash__ = object.__hash__

    def _lin(self):
        raise NotImplementedError

    def __add__(self, o):
        o = _expr(o)
        if o is None:
            return NotImplemented
        r = self._lin()
        return LinExpr._of(r._t + o._t, r._c + o._c)
    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        o = _expr(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = _expr(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, k):
        if not _number(k):
            return NotImplemented
        r = self._lin()
        return LinExpr._of([(float(k) * c, v) for c, v in r._t], float(k) * r._c)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1.0 / float(k)) if _number(k) else NotImplemented

    def __le__(self, o):
        return TempConstr(self, "<", o)

    def __ge__(self, o):
        return TempConstr(self, ">", o)

    def __eq__(self, o):
        return TempConstr(self, "=", o)

    def __ne__(self, o):
        return NotImplemented

    def __lt__(self, o):
        return NotImplemented

    def __gt__(self, o):
        return NotImplemented


def _expr(x):
    if isinstance(x, _Expr):
        return x._lin()
    if _number(x):
        return LinExpr._of([], float(x))
    return None


class LinExpr(_Expr):
    def __init__(self, arg1=0.0, arg2=None):
        self._t, self._c = [], 0.0
        if arg2 is not None:
            if isinstance(arg1, (list, tuple)) or hasattr(arg1, "__len__"):
                if len(arg1) != len(arg2):
                    raise GurobiError("lists of different lengths")
                self._t = [(float(c), v) for c, v in zip(arg1, arg2)]
            else:
                self._t = [(float(arg1), arg2)]
        elif _number(arg1):
            self._c = float(arg1)
        elif isinstance(arg1, _Expr):
            e = arg1._lin()
            self._t, self._c = list(e._t), e._c
        elif isinstance(arg1, (list, tuple)):
            self._t = [(float(c), v) for c, v in arg1]
        else:
            raise TypeError("LinExpr: %r" % (arg1,))
        for _, v in self._t:
            if not isinstance(v, Var):
                raise TypeError("not a variable: %r" % (v,))

    @classmethod
    def _of(cls, terms, const):
        e = cls()
        e._t, e._c = list(terms), const
        return e

    def _lin(self):
        return self

    def __iadd__(self, o):
        o = _expr(o)
        if o is None:
            return NotImplemented
        self._t, self._c = self._t + o._t, self._c + o._c
        return self

    def add(self, expr, mult=1.0):
        e = _expr(expr) * float(mult)
        self._t, self._c = self._t + e._t, self._c + e._c

    def addConstant(self, c):
        self._c += float(c)

    def addTerms(self, coeffs, vs):
        e = LinExpr(coeffs, vs) if not isinstance(vs, Var) else LinExpr(float(coeffs), vs)
        self._t = self._t + e._t

    def clear(self):
        self._t, self._c = [], 0.0

    def copy(self):
        return LinExpr._of(self._t, self._c)

    def size(self):
        return len(self._t)

    def getVar(self, i):
        return self._t[i][1]

    def getCoeff(self, i):
        return self._t[i][0]

    def getConstant(self):
        return self._c

    def getValue(self):
        return sum(c * v.X for c, v in self._t) + self._c

    def _sum(self):
        d = {}
        for c, v in self._t:
            d[v] = d.get(v, 0.0) + c
        return d


class _Attrs:
    """attributes are case-insensitive"""
    def __getattr__(self, name):
        for k in type(self)._names:
            if k.lower() == name.lower() and k != name:
                return getattr(self, k)
        raise AttributeError("%s has no attribute %s" % (type(self).__name__, name))

    def getAttr(self, name):
        return getattr(self, name)


class Var(_Attrs, _Expr):
    _names = ("X", "LB", "UB", "Obj", "VType", "VarName", "RC")

    def __init__(self, model, lb, ub, vtype, name):
        self.__dict__.update(_m=model, LB=lb, UB=ub, VType=vtype, VarName=name)

    def _lin(self):
        return LinExpr._of([(1.0, self)], 0.0)

    def __setattr__(self, name, value):
        key = {k.lower(): k for k in ("LB", "UB", "VType", "VarName")}.get(name.lower())
        if key is None:
            raise AttributeError("cannot set %s" % name)
        self._m._changed()
        self.__dict__[key] = value

    def setAttr(self, name, value):
        setattr(self, name, value)

    @property
    def X(self):
        s = self._m._solution
        if s is None or self not in s:
            raise AttributeError("Unable to retrieve attribute 'x'")
        return s[self]

    @property
    def index(self):
        return next((i for i, v in enumerate(self._m._vars) if v is self), -2)

    def sameAs(self, o):
        return self is o

    def __repr__(self):
        return "<gurobi.Var %s>" % self.VarName


class TempConstr:
    def __init__(self, lhs, sense, rhs):
        l, r = _expr(lhs), _expr(rhs)
        if l is None or r is None:
            raise GurobiError("unsupported operand in a constraint: %r" % (rhs,))
        self.lin, self.sense, self.rhs = LinExpr._of(l._t + [(-c, v) for c, v in r._t], 0.0), sense, r._c - l._c

    def __bool__(self):
        raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")

    def __rshift__(self, then):
        """(binary variable == value) >> (linear constraint)"""
        if not isinstance(then, TempConstr):
            return NotImplemented
        d = {v: c for v, c in self.lin._sum().items()}
        if self.sense != "=" or len(d) != 1 or list(d.values()) != [1.0] or self.rhs not in (0.0, 1.0):
            raise GurobiError("invalid indicator condition")
        return TempIndicator(list(d)[0], int(self.rhs), then)


class TempIndicator:
    def __init__(self, var, val, then):
        self.var, self.val, self.then = var, val, then

    def __bool__(self):
        raise GurobiError("Constraint has no bool value")


class Constr(_Attrs):
    _names = ("ConstrName", "RHS", "Sense")

    def __init__(self, model, coeffs, sense, rhs, name):
        self._m, self._co, self.Sense, self.RHS, self.ConstrName = model, coeffs, sense, rhs, name


class GenConstr(_Attrs):
    _names = ("GenConstrName",)

    def __init__(self, model, ind, name):
        self._m, self._i, self.GenConstrName = model, ind, name


class Env:
    def __init__(self, *a, **k):
        pass

    def setParam(self, name, value):
        pass

    def start(self):
        pass

    def dispose(self):
        pass


class _Params:
    def __init__(self, m):
        self.__dict__["_m"] = m

    def __setattr__(self, k, v):
        self._m.setParam(k, v)


class Model(_Attrs):
    _names = ("Status", "ObjVal", "ObjBound", "SolCount", "NumVars", "NumConstrs", "ModelSense", "IsMIP", "Runtime")

    def __init__(self, name="", env=None):
        if not isinstance(name, (str, Env)):
            raise TypeError("model name")
        self._vars, self._cons, self._gen = [], [], []
        self._obj, self._const, self._sense = {}, 0.0, GRB.MINIMIZE
        self._status, self._solution, self._value = GRB.LOADED, None, None
        self._params = {}
        self.Params = self.params = _Params(self)

    def _changed(self):
        self._status, self._solution, self._value = GRB.LOADED, None, None

    def __setattr__(self, name, value):
        if name.lower() == "modelsense":
            if value not in (1, -1):
                raise GurobiError("ModelSense")
            self._changed()
            name, value = "_sense", value
        object.__setattr__(self, name, value)

    Status = property(lambda self: self._status)
    NumVars = property(lambda self: len(self._vars))
    NumConstrs = property(lambda self: len(self._cons))
    ModelSense = property(lambda self: self._sense)
    IsMIP = property(lambda self: int(bool(self._gen) or any(v.VType != "C" for v in self._vars)))
    SolCount = property(lambda self: int(self._solution is not None))
    Runtime = 0.0

    @property
    def ObjVal(self):
        if self._solution is None:
            raise AttributeError("Unable to retrieve attribute 'objVal'")
        return self._value
    ObjBound = ObjVal

    def setAttr(self, name, value):
        setattr(self, name, value)

    def setParam(self, name, value):
        if str(name).lower() not in PARAMS:
            raise GurobiError("Unknown parameter: %s" % name)
        v = float(value)
        low = str(name).lower()
        if low == "timelimit" and v < 0 or low == "mipgap" and v < 0 or low in ("feasibilitytol", "intfeastol") and not 1e-9 <= v <= 1e-1:
            raise GurobiError("Unable to set parameter %s to value %s" % (name, value))
        self._params[low] = v

    def resetParams(self):
        self._params = {}

    def update(self):
        pass

    def dispose(self):
        pass

    def addVar(self, lb=0.0, ub=INF, obj=0.0, vtype="C", name="", column=None):
        if vtype not in ("C", "B", "I"):
            raise GurobiError("variable type %r" % (vtype,))
        if column is not None:
            raise NotImplementedError("column")
        self._changed()
        v = Var(self, float(lb), float(ub), vtype, str(name))
        self._vars.append(v)
        if obj:
            self._obj[v] = float(obj)
        return v

    def _own(self, vs):
        for v in vs:
            if v._m is not self or v not in set(self._vars):
                raise GurobiError("Variable not in model")

    def addConstr(self, constr, name=""):
        if isinstance(constr, TempIndicator):
            return self._ind(constr, name)
        if not isinstance(constr, TempConstr):
            raise GurobiError("Unsupported type (%s) for constraint argument" % type(constr))
        co = constr.lin._sum()
        self._own(co)
        self._changed()
        c = Constr(self, co, constr.sense, constr.rhs, str(name))
        self._cons.append(c)
        return c
    addLConstr = addConstr

    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        then = lhs if isinstance(lhs, TempConstr) else TempConstr(lhs, {"<=": "<", ">=": ">", "==": "="}.get(sense, sense), rhs)
        return self._ind(TempIndicator(binvar, int(binval), then), name)

    def _ind(self, t, name):
        co = t.then.lin._sum()
        self._own([t.var] + list(co))
        if t.var.VType != "B":
            raise GurobiError("Indicator variable must be binary")
        self._changed()
        g = GenConstr(self, (t.var, t.val, co, t.then.sense, t.then.rhs), str(name))
        self._gen.append(g)
        return g

    def setObjective(self, expr, sense=None):
        e = _expr(expr)
        if e is None:
            raise GurobiError("Unsupported objective")
        co = e._sum()
        self._own(co)
        if sense is not None:
            if sense not in (1, -1):
                raise GurobiError("sense")
            self._sense = sense
        self._changed()
        self._obj, self._const = co, e._c

    def getObjective(self):
        return LinExpr._of([(c, v) for v, c in self._obj.items()], self._const)

    def chgCoeff(self, constr, var, newval):
        if constr not in self._cons:
            raise GurobiError("Constraint not in model")
        self._own([var])
        self._changed()
        constr._co = dict(constr._co)
        constr._co[var] = float(newval)

    def remove(self, items):
        for x in items if isinstance(items, (list, tuple)) else [items]:
            for l in (self._cons, self._gen):
                if any(x is y for y in l):
                    l[:] = [y for y in l if y is not x]
                    self._changed()
                    break
            else:
                raise GurobiError("Item to be removed not in model")

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._cons)

    # ------------------------------------------------------------ solving

    def optimize(self, callback=None):
        SOLVES[0] += 1
        st, x = _optimize(self)
        self._changed()
        if st in (GRB.INFEASIBLE, GRB.UNBOUNDED) and AMBIGUOUS[0] and self._params.get("dualreductions", 1) == 1:
            st = GRB.INF_OR_UNBD
        self._status = st
        if st == GRB.OPTIMAL:
            self._solution = dict(zip(self._vars, x))
            self._value = sum(c * self._solution[v] for v, c in self._obj.items()) + self._const


def bnb(c, rows, lo, hi, integ, conds, limit=4000):
    """minimize c x over the rows (coefficients, sense, rhs), bounds, integrality and implications (i, value, row) by branch and bound on
    linear relaxations (HiGHS' own branch and bound is not always right) -> status, x, value"""
    import numpy as np
    from scipy.optimize import linprog
    n = len(c)

    def relax(lo, hi, extra):
        if any(l > h for l, h in zip(lo, hi)):
            return "infeasible", None, None
        ub, eq = [], []
        for co, s, r in rows + extra:
            a = np.zeros(n)
            for i, k in co.items():
                a[i] += k
            if s == "=":
                eq.append((a, r))
            else:
                ub.append((a, r) if s == "<" else (-a, -r))
        if n == 0:
            ok = all(r >= -1e-9 for a, r in ub) and all(abs(r) <= 1e-9 for a, r in eq)
            return ("optimal", np.zeros(0), 0.0) if ok else ("infeasible", None, None)
        kw = {"bounds": list(zip(lo, hi))}
        if ub:
            kw.update(A_ub=np.array([a for a, _ in ub]), b_ub=np.array([r for _, r in ub]))
        if eq:
            kw.update(A_eq=np.array([a for a, _ in eq]), b_eq=np.array([r for _, r in eq]))
        r = None
        for cc in (c, np.zeros(n)):
            for opt in ({}, {"presolve": False}):
                r = foreign(linprog, cc, method="highs", options=opt, **kw)
                if r.status in (0, 2, 3):
                    break
            if r.status == 2:
                return "infeasible", None, None
            if r.status == 3:
                continue                 # unbounded if feasible at all
            if r.status == 0:
                return ("optimal", r.x, r.fun) if cc is c else ("unbounded", r.x, None)
        raise Unsolved("HiGHS status %s: %s" % (r.status, r.message))

    best, stack, count = ("infeasible", None, None), [(list(lo), list(hi), [])], 0
    while stack:
        l, h, decided = stack.pop()
        count += 1
        if count > limit:
            raise Unsolved("too many nodes")
        extra = [conds[k][2] for k in range(len(conds)) if l[conds[k][0]] == h[conds[k][0]] == conds[k][1]]
        st, x, val = relax(l, h, extra)
        if st == "infeasible" or (st == "optimal" and best[0] == "optimal" and val >= best[2] - 1e-9):
            continue
        i = next((i for i in range(n) if integ[i] and l[i] < h[i] and (abs(x[i] - round(x[i])) > 1e-9)), None)
        if i is None and st == "unbounded":
            # the data are rational: branch until all is decided that implications depend on
            i = next((b for b, _, _ in conds if l[b] < h[b]), None)
            if i is None:
                q = bnb(np.zeros(n), rows + extra, l, h, integ, [])
                if q[0] == "optimal":
                    return "unbounded", q[1], None
                continue
        if i is None:
            for b, bv, (co, s, r) in conds:
                y = sum(k * x[j] for j, k in co.items())
                if l[b] < h[b] and round(x[b]) == bv and not ((s != ">" or y >= r - 1e-9) and (s != "<" or y <= r + 1e-9) and (s != "=" or abs(y - r) <= 1e-9)):
                    i = b
                    break
        if i is None:
            x = np.where(np.array(integ, dtype=bool), np.round(x), x) if n else x
            best = ("optimal", x, float(np.dot(c, x)))
            continue
        k = np.floor(x[i]) if abs(x[i] - round(x[i])) > 1e-9 else min(max(round(x[i]), l[i]), h[i] - 1)
        h2, l2 = list(h), list(l)
        h2[i], l2[i] = k, k + 1
        stack.append((l, h2, decided))
        stack.append((l2, h, decided))
    return best


def _optimize(m):
    import numpy as np
    n = len(m._vars)
    idx = {v: i for i, v in enumerate(m._vars)}
    lo, hi = [], []
    for v in m._vars:
        a = -np.inf if v.LB <= -1e20 else v.LB
        b = np.inf if v.UB >= 1e20 else v.UB
        if v.VType == "B":
            a, b = max(a, 0), min(b, 1)
        if v.VType != "C":
            a, b = np.ceil(a - 1e-9), np.floor(b + 1e-9)
        lo.append(a)
        hi.append(b)
    rows = [({idx[v]: k for v, k in c._co.items()}, c.Sense, c.RHS) for c in m._cons]
    conds = [(idx[g._i[0]], g._i[1], ({idx[v]: k for v, k in g._i[2].items()}, g._i[3], g._i[4])) for g in m._gen]
    c = np.zeros(n)
    for v, k in m._obj.items():
        c[idx[v]] = k * m._sense
    st, x, _ = bnb(c, rows, lo, hi, [v.VType != "C" for v in m._vars], conds)
    return {"optimal": GRB.OPTIMAL, "infeasible": GRB.INFEASIBLE, "unbounded": GRB.UNBOUNDED}[st], x


def quicksum(xs):
    e = LinExpr()
    for x in xs:
        e += x
    return e

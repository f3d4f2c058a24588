"""Shared oracle parts for minimal witnesses (C05, C06, C07, C12, C22)."""
import numpy as np
from . import oracles as O, rfs
from .core import oracle, require, Inconclusive

EPS = 2e-4


@oracle
def state_values(v, mode):
    """list over bitmasks of ordinary states: value of init in the restriction to the mask"""
    return O.subset_values(v.ref, v.init, list(range(v.n)), mode)


@oracle
def label_values(v, mode, groups):
    """groups: dict label -> set of ordinary states. list over bitmasks of the labels (sorted order given)"""
    ls = list(groups)
    out = []
    for m in range(1 << len(ls)):
        bad = set()
        for i, l in enumerate(ls):
            if not m >> i & 1:
                bad |= set(groups[l])
        keep = [s for s in range(v.n) if s not in bad]
        out.append(O.pr(v.ref.restrict(keep), mode)[v.init] if v.init in keep else 0.0)
    return out


def pick_threshold(values, code, full):
    """a threshold from the case's code: between two attainable values, near one of them, beyond the optimum, ..."""
    vs = sorted(set(round(x, 9) for x in values if x > 1e-6))
    kind, k, f = code
    if not vs:
        return [0.1, 0.5, 0.0][k % 3]
    i = k % len(vs)
    hi = vs[i]
    lo = vs[i - 1] if i > 0 else 0.0
    if kind == "mid":
        return lo + (hi - lo) * f
    if kind == "tight":
        return max(0.0, hi - 1e-3)
    if kind == "above":
        return min(1.0, full + 0.02 + (0.98 - full) * f * 0.5) if full < 0.98 else full - 0.01
    if kind == "zero":
        return 0.0
    return min(1.0, f)


def best(values, lam):
    """minimal popcount of a mask whose value reaches lam (0 thresholds need nothing)"""
    if lam <= 0:
        return 0
    b = None
    for m, x in enumerate(values):
        if x >= lam:
            c = bin(m).count("1")
            b = c if b is None else min(b, c)
    return b


@oracle
def milp_solver(case, v, mode, lam):
    """GLPK's integer preprocessing drops rows that are violated by less than 1e-3 in absolute terms: it is only asked on
    problems whose numbers are well above that."""
    if case.get("solver", "cbc") != "glpk":
        return case.get("solver", "cbc")
    if 0 < lam < 0.02 or min([1.0] + [x for x in v.pr[mode] if x > 0]) < 0.03:
        return "cbc"
    if mode == "max":
        for s in range(v.n):
            if O.pr_max(O.Ref(v.ref.n, v.ref.rows, {s}))[v.init] < 0.03:
                return "cbc"
    return "glpk"


def bound(v, mode):
    """a rough conditioning number: how large the certificate may have to be"""
    return rfs.kappa(v) if v.ecfree else 20.0


def check_certificate(v, mode, lam, x, what, tol=1e-5):
    x = np.asarray(x, dtype=float)
    require(x.shape == ((v.n,) if mode == "min" else (v.C,)), "certificate-shape", lambda: "%s: shape %s" % (what, x.shape))
    viol, _ = rfs.violation(v, mode, ">=", lam, x)
    sc = 1 + float(np.abs(x).max(initial=0))
    require(viol <= tol * sc, "certificate-invalid", lambda: "%s: certificate %s for threshold %s violates a condition by %s" % (what, x, lam, viol))


def positive_states(v, mode, x):
    x = np.asarray(x, dtype=float)
    if mode == "min":
        return [s for s in range(v.n) if x[s] > 0]
    return sorted({q for i, (q, a) in enumerate(v.rows) if x[i] > 0})


def check_subsystem(v, mode, lam, res, what):
    """the subsystem is the positive part of the certificate and reaches the threshold; -> its states"""
    S = positive_states(v, mode, res.farkas_cert)
    mask = np.asarray(res.subsystem.subsystem_mask)
    require(mask.shape == (v.n,), "mask-shape", lambda: "%s: mask of shape %s" % (what, mask.shape))
    require([s for s in range(v.n) if mask[s]] == S, "mask", lambda: "%s: mask %s, certificate %s" % (what, mask, res.farkas_cert))
    require(np.array_equal(np.asarray(res.subsystem.certificate), np.asarray(res.farkas_cert)) and res.subsystem.certform == mode, "subsystem-certificate", what)
    p = O.pr(v.ref.restrict(S), mode)[v.init] if v.init in S else 0.0
    require(p >= lam - 1e-5 * (1 + bound(v, mode)), "subsystem-below-threshold", lambda: "%s: states %s reach probability %s < threshold %s" % (what, S, p, lam))
    return S

"""C19: the native graph code under AddressSanitizer, on deep models, over many repetitions and internal seeds."""
import ctypes, gc
from hypothesis import strategies as st
from ..core import Check, require, set_native_seed
from .. import models as M, rfs, oracles as O
from ..models import I
from . import c09


# ------------------------------------------------------------------ memory errors (AddressSanitizer build)

@st.composite
def histories(draw):
    c = draw(c09.graphs(max_n=draw(st.sampled_from([6, 12, 40]))))
    c["ops"] = draw(st.lists(st.sampled_from(["mec", "scc", "fwd", "bwd", "succ", "pred", "partial", "rebuild", "form"]), min_size=1, max_size=8))
    return c


def run_ops(case, ctx):
    m = M.build(case)
    n = case["n"]
    for op in case["ops"]:
        if op == "mec":
            m.maximal_end_components()
        elif op == "scc":
            m.strongly_connected_components()
        elif op == "fwd":
            m.reachable_mask(set(case["from"]), "forward", set(case["block"]))
        elif op == "bwd":
            m.reachable_mask(set(case["from"]), "backward", set(case["block"]))
        elif op == "succ":
            for s in range(n):
                list(m.successors(s))
        elif op == "pred":
            for s in range(n):
                list(m.predecessors(s))
        elif op == "partial":
            # an iterator that is kept while its model is replaced
            it = m.predecessors(case["from"][0])
            m = M.build(case)
            gc.collect()
            list(it)
        elif op == "rebuild":
            m = M.build(case)
        elif op == "form":
            from switss.model import ReachabilityForm
            c = dict(case)
            t = case["from"][0]
            back = sorted(M.backward(case, [t]))
            c["labels"] = {"init": [back[0]], "target": [t]}
            ReachabilityForm.reduce(M.build(c), "init", "target")
    ctx.nontrivial(n >= 3 and len(case["ops"]) >= 2)
    ctx.tag(*set(case["ops"]))
    c09.run(dict(case), ctx) if n <= 12 else None


# ------------------------------------------------------------------ deep and wide models

SHAPES = ["line", "ring", "comb", "backline", "star", "ladder", "dense"]


@st.composite
def deep(draw):
    shape = draw(st.sampled_from(SHAPES))
    n = draw(st.sampled_from([2000, 20000, 70000])) + draw(I(0, 50))
    if shape in ("dense",):
        n = draw(I(50, 250))
    if shape == "star":
        n = min(n, 6000)
    return {"shape": shape, "n": n, "rot": draw(I(0, 1000)), "rev": draw(M.BOOL), "rseed": draw(I(0, 500)), "mec": draw(M.BOOL)}


def edges(shape, n):
    """rows: list of lists of (dest, prob); -> also the expected component structure ('one', 'single', or None)"""
    last = [(n - 1, 1.0)]
    if shape == "line":
        return [[(i + 1, 1.0)] for i in range(n - 1)] + [last], "single"
    if shape == "ring":
        return [[((i + 1) % n, 1.0)] for i in range(n)], "one"
    if shape == "comb":        # every state may also fall to the last one
        return [[(i + 1, 0.5), (n - 1, 0.5)] if i < n - 2 else [(n - 1, 1.0)] for i in range(n - 1)] + [last], "single"
    if shape == "backline":    # long cycle with chords
        return [[((i + 1) % n, 0.5), ((i - 1) % n, 0.5)] for i in range(n)], "one"
    if shape == "star":
        return [[(0, 1.0)] for i in range(n - 1)] + [last], "single"
    if shape == "ladder":
        return [[(i + 1, 0.25), (i + 2, 0.75)] if i < n - 2 else [(n - 1, 1.0)] for i in range(n - 1)] + [last], "single"
    return [[(j, 1.0 / n) for j in range(n)] for i in range(n)], "one"


def run_deep(case, ctx):
    import numpy as np
    from scipy.sparse import csr_matrix
    from switss.model import DTMC
    n = case["n"]
    rows, expect = edges(case["shape"], n)
    ren = [(i + case["rot"]) % n for i in range(n)]
    if case["rev"]:
        ren = [n - 1 - x for x in ren]
    ii = [ren[i] for i, r in enumerate(rows) for _ in r]
    jj = [ren[d] for r in rows for d, _ in r]
    vv = [p for r in rows for _, p in r]
    m = DTMC(csr_matrix((vv, (ii, jj)), shape=(n, n)))
    vec, cnt = m.strongly_connected_components()
    if expect == "one":
        require(cnt == 1 and not np.any(np.asarray(vec)), "scc", lambda: "%s: %s components" % (case, cnt))
    else:
        require(cnt == n and len(set(np.asarray(vec).tolist())) == n, "scc", lambda: "%s: %s components" % (case, cnt))
    # MECs of the shapes below need few rounds
    if case["mec"] and case["shape"] in ("line", "ring", "backline", "star", "dense") and n <= 21000:
        vec, proper, cnt = m.maximal_end_components()
        if expect == "one":
            require(cnt == 1 and list(proper) == [1], "mec", lambda: "%s: %s components, proper %s" % (case, cnt, proper))
        else:
            k = 1 if case["shape"] != "star" else 2
            require(cnt == n and sum(proper) == k, "mec", lambda: "%s: %s components, %s proper" % (case, cnt, sum(proper)))
    fwd = m.reachable_mask({ren[0]}, "forward")
    bwd = m.reachable_mask({ren[n - 1]}, "backward")
    if expect == "one":
        require(all(fwd) and all(bwd), "reach", str(case))
    elif case["shape"] != "star":
        require(all(fwd) and all(bwd), "reach", str(case))
    if case["shape"] == "star":
        require(sum(m.reachable_mask({ren[0]}, "backward")) == n - 1, "reach", str(case))
    ctx.tag(case["shape"], "n>%d" % (10 ** (len(str(n)) - 1)))
    ctx.nontrivial(n >= 2000 or case["shape"] == "dense")


# ------------------------------------------------------------------ memory growth

class _Mall(ctypes.Structure):
    _fields_ = [(f, ctypes.c_size_t) for f in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Mall


def in_use():
    mi = _libc.mallinfo2()
    return mi.uordblks + mi.hblkhd


@st.composite
def repeats(draw):
    c = draw(c09.graphs(max_n=16))
    c["q"] = draw(st.sampled_from(["mec", "mec", "scc", "fwd", "bwd", "succ", "pred", "build"]))
    return c


REP = 60


def run_growth(case, ctx):
    m = M.build(case)
    n = case["n"]
    P, idx, kind = m.P, m.index_by_state_action, case["kind"]
    from switss.utils import Graph

    def once():
        q = case["q"]
        if q == "mec":
            m.maximal_end_components()
        elif q == "scc":
            m.strongly_connected_components()
        elif q == "fwd":
            m.reachable_mask({0}, "forward")
        elif q == "bwd":
            m.reachable_mask({n - 1}, "backward")
        elif q == "succ":
            for s in range(n):
                for x in m.successors(s):
                    pass
        elif q == "pred":
            for s in range(n):
                for x in m.predecessors(s):
                    pass
        elif q == "build":
            M.build(case)
    set_native_seed(case["rseed"])
    for _ in range(5):
        once()
    gc.collect()
    marks = [in_use()]
    for k in range(4):
        for _ in range(REP):
            once()
        gc.collect()
        marks.append(in_use())
    d = [b - a for a, b in zip(marks, marks[1:])]
    # the smallest block malloc hands out has 32 bytes: a leak of one block per call shows as 32*REP bytes per round
    require(min(d) < 16 * REP, "memory-growth", lambda: "%s on %d states: heap grows by %s bytes over rounds of %d calls" % (case["q"], n, d, REP))
    ctx.tag(case["q"])
    ctx.nontrivial(n >= 3)


# ------------------------------------------------------------------ internal seeds

@st.composite
def seeded(draw):
    c = draw(c09.graphs(max_n=14))
    c["seeds"] = draw(st.lists(I(0, 100000), min_size=3, max_size=8))
    return c


def canon(vec):
    first = {}
    return tuple(first.setdefault(int(x), len(first)) for x in vec)


def run_seeds(case, ctx):
    m = M.build(case)
    seen = set()
    for s in case["seeds"]:
        set_native_seed(s)
        vec, proper, cnt = m.maximal_end_components()
        sv, sc = m.strongly_connected_components()
        seen.add((canon(vec), int(cnt), tuple(int(proper[x]) for x in vec), canon(sv), int(sc)))
    require(len(seen) == 1, "seed-dependent", lambda: "seeds %s give different results: %s" % (case["seeds"], seen))
    ctx.nontrivial(case["n"] >= 4)


CHECKS = [
    Check("asan", histories, run_ops, 2400, 100000,
          "histories of graph queries and rebuilds on random models with at most 40 states, extension modules built with AddressSanitizer (results of small ones also compared with the reference); "
          "non-trivial: at least 3 states and 2 operations", flavour="asan"),
    Check("deep", deep, run_deep, 64, 3000,
          "lines, rings, combs, ladders, stars, chorded rings with up to 70000 states, dense graphs with up to 250, under random renumberings; non-trivial: all but trivial sizes", shrink=True),
    Check("growth", repeats, run_growth, 600, 20000,
          "one query repeated 240 times on random models with at most 16 states while the bytes in use by malloc are tracked; non-trivial: at least 3 states"),
    Check("seeds", seeded, run_seeds, 1000, 50000, "components computed under 3-8 internal random seeds; non-trivial: at least 4 states"),
]

"""C20: the tree decomposition algorithm returns the size of the smallest witnessing subsystem.

tree_decomp is compiled from the working tree (setup.py --with-treealg); graph_tool, dd and more_itertools are absent
here and replaced by stand-ins (harness/standins) that implement the documented behaviour of what is used."""
import contextlib, io, itertools
from hypothesis import strategies as st
from ..core import Check, Inconclusive, oracle, require
from .. import models as M
from ..models import I, BOOL

NPARTS = st.sampled_from([2, 3, 3, 4, 1, 5])
SHAPE = st.sampled_from(["tree", "chain", "tree", "star", "comb"])
W = st.sampled_from([1, 2, 3, 1, 5, 40])


@st.composite
def cases(draw, max_n=9):
    k = draw(NPARTS)
    shape = draw(SHAPE)
    parent = [-1]
    for i in range(1, k):
        parent.append(i - 1 if shape == "chain" else 0 if shape == "star" else max(0, i - 2) if shape == "comb" else draw(I(0, i - 1)))
    left = max_n - k
    wide = draw(I(0, 2)) == 0         # few large partitions instead of many small ones
    if wide:
        k = min(k, 3)
        parent = parent[:k]
    sizes = []
    for i in range(k):
        x = draw(I(0, min(left, 2 if k > 1 and not wide else 6)))
        left -= x
        sizes.append(1 + x)
    parts, n = [], 0
    for z in sizes:
        parts.append(list(range(n, n + z)))
        n += z
    sink, rows = n, []
    kids = [[j for j in range(k) if parent[j] == i] for i in range(k)]
    targets = []
    must = {}                      # edges that make every state reachable
    # the last state of every leaf and of some other partitions is a target
    tgts = [own[-1] if not kids[i] or (len(own) > 1 and draw(I(0, 2)) == 0) else None for i, own in enumerate(parts)]
    inner = [own[:-1] if tgts[i] is not None and len(own) > 1 else own for i, own in enumerate(parts)]
    for i in range(k):
        if i:
            must.setdefault(draw(st.sampled_from(inner[parent[i]])), []).append(draw(st.sampled_from(inner[i])))
        for j, s in enumerate(inner[i][1:]):
            if draw(I(0, 3)):
                must.setdefault(inner[i][draw(I(0, j))], []).append(s)
    for i in range(k):
        own = parts[i]
        tgt = tgts[i]
        if tgt is not None:
            targets.append(tgt)
        below = [s for j in kids[i] for s in parts[j]]
        for s in own:
            if s == tgt:
                rows.append([s, 0, [[s, 1]]])
                continue
            ds = {d: draw(W) for d in must.get(s, [])}
            if tgt is not None and draw(BOOL):
                ds[tgt] = draw(W)
            if draw(BOOL) or len(own) > 1:
                for d in draw(st.lists(st.sampled_from(own), min_size=0, max_size=3)):
                    ds[d] = draw(W)
            if below:
                for d in draw(st.lists(st.sampled_from(below), min_size=2 if wide else 0, max_size=3)):
                    ds[d] = draw(W)
            if draw(I(0, 3)) == 0 or not ds:
                ds[sink] = draw(W)
            rows.append([s, 0, sorted([d, w] for d, w in ds.items())])
    rows.append([sink, 0, [[sink, 1]]])
    c = {"kind": "dtmc", "n": n + 1, "rows": rows, "alabels": {}, "rewards": None, "rseed": 1,
         "labels": {"init": [draw(st.sampled_from(parts[0]))], "target": targets}}
    if draw(BOOL):
        sigma = draw(st.permutations(range(n + 1)))
        c = M.rename_states(c, sigma)
        parts = [[sigma[s] for s in p] for p in parts]
        # the row of a state is the one with its number
        c["rows"] = sorted(c["rows"])
    order = draw(st.permutations(range(k)))
    c["parts"] = [parts[i] for i in order]
    c["scramble"] = draw(st.sampled_from([None, None, None, 1, 2]))
    c["pick"] = draw(I(0, 11))
    c["delta"] = draw(st.sampled_from(["middle", "middle", "1e-9", "1e-4", "middle", "above"]))
    c["mode"] = draw(st.sampled_from(["min", "max"]))
    c["bound"] = draw(st.sampled_from(["n", "exact", None, "exact", "n+3"]))
    c["timeout"] = draw(st.sampled_from([None] * 8 + [600, 600, 1e-9]))
    c["container"] = draw(st.sampled_from(["list", "tuple", "set", "array"]))
    return c


@oracle
def best_values(P, t, init):
    """best[k] = largest probability of reaching the target within a subsystem of k states"""
    import numpy as np
    N = len(t)
    best = [0.0] * (N + 1)
    others = [s for s in range(N) if s != init]
    for k in range(1, N + 1):
        S = np.array([(init,) + x for x in itertools.combinations(others, k - 1)])
        A = np.eye(k)[None] - P[S[:, :, None], S[:, None, :]]
        best[k] = float(np.linalg.solve(A, t[S][:, :, None])[:, 0, 0].max())
    return best


def run(case, ctx):
    import numpy as np
    from switss.problem import TreeAlgo
    f = M.forward(case, case["labels"]["init"])
    if not set(case["labels"]["target"]) & f:
        ctx.tag("no-target-reachable")
        return
    m, rf, smap, amap = M.reduce(case)
    N = rf.P.shape[1]
    P, t = np.zeros((N, N)), np.zeros(N)
    raw, tt = rf.P.toarray(), np.asarray(rf.to_target).ravel()
    for (s, a), r in rf.index_by_state_action.items():
        if s < N and r < raw.shape[0]:
            P[s], t[s] = raw[r], tt[r]
    parts = [[int(smap[s]) for s in p if s in smap and int(smap[s]) < N] for p in case["parts"]]
    parts = [p for p in parts if p]
    require(sorted(s for p in parts for s in p) == list(range(N)), "state-map", "the state map of reduce covers %s of %d states" % (parts, N))
    best = best_values(P, t, int(rf.initial))
    ks = [k for k in range(1, N + 1) if best[k] > best[k - 1] + 1e-3]
    if not ks:
        ctx.tag("tiny-probability")
        return
    k = ks[case["pick"] % len(ks)]
    if case["delta"] == "above":
        k, thr = None, min(1.0, best[N] + 5e-3)
        if thr - best[N] < 2e-3:
            ctx.tag("probability-one")
            return
    elif case["delta"] == "middle":
        thr = (best[k] + best[k - 1]) / 2
    else:
        # without a bound an LP solver decides about feasibility first: not asked closer than its tolerance
        thr = best[k] - (float(case["delta"]) if case["bound"] is not None else 1e-4)
    bound = {"n": N, "exact": k or N, None: None, "n+3": N + 3}[case["bound"]]
    mk = {"list": list, "tuple": tuple, "set": set, "array": np.array}[case["container"]]
    tm = case.get("timeout")
    kw = {} if tm is None else {"timeout": tm}
    with contextlib.redirect_stdout(io.StringIO()):
        alg = TreeAlgo([mk(p) for p in parts], known_upper_bound=bound)
        require(alg.details["type"] == "TreeAlgo", "details", str(alg.details))
        res = list(alg.solveiter(rf, thr, case["mode"], **kw))
        last = TreeAlgo([mk(p) for p in parts], known_upper_bound=bound).solve(rf, thr, case["mode"], **kw)
    desc = lambda: "partition %s, threshold %r, best values by size %s, known_upper_bound %s, timeout %s: results %s" % (parts, thr, best[1:], bound, tm, [(r.status, r.value) for r in res])
    if tm is not None and tm < 1 and len(res) == 1 and res[0].status == "notsolved":
        require(res[0].value is None and res[0].subsystem is None, "timeout-result", desc)
        ctx.tag("timeout")
        return
    if tm is not None and tm < 1:
        last = res[-1]
    require(len(res) == 1, "several-results", desc)
    require((last.status, last.value) == (res[0].status, res[0].value), "solve-differs", desc)
    if k is None:
        require(res[0].status != "success" and res[0].value is None, "infeasible-solved", desc)
        ctx.tag("infeasible")
    else:
        require(res[0].status == "success", "not-solved", desc)
        require(res[0].value == k, "not-minimal" if res[0].value > k else "too-small", desc)
        ctx.tag("needs-all" if k == N else "smaller")
    ctx.tag("parts-%d" % len(parts), "bound-%s" % case["bound"])
    # interface states per partition
    dims = [sum(1 for s in p if any(P[q, s] > 0 for q in range(N) if q not in p)) for p in parts]
    ctx.tag("interface-%d" % max(dims))
    kids = [sum(1 for q in range(len(parts)) if q != i and any(P[a, b] > 0 for a in parts[i] for b in parts[q])) for i in range(len(parts))]
    if max(kids) >= 2:
        ctx.tag("branching")
    ctx.nontrivial(len(parts) >= 2 and N >= 4)


# ------------------------------------------------------------------ graphs and quotients

@st.composite
def graphs(draw):
    n = draw(I(1, 8))
    k = draw(I(1, min(4, n)))
    lab = [draw(I(0, k - 1)) for _ in range(n)]
    edges = [[draw(I(0, n - 1)), draw(I(0, n - 1))] for _ in range(draw(I(0, 14)))]
    sub = lambda: sorted(draw(st.sets(I(0, n - 1), max_size=5)), key=lambda x: (x * 5 + 3) % 7)
    return {"n": n, "k": k, "lab": lab, "edges": edges, "s1": sub(), "s2": sub(), "kind": draw(st.sampled_from(["list", "set", "tuple"]))}


def run_graphs(case, ctx):
    from scipy.sparse import dok_matrix
    from switss.utils.graph_utils import underlying_graph, quotient, interface
    n, k = case["n"], case["k"]
    P = dok_matrix((n, n))
    for i, (a, b) in enumerate(case["edges"]):
        P[a, b] = (i + 1) / 16
    E = {(a, b): (max(i for i, e in enumerate(case["edges"]) if e == [a, b]) + 1) / 16 for a, b in case["edges"]}
    desc = lambda: str(case)
    G = underlying_graph(P)
    require(G.num_vertices() == n, "vertices", desc)
    require(sorted((int(e.source()), int(e.target())) for e in G.edges()) == sorted(E), "edges", desc)
    parts = [[v for v in range(n) if case["lab"][v] == p] for p in range(k)]
    Q, labeling, inter = quotient(G, parts)
    require(Q.num_vertices() == k, "quotient-vertices", desc)
    require([int(labeling[G.vertex(v)]) for v in range(n)] == case["lab"], "labeling", desc)
    want = {(case["lab"][a], case["lab"][b]) for a, b in E if case["lab"][a] != case["lab"][b]}
    got = [(int(e.source()), int(e.target())) for e in Q.edges()]
    require(len(got) == len(set(got)) and set(got) == want, "quotient-edges", lambda: "%s: %s, expected %s" % (case, got, want))
    require({v for v in range(n) if inter[G.vertex(v)]} == {b for a, b in E if case["lab"][a] != case["lab"][b]}, "interface-states", desc)
    mk = {"list": list, "set": set, "tuple": tuple}[case["kind"]]
    s1, s2 = mk(case["s1"]), mk(case["s2"])
    if s1 and s2:
        B, m1, m2 = interface(s1, s2, P)
        require(B.shape == (len(s1), len(s2)) and sorted(m1) == sorted(s1) and sorted(m2) == sorted(s2) and sorted(m1.values()) == list(range(len(s1))) and sorted(m2.values()) == list(range(len(s2))), "interface-maps", lambda: "%s: %s %s %s" % (case, B.shape, m1, m2))
        for a in s1:
            for b in s2:
                require(B[m1[a], m2[b]] == E.get((a, b), 0), "interface-matrix", lambda: "%s: entry %s %s is %s" % (case, a, b, B[m1[a], m2[b]]))
    ctx.tag("parts-%d" % k)
    ctx.nontrivial(k >= 2 and len(want) > 0 and any(a in s1 and b in s2 for a, b in E))


RULE = ("random DTMCs with a partition whose quotient is a tree (chains, stars, random trees of up to 5 partitions, several interface states, targets and leaks anywhere, renumbered states and permuted "
        "partitions), thresholds between/just below the values attainable with k states and above all of them, all ways to give the upper bound; the size is compared with brute force over all "
        "state subsets; non-trivial: at least 2 partitions and 4 states")
CHECKS = [
    Check("size", cases, run, 8000, 300000, RULE, flavour="tree"),
    Check("quotient", graphs, run_graphs, 3000, 60000, "the graph of a random matrix, its quotient by a random partition, interface states and the matrix between two sets of states, against their definitions; "
          "non-trivial: at least 2 parts, an edge between parts and one between the sets", flavour="tree"),
    Check("memory", cases, run, 800, 30000, RULE + " (AddressSanitizer build)", flavour="treeasan"),
]

"""Large models from few drawn parameters: a case holds {"big": {...}} and is expanded by a seeded generator (so that cases,
samples and replays stay small). The structure keeps the numbers well-conditioned: every state moves towards the absorbing end
with good probability."""
import random
from hypothesis import strategies as st
from . import models as M
from .models import I

SIZES = [60, 130, 40, 260, 90, 300, 150, 200]


@st.composite
def params(draw, sizes=SIZES, kind=None, ecfree=False, all_reach=False, rewards=False, labels=True):
    n = draw(st.sampled_from(sizes)) + draw(I(0, 9))
    return {"n": n, "kind": kind or draw(st.sampled_from(["dtmc", "mdp"])), "seed": draw(I(0, 10**6)),
            "shape": draw(st.sampled_from(["layers", "wide", "chain", "random"])), "ecfree": ecfree or draw(M.BOOL), "all_reach": all_reach,
            "targets": draw(st.sampled_from([1, 3, 20])), "lost": draw(st.sampled_from([0.0, 0.05, 0.3])) if not all_reach else 0.0,
            "actions": draw(st.sampled_from([2, 3, 1])), "hubs": draw(st.sampled_from([0, 0, 1, 3])), "order": draw(st.sampled_from(["random", "sorted"])),
            "rewards": rewards if rewards != "maybe" else draw(M.BOOL), "labels": labels}


def expand(p):
    r = random.Random(p["seed"])
    n, kind = p["n"], p["kind"]
    perm = list(range(n))
    if p["order"] == "random":
        r.shuffle(perm)
    nt = min(p["targets"], n // 4)
    nsink = 0 if p["all_reach"] else min(3, n // 8)
    end = nt + nsink                      # positions below `end` absorb: targets first
    width = {"layers": max(3, n // 12), "wide": n, "chain": 4, "random": n}[p["shape"]]
    pos = {s: k for k, s in enumerate(perm)}

    def lower(k):
        """a position nearer to the end; with 'chain' progress comes in long jumps as well, so that depths stay small"""
        if p["shape"] == "chain" and r.random() < 0.6 and k > end:
            return max(end, k - r.randint(1, width)) if k - end > width else r.randrange(nt)
        if k <= end or r.random() < 0.15:
            return r.randrange(nt)
        return max(end, k - r.randint(1, width)) if p["shape"] != "random" else r.randrange(end, k)

    rows = []
    hubs = set(perm[n - 1 - r.randrange(n // 2)] for _ in range(p.get("hubs", 0)))      # states with many successors, actions or predecessors
    for s in range(n):
        k = pos[s]
        if k < end:
            rows.append([s, 0, [[s, 1]]])
            continue
        na = 1 if kind == "dtmc" else r.randint(1, p["actions"]) if s not in hubs else r.choice([1, 2, 15])
        acts = sorted(r.sample(range(20), na)) if kind == "mdp" and r.random() < 0.1 else list(range(na))
        for j, a in enumerate(acts):
            ds = {}
            if p["ecfree"] or j == 0:
                ds[perm[lower(k)]] = r.randint(2, 6)
            for _ in range(r.choice([0, 1, 1, 2, 3] if ds else [1, 1, 2])):
                if p["shape"] in ("layers", "chain"):
                    d = perm[min(n - 1, max(end, k + r.randint(-width, width)))]
                else:
                    d = perm[r.randrange(end, n)]
                ds.setdefault(d, r.randint(1, 3))
            if s in hubs and r.random() < 0.7:
                for d in r.sample(range(end, n), min(n - end, r.choice([25, 40, 120]))):
                    ds.setdefault(perm[d], 1 if p["ecfree"] else r.randint(1, 3))
                if p["ecfree"] or j == 0:
                    ds[perm[lower(k)]] = len(ds)       # half of the probability moves on
            elif hubs and r.random() < 0.2:
                ds.setdefault(min(hubs), 1)
            if nsink and r.random() < p["lost"]:
                ds.setdefault(perm[nt + r.randrange(nsink)], 1)
            ds = [[d, w] for d, w in ds.items()]
            r.shuffle(ds)
            rows.append([s, a, ds])
    if p["order"] == "random" and kind == "mdp":
        r.shuffle(rows)
    if kind == "dtmc":
        rows.sort()
    labels = {"init": [perm[n - 1]], "target": sorted(perm[:nt])}
    alabels = {}
    if p["labels"]:
        for l in ("a", "b", "c"):
            labels[l] = sorted(r.sample(range(n), r.choice([0, 1, n // 3, n])))
        if kind == "mdp":
            for l in ("x", "y"):
                alabels[l] = sorted([q, a] for q, a, _ in rows if r.random() < 0.3)
    rv = [r.choice([0.0, 1.0, 2.5, 0.125]) for _ in rows] if p["rewards"] else None
    return {"kind": kind, "n": n, "rows": rows, "labels": labels, "alabels": alabels, "rewards": rv, "rseed": p["seed"] % 1000}


def full(case):
    """the case with its model spelled out"""
    if "big" not in case:
        return case
    c = dict(expand(case["big"]))
    c.update({k: v for k, v in case.items() if k != "big"})
    return c

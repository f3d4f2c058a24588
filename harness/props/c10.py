"""C10: saving and loading; explicit files."""
import os, tempfile
from hypothesis import strategies as st
from ..core import Check, require
from .. import models as M, big
from ..models import I

# a label in a .lab file is delimited by double quotes and lines by line ends: labels cannot contain those
LABEL = st.one_of(st.sampled_from(["init", "a b", "x=1", "0", "17", "", " ", "a,b", "[go]", "1:2", "a:", "ü", "日本", "#", "a'b", "\\", "a=b c=d", "0=", "%d", "label with spaces", "deadlock", "=", "!", "\t"]),
                  st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_characters='"\x85\u2028\u2029', exclude_categories=("Cs", "Cc")), max_size=8))
SCALE = st.sampled_from([1, 1, 1, 3, 1000, 1e-3, 1e-6, 1e-9, 1e5, 7 / 3.0])


@st.composite
def cases(draw):
    c = draw(M.model(max_n=8, min_n=1, max_actions=3, max_succ=4))
    c["rows"] = [[s, a, [[d, w * draw(SCALE)] for d, w in ds]] for s, a, ds in c["rows"]]
    labels = {}
    for l in draw(st.lists(LABEL, unique=True, max_size=5)):
        labels[l] = sorted(draw(st.sets(I(0, c["n"] - 1), max_size=c["n"])))
    if draw(M.BOOL):
        labels.update({k: v for k, v in c["labels"].items()})
    c["labels"] = labels
    c["twice"] = draw(M.BOOL)
    return c


@st.composite
def large(draw):
    p = draw(big.params(sizes=[60, 130, 300, 700, 1500]))
    return {"big": p, "rseed": p["seed"] % 1000, "twice": draw(M.BOOL)}


def triples(m):
    r = {}
    for (i, d), p in m.P.items():
        if p != 0:
            s, a = m.index_by_state_action.inv[int(i)]
            r[(int(s), int(a), int(d))] = float(p)
    return r


def compare(case, m2, exact, what):
    exp = {(s, a, d): p for s, a, ds in case["rows"] for d, p in M.row_probs([s, a, ds]).items()} if exact is None else exact
    require(int(m2.N) == case["n"], "states", lambda: "%s: %s states, expected %s" % (what, m2.N, case["n"]))
    pairs = {(s, a) for s, a, _ in exp}
    idx = {(int(s), int(a)): int(i) for (s, a), i in m2.index_by_state_action.items()}
    require(set(idx) == pairs and sorted(idx.values()) == list(range(len(pairs))) and int(m2.C) == len(pairs), "state-action-pairs", lambda: "%s: %s, expected %s" % (what, idx, sorted(pairs)))
    got = triples(m2)
    require(set(got) == set(exp), "transitions", lambda: "%s: %s, expected %s" % (what, sorted(got), sorted(exp)))
    for k, p in exp.items():
        require(abs(got[k] - p) <= 1e-15 * max(1.0, 0) + 1e-14 * p, "probability", lambda: "%s: %s has %r, expected %r" % (what, k, got[k], p))
    exp = case["labels"]
    require(set(m2.states_by_label.keys()) == set(exp), "labels", lambda: "%s: %s, expected %s" % (what, sorted(m2.states_by_label.keys()), sorted(exp)))
    for l, ss in exp.items():
        require({int(s) for s in m2.states_by_label[l]} == set(ss), "label-states", lambda: "%s: %r at %s, expected %s" % (what, l, m2.states_by_label[l], ss))
    for s in range(case["n"]):
        require(set(m2.labels_by_state[s]) == {l for l, ss in exp.items() if s in ss}, "state-labels", lambda: "%s: state %d %s" % (what, s, m2.labels_by_state[s]))


def run(case, ctx):
    case = big.full(case)
    m = M.build(case)
    exact = triples(m)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "some.model" if case["rseed"] % 2 else "model")
        tra, lab = m.save(p)
        require(tra == p + ".tra" and lab == p + ".lab" and os.path.exists(tra) and os.path.exists(lab), "paths", "%s %s" % (tra, lab))
        m2 = type(m).from_file(lab, tra)
        require(type(m2) is type(m), "type", "")
        if case["twice"]:
            tra, lab = m2.save(os.path.join(d, "again"))
            m2 = type(m).from_file(lab, tra)
        head = open(tra).readline().split()
        require(head == [str(case["n"])] + ([] if case["kind"] == "dtmc" else [str(len(case["rows"]))]) + [str(len(exact))], "header", str(head))
        require(len([l for l in open(tra).read().split("\n") if l]) == len(exact) + 1, "lines", "")
    compare(case, m2, exact, "saved and loaded")
    ctx.tag(case["kind"])
    ctx.nontrivial(case["n"] >= 2 and len(exact) > len(case["rows"]) and len(case["labels"]) >= 1)


# ------------------------------------------------------------------ files of other tools

ACT = st.sampled_from([None, "a", "go", "[x]", "reset_1", "τ"])


@st.composite
def files(draw):
    c = draw(M.model(max_n=8, min_n=1, max_actions=3, max_succ=4))
    labels = {}
    for l in draw(st.lists(st.sampled_from(["init", "deadlock", "goal", "end", "x_1", "longer_label"]), unique=True, max_size=5)):
        labels[l] = sorted(draw(st.sets(I(0, c["n"] - 1), max_size=c["n"])))
    c["labels"] = labels
    c["fmt"] = draw(st.sampled_from(["r", "g17", "e", "dec"]))
    c["acts"] = [draw(ACT) for _ in c["rows"]] if draw(M.BOOL) else [None] * len(c["rows"])
    c["order"] = draw(st.sampled_from(["sorted", "rows", "interleaved"]))
    c["labstart"] = draw(st.sampled_from([0, 0, 1, 7]))
    c["laborder"] = draw(M.BOOL)
    c["trail"] = draw(M.BOOL)
    return c


def num(p, fmt):
    return {"r": repr(p), "g17": "%.17g" % p, "e": "%.17e" % p, "dec": "%.19f" % p}[fmt]


def run_files(case, ctx):
    from switss.model import DTMC, MDP
    cls = DTMC if case["kind"] == "dtmc" else MDP
    lines = []
    exact = {}
    for i, (s, a, ds) in enumerate(case["rows"]):
        for k, (d, p) in enumerate(M.row_probs([s, a, ds]).items()):
            t = num(p, case["fmt"])
            exact[(s, a, d)] = float(t)
            if cls is DTMC:
                lines.append((s, k, a, "%d %d %s" % (s, d, t)))
            else:
                lines.append((s, k, a, "%d %d %d %s" % (s, a, d, t) + (" " + case["acts"][i] if case["acts"][i] else "")))
    if case["order"] == "sorted":
        lines.sort(key=lambda x: (x[0], x[2], x[1]))
    elif case["order"] == "interleaved":
        lines.sort(key=lambda x: (x[1], x[0], x[2]))
    head = "%d %d" % (case["n"], len(lines)) if cls is DTMC else "%d %d %d" % (case["n"], len(case["rows"]), len(lines))
    end = "\n" if case["trail"] else ""
    names = M.ordered(case, "labels")
    ids = {l: i + case["labstart"] for i, l in enumerate(names)}
    ll = []
    for s in range(case["n"]):
        ls = [ids[l] for l in names if s in case["labels"][l]]
        if case["laborder"]:
            ls.reverse()
        if ls:
            ll.append("%d: %s" % (s, " ".join(map(str, ls))))
    if case["laborder"]:
        ll.reverse()
    with tempfile.TemporaryDirectory() as d:
        tra, lab = os.path.join(d, "m.tra"), os.path.join(d, "m.lab")
        with open(tra, "w", encoding="utf-8") as f:
            f.write("\n".join([head] + [x[3] for x in lines]) + end)
        with open(lab, "w", encoding="utf-8") as f:
            f.write("\n".join([" ".join('%d="%s"' % (ids[l], l) for l in names)] + ll) + (end if ll else "\n"))
        m = cls.from_file(lab, tra)
        from switss.prism.prism import parse_label_file
        sbl, lbs, idl = parse_label_file(lab)
    compare(case, m, exact, "read")
    require({l: set(s) for l, s in sbl.items()} == {l: set(s) for l, s in case["labels"].items()}, "parse-label-file", lambda: "%s" % sbl)
    require({s: x for s, x in lbs.items() if x} == {s: {l for l in names if s in case["labels"][l]} for s in range(case["n"]) if any(s in case["labels"][l] for l in names)}, "parse-label-file", lambda: "%s" % lbs)
    require(idl == {i: l for l, i in ids.items()}, "parse-label-file", lambda: "%s" % idl)
    if cls is MDP:
        exp = {}
        for i, (s, a, ds) in enumerate(case["rows"]):
            if case["acts"][i]:
                exp.setdefault(case["acts"][i], set()).add((s, a))
        got = {l: set(v) for l, v in m.actions_by_label.items()}
        require(got == exp, "action-labels", lambda: "%s, expected %s" % (got, exp))
        for i, (s, a, ds) in enumerate(case["rows"]):
            require(set(m.labels_by_action[(s, a)]) == ({case["acts"][i]} if case["acts"][i] else set()), "action-labels", lambda: "of %s" % ((s, a),))
    ctx.tag(case["kind"], case["order"], case["fmt"])
    ctx.nontrivial(case["n"] >= 2 and len(lines) > len(case["rows"]))


CHECKS = [
    Check("roundtrip", cases, run, 6000, 200000,
          "random models with permuted rows, gaps in the action numbering, probabilities down to 1e-12, and arbitrary label texts (no line ends or double quotes, which the format cannot hold), saved and loaded once or twice; "
          "non-trivial: at least 2 states, a row with several entries, a label"),
    Check("roundtrip-large", large, run, 40, 2000, "the same with 60 to 1500 states (seeded generator)"),
    Check("files", files, run_files, 4000, 150000,
          "explicit files written by an independent writer in several number formats and row orders, with action labels and arbitrary label ids; non-trivial: at least 2 states and a row with several entries"),
]

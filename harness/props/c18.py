"""C18: PRISM and storm models are imported faithfully. stormpy and PRISM are replaced by stand-ins that implement the part
of their documented interface that an importer needs."""
import contextlib, io, os, re, shutil, stat, tempfile
from hypothesis import strategies as st
from ..core import Check, require, Violation
from .. import models as M
from ..models import I
from . import c10

LAB = ["init", "deadlock", "target", "done", "x=1", "(s = 0)", "a b"]
ALAB = ["go", "stop", "tau", "done", "init", "a_1"]


# ---------------------------------------------------------------- storm

@st.composite
def storm_cases(draw):
    c = draw(M.model(max_n=7, shuffle=True))
    # storm orders its rows by state and numbers the choices of a state from 0
    rows = []
    for s in range(c["n"]):
        k = 0
        for q, a, ds in c["rows"]:
            if q == s:
                rows.append([s, k, ds])
                k += 1
    c["rows"] = rows
    c["labels"] = {l: sorted(draw(st.sets(I(0, c["n"] - 1), max_size=4))) for l in draw(st.lists(st.sampled_from(LAB), unique=True, max_size=4))}
    c["alabels"] = {l: [rows[i][:2] for i in sorted(draw(st.sets(I(0, len(rows) - 1), max_size=4)))] for l in draw(st.lists(st.sampled_from(ALAB), unique=True, max_size=4))}
    c["choice"] = draw(M.BOOL)
    return c


class Labeling:
    def __init__(self, per):
        self.per = per

    def get_labels(self):
        return set().union(*self.per) if self.per else set()

    def get_states(self, l):
        return [i for i, x in enumerate(self.per) if l in x]

    def get_labels_of_state(self, s):
        return set(self.per[s])

    def get_labels_of_choice(self, c):
        return set(self.per[c])

    def has_state_label(self, l, s):
        return l in self.per[s]


class Entry:
    def __init__(self, col, val):
        self.column, self._v = col, val

    def value(self):
        return self._v


class Act:
    def __init__(self, i, tr):
        self.id, self.transitions = i, tr


class State:
    def __init__(self, i, acts):
        self.id, self.actions = i, acts


class Storm:
    """the interface of stormpy.SparseDtmc / SparseMdp"""
    def __init__(self, case):
        n, rows = case["n"], case["rows"]
        self.nr_states, self.nr_choices = n, len(rows)
        self.nr_transitions = sum(len(r[2]) for r in rows)
        self._index = {(r[0], r[1]): i for i, r in enumerate(rows)}
        self.labeling = Labeling([{l for l, ss in case["labels"].items() if s in ss} for s in range(n)])
        self.choice_labeling = Labeling([{l for l, ss in case["alabels"].items() if [r[0], r[1]] in ss} for r in rows])
        self.states = [State(s, [Act(r[1], [Entry(d, p) for d, p in M.row_probs(r).items()]) for r in rows if r[0] == s]) for s in range(n)]
        self.initial_states = case["labels"].get("init", [])

    def has_choice_labeling(self):
        return True

    def get_choice_index(self, s, a):
        return self._index[(s, a)]


def run_storm(case, ctx):
    from switss.model import DTMC, MDP
    cls = DTMC if case["kind"] == "dtmc" else MDP
    n, rows = case["n"], case["rows"]
    labels = {l: set(v) for l, v in case["labels"].items() if v}
    m = cls.from_stormpy(Storm(case))
    require(type(m) is cls and (m.N, m.C) == (n, len(rows)), "size", lambda: "%s %s" % (m.N, m.C))
    exp = {(s, a, d): p for s, a, ds in rows for d, p in M.row_probs([s, a, ds]).items()}
    require(c10.triples(m) == exp, "transitions", lambda: "%s, expected %s" % (c10.triples(m), exp))
    got = {l: {int(s) for s in ss} for l, ss in m.states_by_label.items() if ss}
    require(got == labels, "state-labels", lambda: "%s, expected %s" % (got, labels))
    for s in range(n):
        require(set(m.labels_by_state[s]) == {l for l in labels if s in labels[l]}, "state-labels", lambda: "state %d" % s)
    if cls is MDP:
        al = {l: {tuple(x) for x in v} for l, v in case["alabels"].items() if v}
        got = {l: {(int(s), int(a)) for s, a in ss} for l, ss in m.actions_by_label.items() if ss}
        require(got == al, "action-labels", lambda: "%s, expected %s" % (got, al))
    shared = False
    if cls is MDP and case["choice"]:
        m = cls.from_stormpy(Storm(case), choice_model=True)
        C = len(rows)
        require((m.N, m.C) == (n + C, 2 * C), "choice-model-size", lambda: "%s %s for %d states and %d choices" % (m.N, m.C, n, C))
        # the first N states are the storm states, the following C states are its choices, in storm's order
        succ = {}
        for (s, a, d), p in c10.triples(m).items():
            succ.setdefault(s, {}).setdefault(a, {})[d] = p
        for s in range(n):
            acts = [i for i, r in enumerate(rows) if r[0] == s]
            require(sorted(map(sorted, (x.items() for x in succ[s].values()))) == [[(n + i, 1.0)] for i in acts], "choice-model-entry", lambda: "state %d: %s, choices %s" % (s, succ[s], acts))
            for a, ds in succ[s].items():
                require(ds == {n + m_index(case, s, a): 1.0}, "choice-model-entry", lambda: "state %d action %d: %s" % (s, a, ds))
        for i, r in enumerate(rows):
            require(list(succ[n + i].values()) == [M.row_probs(r)], "choice-model-distribution", lambda: "choice %d: %s, expected %s" % (i, succ[n + i], M.row_probs(r)))
        exp = {}
        for l, ss in labels.items():
            exp.setdefault(l, set()).update(ss)
        for i, r in enumerate(rows):
            for l, v in case["alabels"].items():
                if [r[0], r[1]] in v:
                    exp.setdefault(l, set()).add(n + i)
        exp.setdefault("state", set()).update(range(n))
        exp.setdefault("choice", set()).update(range(n, n + C))
        got = {l: {int(s) for s in ss} for l, ss in m.states_by_label.items() if ss}
        require(got == exp, "choice-model-labels", lambda: "%s, expected %s" % (got, exp))
        shared = True
    ctx.tag(case["kind"], "choice-model" if shared else "model")
    ctx.nontrivial(n >= 2 and len(rows) > n and any(case["alabels"].values()) if cls is MDP else n >= 2 and bool(labels))


def m_index(case, s, a):
    return [i for i, r in enumerate(case["rows"]) if (r[0], r[1]) == (s, a)][0]


# ---------------------------------------------------------------- PRISM

SCRIPT = """#!/bin/sh
# records its arguments and the model it is given; writes prepared files where PRISM would
R="%s"
n=$(cat "$R/calls"); n=$((n+1)); echo $n > "$R/calls"
printf '%%s\\0' "$@" > "$R/args.$n"
pwd > "$R/cwd.$n"
for a in "$@"; do
  case "$a" in
    -*) ;;
    *) if [ ! -e "$R/model.$n" ] && [ -f "$a" ]; then cat "$a" > "$R/model.$n"; fi ;;
  esac
done
echo "PRISM stand-in"
if [ -e "$R/fail" ]; then echo "Error: something is wrong."; exit 1; fi
prev=""
for a in "$@"; do
  case "$prev" in
    -exportmodel|--exportmodel)
      base="${a%%:*}"
      exts="${base##*.}"; stem="${base%%.*}"
      [ "$exts" = all ] && exts="tra,sta,lab,srew,trew"
      IFS=,
      for e in $exts; do [ -e "$R/out.$e" ] && cat "$R/out.$e" > "$stem.$e"; done
      unset IFS ;;
    -exporttrans|-exporttra) cat "$R/out.tra" > "$a" ;;
    -exportlabels) cat "$R/out.lab" > "$a" ;;
    -exportstates) cat "$R/out.sta" > "$a" ;;
  esac
  prev="$a"
done
exit 0
"""

MODELS = ["dtmc\n\nmodule m\n s : [0..2] init 0;\n [] s=0 -> 0.5:(s'=1)+0.5:(s'=2);\nendmodule\n", "mdp\nconst int N;\nmodule m\n x : bool;\n [a] true -> (x'=true);\nendmodule", "// nothing",
          "dtmc // a comment\r\nmodule m\r\nendmodule\r\n", "mdp\nlabel \"old\" = x=1;", "mdp\nlabel \"old\" = x=1; // the end", "", "\n\n\n", "dtmc\nmodule caf\u00e9 // \u00fc\nendmodule // last line", "mdp\nmodule m endmodule\n// almost the end\n   ", "dtmc\n\tmodule m\n\tendmodule\n\t// x"]
EXPR = ["s=1", "observe0>1", "s1=4&s2=4", "s=5 & srep=2", "true", "!x", "x=1 | (y=2 & z>=3)", "s=N", "s1=3\n & s2=3", "\u00fc>=2"]
CNAME = ["N", "MAX", "CrowdSize", "p", "x_1"]


@st.composite
def prism_cases(draw):
    c = draw(M.model(max_n=5))
    c["labels"] = {l: v for l, v in c["labels"].items() if re.fullmatch(r"\w+", l)}
    c["alabels"] = {}
    c["model"] = draw(st.one_of(st.sampled_from(MODELS), st.lists(st.sampled_from(["dtmc", "module m", "// c", "x : [0..1];", "endmodule", " ", "const int N=1;", "\n", "\n", "\r\n", "formula f = 1"]), max_size=12).map(lambda x: " ".join(x))))
    c["const"] = [[k, draw(st.sampled_from([0, 1, 2, 8, 17, -3, 0.5, 0.25, 0.123456789012, 123456789, 2.5e-7, 1234567.5]))] for k in draw(st.lists(st.sampled_from(CNAME), unique=True, max_size=3))]
    c["extra"] = [[k, draw(st.sampled_from(EXPR))] for k in draw(st.lists(st.sampled_from(["target", "uncertain", "all", "goal_2", "gr\u00fcn"]), unique=True, max_size=3))]
    c["form"] = draw(st.sampled_from(["dict", "set", "list", "omit-empty", "dict"]))
    c["fail"] = draw(I(0, 5)) == 0
    c["via"] = draw(st.sampled_from(["tra", "model", "model"]))
    c["dest"] = draw(st.sampled_from(["out", "with space", "a.b", "sub/x"]))
    c["relative"] = draw(I(0, 3)) == 0
    return c


def tokens(text):
    """the text without comments, split at white space and punctuation"""
    text = re.sub(r"//[^\n]*", "", text)
    return re.findall(r"\"[^\"]*\"|\w+|[^\s\w]", text)


def run_prism(case, ctx):
    from switss.model import DTMC, MDP
    from switss.prism.prism import prism_to_tra
    cls = DTMC if case["kind"] == "dtmc" else MDP
    top = tempfile.mkdtemp(prefix="c18-")
    old_path, old_cwd = os.environ["PATH"], os.getcwd()
    try:
        rec, bind, work = (os.path.join(top, x) for x in ("rec", "bin", "work"))
        for x in (rec, bind, work, os.path.join(work, "sub")):
            os.mkdir(x)
        exe = os.path.join(bind, "prism")
        with open(exe, "w") as f:
            f.write(SCRIPT % rec)
        os.chmod(exe, 0o755)
        with open(os.path.join(rec, "calls"), "w") as f:
            f.write("0\n")
        if case["fail"]:
            open(os.path.join(rec, "fail"), "w").close()
        # what PRISM would write
        lines = []
        exact = {}
        for s, a, ds in sorted(case["rows"]):
            for d, p in M.row_probs([s, a, ds]).items():
                exact[(s, a, d)] = p
                lines.append("%d %d %r" % (s, d, p) if cls is DTMC else "%d %d %d %r" % (s, a, d, p))
        names = M.ordered(case, "labels")
        out = {"tra": "\n".join(["%d %d" % (case["n"], len(lines)) if cls is DTMC else "%d %d %d" % (case["n"], len(case["rows"]), len(lines))] + lines) + "\n",
               "lab": "\n".join([" ".join('%d="%s"' % x for x in enumerate(names))] + ["%d: %s" % (s, " ".join(str(i) for i, l in enumerate(names) if s in case["labels"][l])) for s in range(case["n"]) if any(s in v for v in case["labels"].values())]) + "\n",
               "sta": "(s)\n" + "".join("%d:(%d)\n" % (s, s) for s in range(case["n"]))}
        for k, t in out.items():
            with open(os.path.join(rec, "out." + k), "w") as f:
                f.write(t)
        mp = os.path.join(work, "model file.pm")
        data = case["model"].encode("utf-8")
        with open(mp, "wb") as f:
            f.write(data)
        os.environ["PATH"] = bind + ":" + old_path
        os.chdir(work)
        path = os.path.basename(mp) if case["relative"] else mp
        conv = {"dict": dict, "omit-empty": dict, "set": lambda x: set(map(tuple, x)), "list": lambda x: [tuple(y) for y in x]}[case["form"]]
        kw = {"prism_constants": conv(case["const"]), "extra_labels": conv(case["extra"])}
        if case["form"] == "omit-empty":
            kw = {k: v for k, v in kw.items() if v}
        m = res = None
        dest = case["dest"] if case["relative"] else os.path.join(work, case["dest"])
        with contextlib.redirect_stdout(io.StringIO()):
            if case["via"] == "tra":
                res = prism_to_tra(path, dest, **kw)
            else:
                try:
                    m = cls.from_prism_model(path, **kw)
                    res = True
                except AssertionError as e:
                    if not case["fail"]:
                        raise
                    res = False
        ncalls = int(open(os.path.join(rec, "calls")).read())
        require(ncalls == 1, "prism-calls", lambda: "PRISM was called %d times" % ncalls)
        args = open(os.path.join(rec, "args.1"), "rb").read().decode("utf-8").split("\0")[:-1]
        require(os.path.exists(os.path.join(rec, "model.1")), "no-model-file", lambda: "%s" % args)
        given = open(os.path.join(rec, "model.1"), "rb").read()
        require(open(mp, "rb").read() == data, "model-file-changed", "")
        require(sorted(os.listdir(work)) == sorted(["model file.pm", "sub"] + ([] if case["via"] == "model" or case["fail"] or "/" in case["dest"] else [case["dest"] + "." + e for e in ("tra", "sta", "lab")])), "files-left", lambda: "%s" % os.listdir(work))
        # the constants
        consts = []
        for i, a in enumerate(args):
            if a in ("-const", "--const"):
                consts += args[i + 1].split(",")
        require(sorted(consts) == sorted("%s=%s" % (k, v) for k, v in case["const"]), "constants", lambda: "%s, requested %s" % (args, case["const"]))
        # the model: the original text followed by the labels
        require(given.startswith(data), "model-text", lambda: "%r is not a prefix of %r" % (data, given))
        orig, full = tokens(case["model"]), tokens(given.decode("utf-8"))
        rest = full[len(orig):] if full[:len(orig)] == orig else None
        defs = [["label", '"%s"' % k, "="] + tokens(e) + [";"] for k, e in case["extra"]]
        ok = False
        import itertools
        for p in itertools.permutations(defs):
            if rest == [t for d in p for t in d]:
                ok = True
        require(ok, "extra-labels", lambda: "model given to PRISM: %r, requested labels %s" % (given.decode("utf-8"), case["extra"]))
        require(res is (not case["fail"]), "result", lambda: "returned %s, PRISM %s" % (res, "failed" if case["fail"] else "succeeded"))
        if case["via"] == "tra" and not case["fail"]:
            for k, t in out.items():
                require(open("%s.%s" % (dest, k)).read() == t, "exported-file", lambda: "%s.%s" % (dest, k))
        if m is not None:
            require(not case["fail"], "failed-call-accepted", "")
            require(type(m) is cls, "type", "")
            c10.compare(case, m, exact, "imported")
    finally:
        os.environ["PATH"] = old_path
        os.chdir(old_cwd)
        shutil.rmtree(top, ignore_errors=True)
    ctx.tag(case["kind"], case["via"], case["form"], "fails" if case["fail"] else "succeeds", "newline-at-end" if case["model"].endswith("\n") else "no-newline-at-end")
    ctx.nontrivial(bool(case["extra"]) and bool(case["const"]))


CHECKS = [
    Check("storm", storm_cases, run_storm, 3000, 100000,
          "random models presented through a stand-in of stormpy's sparse model interface, as DTMC, MDP and choice model; non-trivial: several states, an MDP with several choices and a labelled choice, or a DTMC with labels"),
    Check("prism", prism_cases, run_prism, 1600, 30000,
          "random model texts (with and without trailing newline or comment), constants and labels as dictionary, set or list of pairs, prism replaced by a recording stand-in that succeeds or fails; non-trivial: at least a constant and an extra label"),
]

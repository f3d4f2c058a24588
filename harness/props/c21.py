"""C21: queries are pure - histories of operations on long-lived objects, compared with freshly built ones."""
import contextlib, copy, io, os
from hypothesis import strategies as st
from ..core import Check, require, Violation, HarnessError
from .. import models as M
from ..models import I

LABELS = ["init", "target", "a", "b", "c", "d", "nope", "rf_target"]
THR = [0.0, 0.05, 0.25, 0.4, 0.6, 0.9, 1.0]
SENSES = ["<=", ">=", "<", ">"]

CHEAP = ["mask", "pred", "succ", "sccs", "mecs", "acts", "lookup", "rlookup", "repr", "digraph", "save", "reduce", "fark", "inec",
         "attrs", "check", "groups", "submask", "subsys", "subdig", "snapshot", "add_label", "open", "step", "rfdigraph", "rmask"]
LPS = ["pr", "maxv", "generate", "milp", "qs", "construct", "qsopen", "bounds", "rew"]


@st.composite
def cases(draw, ops=CHEAP, lps=LPS, max_ops=12, max_lp=5, rewards="maybe"):
    ecfree = draw(M.BOOL)
    c = draw(M.model(max_n=5, rewards=rewards, ecfree=ecfree, all_reach=ecfree and draw(M.BOOL), min_n=2))
    c["form"] = draw(st.sampled_from(["dok", "list", "array", "csr"]))
    c["cert"] = [draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.25, -1e-12])) for _ in range(24)]
    c["iters"] = draw(I(1, 3))
    out, nlp = [], 0
    for _ in range(draw(I(3, max_ops))):
        if nlp < max_lp and lps and draw(I(0, 2)) == 0:
            o = draw(st.sampled_from(lps))
            nlp += 1
        else:
            o = draw(st.sampled_from(ops))
        out.append([o, draw(I(0, 7)), draw(I(0, 7)), draw(I(0, 7))])
    c["ops"] = out
    return c


# ------------------------------------------------------------------ canonical values

def canon(x):
    """plain nested data with the same content"""
    import numpy as np
    from scipy.sparse import issparse
    from switss.utils import InvertibleDict
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if issparse(x):
        return ["M", list(x.shape), x.toarray().tolist()]
    if isinstance(x, np.ndarray):
        return ["V", list(x.shape), np.asarray(x).tolist()]
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ["S"] + sorted((canon(y) for y in x), key=repr)
    if isinstance(x, InvertibleDict):
        return ["I"] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    if hasattr(x, "items"):
        return ["D"] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    raise HarnessError("canon: %r" % (x,))


def partition(vec, extra=None):
    """index vector -> partition of the states (with a value per block)"""
    d = {}
    for s, k in enumerate(vec):
        d.setdefault(int(k), []).append(s)
    return sorted([ss, None if extra is None else bool(extra[k])] for k, ss in d.items())


def same(a, b, tol=1e-7):
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return False
        return abs(a - b) <= tol * (1 + abs(a)) or a == b or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def model_state(m):
    n = m.N
    return [m.N, m.C, canon(m.P), canon(dict(m.index_by_state_action)), canon(dict(m.index_by_state_action.inv)), canon({k: v for k, v in m.states_by_label.items() if v}),
            [canon(m.labels_by_state[s]) for s in range(n)], canon({k: v for k, v in m.actions_by_label.items() if v}),
            [canon(m.labels_by_action[sa]) for sa in sorted(m.index_by_state_action)], [canon(m.actions_by_state[s]) for s in range(n)],
            canon(m.reward_vector) if m.reward_vector is not None else None, canon(sorted(m.states_by_label.keys())),
            [sorted(canon(list(m.successors(s)))) for s in range(n)], [sorted(canon(list(m.predecessors(s)))) for s in range(n)]]


def rf_state(rf):
    return [canon(rf.P), canon(rf.A), canon(rf.to_target), canon(dict(rf.index_by_state_action)), canon(rf.initial), rf.initial_label, rf.target_label, rf.fail_label,
            canon(rf.nr_of_mecs), canon(rf.nr_of_proper_mecs), bool(rf.is_ec_free), partition(rf.state_to_mec, rf.proper_mecs),
            [bool(rf.in_proper_ec(s)) for s in range(rf.P.shape[1])], canon(rf.target_state_idx), canon(rf.fail_sap_idx), model_state(rf.system)]


def rrf_state(r):
    return [canon(r.P), canon(r.A), canon(r.reward_vector), canon(dict(r.index_by_state_action)), canon(r.initial), model_state(r.system)]


class Env:
    """the objects of one history"""
    def __init__(self, case, added=(), want=("m", "rf", "rrf")):
        import numpy as np
        from switss.model import DTMC, MDP, ReachabilityForm, RewardReachabilityForm
        from switss.problem import MILPExact, QSHeur
        from scipy.sparse import dok_matrix, csr_matrix
        self.case = case
        D = M.dense(case)
        P = {"dok": lambda: dok_matrix(np.array(D)), "list": lambda: [list(r) for r in D], "array": lambda: np.array(D), "csr": lambda: csr_matrix(np.array(D))}[case["form"]]()
        labels = {l: set(case["labels"][l]) for l in M.ordered(case, "labels")}
        alabels = {l: set(map(tuple, case["alabels"][l])) for l in M.ordered(case, "alabels")}
        rv = np.array(case["rewards"], dtype=float) if case.get("rewards") is not None else None
        index = M.index_map(case)
        self.inputs = [("P", P), ("labels", labels), ("alabels", alabels), ("index", index)] + ([("rewards", rv)] if rv is not None else [])
        self.before = [canon(x) for _, x in self.inputs]
        if case["kind"] == "dtmc":
            self.m = DTMC(P, label_to_states=labels, index_by_state_action=index, reward_vector=rv)
        else:
            self.m = MDP(P, index, label_to_actions=alabels, label_to_states=labels, reward_vector=rv)
        for where, s, l in added:
            if where == "m":
                self.m.add_label(s, l)
        # the form does not see labels that are added to the model afterwards
        m0 = self.m
        if added:
            e0 = Env(case)
            m0 = e0.m
        self.rf, self.smap, self.amap = ReachabilityForm.reduce(m0, "init", "target")
        self.rrf = None
        if rv is not None:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    self.rrf = RewardReachabilityForm.reduce(m0, "init", "target")[0]
                except AssertionError:
                    pass
        for where, s, l in added:
            if where == "rf":
                self.rf.system.add_label(s, l)
        self.milp = MILPExact("cbc")
        self.qs = QSHeur(iterations=case["iters"])
        n, C = self.rf.P.shape[1], self.rf.P.shape[0]
        self.certs = {"min": np.array((case["cert"] * 3)[:n]), "max": np.array((case["cert"] * 3)[:C])}
        self.inputs += [("cert-min", self.certs["min"]), ("cert-max", self.certs["max"])]
        self.before += [canon(self.certs["min"]), canon(self.certs["max"])]
        self.make_subs()

    def make_subs(self):
        from switss.problem import Subsystem
        self.subs = {f: Subsystem(self.rf, self.certs[f], f) for f in ("min", "max")}

    def state(self):
        return [model_state(self.m), rf_state(self.rf), rrf_state(self.rrf) if self.rrf is not None else None]

    def check_inputs(self, what):
        for (name, x), b in zip(self.inputs, self.before):
            require(canon(x) == b, "input-modified", lambda: "%s: input %s was %s and is now %s" % (what, name, b, canon(x)))


def smap_(s, labels):
    return {"label": "%d:%s" % (s, "+".join(sorted(labels)))}


def amap_(s, a, labels):
    return {"node": {"label": "%d,%d:%s" % (s, a, "+".join(sorted(labels)))}, "edge": {"color": "red"}}


def body(dg):
    return sorted(dg.source.split("\n"))


def result(r, exact):
    """a ProblemResult"""
    out = [r.status]
    if r.status == "success":
        out += [round(float(r.value), 5)] if exact else []
    return out


def sub_labels(env, k):
    return [None, ["a"], ["a", "b"], ["b", "a", "c"], ["nope"], ["target"], ["c"], ["init", "a"]][k]


# every operation: (env, i, j, k, tmp) -> (value to compare with the fresh object, [handed-out objects], [inputs])

def op_mask(e, i, j, k, tmp):
    frm, block = {i % e.m.N, j % e.m.N}, set() if k < 4 else {k % e.m.N}
    r = e.m.reachable_mask(frm, ["forward", "backward"][k % 2], block)
    return [bool(x) for x in r], [r], [(frm, {i % e.m.N, j % e.m.N}), (block, set() if k < 4 else {k % e.m.N})]


def op_rmask(e, i, j, k, tmp):
    N = e.rf.system.N
    frm = {i % N, j % N}
    r = e.rf.system.reachable_mask(frm, ["forward", "backward"][k % 2])
    return [bool(x) for x in r], [r], [(frm, {i % N, j % N})]


def op_pred(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    return sorted(canon(list(s.predecessors(i % s.N)))), [], []


def op_succ(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    return sorted(canon(list(s.successors(i % s.N)))), [], []


def op_sccs(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    vec, n = s.strongly_connected_components()
    return [partition(vec), int(n)], [vec], []


def op_mecs(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    vec, proper, n = s.maximal_end_components()
    return [partition(vec, proper), int(n)], [vec, proper], []


def op_acts(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    r = s.actions_by_state[i % s.N]
    return canon(r), [r], []


def op_lookup(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    l = LABELS[i]
    r = s.states_by_label[l]
    r2 = s.actions_by_label["xyz"[j % 3]]
    return [canon(r), canon(r2), l in s.states_by_label, sorted(s.states_by_label.keys()), canon({x: y for x, y in s.states_by_label.items()})], [], []


def op_rlookup(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    sa = sorted(s.index_by_state_action)[j % s.C]
    return [canon(s.labels_by_state[i % s.N]), canon(s.labels_by_action[sa]), canon(s.labels_by_state[s.N + 5]), canon(s.labels_by_action[(99, 99)])], [], []


def op_repr(e, i, j, k, tmp):
    return [repr(e.m), repr(e.rf), repr(e.rf.system), repr(e.milp), repr(e.qs), canon(e.milp.details), canon(e.qs.details)], [], []


def op_digraph(e, i, j, k, tmp):
    kw = {} if e.case["kind"] == "dtmc" else {"action_map": amap_}
    return body(e.m.digraph(state_map=smap_, **kw)), [], []


def op_rfdigraph(e, i, j, k, tmp):
    kw = {} if e.case["kind"] == "dtmc" else {"action_map": amap_}
    return body(e.rf.system.digraph(state_map=smap_, **kw)), [], []


def op_save(e, i, j, k, tmp):
    s = e.m if k % 2 else e.rf.system
    p = os.path.join(tmp, "f")
    paths = s.save(p)
    tra = open(paths[0]).read().split("\n")
    lab = open(paths[1]).read().split("\n")
    names = {x.split("=")[0]: x.split("=")[1] for x in lab[0].split()}
    return [tra[0], sorted(tra[1:]), sorted(names.values()),
            sorted([x.split(": ")[0], sorted(names[y] for y in x.split(": ")[1].split())] for x in lab[1:] if x)], [], []


def op_reduce(e, i, j, k, tmp):
    from switss.model import ReachabilityForm
    rf, sm, am = ReachabilityForm.reduce(e.m, "init", "target", new_target_label="T%d" % i)
    return [rf_state(rf), canon(dict(sm)), canon(dict(am))], [dict(sm)], []


def forms(e):
    return [e.rf] + ([e.rrf] if e.rrf is not None else [])


def op_fark(e, i, j, k, tmp):
    f = forms(e)[k % len(forms(e))]
    if j < 4:
        m, r = f.fark_constraints(THR[i % 7], ["min", "max"][j % 2])
    elif j < 6:
        m, r = f.fark_z_constraints(THR[i % 7])
    else:
        m, r = f.fark_y_constraints(THR[i % 7])
    return [canon(m), canon(r)], [m, r], []


def op_inec(e, i, j, k, tmp):
    n = e.rf.P.shape[1]
    return [bool(e.rf.in_proper_ec(s)) for s in range(n)] + [bool(e.rf.is_ec_free), int(e.rf.nr_of_mecs)], [], []


def op_attrs(e, i, j, k, tmp):
    rf = e.rf
    hand = [rf.P, rf.A, rf.to_target, dict(rf.index_by_state_action), rf.proper_mecs, rf.state_to_mec]
    return [canon(rf.P), canon(rf.A), canon(rf.to_target), canon(dict(rf.index_by_state_action))], hand, []


def op_check(e, i, j, k, tmp):
    from switss.certification import check_farkas_certificate
    import numpy as np
    mode, sense = ["min", "max"][k % 2], SENSES[j % 4]
    n, C = e.rf.P.shape[1], e.rf.P.shape[0]
    size = n if (mode == "min") == (sense in (">", ">=")) else C
    v = np.array((e.case["cert"] * 3)[:size])
    old = v.copy()
    r = check_farkas_certificate(e.rf, mode, sense, THR[i % 7], v)
    return bool(r), [], [(v, old)]


def op_groups(e, i, j, k, tmp):
    from switss.problem.formulations import groups_from_labels
    ls = sub_labels(e, i)
    old = copy.deepcopy(ls)
    g = groups_from_labels(e.rf, ["min", "max"][j % 2], labels=ls, group_actions=bool(k % 2))
    return canon(g), [g], [(ls, old)] if ls is not None else []


def op_submask(e, i, j, k, tmp):
    s = e.subs[["min", "max"][i % 2]]
    return [[bool(x) for x in s.subsystem_mask], canon(s.certificate), s.certform], [s.subsystem_mask, s.certificate], []


def op_subsys(e, i, j, k, tmp):
    s = e.subs[["min", "max"][i % 2]]
    try:
        r = s.subsys
    except AssertionError:
        return "rejected", [], []
    return rf_state(r), [], []


def op_subdig(e, i, j, k, tmp):
    s = e.subs[["min", "max"][i % 2]]
    import re
    g = s.digraph(show_weights=bool(j % 2), small=bool(k % 2))
    # the default styles list labels in set order
    return sorted("".join(sorted(l)) for l in g.source.split("\n")), [], []


def op_snapshot(e, i, j, k, tmp):
    return e.state(), [], []


def op_pr(e, i, j, k, tmp):
    r = e.rf.pr_min() if i % 2 else e.rf.pr_max()
    return canon(r), [r], []


def op_maxv(e, i, j, k, tmp):
    f = forms(e)[k % len(forms(e))]
    r = [f.max_z_state, f.max_z_state_action, f.max_y_state, f.max_y_state_action][i % 4]()
    return canon(r), [r], []


def op_rew(e, i, j, k, tmp):
    if e.rrf is None:
        return None, [], []
    r = e.rrf.rew_min() if i % 2 else e.rrf.rew_max()
    return canon(r), [r], []


def op_generate(e, i, j, k, tmp):
    from switss.certification import generate_farkas_certificate
    r = generate_farkas_certificate(e.rf, ["min", "max"][k % 2], SENSES[j % 4], THR[i % 7])
    return canon(r), [r] if r is not None else [], []


def op_milp(e, i, j, k, tmp):
    mode = "min" if k % 2 or not e.rf.is_ec_free else "max"
    ls = sub_labels(e, j)
    old = copy.deepcopy(ls)
    f = e.rf
    if k >= 6 and e.rrf is not None:
        f = e.rrf
    r = e.milp.solve(f, THR[i % 7], mode, labels=ls)
    hand = [r.farkas_cert, r.subsystem.subsystem_mask, r.subsystem.certificate] if r.status == "success" else []
    return result(r, True), hand, [(ls, old)] if ls is not None else []


def op_qs(e, i, j, k, tmp):
    ls = sub_labels(e, j)
    old = copy.deepcopy(ls)
    f = e.rf
    if k >= 6 and e.rrf is not None:
        f = e.rrf
    rs = list(e.qs.solveiter(f, THR[i % 7], ["min", "max"][k % 2], labels=ls))
    hand = [x for r in rs if r.status == "success" for x in (r.farkas_cert, r.subsystem.certificate)]
    vals = [result(r, ls is None) for r in rs]
    if ls is None:
        vals.append([canon(r.farkas_cert) for r in rs])
    return vals, hand, [(ls, old)] if ls is not None else []


def op_construct(e, i, j, k, tmp):
    from switss.problem import construct_MILP
    import numpy as np
    mode = "min" if k % 2 or not e.rf.is_ec_free else "max"
    n, C = e.rf.P.shape[1], e.rf.P.shape[0]
    ub = np.full(n if mode == "min" else C, 50.0) if i % 2 else None
    old = None if ub is None else ub.copy()
    model, ind = construct_MILP(e.rf, THR[j % 7], mode, relaxed=bool(k >= 4), known_upper_bounds=ub)
    if model is None:
        return None, [], []
    r = model.solve(solver="cbc")
    return [r.status, float(r.value) if r.status == "optimal" else None, canon(ind)], [ind], [(ub, old)] if ub is not None else []


def op_bounds(e, i, j, k, tmp):
    from switss.problem.formulations import compute_upper_bounds
    f = e.rrf if e.rrf is not None else e.rf
    mode = "max" if e.rf.is_ec_free or e.rrf is not None else None
    if mode is None:
        return None, [], []
    m, r = f.fark_constraints(THR[i % 7], mode)
    om, orr = canon(m), canon(r)
    status, ub = compute_upper_bounds(m, r)
    require([om, orr] == [canon(m), canon(r)], "input-modified", "compute_upper_bounds modified its input")
    return [status, canon(ub) if status == "optimal" else None], [ub] if ub is not None else [], []


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith("op_")}


def drain(gen, limit, out, kind):
    while limit != 0:
        try:
            x = next(gen)
        except StopIteration:
            return True
        out.append(canon(x) if kind != "qs" else [result(x, True), canon(x.farkas_cert) if x.farkas_cert is not None else None])
        limit -= 1
    return False


def opener(e, kind, i, j, k):
    if kind == "qs":
        return e.qs.solveiter(e.rf, THR[i % 7], ["min", "max"][k % 2])
    s = e.m if k % 2 else e.rf.system
    return iter(s.successors(i % s.N) if kind == "succ" else s.predecessors(i % s.N))


def run(case, ctx):
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="c21-", dir=os.environ.get("VERIF_TMP") or None)
    try:
        _run(case, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(case, ctx, tmp):
    e = Env(case)
    added = []
    handed = []
    gens = []
    done = set()

    def verify(what):
        e.check_inputs(what)
        for name, obj, old in handed:
            require(canon(obj) == old, "result-changed", lambda: "after %s: the result of %s handed out earlier changed from %s to %s" % (what, name, old, canon(obj)))

    for pos, (op, i, j, k) in enumerate(case["ops"]):
        what = "op %d %s%s" % (pos, op, (i, j, k))
        done.add(op)
        if op == "add_label":
            s = i % (e.m.N if k % 2 else e.rf.P.shape[1])
            t = "m" if k % 2 else "rf"
            l = LABELS[2 + j % 5]
            (e.m if t == "m" else e.rf.system).add_label(s, l)
            added.append((t, s, l))
            if t == "rf":
                # add_label changes the model on purpose: subsystems are made anew
                e.make_subs()
            continue
        if op in ("open", "qsopen"):
            kind = "qs" if op == "qsopen" else ["succ", "pred"][j % 2]
            g = opener(e, kind, i, j, k)
            out = []
            drain(g, k % 3, out, kind)
            gens.append((g, kind, i, j, k, out))
            continue
        if op == "step":
            if gens:
                g, kind, _, _, _, out = gens[i % len(gens)]
                drain(g, 1 + j % 2, out, kind)
            continue
        val, hand, ins = OPS[op](e, i, j, k, tmp)
        fresh = Env(case, added)
        ref, _, _ = OPS[op](fresh, i, j, k, tmp)
        require(same(canon(val), canon(ref)), "differs-from-fresh", lambda: "%s after %s: %s, on fresh objects %s" % (what, case["ops"][:pos], val, ref))
        for x, old in ins:
            require(canon(x) == canon(old), "input-modified", lambda: "%s: input %s is now %s" % (what, old, x))
        verify(what)
        for h in hand:
            handed.append((what, h, canon(h)))
    for g, kind, i, j, k, out in gens:
        drain(g, -1, out, kind)
        full = []
        drain(opener(Env(case, added), kind, i, j, k), -1, full, kind)
        require(same(out, full), "generator", lambda: "%s%s read in pieces: %s, on fresh objects %s" % (kind, (i, j, k), out, full))
    verify("the end")
    a, b = e.state(), Env(case, added).state()
    require(same(a, b), "state-changed", lambda: "after %s the observable state is %s, freshly built %s" % (case["ops"], a, b))
    ctx.tag(case["kind"], "form:" + case["form"], *["op:" + o for o in sorted(done)])
    if e.rrf is not None:
        ctx.tag("rewards")
    if not e.rf.is_ec_free:
        ctx.tag("ecs")
    if added:
        ctx.tag("label-added")
    ctx.nontrivial(len(done) >= 3 and e.rf.P.shape[1] >= 2)


CHECKS = [
    Check("history", cases, run, 320, 6000,
          "random model (dtmc/mdp, optional rewards), up to 12 operations (at most 5 of them LP/MILP solves) on the same model, forms, subsystems and solver objects; "
          "each result is compared with freshly built objects, all earlier results and all inputs with copies; non-trivial: at least 3 different operations on a form with at least 2 states"),
    Check("history-light", lambda: cases(lps=[], max_ops=40), run, 700, 12000,
          "as history, up to 40 operations without solver calls"),
]

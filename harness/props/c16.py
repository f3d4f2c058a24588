"""C16: rendered graphs show exactly the model."""
from hypothesis import strategies as st
from ..core import Check, require, Violation
from .. import models as M, dot
from ..models import I


@st.composite
def cases(draw):
    c = draw(M.model(max_n=6))
    c["vis"] = draw(st.sampled_from(["default", "all", "state", "trans", "none-args", "action"]))
    c["tstyle"] = draw(st.sampled_from([None, None, "custom", "back"]))
    c["fstyle"] = draw(st.sampled_from([None, None, "custom"]))
    c["small"] = draw(M.BOOL)
    c["names"] = draw(st.sampled_from([["rf_target", "rf_fail"], ["rf_target", "rf_fail"], ["goal", "bottom"]]))
    c["again"] = draw(st.sampled_from([False, False, True]))
    return c


def sl(labels):
    return "+".join(sorted(labels))


class Rec:
    """style functions that encode what they were called with"""
    def __init__(self, kind, labels_of, alabels_of, prefix="", check=True):
        self.kind, self.labels_of, self.alabels_of, self.prefix, self.check = kind, labels_of, alabels_of, prefix, check
        self.bad = []

    def state(self, *args, **kw):
        if len(args) != 2 or kw:
            self.bad.append("state_map%s" % (args,))
        s, ls = args
        if self.check and set(ls) != self.labels_of(s):
            self.bad.append("state_map(%s, %s): labels are %s" % (s, ls, self.labels_of(s)))
        return {"label": "%sS%d|%s" % (self.prefix, s, sl(ls)), "shape": "box%d" % (s % 3), "custom_%s" % self.prefix: "y"}

    def trans_dtmc(self, *args, **kw):
        if len(args) != 3 or kw:
            self.bad.append("trans_map%s" % (args,))
        return {"label": "%sT%d>%d:%.15g" % ((self.prefix,) + args), "color": "c%d" % args[1]}

    def trans_mdp(self, *args, **kw):
        if len(args) != 4 or kw:
            self.bad.append("trans_map%s" % (args,))
        return {"label": "%sT%d,%d>%d:%.15g" % ((self.prefix,) + args), "color": "c%d" % args[2]}

    def action(self, *args, **kw):
        if len(args) != 3 or kw:
            self.bad.append("action_map%s" % (args,))
        s, a, ls = args
        if self.check and set(ls) != self.alabels_of(s, a):
            self.bad.append("action_map(%s, %s, %s): labels are %s" % (s, a, ls, self.alabels_of(s, a)))
        return {"node": {"label": "%sA%d,%d|%s" % (self.prefix, s, a, sl(ls)), "shape": "circle"}, "edge": {"color": "e%d" % s, "label": "%sE%d,%d" % (self.prefix, s, a)}}

    @property
    def trans(self):
        return self.trans_dtmc if self.kind == "dtmc" else self.trans_mdp

    def ok(self):
        require(not self.bad, "map-arguments", lambda: "; ".join(self.bad[:3]))


class View:
    """what should be drawn: states, labels, rows"""
    def __init__(self, n, rows, labels, alabels, kind):
        self.n, self.rows, self.kind = n, rows, kind           # rows: list of (s, a, {d: p})
        self.labels = {s: {l for l, ss in labels.items() if s in ss} for s in range(n)}
        self.alabels = {(s, a): {l for l, ss in alabels.items() if (s, a) in ss} for s, a, _ in rows}


def case_view(case):
    return View(case["n"], [(s, a, M.row_probs(r)) for r in case["rows"] for s, a in [(r[0], r[1])]], {l: set(v) for l, v in case["labels"].items()},
                {l: {tuple(x) for x in v} for l, v in case["alabels"].items()} if case["kind"] == "mdp" else {}, case["kind"])


def system_view(system, kind):
    rows = {}
    inv = system.index_by_state_action.inv
    for (i, d), p in system.P.items():
        rows.setdefault(int(i), {})[int(d)] = float(p)
    rr = [(int(inv[i][0]), int(inv[i][1]), rows.get(i, {})) for i in range(system.C)]
    v = View(system.N, rr, {}, {}, kind)
    v.labels = {s: set(system.labels_by_state[s]) for s in range(system.N)}
    v.alabels = {(s, a): set(system.labels_by_action[(s, a)]) for s, a, _ in rr}
    return v


def std_state(v):
    from switss.utils import color_from_hash
    return lambda s: ("State %d" % s, v.labels[s], color_from_hash(tuple(sorted(v.labels[s]))))


def is_std_state(attrs, s, labels, shown=None):
    """the node looks as the documentation's standard_state_map says"""
    from switss.utils import color_from_hash
    l = attrs.get("label", "").replace("\\n", "\n").split("\n", 1)
    if l[0] != "State %d" % s or attrs.get("style") != "filled" or attrs.get("color") != color_from_hash(tuple(sorted(labels))):
        return False
    rest = l[1] if len(l) > 1 else ""
    return sorted(x for x in rest.split(",") if x) == sorted(labels) or rest == ",".join(sorted(labels))


def is_std_action(attrs, a, labels):
    l = attrs.get("label", "").replace("\\n", "\n").split("\n", 1)
    rest = l[1] if len(l) > 1 else ""
    return l[0] == str(a) and sorted(rest) == sorted("".join(labels)) and attrs.get("shape") == "rectangle"


def graph_of(dg, what):
    try:
        return dot.parse(dg.source)
    except AttributeError as e:
        raise Violation("not-a-graph", "%s: %s" % (what, e))


def structure(g, v, what):
    """identifies the nodes: -> (state -> node name, (s,a) -> node name, edges)"""
    require(not g.dup, "node-twice", lambda: "%s: %s" % (what, g.dup))
    nrows = 0 if v.kind == "dtmc" else len(v.rows)
    require(len(g.nodes) == v.n + nrows, "node-count", lambda: "%s: %d nodes for %d states and %d actions" % (what, len(g.nodes), v.n, nrows))
    ends = {x for e in g.edges for x in e[:2]}
    require(ends <= set(g.nodes), "edge-to-undeclared-node", lambda: "%s: %s" % (what, sorted(ends - set(g.nodes))))
    ne = sum(len([p for p in ds.values() if p > 0]) for _, _, ds in v.rows) + nrows
    require(len(g.edges) == ne, "edge-count", lambda: "%s: %d edges, %d expected" % (what, len(g.edges), ne))


def match(g, v, names, what, trans_ok, action_ok=None, edge_ok=None):
    """names: state -> node name. Checks edges (and action nodes for MDPs); returns (s, a) -> node name"""
    inv = {x: s for s, x in names.items()}
    require(len(inv) == v.n, "state-node-not-unique", what)
    out = {}
    for a, b, at in g.edges:
        out.setdefault(a, []).append((b, at))
    if v.kind == "dtmc":
        for s, a, ds in v.rows:
            got = {inv.get(b): at for b, at in out.get(names[s], [])}
            want = {d for d, p in ds.items() if p > 0}
            require(set(got) == want and len(out.get(names[s], [])) == len(want), "edges", lambda: "%s: state %s has edges to %s, not %s" % (what, s, sorted(map(str, got)), want))
            for d in want:
                require(trans_ok(s, a, d, ds[d], got[d]), "edge-style", lambda: "%s: edge %s->%s (%s): %s" % (what, s, d, ds[d], got[d]))
        return {}
    anames = {}
    for s in range(v.n):
        acts = [(a, ds) for q, a, ds in v.rows if q == s]
        kids = out.get(names[s], [])
        require(len(kids) == len(acts) and len({b for b, _ in kids}) == len(acts) and not any(b in inv for b, _ in kids), "action-edges", lambda: "%s: state %s has %s" % (what, s, kids))
        left = list(kids)
        for a, ds in acts:
            want = {d for d, p in ds.items() if p > 0}
            found = None
            for b, at in left:
                o = out.get(b, [])
                if len(o) == len(want) and {inv.get(d) for d, _ in o} == want and action_ok(s, a, g.nodes[b]) and edge_ok(s, a, at) \
                        and all(trans_ok(s, a, inv[d], ds[inv[d]], t) for d, t in o):
                    found = (b, at)
                    break
            require(found is not None, "action", lambda: "%s: no node for action %s of state %s (%s) among %s" % (what, a, s, ds, [(b, g.nodes[b], out.get(b)) for b, _ in left]))
            left.remove(found)
            anames[(s, a)] = found[0]
    return anames


def std_trans(s, a, d, p, at):
    try:
        return abs(float(at.get("label")) - p) <= 1e-9
    except (TypeError, ValueError):
        return False


def lab(attrs):
    return attrs.get("label", "").replace("\\n", "\n")


def names_by(g, v, ok, what):
    names = {}
    for s in range(v.n):
        c = [x for x, at in g.nodes.items() if ok(s, at)]
        require(len(c) == 1, "state-node", lambda: "%s: nodes %s look like state %s with labels %s" % (what, [(x, g.nodes[x]) for x in (c or list(g.nodes))], s, v.labels[s]))
        names[s] = c[0]
    return names


def rec_trans(prefix, kind, f=lambda s: s):
    def ok(s, a, d, p, at):
        key = "%sT%d>%d:" % (prefix, f(s), f(d)) if kind == "dtmc" else "%sT%d,%d>%d:" % (prefix, f(s), a, f(d))
        l = at.get("label", "")
        if not l.startswith(key) or at.get("color") != "c%d" % f(d):
            return False
        return abs(float(l[len(key):]) - p) <= 1e-12
    return ok


def make_vis(case, rec):
    from switss.utils import VisualizationConfig, DTMCVisualizationConfig
    k = case["vis"]
    if k == "default":
        return None
    kw = {}
    if k in ("all", "state"):
        kw["state_map"] = rec.state
    if k in ("all", "trans"):
        kw["trans_map"] = rec.trans
    if k in ("all", "action") and case["kind"] == "mdp":
        kw["action_map"] = rec.action
    if k == "none-args":
        kw = {"state_map": None, "trans_map": None}
        if case["kind"] == "mdp":
            kw["action_map"] = None
    return (DTMCVisualizationConfig if case["kind"] == "dtmc" else VisualizationConfig)(**kw)


def expectations(case, v, rec, prefix, f=lambda s: s, use=None):
    """(state_ok, action_ok, edge_ok, trans_ok) for the configured style; f maps drawn states to the states the style functions see"""
    k = use or case["vis"]
    if k in ("all", "state"):
        st_ok = lambda s, at: at.get("label") == "%sS%d|%s" % (prefix, f(s), sl(v.labels[s])) and at.get("shape") == "box%d" % (f(s) % 3) and "custom_%s" % prefix in at
    else:
        st_ok = lambda s, at: is_std_state(at, f(s), v.labels[s])
    if k in ("all", "action"):
        a_ok = lambda s, a, at: at.get("label") == "%sA%d,%d|%s" % (prefix, f(s), a, sl(v.alabels[(s, a)])) and at.get("shape") == "circle"
        e_ok = lambda s, a, at: at.get("label") == "%sE%d,%d" % (prefix, f(s), a) and at.get("color") == "e%d" % f(s)
    else:
        a_ok = lambda s, a, at: is_std_action(at, a, v.alabels[(s, a)])
        e_ok = lambda s, a, at: at.get("dir") == "none" and at.get("color") == "black"
    t_ok = rec_trans(prefix, v.kind, f) if k in ("all", "trans") else std_trans
    return st_ok, a_ok, e_ok, t_ok


def run_models(case, ctx):
    v = case_view(case)
    rec = Rec(case["kind"], lambda s: v.labels[s], lambda s, a: v.alabels[(s, a)], "v")
    m = M.build(case, vis=make_vis(case, rec))
    g = graph_of(m.digraph(), "digraph()")
    structure(g, v, "digraph()")
    so, ao, eo, to = expectations(case, v, rec, "v")
    names = names_by(g, v, so, "digraph()")
    match(g, v, names, "digraph()", to, ao, eo)
    rec.ok()
    # explicitly given functions override the configured ones, separately
    rec2 = Rec(case["kind"], lambda s: v.labels[s], lambda s, a: v.alabels[(s, a)], "x")
    which = ["state", "trans", "all"] + (["action"] if case["kind"] == "mdp" else [])
    for w in which:
        kw = {}
        if w in ("state", "all"):
            kw["state_map"] = rec2.state
        if w in ("trans", "all"):
            kw["trans_map"] = rec2.trans
        if w in ("action", "all") and case["kind"] == "mdp":
            kw["action_map"] = rec2.action
        if case["kind"] == "mdp" and case["small"]:
            kw["small"] = True
        g = graph_of(m.digraph(**kw), w)
        structure(g, v, w)
        s1, a1, e1, t1 = expectations(case, v, rec2, "x", use=w)
        if w not in ("state", "all"):
            s1 = so
        if w not in ("action", "all"):
            a1, e1 = ao, eo
        if w not in ("trans", "all"):
            t1 = to
        match(g, v, names_by(g, v, s1, w), w, t1, a1, e1)
        rec2.ok()
        if case["kind"] == "mdp" and case["small"]:
            require("size" in g.graph, "small", "small=True sets no size")
    if case["kind"] == "dtmc":
        # documented: action_map is ignored, further arguments go to Digraph(..)
        g = graph_of(m.digraph(action_map=rec2.action), "action_map for a DTMC")
        match(g, v, names_by(g, v, so, "action_map for a DTMC"), "action_map for a DTMC", to)
        dg = m.digraph(state_map=rec2.state, name="some_name", graph_attr={"rankdir": "LR"})
    else:
        dg = m.digraph(state_map=rec2.state, name="some_name", graph_attr={"rankdir": "LR"})
    g = graph_of(dg, "arguments for Digraph(..)")
    structure(g, v, "arguments for Digraph(..)")
    require(g.name == "some_name" and g.graph.get("rankdir") == "LR", "digraph-arguments", lambda: "name %s, attributes %s" % (g.name, g.graph))
    # drawing does not change the model
    require(all(set(m.labels_by_state[s]) == v.labels[s] for s in range(v.n)), "labels-changed", "")
    ctx.tag(case["kind"], case["vis"])
    ctx.nontrivial(v.n >= 2 and any(len(ds) > 1 for _, _, ds in v.rows))


def run_rf(case, ctx):
    from switss.model import ReachabilityForm
    from switss.utils import VisualizationConfig, DTMCVisualizationConfig
    v0 = case_view(case)
    rec = Rec(case["kind"], lambda s: v0.labels[s], lambda s, a: v0.alabels[(s, a)], "v")
    m = M.build(case, vis=make_vis(case, rec))
    tl, fl = case["names"]
    rf, smap, amap = ReachabilityForm.reduce(m, "init", "target", new_target_label=tl, new_fail_label=fl)
    back = {int(r): int(s) for s, r in smap.items()}
    if case["again"]:
        # reduced once more: styles still lead back to the original model
        sub = rf.system
        rf, smap2, amap2 = ReachabilityForm.reduce(sub, "init", tl, new_target_label="t2", new_fail_label="f2")
        m1 = {int(r): int(s) for s, r in smap2.items()}
        old_t = sub.N - 2
        back = {r: back.get(s) for r, s in m1.items()}
        tl, fl = "t2", "f2"
    v = system_view(rf.system, case["kind"])
    T, F = v.n - 2, v.n - 1
    styles = {}
    custom = {}
    for who, key, setter in ((T, "tstyle", rf.set_target_visualization_style), (F, "fstyle", rf.set_fail_visualization_style)):
        if case[key]:
            r = Rec(case["kind"], None, None, "t" if who == T else "f", check=False)
            cfg = DTMCVisualizationConfig(state_map=r.state, trans_map=r.trans) if case["kind"] == "dtmc" else VisualizationConfig(state_map=r.state, trans_map=r.trans, action_map=r.action)
            setter(cfg)
            custom[who] = r
            if case[key] == "back":
                setter()
                del custom[who]
    g = graph_of(rf.system.digraph(), "rf")
    structure(g, v, "rf")
    f = lambda r: back[r]
    so, ao, eo, to = expectations(case, v, rec, "v", f)

    def style_of(s):
        return custom[s].prefix if s in custom else None

    def state_ok(s, at):
        if s in (T, F):
            if s in custom:
                return at.get("label", "").startswith("%sS" % custom[s].prefix)
            return at.get("label") == (tl if s == T else fl) and at.get("color") == ("green" if s == T else "red") and at.get("style") == "filled"
        if back[s] is None:    # the target of the first reduction
            return at.get("color") == "green" and at.get("label") == case["names"][0]
        return so(s, at)

    def trans_ok(s, a, d, p, at):
        if s in (T, F) or d in (T, F):
            who = d if d in (T, F) else s
            if who in custom:
                return at.get("label", "").startswith("%sT" % custom[who].prefix) and abs(float(at["label"].split(":")[1]) - p) < 1e-12
            return std_trans(s, a, d, p, at)
        if back[s] is None or back[d] is None:
            return True
        return to(s, a, d, p, at)

    def action_ok(s, a, at):
        if s in (T, F):
            if s in custom:
                return at.get("label", "").startswith("%sA" % custom[s].prefix)
            return at.get("shape") == "point"
        return back[s] is None or ao(s, a, at)

    def edge_ok(s, a, at):
        if s in (T, F):
            return s in custom or at.get("dir") == "none"
        return back[s] is None or eo(s, a, at)
    names = names_by(g, v, state_ok, "rf")
    match(g, v, names, "rf", trans_ok, action_ok, edge_ok)
    rec.ok()
    # explicitly given functions see the reachability form itself
    rec2 = Rec(case["kind"], lambda s: v.labels[s], lambda s, a: v.alabels[(s, a)], "x")
    kw = {"state_map": rec2.state, "trans_map": rec2.trans}
    if case["kind"] == "mdp":
        kw["action_map"] = rec2.action
    g = graph_of(rf.system.digraph(**kw), "rf, own functions")
    structure(g, v, "rf, own functions")
    s1, a1, e1, t1 = expectations(case, v, rec2, "x", use="all")
    match(g, v, names_by(g, v, s1, "rf, own functions"), "rf, own functions", t1, a1, e1)
    rec2.ok()
    # the original model is still drawn as before
    g = graph_of(m.digraph(), "original")
    s0, a0, e0, t0 = expectations(case, v0, rec, "v")
    match(g, v0, names_by(g, v0, s0, "original"), "original", t0, a0, e0)
    rec.ok()
    ctx.tag(case["kind"], case["vis"], "again" if case["again"] else "once", "custom-target" if T in custom else "default-target")
    ctx.nontrivial(v.n >= 4 and any(back[s] != s for s in back))


@st.composite
def sub_cases(draw):
    c = draw(cases())
    c["vis"] = draw(st.sampled_from(["default", "all", "state", "nolabel", "nolabelkey", "shared"]))
    c["again"] = False
    c["cert"] = draw(st.lists(st.sampled_from([0, 0, 1, 0.5, 0.25, 2, 7.125, 0.001, 1e-7]), min_size=24, max_size=24))
    c["form"] = draw(st.sampled_from(["min", "max"]))
    c["weights"] = draw(st.sampled_from([True, True, False]))
    c["connected"] = draw(M.BOOL)
    c["reward"] = draw(M.BOOL)
    return c


def run_sub(case, ctx):
    import numpy as np
    from switss.model import ReachabilityForm
    from switss.problem import Subsystem
    v0 = case_view(case)
    rec = Rec(case["kind"], lambda s: v0.labels[s], lambda s, a: v0.alabels[(s, a)], "v")
    if case["vis"].startswith("nolabel"):
        from switss.utils import VisualizationConfig, DTMCVisualizationConfig
        base = {"label": ""} if case["vis"] == "nolabel" else {}
        vis = (DTMCVisualizationConfig if case["kind"] == "dtmc" else VisualizationConfig)(state_map=lambda s, l: {"shape": "box%d" % (s % 3), **base})
    elif case["vis"] == "shared" and case["kind"] == "mdp":
        # style functions may return the same dictionary every time
        from switss.utils import VisualizationConfig
        d1, d2, d3 = {"label": "S", "color": "blue"}, {"label": "t"}, {"node": {"label": "N", "shape": "circle"}, "edge": {"dir": "none"}}
        vis = VisualizationConfig(state_map=lambda s, l: d1, trans_map=lambda *a: d2, action_map=lambda *a: d3)
    else:
        vis = make_vis(case, rec)
    m = M.build(case, vis=vis)
    rf, smap, amap = ReachabilityForm.reduce(m, "init", "target")
    if case["vis"] == "default" and case.get("scramble") is not None:
        # a form that was built directly: the rows of a DTMC need not be in the order of its states
        rf, smap, amap = M.scramble(rf, smap, amap, case["scramble"])
    back = {int(r): int(s) for s, r in smap.items()}
    v = system_view(rf.system, case["kind"])
    n, C = v.n - 2, len(v.rows) - 2
    T, F = v.n - 2, v.n - 1
    cert = np.array(case["cert"][:n] if case["form"] == "min" else case["cert"][:C], dtype=float)
    # node names from the graph of the supersystem with own functions
    rec2 = Rec(case["kind"], lambda s: v.labels[s], lambda s, a: v.alabels[(s, a)], "x")
    kw = {"state_map": rec2.state, "trans_map": rec2.trans}
    if case["kind"] == "mdp":
        kw["action_map"] = rec2.action
    g0 = graph_of(rf.system.digraph(**kw), "rf")
    s1, a1, e1, t1 = expectations(case, v, rec2, "x", use="all")
    names = names_by(g0, v, s1, "rf")
    anames = match(g0, v, names, "rf", t1, a1, e1)
    plain = graph_of(rf.system.digraph(), "rf, configured style")
    sub = Subsystem(rf, cert, case["form"], ignore_consistency_checks=True)
    dg = sub.digraph(show_weights=case["weights"], small=case["small"]) if case["small"] else sub.digraph(show_weights=case["weights"])
    g = graph_of(dg, "subsystem")
    structure(g, v, "subsystem")
    row = {(s, a): i for i, (s, a, _) in enumerate(v.rows)}
    if case["form"] == "min":
        inside = {s for s in range(n) if cert[s] > 0}
    else:
        inside = {v.rows[i][0] for i in range(C) if cert[i] > 0}
    on_states = case["weights"] and (case["form"] == "min" or case["kind"] == "dtmc")
    on_actions = case["weights"] and case["form"] == "max" and case["kind"] == "mdp"

    def weight(label):
        """the weight shown in a label, the rest of the label"""
        parts = label.split("\n")
        if parts[-1].startswith("c["):
            return float(parts[-1].split("=")[1]), "\n".join(parts[:-1]).rstrip("\n")
        return None, label.rstrip("\n")
    require(set(g.nodes) == set(g0.nodes), "nodes", lambda: "subsystem: nodes %s instead of %s" % (sorted(g.nodes), sorted(g0.nodes)))
    require(sorted((a, b, sorted(x.items())) for a, b, x in g.edges if (a in names.values()) == (case["kind"] == "dtmc")) ==
            sorted((a, b, sorted(x.items())) for a, b, x in plain.edges if (a in names.values()) == (case["kind"] == "dtmc")), "edges", "subsystem: transitions differ from those of the supersystem")
    for s in range(v.n):
        at, pl = g.nodes[names[s]], plain.nodes[names[s]]
        w, rest = weight(lab(at))
        if s in (T, F):
            require(at == pl, "target-fail-style", lambda: "subsystem: %s" % at)
        elif s not in inside:
            require(at.get("color") == "azure3" and at.get("style") == "filled" and lab(at) == "", "outside-not-grey", lambda: "state %s outside (certificate %s, %s): %s" % (s, cert, case["form"], at))
        else:
            require({k: x for k, x in at.items() if k != "label"} == {k: x for k, x in pl.items() if k != "label"}, "inside-style", lambda: "state %s: %s instead of %s" % (s, at, pl))
            require(rest == lab(pl).rstrip("\n"), "inside-label", lambda: "state %s: %r instead of %r" % (s, rest, lab(pl)))
            if on_states:
                want = cert[s] if case["form"] == "min" else cert[row[(s, 0)]]
                require(w is not None and abs(w - want) <= 6e-6, "state-weight", lambda: "state %s: shown %s, certificate %s (%s)" % (s, lab(at), cert, case["form"]))
            else:
                require(w is None, "state-weight-shown", lambda: "state %s: %s" % (s, lab(at)))
    for (s, a), x in anames.items():
        at, pl = g.nodes[x], plain.nodes[x]
        w, rest = weight(lab(at))
        require(rest == lab(pl).rstrip("\n"), "action-label", lambda: "action %s: %r instead of %r" % ((s, a), rest, lab(pl)))
        if on_actions and s in inside:
            want = cert[row[(s, a)]]
            require(w is not None and abs(w - want) <= 6e-6, "action-weight", lambda: "action %s: shown %s, certificate entry %s" % ((s, a), lab(at), want))
        else:
            require(w is None, "action-weight-shown", lambda: "action %s: %s" % ((s, a), lab(at)))
    rec.ok()
    # drawing a subsystem leaves the supersystem's graph alone
    p2 = graph_of(rf.system.digraph(), "rf, afterwards")
    require(p2.nodes == plain.nodes and p2.edges == plain.edges, "supersystem-changed", "")
    perm = any(row[(s, 0)] != s for s in range(n)) if case["kind"] == "dtmc" else True
    ctx.tag(case["kind"], case["form"], case["vis"], "weights" if case["weights"] else "no-weights", "partial" if 0 < len(inside) < n else "all-or-none", "rows-permuted" if perm else "rows-in-order")
    ctx.nontrivial(0 < len(inside) < n)


CHECKS = [
    Check("models", cases, run_models, 1600, 24000,
          "random models, no, partial or full style configuration, styles given per call (each alone and together), further Digraph arguments; style functions record their arguments; DOT text parsed and compared with the model; "
          "non-trivial: at least 2 states and a row with several successors"),
    Check("reachability-forms", cases, run_rf, 1600, 24000,
          "reduced models, once or twice, default or own target/fail styles; non-trivial: at least 2 ordinary states and a state that changed its index"),
    Check("subsystems", sub_cases, run_sub, 1600, 24000,
          "arbitrary certificate vectors of both forms, weights shown or not; non-trivial: some but not all states outside"),
]

"""C13: invertible dictionaries and the label interface of models."""
from hypothesis import strategies as st
from ..core import Check, require, Violation
from .. import models as M
from ..models import I

KEYS = ["a", "b", "c", "d", "", 7]
VALS = [0, 1, 2, 3, 4, [2, 0]]     # lists become tuples (state-action pairs)
SAME = [0, 1, 2, 3]                # keys and values from one domain


def h(x):
    return tuple(x) if isinstance(x, list) else x


@st.composite
def histories(draw, max_ops=30):
    dom = draw(st.sampled_from(["mixed", "mixed", "same"]))
    K, V = (SAME, SAME) if dom == "same" else (KEYS, VALS)
    init = draw(st.lists(st.tuples(st.sampled_from(K), st.lists(st.sampled_from(V), max_size=4)), max_size=5))
    ops = []
    for _ in range(draw(I(0, max_ops))):
        op = draw(st.sampled_from(["add", "add", "add", "addmany", "remove", "remove", "removeany", "get", "get", "contains", "all", "take-inv", "move"]))
        side = draw(st.sampled_from(["fwd", "fwd", "inv", "inv.inv"]))
        k, v = draw(st.sampled_from(K)), draw(st.sampled_from(V))
        if side == "inv":
            k, v = v, k
        ops.append([op, side, k, v, draw(I(0, 7))])
    return {"init": init, "default": draw(M.BOOL), "ops": ops}


class Both:
    """the relation, as the documentation defines it"""
    def __init__(self, pairs):
        self.pairs = set(pairs)

    def get(self, side, k):
        if side == "inv":
            return {a for a, b in self.pairs if b == k}
        return {b for a, b in self.pairs if a == k}


def run_history(case, ctx):
    from switss.utils import InvertibleDict
    d0 = {}
    for k, vs in case["init"]:
        d0.setdefault(h(k), set()).update(h(v) for v in vs)
    given = {k: set(v) for k, v in d0.items()}
    fwd = InvertibleDict(given, is_default=case["default"])
    model = Both((k, v) for k, vs in d0.items() for v in vs)
    # keys that exist (with an empty set) or may still exist after their last value was removed
    must = {"fwd": set(d0), "inv": {v for vs in d0.values() for v in vs}}
    may = {"fwd": set(), "inv": set()}
    effective = taken = 0
    late = False

    def obj(side):
        nonlocal taken
        if side == "fwd":
            return fwd
        taken += 1
        return fwd.inv if side == "inv" else fwd.inv.inv

    def name(side):
        return "inv" if side == "inv" else "fwd"

    def look(side, k, where):
        o, s = obj(side), name(side)
        exp = model.get(s, k)
        try:
            got = o[k]
        except KeyError:
            require(not case["default"], "missing-key", lambda: "%s[%r] raised KeyError in default mode (%s)" % (side, k, where))
            require(k not in must[s] and not exp, "lost-key", lambda: "%s[%r] raised KeyError, expected %s (%s)" % (side, k, exp, where))
            return
        require(isinstance(got, (set, frozenset)) and set(got) == exp, "content", lambda: "%s[%r] = %r, expected %s (%s)" % (side, k, got, exp, where))
        require(case["default"] or k in must[s] or k in may[s], "missing-key", lambda: "%s[%r] = %r, expected an error (%s)" % (side, k, got, where))

    def whole(side, where):
        o, s = obj(side), name(side)
        got = {k: set(v) for k, v in o.items()}
        keys = set(o.keys())
        require(keys == set(got), "keys-vs-items", lambda: "%s: keys %s items %s (%s)" % (side, keys, got, where))
        require(must[s] <= keys and keys <= must[s] | may[s], "keys", lambda: "%s: keys %s, expected %s (%s)" % (side, keys, must[s], where))
        for k in keys:
            require(got[k] == model.get(s, k), "content", lambda: "%s: %r -> %s, expected %s (%s)" % (side, k, got[k], model.get(s, k), where))
        require(o.is_default == case["default"], "is-default", where)
        require(eval(repr(o)) == dict(o.items()), "repr", lambda: repr(o))

    def put(s, k, v):
        a, b = (v, k) if s == "inv" else (k, v)
        model.pairs.add((a, b))
        for q, x in (("fwd", a), ("inv", b)):
            must[q].add(x)
            may[q].discard(x)

    def drop(s, k, v):
        a, b = (v, k) if s == "inv" else (k, v)
        model.pairs.discard((a, b))
        for q, x in (("fwd", a), ("inv", b)):
            if not model.get(q, x):
                must[q].discard(x)
                may[q].add(x)

    for n, (op, side, k, v, r) in enumerate(case["ops"]):
        k, v, s = h(k), h(v), name(side)
        where = "after %s %s" % (case["init"], case["ops"][:n + 1])
        if op == "add":
            obj(side).add(k, v)
            put(s, k, v)
            effective += 1
            late = late or taken > 0
        elif op == "addmany":
            dom = SAME if isinstance(v, int) and isinstance(k, int) else None
            for w in [v] + ([x for x in (dom or [])][:r % 3]):
                obj(side).add(k, h(w))
                put(s, k, h(w))
            effective += 1
        elif op in ("remove", "removeany", "move"):
            if op != "remove" and model.pairs:
                ps = sorted(model.pairs, key=repr)
                a, b = ps[r % len(ps)]
                k, v = (b, a) if s == "inv" else (a, b)
            present = v in model.get(s, k)
            try:
                obj(side).remove(k, v)
                require(present, "removed-nothing", lambda: "%s.remove(%r, %r) succeeded (%s)" % (side, k, v, where))
                drop(s, k, v)
                effective += 1
            except (AssertionError, KeyError, ValueError):
                require(not present, "remove-fails", lambda: "%s.remove(%r, %r) raised (%s)" % (side, k, v, where))
            if op == "move" and present:
                obj("inv" if s == "fwd" else "fwd").add(v, k)
                put("inv" if s == "fwd" else "fwd", v, k)
        elif op == "get":
            look(side, k, where)
            for x in list(must[s])[:3]:
                look(side, x, where)
        elif op == "contains":
            got = k in obj(side)
            require(isinstance(got, bool) and (not got or k in must[s] | may[s]) and (got or k not in must[s]), "contains", lambda: "%r in %s = %r (%s)" % (k, side, got, where))
        elif op == "all":
            whole(side, where)
        elif op == "take-inv":
            fwd.inv
            taken += 1
    where = "at the end of %s %s" % (case["init"], case["ops"])
    for side in ("fwd", "inv", "inv.inv"):
        whole(side, where)
        for k in (["nope", 99, (5, 5)] + KEYS + SAME + [h(v) for v in VALS]):
            look(side, k, where)
    require(given == d0, "input-modified", lambda: "the dictionary passed in became %s (%s)" % (given, where))
    ctx.tag("default" if case["default"] else "strict", "inverse cached early" if late else "inverse late")
    ctx.nontrivial(effective >= 3 and len(model.pairs) >= 1)


# ------------------------------------------------------------------ labels of models

@st.composite
def model_cases(draw):
    c = draw(M.model(min_n=1, max_n=6))
    c["ops"] = [[draw(st.sampled_from(["add", "add", "states", "labels", "both"])), draw(I(0, 9)), draw(st.sampled_from(["init", "target", "a", "b", "new label", "x"]))]
                for _ in range(draw(I(1, 20)))]
    c["via"] = draw(st.sampled_from(["dict", "dict", "invertible"]))
    return c


def run_model(case, ctx):
    from switss.utils import InvertibleDict
    labels = {k: set(case["labels"][k]) for k in M.ordered(case, "labels")}
    given = {k: set(v) for k, v in labels.items()}
    m = M.build(case, labels=InvertibleDict(given, is_default=True) if case["via"] == "invertible" else given)
    rel = {(k, s) for k, v in labels.items() for s in v}
    adds = 0
    for n, (op, s, l) in enumerate(case["ops"]):
        s %= m.N
        where = "after %s on %s" % (case["ops"][:n + 1], case["labels"])
        if op == "add":
            m.add_label(s, l)
            rel.add((l, s))
            adds += 1
        if op in ("states", "both", "add"):
            exp = {q for k, q in rel if k == l}
            require(set(m.states_by_label[l]) == exp, "states-by-label", lambda: "%r: %s, expected %s %s" % (l, m.states_by_label[l], exp, where))
        if op in ("labels", "both"):
            exp = {k for k, q in rel if q == s}
            require(set(m.labels_by_state[s]) == exp, "labels-by-state", lambda: "%s: %s, expected %s %s" % (s, m.labels_by_state[s], exp, where))
    for l in {k for k, _ in rel} | {"unknown"}:
        require(set(m.states_by_label[l]) == {q for k, q in rel if k == l}, "states-by-label", lambda: "%r: %s" % (l, m.states_by_label[l]))
    for s in list(range(m.N)) + [m.N + 5]:
        require(set(m.labels_by_state[s]) == {k for k, q in rel if q == s}, "labels-by-state", lambda: "%s: %s" % (s, m.labels_by_state[s]))
    require({k for k in m.states_by_label.keys()} == {k for k, _ in rel} | set(labels), "labels", lambda: str(list(m.states_by_label.keys())))
    if case["via"] == "dict":
        require(given == labels, "input-modified", lambda: "the label dictionary passed in became %s" % given)
    ctx.tag(case["kind"], case["via"])
    ctx.nontrivial(adds >= 1 and m.N >= 2)


CHECKS = [
    Check("history", histories, run_history, 24000, 1000000,
          "random histories of up to 30 operations through both sides of an InvertibleDict against a set of pairs; non-trivial: at least 3 effective changes and a non-empty relation at the end"),
    Check("history-long", lambda: histories(max_ops=80), run_history, 3000, 100000, "the same with up to 80 operations"),
    Check("model-labels", model_cases, run_model, 6000, 200000, "add_label interleaved with queries from both sides on random models; non-trivial: at least one label added to a model with at least 2 states"),
]

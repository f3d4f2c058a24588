"""C17: benchmark runs record exactly what direct solves return."""
import glob, json, math, os, shutil, tempfile, time
from hypothesis import strategies as st
from ..core import Check, require, Violation
from .. import models as M, rfs
from ..models import I


def expected_thresholds(a, b, step):
    out = []
    k = 0
    while True:
        t = a + k * step
        if t > b + 1e-9 * max(1, abs(b)) + 1e-6 * step or k > 5000:
            return out
        out.append(min(1.0, t))
        k += 1


def recorded_deviation(a, b, step):
    """Known finding: the range ends at np.arange(.., min(1, to+step), ..), which leaves out a last
    threshold 1 and may include one threshold beyond to_thr. Returns the resulting list if it differs."""
    import numpy as np
    out = [float(x) for x in np.arange(a, min(1, b + step), step)]
    return out if len(out) != len(expected_thresholds(a, b, step)) else None


def usable_shape(c):
    """Known finding: a single mode for several methods, or several modes for a single method, is rejected"""
    single = c["single"] and len(c["methods"]) == 1
    if isinstance(c["modes"], str) and not single:
        c["modes"] = [c["modes"]]
    elif not isinstance(c["modes"], str) and single:
        c["modes"] = c["modes"][0]
    # Known finding: rounding makes the range reach beyond 1, which every method rejects
    a, b, step = c["range"]
    import numpy as np
    while any(x > 1 for x in np.arange(a, min(1, b + step), step)):
        b -= step
        c["range"] = [a, b, step]
    return c


def judged(judge, a, b, step, strict):
    alt = None if strict else recorded_deviation(a, b, step)
    try:
        return judge(expected_thresholds(a, b, step))
    except Violation:
        if alt is None:
            raise
    return judge(alt)


def check_thresholds(got, want, what):
    require(len(got) <= len(want), "too-many-thresholds", lambda: "%s: %s, requested %s" % (what, got, want))
    for i, (g, w) in enumerate(zip(got, want)):
        require(abs(g - w) <= 1e-9, "threshold", lambda: "%s: %d-th threshold %r instead of %r" % (what, i, g, w))


def values_of(el):
    """documented as "statecounts", recorded as "value" """
    return el["value"] if "value" in el else el["statecounts"]


def check_json(d, datas, what):
    files = sorted(glob.glob(os.path.join(d, "*")))
    loaded = [json.load(open(f)) for f in files]
    require(len(files) == len(datas), "json-files", lambda: "%s: %d files for %d runs: %s" % (what, len(files), len(datas), [os.path.basename(f) for f in files]))
    left = list(loaded)
    for x in datas:
        y = json.loads(json.dumps(x))
        require(y in left, "json-content", lambda: "%s: no file contains %s (files: %s)" % (what, y, loaded))
        left.remove(y)


def quiet(f):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


# ---------------------------------------------------------------- real methods

@st.composite
def real_cases(draw):
    c = draw(M.model(max_n=6))
    a, b, s = draw(st.sampled_from([(0.1, 0.5, 0.2), (0.1, 1, 0.3), (0.25, 1, 0.25), (0.5, 0.7, 0.1), (0.05, 0.2, 0.05), (0.1, 0.3, 0.1), (0.9, 1, 0.05), (0.3, 0.3, 0.1), (1e-3, 3e-3, 1e-3), (0.4, 0.2, 0.1)]))
    c["range"] = [a, b, s]
    c["methods"] = draw(st.lists(st.sampled_from([["milp"], ["qs", 1, 0, 0], ["qs", 2, 1, 1], ["qs", 3, 2, 0], ["qs", 2, 0, 1]]), min_size=1, max_size=2, unique_by=lambda x: str(x)))
    c["single"] = draw(M.BOOL)
    c["modes"] = draw(st.sampled_from(["min", "max", ["min"], ["min", "max"], ["max", "min"], ["max"]]))
    c["withlabels"] = draw(st.sampled_from([None, None, ["a", "b"], ["c"], ["a", "b", "c", "d"]]))
    c["debug"] = draw(st.sampled_from([False, False, True]))
    c["json"] = draw(M.BOOL)
    return usable_shape(c)


def real_method(spec):
    from switss.problem import MILPExact, QSHeur, AllOnesInitializer, InverseReachabilityInitializer, InverseFrequencyInitializer, InverseResultUpdater, InverseResultFixedZerosUpdater
    updaters = [InverseResultUpdater, InverseResultFixedZerosUpdater]
    if spec[0] == "milp":
        return MILPExact(solver="cbc")
    return QSHeur(iterations=spec[1], initializertype=[AllOnesInitializer, InverseReachabilityInitializer, InverseFrequencyInitializer][spec[2]],
                  updatertype=updaters[spec[3]], solver="cbc")


def run_real(case, ctx):
    from switss.benchmarks import benchmarks as bm
    m, rf, smap, amap = M.reduce(case)
    labels = case["withlabels"]
    if labels is not None:
        labels = [l for l in labels if l in case["labels"] and any(s in smap for s in case["labels"][l])] or None
    specs = case["methods"]
    if "max" in ([case["modes"]] if isinstance(case["modes"], str) else case["modes"]) and not rfs.view(rf).ecfree:
        # exact minimization for max needs an EC-free form (documented)
        specs = [s if s[0] != "milp" else ["qs", 2, 2, 1] for s in specs]
    methods = [real_method(s) for s in specs]
    single = case["single"] and len(methods) == 1
    modes = [case["modes"]] if isinstance(case["modes"], str) else case["modes"]
    a, b, step = case["range"]
    d = tempfile.mkdtemp(prefix="c17-")
    try:
        ret = quiet(lambda: bm.run(rf, methods[0] if single else methods, case["modes"], from_thr=a, to_thr=b, step=step, labels=labels, debug=case["debug"], json_dir=d if case["json"] else None))
        datas = [ret] if single and isinstance(case["modes"], str) else ret
        require(isinstance(datas, list) and len(datas) == len(methods) * len(modes), "datasets", lambda: "%d methods and modes %s give %s" % (len(methods), modes, ret))
        if case["json"]:
            check_json(d, datas, "json")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _, rf2, _, _ = M.reduce(case)
    stopped, multi = judged(lambda want: judge_real(specs, modes, datas, labels, rf2, want), a, b, step, case.get("strict"))
    ctx.tag("labels" if labels else "states", "stopped" if stopped else "full", "%d-runs" % len(datas), "single" if single else "several", "json" if case["json"] else "no-json")
    ctx.nontrivial(multi >= 2)


def judge_real(specs, modes, datas, labels, rf2, want):
    stopped = multi = 0
    k = 0
    for spec in specs:
        for mode in modes:
            data = datas[k]
            k += 1
            what = "%s %s" % (spec, mode)
            require(data["mode"] == mode and data["method"] == real_method(spec).details, "dataset-of", lambda: "%s: %s %s" % (what, data["method"], data["mode"]))
            els = data["run"]
            check_thresholds([e["threshold"] for e in els], want, what)
            for j, t in enumerate(want):
                # the threshold exactly as recorded: differences by rounding do not matter
                thr = els[j]["threshold"] if j < len(els) else t
                direct = [(r.status, r.value) for r in real_method(spec).solveiter(rf2, thr, mode, labels=labels)]
                if any(s == "infeasible" for s, _ in direct):
                    require(j >= len(els), "infeasible-recorded", lambda: "%s: threshold %s is infeasible, recorded %s" % (what, thr, els[j:]))
                    stopped += 1
                    break
                if j >= len(els):
                    # the recorded threshold is not known: a direct solve close to the optimum may differ
                    v = rfs.view(rf2)
                    if abs(float(v.pr[mode][v.init]) - thr) < 1e-4:
                        break
                    raise Violation("threshold-missing", "%s: nothing recorded for threshold %s, a direct solve gives %s" % (what, thr, direct))
                if any(s != "success" for s, _ in direct):
                    break
                got = values_of(els[j])
                require(len(got) == len(direct) and all(abs(x - y) <= 1e-6 for x, (_, y) in zip(got, direct)), "values", lambda: "%s: threshold %s: recorded %s, direct solves %s" % (what, thr, got, direct))
                multi += len(got)
    return stopped, multi


# ---------------------------------------------------------------- scripted methods

STATUS = ["success"] * 12 + ["infeasible", "notsolved", "undefined", "unbounded", "timeout"]


@st.composite
def scripted_cases(draw):
    a, b, s = draw(st.sampled_from([(0.1, 0.5, 0.1), (0.1, 1, 0.1), (0.05, 0.95, 0.05), (0.25, 1, 0.25), (0.01, 0.07, 0.01), (0.1, 0.3, 0.1), (0.2, 0.7, 0.2), (0.9, 1, 0.02), (0.3, 0.3, 0.1), (1e-3, 12e-3, 1e-3), (0.4, 0.2, 0.1), (0.15, 0.85, 0.07), (0.5, 1, 0.3), (0, 0.4, 0.2)])) if draw(M.BOOL) else (draw(I(0, 50)) / 100, draw(I(30, 100)) / 100, draw(I(3, 30)) / 100)
    n = len(expected_thresholds(a, b, s))
    meths = []
    for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
        nres = draw(I(1, 4))
        script = {}
        for mode in ("min", "max"):
            bad = draw(st.sampled_from([0, 0, 1, 2]))
            script[mode] = []
            for j in range(n):
                script[mode].append([["success", draw(st.sampled_from([0, 1, 2, 3, 5, 8, 13, 100, 4321, 2.0]))] for _ in range(nres)])
            for _ in range(bad):
                if n:
                    j = draw(I(0, n - 1))
                    r = draw(I(0, len(script[mode][j]) - 1))
                    script[mode][j][r] = [draw(st.sampled_from(["infeasible", "notsolved", "undefined", "unbounded"])), None]
                    if draw(M.BOOL):
                        script[mode][j] = script[mode][j][:r + 1]
        meths.append(script)
    return usable_shape({"range": [a, b, s], "methods": meths, "single": draw(M.BOOL), "container": draw(st.sampled_from(["list", "tuple", "list"])),
            "modes": draw(st.sampled_from(["min", "max", ["min"], ["min", "max"], ["max", "min"], ["max"]])),
            "labels": draw(st.sampled_from([None, ["a"], ["a", "b"]])), "timeout": draw(st.sampled_from([None, 5, 60])), "stop": draw(st.sampled_from([True, False, None])),
            "debug": draw(st.sampled_from([False, False, True])), "json": draw(M.BOOL), "sleep": draw(I(0, 20)) == 0, "defaults": draw(I(0, 30)) == 0,
            "plot": {"mode": draw(st.sampled_from(["states-thr", "laststates-thr", "wall_time-thr", "proc_time-thr"])), "normalize": draw(M.BOOL),
                     "range": draw(st.sampled_from([None, None, [0], [0, 1], [1, 0]])), "label": draw(st.sampled_from([None, "my method"])), "title": draw(st.sampled_from([None, "a title"])),
                     "no": draw(I(1, 3)), "e": draw(M.BOOL), "tv": draw(st.sampled_from([None, 99])), "cap": draw(M.BOOL), "ax": draw(I(0, 3)) > 0, "times": draw(st.lists(st.sampled_from([0.5, 2.5, 0.01, 1.0, 3, 700.25, 0]), min_size=4, max_size=4))}})


def reference(script, want, stop):
    """what the run records: list of (k-th threshold, values)"""
    out = []
    for j in range(len(want)):
        vals = []
        for s, v in script[j]:
            if s == "infeasible":
                return out
            if s == "success":
                vals.append(v)
            else:
                vals.append(-1)
                if stop:
                    out.append((j, vals))
                    return out
        out.append((j, vals))
    return out


_form = None


def a_form():
    global _form
    if _form is None:
        from switss.model import ReachabilityForm
        c = {"kind": "mdp", "n": 2, "rows": [[0, 0, [[1, 1]]], [1, 0, [[1, 1]]]], "labels": {"init": [0], "target": [1]}, "alabels": {}, "rewards": None, "rseed": 1}
        _form = M.reduce(c)[1]
    return _form


def run_scripted(case, ctx):
    from switss.benchmarks import benchmarks as bm
    from switss.problem import ProblemFormulation, ProblemResult
    a, b, step = case["range"]
    if case["defaults"]:
        a, b, step = 1e-3, 1, 1e-3
    longest = max(len(expected_thresholds(a, b, step)), len(recorded_deviation(a, b, step) or []))
    rf = a_form()
    calls = []

    def nearest(t):
        return min(max(0, round((t - a) / step)), longest - 1)

    class Scripted(ProblemFormulation):
        def __init__(self, k, script):
            super().__init__()
            self.k, self.script = k, script

        @property
        def details(self):
            return {"type": "Scripted", "k": self.k}

        def _solveiter(self, reachability, threshold, mode, labels, timeout=None):
            j = nearest(threshold)
            calls.append((self.k, mode, threshold, labels, timeout, reachability is rf))
            sc = self.script[mode]
            for s, v in (sc[j] if j < len(sc) else [["success", j % 7]]):
                if case["sleep"] and not case["defaults"]:
                    time.sleep(0.002)
                yield ProblemResult(s, None, v, None)

    def ref_script(script, mode, want):
        sc = script[mode]
        return [sc[j] if j < len(sc) else [["success", j % 7]] for j in range(len(want))]
    methods = [Scripted(k, s) for k, s in enumerate(case["methods"])]
    single = case["single"] and len(methods) == 1
    modes = [case["modes"]] if isinstance(case["modes"], str) else case["modes"]
    kw = {} if case["defaults"] else {"from_thr": a, "to_thr": b, "step": step}
    if case["stop"] is not None:
        kw["stop_on_timeout"] = case["stop"]
    stop = case["stop"] is not False
    d = tempfile.mkdtemp(prefix="c17-")
    try:
        if case["json"]:
            kw["json_dir"] = d
        t0 = time.perf_counter()
        ret = quiet(lambda: bm.run(rf, methods[0] if single else (tuple if case["container"] == "tuple" else list)(methods), case["modes"] if isinstance(case["modes"], str) or case["container"] == "list" else tuple(case["modes"]),
                                   debug=case["debug"], timeout=case["timeout"], labels=case["labels"], **kw))
        total = time.perf_counter() - t0
        datas = [ret] if single and isinstance(case["modes"], str) else ret
        require(isinstance(datas, list) and len(datas) == len(methods) * len(modes), "datasets", lambda: "%d methods and modes %s give %s" % (len(methods), modes, ret))
        if case["json"]:
            check_json(d, datas, "json")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    def judge(want):
        k = 0
        wanted_calls = []
        for me in methods:
            for mode in modes:
                data = datas[k]
                k += 1
                ref = reference(ref_script(me.script, mode, want), want, stop)
                require(data["mode"] == mode and data["method"] == me.details, "dataset-of", lambda: "%s %s instead of %s %s" % (data["method"], data["mode"], me.details, mode))
                els = data["run"]
                require(len(els) == len(ref), "thresholds", lambda: "recorded %s, expected thresholds %s" % ([e["threshold"] for e in els], [want[j] for j, _ in ref]))
                check_thresholds([e["threshold"] for e in els], want, "scripted")
                for e, (j, vals) in zip(els, ref):
                    require(list(values_of(e)) == vals, "values", lambda: "threshold %s: %s instead of %s" % (e["threshold"], values_of(e), vals))
                    w, p = e["wall_times"], e["proc_times"]
                    require(len(w) == len(vals) and len(p) == len(vals), "times", lambda: "%s" % e)
                    require(all(0 <= x <= total for x in w) and all(x <= y for x, y in zip(w, w[1:])) and all(x >= 0 for x in p) and all(x <= y + 1e-9 for x, y in zip(p, p[1:])), "times", lambda: "%s (whole run %s)" % (e, total))
                    if case["sleep"] and not case["defaults"]:
                        require(all(x >= 0.0019 * (i + 1) for i, x in enumerate(w)), "wall-times-too-short", lambda: "%s" % e)
                n = len(ref) + (1 if len(ref) < len(want) and not (ref and -1 in ref[-1][1] and stop) else 0)
                wanted_calls += [(me.k, mode, j) for j in range(n)]
        require([(c[0], c[1], nearest(c[2])) for c in calls] == wanted_calls, "solver-calls", lambda: "%s instead of %s" % ([c[:3] for c in calls], wanted_calls))
        require(all(c[3] == case["labels"] and c[4] == case["timeout"] and c[5] for c in calls), "solver-arguments", lambda: "%s" % calls[:3])
        return want
    want = judged(judge, a, b, step, case.get("strict"))
    check_plot(case["plot"], datas, ctx, case.get("strict"))
    ctx.tag("%d-runs" % len(datas), "stopped-early" if any(len(x["run"]) < len(want) for x in datas) else "full", "timeouts" if any(-1 in values_of(e) for x in datas for e in x["run"]) else "no-timeouts",
            "several-results" if any(len(values_of(e)) > 1 for x in datas for e in x["run"]) else "single-results")
    ctx.nontrivial(any(len(x["run"]) >= 2 for x in datas))


def check_plot(plot, datas, ctx, strict):
    """renders every run and compares the plotted lines with the recorded data"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from switss.benchmarks import benchmarks as bm
    for data in datas[:2]:
        # known finding: empty runs, and thresholds with different numbers of results (timeouts), are not rendered
        if not strict and len({len(values_of(e)) for e in data["run"]}) != 1:
            ctx.tag("plot:not-rendered")
            continue
        data = json.loads(json.dumps(data))
        for e in data["run"]:      # times that depend on the machine are replaced
            e["wall_times"] = plot["times"][:len(values_of(e))]
            e["proc_times"] = [3 * x for x in plot["times"][:len(values_of(e))]]
        before = json.dumps(data)
        rng = plot["range"]
        n = max([len(values_of(e)) for e in data["run"]], default=0)
        if rng is not None and any(i >= n for i in rng):
            rng = [0] if n else []
        kw = {"mode": plot["mode"], "normalize": plot["normalize"], "sol_range": rng, "custom_label": plot["label"], "title": plot["title"], "plot_no": plot["no"], "e_mode": plot["e"], "timeout_val": plot["tv"], "cap_times_below_onesec": plot["cap"]}
        if plot["ax"]:
            ax = Figure().add_subplot()
            r = bm.render(data, ax=ax, **kw)
            require(r is ax, "axis", "the given axis is not returned")
        else:
            plt.close("all")
            ax = bm.render(data, **kw)
        require(json.dumps(data) == before, "render-changes-data", "")
        want = []
        times = {"wall_time-thr": "wall_times", "proc_time-thr": "proc_times"}.get(plot["mode"])
        if times:
            idxs = rng if rng is not None else [-1]
        elif plot["mode"] == "states-thr":
            idxs = rng if rng is not None else range(n)
        else:
            idxs = [i for i in (rng if rng is not None else range(n)) if i == n - 1]
        for i in idxs:
            pts = []
            for e in data["run"]:
                ys = e[times] if times else values_of(e)
                if i >= len(ys):
                    continue
                y = ys[i]
                if times:
                    if plot["cap"] and 0 <= y <= 1:
                        y = 1
                else:
                    if y == -1 and plot["tv"] is not None:
                        y = plot["tv"]
                    if plot["normalize"]:
                        y = y / 1000
                pts.append((e["threshold"], y))
            want.append(pts)
        got = [[(float(x), float(y)) for x, y in zip(l.get_xdata(), l.get_ydata())] for l in ax.lines]
        same = len(got) == len(want) and all(len(g) == len(w) and all(abs(p[0] - q[0]) < 1e-12 and abs(p[1] - q[1]) < 1e-9 for p, q in zip(g, w)) for g, w in zip(got, want))
        require(same, "plotted-points", lambda: "%s: plotted %s, recorded %s" % (kw, got, want))
        name = plot["label"] if plot["label"] is not None else data["method"]["type"]
        require(all(l.get_label().startswith(name) for l in ax.lines), "line-label", lambda: "%s" % [l.get_label() for l in ax.lines])
        if len(want) > 1:
            require(len({l.get_label() for l in ax.lines}) == len(want), "line-labels-equal", lambda: "%s" % [l.get_label() for l in ax.lines])
        if plot["title"] is not None:
            require(ax.get_title() == plot["title"], "title", ax.get_title())
        require("threshold" in ax.get_xlabel() and ("time" if times else "states") in ax.get_ylabel(), "axis-labels", lambda: "%s %s" % (ax.get_xlabel(), ax.get_ylabel()))
        if not times:
            require(("1000" in ax.get_ylabel()) == plot["normalize"], "axis-labels", lambda: ax.get_ylabel())
        if plot["e"]:
            require("%1.1e" % 0.0123 == ax.xaxis.get_major_formatter()(0.0123), "e-mode", "")
        plt.close("all")
    ctx.tag("plot:" + plot["mode"])


CHECKS = [
    Check("scripted", scripted_cases, run_scripted, 1600, 24000,
          "a stand-in problem formulation yields generated results (values, infeasible, other failures) for every threshold; random ranges, methods, mode specifications; recorded data, calls, JSON files and plotted lines compared with a reference; "
          "non-trivial: a run with at least 2 recorded thresholds"),
    Check("direct", real_cases, run_real, 640, 9000,
          "MILPExact/QSHeur on random reachability forms, every recorded value compared with a direct solve on a fresh form; non-trivial: at least 2 recorded values compared"),
]

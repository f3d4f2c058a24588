"""C15: the command line tool."""
import contextlib, io, json, os, re, subprocess, sys, tempfile
from hypothesis import strategies as st
from ..core import Check, require, Violation, oracle
from .. import models as M, rfs, oracles as O, witness as W
from ..models import I

NAMES = {"init": ["init", "init", "start here"], "target": ["target", "target", "goal!"], "rf_target": ["rf_target", "rf_target", "T"],
         "rf_fail": ["rf_fail", "rf_fail", "no way"], "subsystem": ["subsystem", "subsystem", "in sub"]}


@st.composite
def pipelines(draw, max_n=6):
    c = draw(M.model(min_n=2, max_n=max_n, ecfree=draw(st.sampled_from([True, True, False])), rewards=False))
    for k in NAMES:
        c["L_" + k] = draw(st.sampled_from(NAMES[k]))
    labels = c["labels"]
    c["labels"] = {**{k: v for k, v in labels.items() if k not in ("init", "target")}, c["L_init"]: labels["init"], c["L_target"]: labels["target"]}
    c["mode"] = draw(st.sampled_from(["min", "max"]))
    c["method"] = draw(st.sampled_from(["QSHeur", "QSHeur", "MILPExact"]))
    c["iterations"] = draw(st.sampled_from([None, 1, 2, 3, 4]))
    c["initializer"] = draw(st.sampled_from([None, "AllOnesInitializer", "InverseFrequencyInitializer", "InverseReachabilityInitializer"]))
    c["updater"] = draw(st.sampled_from([None, "InverseResultUpdater"]))
    c["solver"] = draw(st.sampled_from([None, "cbc", "cbc", "glpk"]))
    c["frac"] = draw(st.sampled_from([0.25, 0.5, 0.9, 0.75, 0.99, 1.5]))
    c["uselabels"] = draw(I(0, 2)) == 0
    c["si"] = draw(M.BOOL)
    c["timeout"] = draw(st.sampled_from([None, None, None, 60]))
    c["out"] = [draw(M.BOOL) for _ in range(3)]
    c["tol"] = draw(st.sampled_from([None, None, 1e-3, 1e-7]))
    c["corrupt"] = draw(st.lists(st.tuples(st.sampled_from(["scale", "neg", "add", "zero", "thr", "none"]), I(0, 20)).map(list), min_size=1, max_size=4))
    c["order"] = draw(M.BOOL)
    return c


_code = None


def cli_inprocess(cwd, args):
    """-> (exit status, stdout, stderr) of the tool's main program, run in this process"""
    global _code
    import switss
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(switss.__file__))), "bin", "switss")
    if _code is None:
        _code = compile(open(path).read(), path, "exec")
    out, err = io.StringIO(), io.StringIO()
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = [path] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(_code, {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception as e:
                rc = 1
                err.write("%s: %s" % (type(e).__name__, e))
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return rc, out.getvalue(), err.getvalue()


def cli_process(cwd, args):
    import switss
    root = os.path.dirname(os.path.dirname(os.path.abspath(switss.__file__)))
    env = dict(os.environ, PYTHONPATH=root, PYTHONWARNINGS="ignore")
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(root, "bin", "switss")] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    return r.returncode, r.stdout, r.stderr


def same_model(a, b, what):
    """two loaded/built models represent the same labelled model"""
    require((int(a.N), int(a.C)) == (int(b.N), int(b.C)), "model", lambda: "%s: %s vs %s" % (what, a, b))

    def trans(m):
        return {(tuple(map(int, m.index_by_state_action.inv[int(i)])), int(d)): float(p) for (i, d), p in m.P.items() if p != 0}
    x, y = trans(a), trans(b)
    require(set(x) == set(y) and all(abs(x[k] - y[k]) <= 1e-14 for k in x), "model-transitions", lambda: "%s: %s vs %s" % (what, x, y))
    la, lb = ({l: {int(s) for s in m.states_by_label[l]} for l in m.states_by_label.keys()} for m in (a, b))
    require(la == lb, "model-labels", lambda: "%s: %s vs %s" % (what, la, lb))


def run(case, ctx, cli=cli_inprocess, full=True):
    import numpy as np
    import switss.problem as sp
    from switss.model import DTMC, MDP, ReachabilityForm
    cls = {"dtmc": DTMC, "mdp": MDP}[case["kind"]]
    m = M.build(case)

    with tempfile.TemporaryDirectory() as d:
        def call(*args, ok=True):
            rc, out, err = cli(d, [str(a) for a in args])
            require((rc == 0) == ok, "exit-status", lambda: "switss %s: exit status %s\n%s\n%s" % (" ".join(map(str, args)), rc, out[-500:], err[-500:]))
            return out

        kind = case["kind"]
        m.save(os.path.join(d, "model"))
        disk = cls.from_file(os.path.join(d, "model.lab"), os.path.join(d, "model.tra"))
        out = call("info", kind, "model")
        check_info(out, disk)
        # ---- rf
        args = ["rf", kind, "model"]
        opts = []
        for flag, key, default in (("-i", "init", "init"), ("-trf", "rf_target", "rf_target"), ("-frf", "rf_fail", "rf_fail")):
            if case["L_" + key] != default or case["order"]:
                opts += [flag, case["L_" + key]]
        args += opts
        if case["L_target"] != "target":
            args += ["-t", case["L_target"]]
        rfpath = "model-rf"
        if case["out"][0]:
            rfpath = "other rf"
            args += ["-o", rfpath]
        call(*args)
        rf, smap, amap = ReachabilityForm.reduce(disk, case["L_init"], case["L_target"], case["L_rf_target"], case["L_rf_fail"])
        rfdisk = cls.from_file(os.path.join(d, rfpath + ".lab"), os.path.join(d, rfpath + ".tra"))
        same_model(rfdisk, rf.system, "stored reachability form")
        mp = json.load(open(os.path.join(d, rfpath + ".mapping.json")))
        got = {((s, a), (q, b)) for s, a, q, b in zip(mp["states"], mp["actions"], mp["rfstates"], mp["rfactions"])}
        exp = {(tuple(map(int, k)), tuple(map(int, w))) for k, w in amap.items()}
        require(got == exp and len(mp["states"]) == len(exp) == len(mp["rfactions"]), "mapping", lambda: "%s, expected %s" % (mp, exp))
        # ---- minimize
        form = ReachabilityForm(rfdisk, case["L_init"], case["L_rf_target"], case["L_rf_fail"])
        v = rfs.view(form)
        mode, method = case["mode"], case["method"]
        if mode == "max" and not v.ecfree:
            method = "QSHeur"
        full_pr = float(v.pr[mode][v.init])
        thr = round(min(1.0, full_pr * case["frac"]), 9)
        if abs(thr - full_pr) < 1e-3:
            thr = round(max(0.0, full_pr - 2e-3), 9)
        solver = case["solver"]
        if solver == "glpk" and (method == "MILPExact" or W.milp_solver({"solver": "glpk"}, v, mode, thr) != "glpk"):
            solver = "cbc"
        mparams = [method, "mode=" + mode]
        kw = {}
        if solver:
            mparams.append("solver=" + solver)
            kw["solver"] = solver
        if method == "QSHeur":
            for key, val in (("iterations", case["iterations"]), ("initializertype", case["initializer"]), ("updatertype", case["updater"])):
                if val is not None:
                    mparams.append("%s=%s" % (key, val))
                    kw[key] = val if key == "iterations" else getattr(sp, val)
        sparams = ["threshold=%r" % thr]
        labels = [l for l in "abcd" if case["labels"].get(l)] if case["uselabels"] else []
        skw = {}
        if labels:
            sparams.append("labels=" + ",".join(labels))
            skw["labels"] = labels
        if case["timeout"] is not None:
            sparams.append("timeout=%d" % case["timeout"])
            skw["timeout"] = case["timeout"]
        args = ["minimize", kind, rfpath] + opts + ["-m"] + mparams + ["-si" if case["si"] else "-s"] + sparams
        certpath = rfpath + ".certificates.json"
        if case["out"][1]:
            certpath = "c.json"
            args += ["-c", certpath]
        out = call(*args)
        info = json.load(open(os.path.join(d, certpath)))
        solver_obj = getattr(sp, method)(**kw)
        direct = list(solver_obj.solveiter(form, thr, mode, **skw)) if case["si"] else [solver_obj.solve(form, thr, mode, **skw)]
        direct = [r for r in direct if r.status == "success"]
        inst = info["instances"]
        what = lambda: "%s: %s, the library gives %s" % (" ".join(map(str, args)), info, [(r.status, r.farkas_cert) for r in direct])
        if full_pr < thr:
            require(inst == [], "certificate-for-false-claim", what)
        require(len(inst) == len(direct), "instances", what)
        require(info["method"]["type"] == method and info["method"]["mode"] == mode and info["method"]["solver"] == (solver or "cbc"), "method-info", what)
        if method == "QSHeur":
            require(info["method"]["iterations"] == (case["iterations"] or 3) and info["method"]["initializertype"] == (case["initializer"] or "AllOnesInitializer") and info["method"]["updatertype"] == (case["updater"] or "InverseResultUpdater"), "method-info", what)
            if case["si"] and full_pr >= thr:
                require(len(inst) == (case["iterations"] or 3), "instances", what)
        for k, (i, r) in enumerate(zip(inst, direct)):
            require(abs(i["threshold"] - thr) <= 1e-12, "threshold", what)
            require(len(i["certificate"]) == len(r.farkas_cert) and np.abs(np.array(i["certificate"]) - r.farkas_cert).max() <= 1e-9, "certificate", what)
            require(i["iteration"] == k, "iteration", what)
            W.check_certificate(v, mode, thr, i["certificate"], what())
        verdicts = re.findall(r"certificate (VALID|INVALID)", out)
        require(verdicts == ["VALID"] * len(inst), "minimize-verdict", lambda: "%s\n%s" % (out, what()))
        # ---- certify, also on corrupted certificates
        ctx.tag(kind, mode, method, "si" if case["si"] else "s", "infeasible" if full_pr < thr else "feasible")
        bad = corrupt(case, info)
        out = call(*(["certify", kind, rfpath] + opts + ["-c", certpath]))
        check_verdicts(v, mode, 1e-5, inst, out, ctx)
        json.dump(bad, open(os.path.join(d, "bad.json"), "w"))
        out = call(*(["certify", kind, rfpath] + opts + ["-c", "bad.json"] + (["-tol", repr(case["tol"])] if case["tol"] else [])))
        check_verdicts(v, mode, case["tol"] or 1e-5, bad["instances"], out, ctx)
        # ---- subsystem
        args = ["subsystem", kind, rfpath] + opts + ["-c", certpath]
        sl = case["L_subsystem"]
        if sl != "subsystem":
            args += ["-sl", sl]
        sspath = rfpath + "-subsys"
        if case["out"][2]:
            sspath = "sub"
            args += ["-o", sspath]
        call(*args)
        for i in inst:
            p = os.path.join(d, "%s-%s" % (sspath, i["iteration"]))
            sub = cls.from_file(p + ".lab", p + ".tra")
            S = set(W.positive_states(v, mode, i["certificate"]))
            require({int(s) for s in sub.states_by_label[sl]} == S, "subsystem-label", lambda: "%s: %s, expected %s" % (sspath, sub.states_by_label[sl], S))
            for s in S:
                rfdisk.add_label(s, sl)
            if not S:       # the library's labels: an empty one may or may not be listed
                sub.states_by_label.keys()
            same_model_but(sub, rfdisk, sl, "stored subsystem")
            for s in S:
                rfdisk.states_by_label.remove(sl, s)
        # ---- render
        if full:
            call("render", kind, "model")
            check_svg(os.path.join(d, "model-render.svg"), case)
            call("render", kind, "model", "-o", "pic", "-col", ",".join(["a", "b", case["L_init"]]))
            check_svg(os.path.join(d, "pic.svg"), case, colors={"a", "b", case["L_init"]})
        ctx.nontrivial(len(inst) > 0 and v.n >= 2)


def same_model_but(sub, rfdisk, label, what):
    import copy
    if label in rfdisk.states_by_label.keys() and not rfdisk.states_by_label[label] and label not in sub.states_by_label.keys():
        return
    la = {l: {int(s) for s in sub.states_by_label[l]} for l in sub.states_by_label.keys() if l != label or sub.states_by_label[l]}
    lb = {l: {int(s) for s in rfdisk.states_by_label[l]} for l in rfdisk.states_by_label.keys() if l != label or rfdisk.states_by_label[l]}
    require(la == lb, "model-labels", lambda: "%s: %s vs %s" % (what, la, lb))
    x, y = ({(tuple(map(int, m.index_by_state_action.inv[int(i)])), int(d)): float(p) for (i, d), p in m.P.items() if p != 0} for m in (sub, rfdisk))
    require(set(x) == set(y) and all(abs(x[k] - y[k]) <= 1e-14 for k in x), "model-transitions", lambda: "%s: %s vs %s" % (what, x, y))


def corrupt(case, info):
    bad = json.loads(json.dumps(info))
    for k, i in enumerate(bad["instances"]):
        how, pos = case["corrupt"][k % len(case["corrupt"])]
        c = i["certificate"]
        j = pos % len(c)
        if how == "scale":
            i["certificate"] = [x * 0.5 for x in c]
        elif how == "neg":
            c[j] = -0.25
        elif how == "add":
            c[j] += 1.0
        elif how == "zero":
            i["certificate"] = [0.0] * len(c)
        elif how == "thr":
            i["threshold"] = min(1.0, i["threshold"] + 0.01)
    return bad


def check_verdicts(v, mode, tol, instances, out, ctx):
    verdicts = re.findall(r"checking certificate (\S+) @ threshold=(\S+) - (VALID|INVALID)", out)
    require(len(verdicts) == len(instances), "verdicts", lambda: "%s verdicts for %s certificates:\n%s" % (len(verdicts), len(instances), out))
    for (it, thr, verdict), i in zip(verdicts, instances):
        require(int(it) == i["iteration"] and abs(float(thr) - i["threshold"]) <= 1e-9, "verdict-of", lambda: "%s for %s" % (verdicts, instances))
        viol, _ = rfs.violation(v, mode, ">=", i["threshold"], i["certificate"])
        what = lambda: "%s says %s about certificate %s for threshold %s, which violates a condition by %s" % (mode, verdict, i["certificate"], i["threshold"], viol)
        if viol <= 0.5 * tol - 1e-12:
            require(verdict == "VALID", "valid-rejected", what)
            ctx.tag("certified valid")
        elif viol > 2 * tol + 1e-12:
            require(verdict == "INVALID", "invalid-accepted", what)
            ctx.tag("certified invalid")


def check_info(out, m):
    cn = re.search(r"C=(\d+), N=(\d+)", out)
    require(cn and (int(cn.group(1)), int(cn.group(2))) == (int(m.C), int(m.N)), "info", lambda: "%s for C=%s N=%s" % (out, m.C, m.N))
    for l in m.states_by_label.keys():
        require("%s (%d)" % (l, len(m.states_by_label[l])) in out, "info", lambda: "%s: label %s with %d states" % (out, l, len(m.states_by_label[l])))


def check_svg(path, case, colors=None):
    require(os.path.exists(path), "render", "no file %s" % os.path.basename(path))
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    ns = "{http://www.w3.org/2000/svg}"
    nodes = [g for g in root.iter(ns + "g") if g.get("class") == "node"]
    edges = [g for g in root.iter(ns + "g") if g.get("class") == "edge"]
    trans = sum(len(ds) for _, _, ds in case["rows"])
    touched = {s for s, _, _ in case["rows"]} | {d for _, _, ds in case["rows"] for d, _ in ds}
    if case["kind"] == "dtmc":
        exp = (len(touched), trans)
    else:
        exp = (len(touched) + len(case["rows"]), trans + len(case["rows"]))
    require((len(nodes), len(edges)) == exp, "render", lambda: "%s nodes, %s edges drawn, expected %s" % (len(nodes), len(edges), exp))
    if colors is not None:
        comb = {}
        found = 0
        for g in nodes:
            texts = ["".join(t.itertext()) for t in g.iter(ns + "text")]
            q = re.match(r"State (\d+)$", texts[0]) if texts else None
            if q:
                found += 1
                s = int(q.group(1))
                shape = next(x for x in g if x.tag in (ns + "ellipse", ns + "polygon", ns + "path"))
                key = tuple(sorted(l for l in colors if s in case["labels"].get(l, [])))
                comb.setdefault(key, set()).add(shape.get("fill"))
                shown = set(",".join(texts[1:]).split(",")) - {""} if len(texts) > 1 else set()
                exp = {l for l, ss in case["labels"].items() if s in ss}
                require({x.replace("\xa0", " ").strip() for x in shown} == exp, "render-labels", lambda: "state %s: %s, expected %s" % (s, texts, exp))
        require(found == len(touched), "render-states", lambda: "%s of %s states drawn" % (found, len(touched)))
        require(all(len(c) == 1 for c in comb.values()), "render-colors", lambda: str(comb))


def run_process(case, ctx):
    run(case, ctx, cli=cli_process, full=False)


# ------------------------------------------------------------------ wrong arguments

@st.composite
def wrong(draw):
    c = draw(M.model(min_n=2, max_n=5, rewards=False))
    c["how"] = draw(st.sampled_from(["no-command", "no-file", "type", "no-method", "no-solve", "no-init", "not-rf", "collision", "dtmc-on-mdp"]))
    return c


def run_wrong(case, ctx):
    how = case["how"]
    with tempfile.TemporaryDirectory() as d:
        m = M.build(case)
        m.save(os.path.join(d, "model"))
        kind = case["kind"]
        before = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
        if how in ("no-method", "no-solve", "collision"):
            rc, out, err = cli_inprocess(d, ["rf", kind, "model", "-o", "rf"])
            require(rc == 0, "exit-status", err)
        args = {"no-command": [], "no-file": ["rf", kind, "nothing"], "type": ["rf", "pomdp", "model"], "no-method": ["minimize", kind, "rf", "-s", "threshold=0.1"],
                "no-solve": ["minimize", kind, "rf", "-m", "QSHeur", "mode=min"], "no-init": ["rf", kind, "model", "-i", "unknown"],
                "not-rf": ["minimize", kind, "model", "-m", "QSHeur", "mode=min", "-s", "threshold=0.1"],
                "collision": ["subsystem", kind, "rf", "-c", "c.json", "-sl", "init"], "dtmc-on-mdp": ["rf", "dtmc", "model"]}[how]
        if how == "collision":
            json.dump({"method": {"type": "QSHeur", "mode": "min"}, "instances": []}, open(os.path.join(d, "c.json"), "w"))
        if how == "dtmc-on-mdp" and kind == "dtmc":
            return
        rc, out, err = cli_inprocess(d, args)
        require(rc != 0, "error-not-reported", lambda: "switss %s succeeded: %s" % (args, out))
        for f, t in before.items():
            require(open(os.path.join(d, f)).read() == t, "input-modified", f)
        require(not os.path.exists(os.path.join(d, "model-rf.tra")) and not os.path.exists(os.path.join(d, "rf.certificates.json")), "output-despite-error", lambda: str(os.listdir(d)))
    ctx.tag(how)
    ctx.nontrivial()


CHECKS = [
    Check("pipeline", pipelines, run, 1600, 60000,
          "info, rf, minimize, certify (valid and corrupted certificates), subsystem and render on random saved models with random options, each compared with the library or the model; non-trivial: at least one certificate and two states"),
    Check("process", pipelines, run_process, 24, 400, "the same, each command in a process of its own, without render", shrink=False),
    Check("wrong-arguments", wrong, run_wrong, 300, 6000, "missing files, labels, methods and wrong types must be reported by the exit status without touching the input; every case counts"),
]

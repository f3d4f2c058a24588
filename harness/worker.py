"""Runs the checks of one property over generated cases (one of several parallel workers), or replays
saved cases. Started by run.py with switss importable from --root."""
import argparse, importlib, json, os, random, resource, signal, sys, time, traceback

ap = argparse.ArgumentParser()
ap.add_argument("--prop", required=True)
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--worker", type=int, default=0)
ap.add_argument("--nworkers", type=int, default=1)
ap.add_argument("--flavour", default="plain")
ap.add_argument("--root", required=True)
ap.add_argument("--out", required=True)
ap.add_argument("--journal", required=True)
ap.add_argument("--replay")
ap.add_argument("--budget", type=float, default=300)
ap.add_argument("--scale", type=float, default=1.0)
ap.add_argument("--only")
A = ap.parse_args()

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, A.root)
sys.path.insert(1, os.path.dirname(HERE))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
if A.flavour.startswith("tree"):
    sys.path.insert(2, os.path.join(HERE, "standins"))     # graph_tool, dd, more_itertools
if A.flavour == "gurobi":
    sys.path.insert(2, os.path.join(HERE, "standins_gurobi"))     # gurobipy
if not A.flavour.endswith("asan"):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.setrecursionlimit(3000)
SHRINK_S = 45.0

from harness import core  # noqa
T0 = time.monotonic()
result = {"worker": A.worker, "checks": {}, "violation": None, "harness_error": None, "truncated": False, "inconclusive": 0, "done": False}


def save():
    with open(A.out + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(A.out + ".tmp", A.out)


jfd = os.open(A.journal, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)


def journal(name, js):
    b = ("%s\n%s" % (name, js)).encode()
    os.pwrite(jfd, b, 0)
    os.ftruncate(jfd, len(b))


def one_round():
    mod = importlib.import_module("harness.props." + A.prop.lower())
    checks = {c.name: c for c in mod.CHECKS}
    if A.replay:
        rep = json.load(open(A.replay))
        cases = rep["sequence"] if "sequence" in rep else [{"check": rep["check"], "case": rep["case"]}]
        for i, e in enumerate(cases):
            journal(e["check"], core.dumps(e["case"]))
            try:
                core.execute(checks[e["check"]], e["case"])
            except core.Violation as v:
                result["violation"] = {"check": e["check"], "case": e["case"], "kind": v.kind, "msg": v.msg[:2000]}
                break
            except core.Inconclusive as e2:
                result["inconclusive"] += 1
                result["inconclusive_why"] = str(e2)
        return

    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck, Verbosity
    order = [c for c in mod.CHECKS if c.flavour == A.flavour and (not A.only or c.name in A.only.split(","))]
    # saved regression cases first
    regdir = os.path.join(os.path.dirname(HERE), "regress", A.prop)
    history = []

    def st_for(c):
        return result["checks"].setdefault(c.name, {"evals": 0, "hashes": [], "tags": {}, "samples": [], "rule": c.rule, "fails": 0, "inconclusive": 0, "regress": 0, "wall": 0})

    def note(c, js, ctx):
        st = st_for(c)
        st["evals"] += 1
        for t in set(ctx.tags):
            st["tags"][t] = st["tags"].get(t, 0) + 1
        if ctx.nt:
            h = core.case_hash(c.name, js)
            hs = st.setdefault("_hs", set())
            if h not in hs:
                hs.add(h)
                if len(hs) in (7, 40) and len(js) < 3000:
                    st["samples"].append({"check": c.name, "case": json.loads(js), "tags": sorted(set(ctx.tags))})

    def fail(c, case, v):
        st_for(c)["fails"] += 1
        result["violation"] = {"check": c.name, "case": case, "kind": v.kind, "msg": v.msg[:2000], "history": history[-400:]}

    if os.path.isdir(regdir):
        for i, fn in enumerate(sorted(os.listdir(regdir))):
            if i % A.nworkers != A.worker or not fn.endswith(".json"):
                continue
            rep = json.load(open(os.path.join(regdir, fn)))
            c = checks.get(rep["check"])
            if c is None or c not in order:
                continue
            js = core.dumps(rep["case"])
            journal(c.name, js)
            try:
                ctx = core.execute(c, rep["case"])
                note(c, js, ctx)
                st_for(c)["regress"] += 1
            except core.Violation as v:
                fail(c, rep["case"], v)
                return
            except core.Inconclusive:
                result["inconclusive"] += 1

    for c in order:
        n = c.quick if A.tier == "quick" else c.thorough
        n = int(n * A.scale)
        n = n // A.nworkers + (1 if A.worker < n % A.nworkers else 0)
        if n <= 0:
            continue
        st = st_for(c)
        t_start = time.monotonic()
        import zlib
        seed = zlib.crc32(("%s/%s/%d/%d" % (A.prop, c.name, A.seed, A.worker)).encode())
        S = {"first_fail": None, "best": None, "harness": None}

        def make_test(c, st, S):
            def test(case):
                if S["harness"]:
                    return
                now = time.monotonic()
                if S["first_fail"] is None and now - T0 > A.budget:
                    result["truncated"] = True
                    return
                if S["first_fail"] is not None and now - S["first_fail"] > SHRINK_S:
                    return
                js = core.dumps(case)
                journal(c.name, js)
                case = json.loads(js)   # what is run is what is saved: the case never shares state with the generator
                ctx = core.Ctx()
                if S["first_fail"] is None:
                    history.append({"check": c.name, "case": json.loads(js)})
                    if len(history) > 1000:
                        del history[:500]
                try:
                    core.execute(c, case, ctx)
                except core.Violation as v:
                    if S["first_fail"] is None:
                        S["first_fail"] = now
                        S["kind"] = v.kind
                        S["hist"] = list(history[:-1])
                        st["fails"] += 1
                    if S["best"] is None or (v.kind == S["kind"] and (len(js), js) < (S["best"][0], S["best"][1])):
                        S["best"] = (len(js), js, v)
                    raise
                except core.Inconclusive as e:
                    result["inconclusive"] += 1
                    st["inconclusive"] += 1
                    st["tags"]["inconclusive: %s" % str(e)[:60]] = st["tags"].get("inconclusive: %s" % str(e)[:60], 0) + 1
                    return
                except core.HarnessError as e:
                    S["harness"] = str(e) + "\ncase=" + js
                    return
                note(c, js, ctx)
            return test

        phases = [Phase.generate] + ([Phase.shrink] if c.shrink else [])
        fn = given(c.strategy())(make_test(c, st, S))
        fn = hypothesis.seed(seed)(fn)
        fn = settings(max_examples=n, database=None, deadline=None, phases=phases, suppress_health_check=list(HealthCheck),
                      report_multiple_bugs=False, verbosity=Verbosity.quiet, print_blob=False)(fn)
        try:
            fn()
        except core.HarnessError as e:
            S["harness"] = str(e)
        except BaseException as e:
            if S["best"] is None and S["harness"] is None:
                S["harness"] = "strategy or hypothesis error: " + "".join(traceback.format_exception(e))[-3000:]
        st["wall"] = round(time.monotonic() - t_start, 1)
        if S["harness"]:
            result["harness_error"] = "%s: %s" % (c.name, S["harness"])
            return
        if S["best"]:
            v = S["best"][2]
            result["violation"] = {"check": c.name, "case": json.loads(S["best"][1]), "kind": v.kind, "msg": v.msg[:2000], "history": S.get("hist", [])[-400:]}
            return


try:
    save()
    one_round()
except core.HarnessError as e:
    result["harness_error"] = str(e)
except BaseException as e:
    result["harness_error"] = "".join(traceback.format_exception(e))[-3000:]
for st in result["checks"].values():
    st["hashes"] = sorted(st.pop("_hs", set()))
result["done"] = True
result["wall"] = round(time.monotonic() - T0, 1)
save()
sys.stdout.flush()
os._exit(0)

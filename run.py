#!/usr/bin/env python3
"""Decides one property by generated-input search.

  run.py C01                 tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  run.py C01 --replay FILE   re-runs one saved case without the generator
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed.
"""
import argparse, glob, hashlib, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from harness import build, meta  # noqa

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
ap.add_argument("--replay")
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--scale", type=float, default=1.0)
ap.add_argument("--only")
ap.add_argument("--budget", type=float)
ap.add_argument("--no-evidence", action="store_true")
A = ap.parse_args()
if A.tier not in ("quick", "thorough"):
    A.tier = "quick"
PROP = A.prop
T0 = time.monotonic()
BUDGET = A.budget or (330.0 if A.tier == "quick" else 6 * 3600.0)


def asan_preload(lib="libasan.so"):
    r = subprocess.run(["gcc", "-print-file-name=" + lib], stdout=subprocess.PIPE, text=True)
    return os.path.realpath(r.stdout.strip())


def env_for(flavour, shim, tmp):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", TMPDIR=tmp, HOME=tmp, MPLBACKEND="Agg", MPLCONFIGDIR=tmp, LC_ALL="C.UTF-8")
    e.pop("PYTHONPATH", None)
    e["LD_PRELOAD"] = shim
    if flavour.endswith("asan"):
        e["LD_PRELOAD"] = asan_preload() + ":" + shim
        if flavour.startswith("tree"):      # libraries that throw C++ exceptions
            e["LD_PRELOAD"] = asan_preload() + ":" + asan_preload("libstdc++.so.6") + ":" + shim
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:log_path=%s/asan" % tmp
        e["PYTHONMALLOC"] = "malloc"
    return e


class Runner:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="run-", dir=self._cache())
        self.trees = {}
        self.n = 0

    def _cache(self):
        os.makedirs(build.CACHE, exist_ok=True)
        return build.CACHE

    def tree(self, flavour):
        if flavour not in self.trees:
            self.trees[flavour] = build.prepare(flavour)
        return self.trees[flavour]

    def close(self):
        for root, _ in self.trees.values():
            shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(self.base, ignore_errors=True)

    def spawn(self, flavour, extra):
        root, shim = self.tree(flavour)
        self.n += 1
        d = os.path.join(self.base, "w%d" % self.n)
        os.makedirs(d)
        cmd = [build.PY, "-B", "-W", "ignore", os.path.join(VERIF, "harness", "worker.py"), "--prop", PROP, "--tier", A.tier, "--seed", str(A.seed),
               "--flavour", flavour, "--root", root, "--out", d + "/out.json", "--journal", d + "/journal"] + extra
        if A.only:
            cmd += ["--only", A.only]
        log = open(d + "/log", "wb")
        env = env_for(flavour, shim, d)
        env["VERIF_MARK"] = d + "/mark"
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=log, stdin=subprocess.DEVNULL, cwd=d, start_new_session=True)
        return {"p": p, "d": d, "flavour": flavour}

    def finish(self, w, timeout):
        """-> (result dict or None, died: str or None)"""
        try:
            rc = w["p"].wait(timeout=timeout)
            died = None
        except subprocess.TimeoutExpired:
            died = "no answer"
            rc = None
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        w["p"].wait()
        res = None
        try:
            res = json.load(open(w["d"] + "/out.json"))
        except Exception:
            pass
        if rc is not None and rc < 0:
            died = "killed by %s" % signal.Signals(-rc).name
            if os.path.exists(w["d"] + "/mark") and open(w["d"] + "/mark").read() == "1":
                died = "reference solver crashed"
        elif rc is not None and (rc != 0 or res is None or not res.get("done")):
            died = "exit status %s" % rc
        return res, died

    def text(self, w):
        t = ""
        for f in sorted(glob.glob(w["d"] + "/asan*")) + [w["d"] + "/log"]:
            try:
                t += open(f, errors="replace").read()[-3000:]
            except OSError:
                pass
        return t

    def replay(self, flavour, entries):
        """Replays a sequence of cases in a fresh process -> violation dict, or None if it holds."""
        self.n += 1
        path = os.path.join(self.base, "rep%d.json" % self.n)
        json.dump({"sequence": entries}, open(path, "w"))
        w = self.spawn(flavour, ["--replay", path])
        res, died = self.finish(w, 400)
        if res and res.get("harness_error"):
            return {"harness_error": res["harness_error"]}
        if died and died.startswith("killed by"):
            if died.endswith("SIGKILL"):
                return None          # ended from outside (memory), no verdict
            return {"check": entries[-1]["check"], "case": entries[-1]["case"], "kind": "hang" if died.endswith("SIGPROF") else "crash", "msg": died + "\n" + self.text(w)[-1500:]}
        if died:
            return None
        return res.get("violation")


def write_evidence(ev):
    if A.no_evidence:
        return
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", PROP + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == PROP]


def same_failure(k, v):
    """exceptions are not distinguished by their type: which one an unsupported input runs into says nothing"""
    return k["kind"].split(":")[0] == v["kind"].split(":")[0]


def report(v, entries, flavour):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    js = json.dumps(entries, sort_keys=True)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (PROP, hashlib.sha1(js.encode()).hexdigest()[:10]))
    rec = {"property": PROP, "flavour": flavour, "kind": v["kind"], "msg": v["msg"]}
    if len(entries) == 1:
        rec.update(check=entries[0]["check"], case=entries[0]["case"])
    else:
        rec["sequence"] = entries
    json.dump(rec, open(path, "w"), indent=1)
    print("property %s, check %s: %s: %s" % (PROP, entries[-1]["check"], v["kind"], v["msg"][:1500]))
    if len(js) < 4000:
        print("minimal case: %s" % json.dumps(entries[-1]["case"], sort_keys=True))
    print("VIOLATION property=%s replay=%s" % (PROP, path))


def main(R):
    if A.replay:
        rec = json.load(open(A.replay))
        entries = rec["sequence"] if "sequence" in rec else [{"check": rec["check"], "case": rec["case"]}]
        v = R.replay(rec.get("flavour", "plain"), entries)
        if v is None:
            print("replay: property %s holds on this case" % PROP)
            return 0
        if "harness_error" in v:
            print("HARNESS ERROR: " + v["harness_error"])
            return 2
        print("%s: %s" % (v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (PROP, os.path.abspath(A.replay)))
        return 1

    flavours = meta.PROPS[PROP].get("flavours", ["plain"])
    results, inc = [], []
    confirmed = None
    herr = None
    for fl in flavours:
        nw = A.workers
        ws = [R.spawn(fl, ["--worker", str(i), "--nworkers", str(nw), "--budget", str(BUDGET / len(flavours)), "--scale", str(A.scale)]) for i in range(nw)]
        hard = time.monotonic() + BUDGET / len(flavours) + 150
        cands = []
        for w in ws:
            res, died = R.finish(w, max(1, hard - time.monotonic()))
            if res:
                results.append(res)
            if res and res.get("harness_error"):
                herr = res["harness_error"]
            elif res and res.get("violation"):
                cands.append(res["violation"])
            elif died:
                try:
                    name, js = open(w["d"] + "/journal").read().split("\n", 1)
                    case = json.loads(js)
                except Exception:
                    name = None
                if died.startswith("killed by") and not died.endswith("SIGKILL") and name:
                    cands.append({"check": name, "case": case, "kind": "hang" if died.endswith("SIGPROF") else "crash", "msg": died + "\n" + R.text(w)[-1500:], "history": []})
                elif died.startswith("killed by") or died in ("no answer", "reference solver crashed"):
                    inc.append("worker %s (last case of check %s)" % (died, name))
                else:
                    herr = herr or ("worker: " + died + "\n" + R.text(w)[-2500:])
        # confirm in a fresh process, smallest first
        cands.sort(key=lambda v: (len(json.dumps(v["case"])),))
        for v in cands[:4]:
            e = [{"check": v["check"], "case": v["case"]}]
            for attempt in range(2):
                c = R.replay(fl, e)
                if c:
                    break
            if c and "harness_error" in c:
                herr = c["harness_error"]
                continue
            if c:
                confirmed = (c, e, fl)
                break
            hist = v.get("history") or []
            k = 1
            while hist and not confirmed:
                seq = hist[-k:] + e
                c = R.replay(fl, seq)
                if c and "harness_error" not in c:
                    confirmed = (c, seq, fl)
                    break
                if k >= len(hist):
                    break
                k *= 4
            if confirmed:
                break
            inc.append("unconfirmed: %s %s %s" % (v["check"], v["kind"], v["msg"][:300]))
            print("note: a failure did not reproduce in a fresh process: %s %s %s" % (v["check"], v["kind"], v["msg"][:300]))
        if confirmed:
            break

    # evidence
    checks = {}
    for r in results:
        for name, st in r["checks"].items():
            c = checks.setdefault(name, {"evaluations": 0, "hs": set(), "classes": {}, "samples": [], "rule": st["rule"], "inconclusive": 0, "regression_cases": 0, "cpu_wall_s": 0})
            c["evaluations"] += st["evals"]
            c["hs"].update(st["hashes"])
            c["inconclusive"] += st["inconclusive"]
            c["regression_cases"] += st.get("regress", 0)
            c["cpu_wall_s"] = round(c["cpu_wall_s"] + st.get("wall", 0), 1)
            for t, k in st["tags"].items():
                c["classes"][t] = c["classes"].get(t, 0) + k
            c["samples"] += st["samples"]
    ev_total = sum(c["evaluations"] for c in checks.values())
    nt = sum(len(c["hs"]) for c in checks.values())
    samples = []
    for c in checks.values():
        samples += c["samples"][:2]
    ev = {"property": PROP, "tier": A.tier, "seed": A.seed, "level": meta.PROPS[PROP]["level"],
          "coverage": {"evaluations": ev_total, "distinct_nontrivial": nt,
                       "rule": " || ".join("%s: %s" % (n, c["rule"]) for n, c in checks.items()) or "none",
                       "samples": samples[:10],
                       "per_check": {n: {"evaluations": c["evaluations"], "distinct_nontrivial": len(c["hs"]), "inconclusive": c["inconclusive"],
                                         "regression_cases": c["regression_cases"], "worker_seconds": c["cpu_wall_s"],
                                         "classes": dict(sorted(c["classes"].items()))} for n, c in checks.items()},
                       "truncated_by_budget": any(r["truncated"] for r in results),
                       "inconclusive_notes": inc},
          "assumptions": meta.PROPS[PROP].get("assumptions", []),
          "wall_s": round(time.monotonic() - T0, 1), "violations": 1 if confirmed else 0}
    write_evidence(ev)
    for n, c in checks.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %.0f worker-s" % (PROP, n, c["evaluations"], len(c["hs"]), c["cpu_wall_s"]))
    if confirmed:
        v, entries, fl = confirmed
        if not any(k.get("check") == v["check"] and same_failure(k, v) and k.get("case") == entries[-1]["case"] for k in known_findings()):
            report(v, entries, fl)
            return 1
    # every listed finding is tried again; nothing else than its recorded failure is accepted
    for k in known_findings():
        e = [{"check": k["check"], "case": k["case"]}]
        v = R.replay(flavours[0], e)
        if v is None:
            print("note: a listed finding no longer fails: %s" % k["what"])
        elif "harness_error" in v:
            herr = herr or v["harness_error"]
        elif same_failure(k, v):
            print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
        else:
            report(v, e, flavours[0])
            return 1
    if herr:
        print("HARNESS ERROR: " + herr)
        return 2
    if inc:
        print("inconclusive parts: %s" % inc)
        if ev_total == 0:
            return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (PROP, ev_total, nt, time.monotonic() - T0))
    return 0


R = Runner()
try:
    try:
        rc = main(R)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rc = 2
finally:
    R.close()
sys.exit(rc)

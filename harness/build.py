"""Builds an importable copy of /repo's working tree outside /repo.

The python sources are copied afresh on every call; the compiled extension
modules are rebuilt from the .pyx/.pxd sources of the working tree (a local
cache keyed by the hash of everything the extension build reads only saves
recompiling unchanged sources between runs in the same sandbox).
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _walk(root):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
        for f in sorted(files):
            yield os.path.join(d, f)


def _ext_hash(flavour):
    h = hashlib.sha256(flavour.encode())
    for p in [os.path.join(REPO, "setup.py")] + [p for p in _walk(os.path.join(REPO, "switss")) if p.endswith((".pyx", ".pxd", ".pxi", ".h"))]:
        if os.path.exists(p):
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def _copy_sources(dst):
    """copy everything but build products"""
    for p in _walk(os.path.join(REPO, "switss")):
        if p.endswith((".so", ".c", ".pyc", ".html", ".o")):
            continue
        q = os.path.join(dst, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)
    for f in ("setup.py", "README.md", "README.rst", "requirements.txt"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copyfile(os.path.join(REPO, f), os.path.join(dst, f))
    if os.path.isdir(os.path.join(REPO, "bin")):
        shutil.copytree(os.path.join(REPO, "bin"), os.path.join(dst, "bin"), dirs_exist_ok=True)


def _build_ext(flavour, log):
    os.makedirs(CACHE, exist_ok=True)
    key = _ext_hash(flavour)
    final = os.path.join(CACHE, "ext-%s-%s" % (flavour, key))
    if os.path.isdir(final):
        return final
    tmp = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    try:
        _copy_sources(tmp)
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        if flavour.endswith("asan"):
            env["CFLAGS"] = "-O1 -g -fsanitize=address -fno-omit-frame-pointer"
            env["LDFLAGS"] = "-fsanitize=address"
            env["LDSHARED"] = "gcc -shared -fsanitize=address"
            env["CC"] = "gcc"
        r = subprocess.run([PY, os.path.join(VERIF, "harness", "extbuild.py"), flavour], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            r = subprocess.run([PY, "setup.py"] + (["--with-treealg"] if flavour.startswith("tree") else []) + ["build_ext", "--inplace"], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise BuildError("build_ext failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        out = tempfile.mkdtemp(prefix="extout-", dir=CACHE)
        n = 0
        for p in _walk(os.path.join(tmp, "switss")):
            if p.endswith(".so"):
                q = os.path.join(out, os.path.relpath(p, tmp))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)
                n += 1
        if n == 0:
            raise BuildError("no extension modules were built")
        os.rename(out, final)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    olds = sorted(glob.glob(os.path.join(CACHE, "ext-*")), key=os.path.getmtime)
    for d in olds[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    return final


def _build_shim():
    os.makedirs(CACHE, exist_ok=True)
    so = os.path.join(CACHE, "shim.so")
    src = os.path.join(VERIF, "harness", "shim.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("shim: " + r.stdout.decode())
        os.rename(tmp, so)
    return so


def prepare(flavour="plain"):
    """Returns (root, shim): root is a fresh directory to put on sys.path."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ext = _build_ext("plain" if flavour == "gurobi" else flavour, None)
        shim = _build_shim()
        root = tempfile.mkdtemp(prefix="tree-", dir=CACHE)
        _copy_sources(root)
        shutil.copytree(ext, root, dirs_exist_ok=True)
    return root, shim


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        root, shim = prepare(fl)
        print(root, shim)
        shutil.rmtree(root, ignore_errors=True)

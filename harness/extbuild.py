"""Parallel equivalent of `setup.py build_ext --inplace` (run with the repo's python, cwd = tree).
usage: extbuild.py [plain|asan|tree|treeasan]   -- exits non-zero if anything is unusual, the caller then uses setup.py"""
import os, re, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

asan = sys.argv[1].endswith("asan")
src = open("setup.py").read()
m = re.search(r"^cython_modules\s*=\s*\[(.*?)\]", src, re.S | re.M)
mods = re.findall(r"[\"'](.*?\.pyx)[\"']", m.group(1))
assert mods
if sys.argv[1].startswith("tree"):
    mods += re.findall(r"[\"'](.*?\.pyx)[\"']", re.search(r"^\s+cython_modules\s*\+=\s*\[(.*?)\]", src, re.S | re.M).group(1))
    assert any("tree_decomp" in p for p in mods)
import numpy
inc = [numpy.get_include(), sysconfig.get_paths()["include"]]
suffix = sysconfig.get_config_var("EXT_SUFFIX")


def one(pyx):
    name = os.path.splitext(pyx)[0].replace("/", ".")
    c = os.path.splitext(pyx)[0] + ".c"
    r = subprocess.run([sys.executable, "-c",
                        "import sys\nfrom Cython.Build import cythonize\n"
                        "e=cythonize([sys.argv[1]],quiet=True)[0]\nprint('OUT',e.sources[0],e.language or 'c',e.name)", pyx],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode()
    if r.returncode:
        return out
    _, csrc, lang, ename = [l for l in out.splitlines() if l.startswith("OUT ")][-1].split()
    cc = "g++" if lang == "c++" else "gcc"
    flags = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else ["-O1"]
    so = os.path.splitext(pyx)[0] + suffix
    cmd = [cc, "-shared", "-fPIC", "-fwrapv", "-fno-strict-overflow", "-DNDEBUG", "-w"] + flags + ["-I" + i for i in inc] + [csrc, "-o", so]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.stdout.decode() if r.returncode else None


with ThreadPoolExecutor(8) as ex:
    errs = [e for e in ex.map(one, mods) if e]
for e in errs:
    print(e[-3000:])
sys.exit(1 if errs else 0)

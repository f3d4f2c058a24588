"""Core of the property-based testing harness: checks, violations, case execution."""
import ctypes, functools, hashlib, json, os, signal, sys, time, traceback, warnings

CASE_CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "90"))


class Violation(Exception):
    """The code under test broke the property on this case."""
    def __init__(self, kind, msg=""):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(BaseException):
    """The harness/oracle itself failed; never a verdict about the code (BaseException so that no
    handler of the code under test or of a check swallows it)."""


class Inconclusive(BaseException):
    """A resource ran out (solver gave no answer ...): no verdict on this case."""


def oracle(fn):
    """Marks a reference computation. It depends on the generated case only; if it fails, that is a
    harness error and not a violation."""
    @functools.wraps(fn)
    def w(*a, **k):
        try:
            return fn(*a, **k)
        except (HarnessError, Inconclusive, Violation):
            raise
        except Exception as e:
            raise HarnessError("oracle %s: %s\n%s" % (fn.__name__, e, traceback.format_exc()))
    return w


_mark = None


def foreign(fn, *a, **k):
    """Calls a reference solver (native code that is not under test). If the process dies meanwhile, the runner sees
    the mark and draws no conclusion."""
    global _mark
    if _mark is None:
        _mark = os.open(os.environ.get("VERIF_MARK", os.devnull), os.O_RDWR | os.O_CREAT, 0o600)
    os.pwrite(_mark, b"1", 0)
    try:
        return fn(*a, **k)
    finally:
        os.pwrite(_mark, b"0", 0)


def require(cond, kind, msg=""):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


class Check:
    """One executable sub-property.

    strategy()      -> Hypothesis strategy of JSON-able cases
    run(case, ctx)  -> raises Violation if the property is broken on the case
    rule            -> text: how cases are made and what makes one non-trivial; run calls
                       ctx.nontrivial() for those
    quick/thorough  -> number of generated cases
    """
    def __init__(self, name, strategy, run, quick, thorough, rule, flavour="plain", preload=None, shrink=True):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.flavour = flavour
        self.shrink = shrink


class Ctx:
    def __init__(self):
        self.tags = []
        self.nt = False
        self.tmp = None
        self.extra = {}

    def tag(self, *names):
        self.tags.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


_libc = None


def set_native_seed(n):
    """fixes the seed used by the native code's srand() (see shim.c)"""
    global _libc
    if _libc is None:
        _libc = ctypes.CDLL(None)
    try:
        _libc.vs_set_seed(ctypes.c_uint(n & 0xFFFFFFFF))
    except AttributeError:
        pass


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(name, js):
    return hashlib.sha1((name + "|" + js).encode()).hexdigest()[:16]


def execute(check, case, ctx=None):
    """Runs one case. Returns ctx; raises Violation, HarnessError or Inconclusive."""
    ctx = ctx or Ctx()
    set_native_seed(case.get("rseed", 1) if isinstance(case, dict) else 1)
    if CASE_CPU_LIMIT > 0:
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check.run(case, ctx)
    except (Violation, HarnessError, Inconclusive):
        raise
    except MemoryError as e:
        raise Violation("memory", "MemoryError on a small case")
    except RecursionError as e:
        raise Violation("exception:RecursionError", str(e)[:200])
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        import hypothesis.errors as he
        if isinstance(e, (he.UnsatisfiedAssumption, he.StopTest)):
            raise
        if isinstance(e, he.HypothesisException):
            raise HarnessError(repr(e))
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for f in reversed(tb):
            if "switss" in f.filename and "/harness/" not in f.filename:
                where = "%s:%s" % (os.path.basename(f.filename), f.name)
                break
        raise Violation("exception:%s" % type(e).__name__, "%s (%s) at %s" % (str(e)[:300], type(e).__name__, where or "".join(traceback.format_tb(e.__traceback__)[-3:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx

"""
Core of the property-based checks: bootstrapping, running generated cases, classification of outcomes,
replay files, evidence.

A sub-check is (name, strategy, function).  The strategy produces a JSON-serialisable *case*; the function is a
plain Python function of that case, which drives the code under test and compares it with an independent oracle.
Everything random in the code under test (NumPy's and numba's global generators) is seeded from a hash of the case,
so that a case alone determines the outcome and can be replayed without the property library.
"""
import os, sys, json, time, zlib, signal, traceback, hashlib, warnings, random, contextlib, io

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
HARNESS = os.path.join(VERIF, "harness")
LIB = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"   # Hypothesis; appended, so the venv's numpy wins
STUCK_AFTER = 240       # s of processor time in a single case as seen from outside
CASE_TIMEOUT = 150      # s; typical cases take milliseconds: beyond this a case is reported as not terminating


def bootstrap():
    sys.path[:0] = [REPO, HARNESS]
    if LIB not in sys.path:
        sys.path.append(LIB)
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401  (the venv's)
    import maMDP
    where = os.path.realpath(maMDP.__file__)
    if not where.startswith(REPO + os.sep):
        raise SystemExit("harness error: maMDP imported from %s, expected %s" % (where, REPO))


class Violation(Exception):
    pass


class Hang(BaseException):
    """Raised by the per-case alarm; not an Exception, so nothing swallows it."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


class Ctx:
    """Per-case context: labels and triviality."""
    def __init__(self, tier="quick"):
        self.labels = set()
        self.nt = False
        self.tier = tier
        self.touched = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def expect_error(self, fn, what, types=Exception):
        """fn must raise (any of types); returns the exception."""
        self.touched = True
        try:
            fn()
        except types as e:
            return e
        except Exception as e:
            fail("{0}: expected one of {1}, got {2}: {3}", what, types, type(e).__name__, e)
        fail("{0}: expected an error, but it was accepted", what)


_seed_nb = None


def seed_all(n):
    """Seed NumPy's, Python's and numba's global generators."""
    global _seed_nb
    import numpy as np
    if _seed_nb is None:
        from numba import njit

        @njit
        def _s(k):
            np.random.seed(k)
        _seed_nb = _s
    n = int(n) % (2 ** 31)
    np.random.seed(n)
    random.seed(n)
    _seed_nb(n)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Stats:
    def __init__(self):
        self.evals = 0
        self.nt_hashes = set()
        self.labels = {}
        self.samples = []
        self.per_sub = {}
        self.skipped_for_time = 0

    def add(self, sub, text, ctx):
        self.evals += 1
        d = self.per_sub.setdefault(sub, [0, 0])
        d[0] += 1
        for l in ctx.labels:
            self.labels[sub + ":" + l] = self.labels.get(sub + ":" + l, 0) + 1
        if ctx.nt:
            d[1] += 1
            h = hashlib.sha1((sub + text).encode()).digest()[:10]
            if h not in self.nt_hashes:
                self.nt_hashes.add(h)
                n_here = sum(1 for s in self.samples if s["sub_check"] == sub)
                k = d[1]
                if n_here < 2 and (k == 1 or k == 25) and len(text) < 6000:
                    self.samples.append(dict(sub_check=sub, case=json.loads(text)))


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


_sink = _Sink()


CURRENT = None          # file in which the case being run is noted, for the supervising process
CURRENT_SUB = ""
HISTORY = []            # every case run in this process, in order
FIRST = None            # (sub-check, case, message, number of cases run before it) of the first violation in this process


def note(text):
    if CURRENT:
        with open(CURRENT, "w") as f:
            f.write(CURRENT_SUB + "\n" + text)


def run_case(fn, case, ctx, timeout=CASE_TIMEOUT):
    """Runs one case.  Returns normally, or raises Violation (property broken) or another exception (harness error)."""
    text = canon(case)
    seed_all(zlib.crc32(text.encode()))

    def on_alarm(signum, frame):
        raise Hang()
    # limits on the processor time of a case (so that a busy machine does not matter) and, more generously, on its duration
    old = signal.signal(signal.SIGALRM, on_alarm), signal.signal(signal.SIGPROF, on_alarm)
    note(text)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.alarm(3 * timeout)
    try:
        with contextlib.redirect_stdout(_sink):      # what the code under test prints is not ours to report
            fn(case, ctx)
    except Violation:
        raise
    except Hang:
        raise
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Exception as e:
        mod = type(e).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(os.path.realpath(f.filename).startswith(REPO + os.sep) for f in tb)
        inner = os.path.basename(tb[-1].filename) if tb else ""
        if in_repo:
            raise Violation("unexpected %s from the code under test: %s [%s]" % (
                type(e).__name__, str(e)[:400], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))) from e
        if ctx.touched and inner not in ("refs.py", "gens.py", "core.py"):
            # the code under test has run, and what it returned cannot even be interpreted by the oracle
            raise Violation("result cannot be interpreted: %s: %s [%s]" % (
                type(e).__name__, str(e)[:400], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, timeout=CASE_TIMEOUT):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.timeout = timeout
        self.thorough = thorough if thorough is not None else quick * 10


def run_sub(sub, tier, seed, stats, t_end, n_override=None):
    """Runs one sub-check; returns None or (case, message)."""
    global CURRENT_SUB
    CURRENT_SUB = sub.name
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    n = n_override or (sub.quick if tier == "quick" else sub.thorough)
    last = {}
    t_start = time.time()

    def body(case):
        if time.time() > t_end and not last:
            stats.skipped_for_time += 1
            return
        global FIRST
        ctx = Ctx(tier)
        text = canon(case)
        if FIRST is None:
            HISTORY.append((sub.name, text))
        try:
            run_case(sub.fn, case, ctx, sub.timeout)
        except Violation as e:
            if FIRST is None:
                FIRST = (sub.name, text, str(e), len(HISTORY) - 1)
            if "best" not in last or (len(text), text) <= (len(last["best"][0]), last["best"][0]):
                last["best"] = (text, str(e))
            raise
        except Hang:
            last["hang"] = (canon(case), "did not terminate within %d s (typical cases take milliseconds)" % sub.timeout)
            raise
        stats.add(sub.name, canon(case), ctx)

    test = given(sub.strategy(tier))(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)(test)
    err = None
    try:
        test()
    except Hang:
        pass
    except BaseException as e:      # noqa
        err = e
    stats.per_sub.setdefault(sub.name, [0, 0])
    stats.per_sub[sub.name] = stats.per_sub[sub.name][:2] + [round(time.time() - t_start, 2)]
    if "hang" in last:
        return json.loads(last["hang"][0]), last["hang"][1]
    if "best" in last:
        return json.loads(last["best"][0]), last["best"][1]
    if err is not None:
        raise err
    return None

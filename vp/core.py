"""The monitor: it counts what it observed and decides; the runner: it drives the workloads.

A *case* is one execution of real pyspectral code under one generated workload.
It is fully determined by (property, family, index, seed), so that each can be
replayed.  A case calls ``mon.check`` for every verdict; the first false one
ends the case as a violation.  What the monitors saw is counted and ends up in
the evidence file; a run that saw nothing where it should have is an error,
not a pass.
"""
import errno
import hashlib
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter
from pathlib import Path

import numpy as np

CASE_TIMEOUT = 240


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, what, witness):
        super().__init__(what)
        self.what = what
        self.witness = witness


class Inconclusive(Exception):
    """The environment, not pyspectral, made the case fail."""


class _Timeout(BaseException):
    pass


def short(obj, limit=600):
    """Describe an object for a witness."""
    if isinstance(obj, dict):
        return {str(k): short(v, limit) for k, v in obj.items()}
    if isinstance(obj, (int, float, bool)) or obj is None:
        return obj if not isinstance(obj, float) or np.isfinite(obj) else repr(obj)
    if isinstance(obj, str):
        return obj[:limit]
    if isinstance(obj, np.ndarray):
        with np.printoptions(precision=17, threshold=40):
            return (f"{obj.dtype}{obj.shape} " + repr(obj))[:limit]
    return repr(obj)[:limit]


class Mon:
    """Observes the executions of one case and counts."""

    def __init__(self):
        self.events = Counter()
        self.checks = Counter()
        self.distinct = {}
        self.context = {}
        self.index = 0

    def ev(self, kind, n=1):
        """Count an observed event."""
        self.events[kind] += n

    def seen(self, kind, key):
        """Count distinct observed states/interleavings of a kind."""
        dig = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
        self.distinct.setdefault(kind, set()).add(dig)

    def ctx(self, **kw):
        """Remember what the case is doing, for the witness."""
        self.context.update(kw)

    def check(self, cond, what, **witness):
        """Decide: a false condition is a violation."""
        self.checks[what] += 1
        if not bool(cond):
            raise Violation(what, {**{k: short(v) for k, v in self.context.items()},
                                   **{k: short(v) for k, v in witness.items()}})

    def close(self, got, want, what, rtol=1e-9, atol=0.0, **witness):
        """Decide: values equal to tolerance, NaN exactly where NaN is expected."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.checks[what] += 1
        if got.shape != want.shape:
            raise Violation(what + " (shape)", {**{k: short(v) for k, v in self.context.items()},
                                                "got": short(got), "want": short(want)})
        if got.dtype.kind not in "fiub" or want.dtype.kind not in "fiub":
            bad = got != want
        else:
            g = got.astype(np.float64)
            w = want.astype(np.float64)
            with np.errstate(all="ignore"):
                bad = ~((np.isnan(g) & np.isnan(w)) | (g == w) |
                        (np.abs(g - w) <= atol + rtol * np.abs(w)))
        if np.any(bad):
            idx = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.shape else ()
            raise Violation(what, {**{k: short(v) for k, v in self.context.items()},
                                   "index": str(tuple(int(i) for i in idx)), "n_bad": int(np.sum(bad)),
                                   "got": short(got[idx]), "want": short(want[idx]),
                                   **{k: short(v) for k, v in witness.items()}})

    def same(self, got, want, what, **witness):
        """Decide: bit-identical (NaN equals NaN), same dtype and shape."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.check(got.dtype == want.dtype and got.shape == want.shape, what + " (dtype/shape)",
                   got=f"{got.dtype}{got.shape}", want=f"{want.dtype}{want.shape}", **witness)
        if got.dtype.kind == "f":
            eq = np.array_equal(got, want, equal_nan=True)
        else:
            eq = np.array_equal(got, want)
        self.check(eq, what, got=got, want=want, **witness)

    def raises(self, exc, what, func, *args, **kwargs):
        """Decide: the call is refused with (a subclass of) exc."""
        self.checks[what] += 1
        try:
            res = func(*args, **kwargs)
        except exc as err:
            self.ev("refusals")
            return err
        except Exception as err:
            raise Violation(what, {**{k: short(v) for k, v in self.context.items()},
                                   "expected": str(exc), "got": repr(err)})
        raise Violation(what, {**{k: short(v) for k, v in self.context.items()},
                               "expected": str(exc), "returned": short(res)})


class Suite:
    """All case families of a property."""

    def __init__(self, pid, level, rule, needs=(), assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.needs = list(needs)
        self.assumptions = list(assumptions)
        self.families = {}

    def case(self, quick, thorough=None, isolate=False):
        """Register a family of cases."""
        def deco(func):
            self.families[func.__name__] = (func, quick, thorough if thorough is not None else quick * 10)
            return func
        return deco


def rng_for(seed, family, index):
    """Return the generator that determines a case."""
    return np.random.default_rng([seed, zlib.crc32(family.encode()), index])


class LineCoverage:
    """Which lines of the code under test were executed (sys.monitoring; each line reported once)."""

    TOOL = 4

    def __init__(self, root):
        self.root = root + os.sep
        self.lines = set()

    def start(self):
        """Start observing."""
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "vp")
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, lineno):
        fname = code.co_filename
        if fname.startswith(self.root):
            self.lines.add((fname[len(self.root):], lineno))
        return sys.monitoring.DISABLE


def _alarm(signum, frame):
    raise _Timeout()


class _Listener(logging.Handler):
    """Formats every record, as a handler that shows it would."""

    def __init__(self, mon):
        super().__init__(level=0)
        self.mon = mon

    def emit(self, record):
        try:
            record.getMessage()
            self.mon.ev("log_records_formatted")
        except Exception:
            self.mon.ev("log_records_broken")


def _verbose(mon, family, index):
    """In every fifth case somebody listens to the debug messages."""
    log = logging.getLogger("pyspectral")
    if zlib.crc32(f"{family}:{index}".encode()) % 5:
        return lambda: None
    handler, level = _Listener(mon), log.level
    log.addHandler(handler)
    log.setLevel(logging.DEBUG)

    def undo():
        log.removeHandler(handler)
        log.setLevel(level)
    return undo


def run_case(suite, family, index, seed, tier, scratch_root):
    """Run one case in this process and return its record."""
    func = suite.families[family][0]
    mon = Mon()
    mon.index = index
    rng = rng_for(seed, family, index)
    scratch = Path(tempfile.mkdtemp(prefix=f"{family}_{index}_", dir=scratch_root))
    rec = {"family": family, "index": index}
    env_before = dict(os.environ)
    cwd = os.getcwd()
    undo = _verbose(mon, family, index)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        key = func(mon, rng, scratch)
        signal.alarm(0)
        rec["key"] = None if key is None else repr(short(key, 300))
    except Violation as vio:
        rec["violation"] = {"what": vio.what, "witness": vio.witness,
                            "where": traceback.format_exc()[-1500:]}
    except Inconclusive as inc:
        rec["inconclusive"] = str(inc)
    except _Timeout:
        rec["violation"] = {"what": f"did not finish within {CASE_TIMEOUT} s",
                            "witness": short(mon.context), "where": traceback.format_exc()[-1500:]}
    except MemoryError:
        rec["inconclusive"] = "MemoryError"
    except Exception as err:
        if isinstance(err, OSError) and err.errno in (errno.ENOSPC, errno.EMFILE, errno.EDQUOT, errno.EAGAIN):
            rec["inconclusive"] = repr(err)
        else:
            rec["violation"] = {"what": f"unexpected {type(err).__name__}: {str(err)[:200]}",
                                "witness": short(mon.context), "where": traceback.format_exc()[-2500:]}
    finally:
        signal.alarm(0)
        undo()
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env_before)
        shutil.rmtree(scratch, ignore_errors=True)
    rec["events"] = dict(mon.events)
    rec["checks"] = dict(mon.checks)
    rec["distinct"] = {k: sorted(v) for k, v in mon.distinct.items()}
    return rec


def plan_cases(suite, tier, only=None):
    """List the cases of a tier, interleaved over the families."""
    scale = float(os.environ.get("VP_CASE_SCALE", "1"))
    todo = []
    for name, (_, quick, thorough) in suite.families.items():
        if only and name != only:
            continue
        n = quick if tier == "quick" else thorough
        n = max(1, int(round(n * scale)))
        todo += [(i / n, name, i) for i in range(n)]
    todo.sort()
    return [(name, i) for _, name, i in todo]


def _worker(suite, cases, seed, tier, scratch_root, out, deadline):
    from vp import watch
    watch.private_progress_bars()
    cov = LineCoverage(os.environ["VP_REPO"])
    cov.start()
    recs = []
    stop = os.path.join(os.environ["VP_SCRATCH"], "stop") if os.environ.get("VP_FAILFAST") else None
    for family, index in cases:
        if time.time() > deadline or (stop and os.path.exists(stop)):
            break
        rec = run_case(suite, family, index, seed, tier, scratch_root)
        recs.append(rec)
        if "violation" in rec and stop:
            Path(stop).touch()
        if "violation" in rec and sum("violation" in r for r in recs) >= 3:
            break
    with open(out, "w") as fp:
        json.dump({"recs": recs, "lines": sorted(cov.lines)}, fp)


def run_suite(suite, tier, seed, only=None):
    """Run all cases of the suite in worker processes and merge what they observed."""
    scratch = os.environ["VP_SCRATCH"]
    cases = plan_cases(suite, tier, only)
    nworkers = max(1, min(int(os.environ.get("VP_WORKERS", "8")), len(cases)))
    deadline = time.time() + (780 if tier == "quick" else 6 * 3600)
    procs = []
    sys.stdout.flush()
    for w in range(nworkers):
        out = os.path.join(scratch, f"worker{w}.json")
        mine = cases[w::nworkers]
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                root = os.path.join(scratch, f"w{w}")
                os.makedirs(root + "/tmp")
                err = os.open(os.path.join(scratch, f"worker{w}.err"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(err, 2)     # progress bars and the like
                os.environ["TMPDIR"] = tempfile.tempdir = root + "/tmp"
                os.makedirs(root + "/cwd")
                os.chdir(root + "/cwd")     # whatever is written to a relative path stays in the scratch directory
                _worker(suite, mine, seed, tier, root, out, deadline)
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs.append((pid, out, mine))
    recs, lines, broken = [], set(), []
    for pid, out, mine in procs:
        _, status = os.waitpid(pid, 0)
        if status != 0 or not os.path.exists(out):
            broken.append(f"worker {pid} ended with status {status}")
            with open(out[:-5] + ".err", errors="replace") as fp:
                print(fp.read()[-3000:], file=sys.stderr)
            continue
        with open(out) as fp:
            data = json.load(fp)
        recs += data["recs"]
        lines |= {tuple(x) for x in data["lines"]}
    return recs, lines, broken, len(cases)

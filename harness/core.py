"""Engine: runs the laws of one property over generated cases.

A property is a list of laws.  A law is a Hypothesis strategy producing plain
JSON data (a *case*), and a function which expands the case, drives tftb with
it, and compares what came out with an explicit oracle.  The function calls
``require`` for the comparison, so that a failed requirement (a violation) is
never confused with a failure of the harness itself.
"""

import hashlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor

HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYPOTHESIS_SITE not in sys.path:
    sys.path.append(HYPOTHESIS_SITE)

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

CALL_LIMIT_S = 150      # a single call of tftb takes milliseconds to seconds
SHRINK_LIMIT_S = 45     # wall clock spent on minimising one failure


class Violation(Exception):
    """The code under test broke the property."""


UNREADABLE = (TypeError, ValueError, IndexError, AttributeError, ZeroDivisionError,
              np.linalg.LinAlgError)


class _StopShrinking(BaseException):
    pass


class _CallLimit(BaseException):
    pass


def evaluate(law, case):
    try:
        return law.func(case)
    except UNREADABLE as e:
        # no law raises on results of the documented structure: what came out
        # has another one (None, a missing axis, ...)
        raise Violation("the result cannot be read: %s: %s (%s)" % (
            type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].name)) from e


def require(cond, msg, **info):
    if not cond:
        raise Violation(msg + ("" if not info else " | " + ", ".join(
            "%s=%s" % (k, _short(v)) for k, v in info.items())))


def _short(v):
    if isinstance(v, np.ndarray):
        v = np.array2string(v.ravel()[:6], precision=6, threshold=6)
    s = str(v)
    return s if len(s) < 160 else s[:157] + "..."


def _on_alarm(signum, frame):
    raise _CallLimit()


def sut(func, *args, **kwargs):
    """Call the code under test on valid input: an exception is a violation."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CALL_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return func(*args, **kwargs)
    except (Violation, _StopShrinking):
        raise
    except _CallLimit:
        raise Violation("%s did not return within %d s" % (_fname(func), CALL_LIMIT_S))
    except Exception as e:
        raise Violation("%s raised %s: %s" % (_fname(func), type(e).__name__, e))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def refused(func, *args, **kwargs):
    """Whether the code under test refuses the input with an exception."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                func(*args, **kwargs)
            except Exception:
                return True
    return False


def warns(func, *args, **kwargs):
    """Result of a call on valid input, and the UserWarnings it issued."""
    def go():
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            out = func(*args, **kwargs)
        return out, [w for w in caught if issubclass(w.category, UserWarning)]
    return sut(go)


def _fname(func):
    return getattr(func, "__qualname__", getattr(func, "__name__", str(func)))


def close(actual, expected, what, tol=1e-8, scale=None):
    """Numerical agreement, relative to the largest expected magnitude."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    require(a.shape == e.shape, what + ": wrong shape", got=a.shape, expected=e.shape)
    if e.size == 0:
        return
    require(a.dtype != object, what + ": object array")
    require(bool(np.all(np.isfinite(a))), what + ": not finite")
    if scale is None:
        scale = float(np.max(np.abs(e)))
    err = np.abs(a.astype(complex) - e.astype(complex))
    worst = int(np.argmax(err))
    if not err.ravel()[worst] <= tol * scale + 1e-300:
        idx = np.unravel_index(worst, a.shape)
        raise Violation("%s: differs at %s | got=%s, expected=%s, error=%.3g, scale=%.3g" % (
            what, tuple(int(i) for i in idx), a.ravel()[worst], e.ravel()[worst],
            err.ravel()[worst], scale))


class Law(object):
    """One executable statement.

    :param strategy: Hypothesis strategy of JSON-serialisable cases.
    :param func: ``func(case)`` raises Violation; returns False for a trivial
        case (by the law's rule), a string to classify the case, or None.
    :param quick, thorough: number of cases per tier.
    """

    def __init__(self, name, strategy, func, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else 25 * quick
        self.rule = rule


class KnownFinding(object):
    """Recognises a failure listed in the known-findings file."""

    def __init__(self, path):
        self.entries = []
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith("{"):
                    self.entries.append(json.loads(line))

    def match(self, prop, law, case, msg):
        for e in self.entries:
            if e["property"] != prop or e["law"] != law:
                continue
            if not re.search(e["message"], msg):
                continue
            if all(case.get(k) == v for k, v in e.get("case", {}).items()):
                return e
        return None


def _seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def run_shard(prop, law, n_examples, seed, wall_limit, known):
    """Run ``n_examples`` cases of one law; returns a plain dict."""
    res = dict(law=law.name, evaluations=0, nontrivial=0, distinct=set(),
               classes={}, samples=[], violation=None, error=None, known={},
               skipped=0, shrink_evaluations=0)
    start = time.time()
    state = dict(failed_at=None)

    def body(case):
        now = time.time()
        if state["failed_at"] is not None:
            if now - state["failed_at"] > SHRINK_LIMIT_S:
                raise _StopShrinking()
        elif now - start > wall_limit:
            res["skipped"] += 1
            return
        if state["failed_at"] is None:
            res["evaluations"] += 1
        else:
            res["shrink_evaluations"] += 1
        try:
            out = evaluate(law, case)
        except Violation as v:
            k = known.match(prop, law.name, case, str(v))
            if k is not None:
                key = k["id"]
                res["known"][key] = res["known"].get(key, 0) + 1
                return
            size = len(json.dumps(case))
            if res["violation"] is None or size <= res["violation"]["size"]:
                res["violation"] = dict(case=case, message=str(v), size=size)
            if state["failed_at"] is None:
                state["failed_at"] = now
            raise
        if state["failed_at"] is None:
            if out is not False:
                res["nontrivial"] += 1
                digest = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
                if digest not in res["distinct"]:
                    res["distinct"].add(digest)
                    if len(res["samples"]) < 4 or (res["evaluations"] % 97 == 0
                                                   and len(res["samples"]) < 8):
                        if len(json.dumps(case)) < 900:
                            res["samples"].append(case)
            label = out if isinstance(out, str) else ("trivial" if out is False else "ok")
            res["classes"][label] = res["classes"].get(label, 0) + 1

    test = settings(max_examples=n_examples, database=None, deadline=None,
                    print_blob=False, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(
        hypothesis.seed(seed)(hypothesis.given(law.strategy)(body)))
    devnull = open(os.devnull, "w")
    stdout, sys.stdout = sys.stdout, devnull
    try:
        test()
    except (Violation, _StopShrinking):
        pass
    except BaseException as e:  # includes Hypothesis' own complaints
        if res["violation"] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    finally:
        sys.stdout = stdout
        devnull.close()
    res["wall"] = time.time() - start
    return res


_JOBS = None


def _job(i):
    return run_shard(*_JOBS[i])


def run_property(prop, laws, tier, seed, workers, wall_limit, known, shards=None,
                 scale=1.0):
    """Run every law of a property in parallel; returns the merged results."""
    global _JOBS
    jobs = []
    for law in laws:
        n = law.quick if tier == "quick" else law.thorough
        n = max(1, int(round(n * scale)))
        parts = max(1, min(shards or workers, n // 12))
        for s in range(parts):
            size = n // parts + (1 if s < n % parts else 0)
            jobs.append((prop, law, size, _seed(seed, prop, law.name, s, tier),
                         wall_limit, known))
    _JOBS = jobs
    if workers == 1:
        results = [_job(i) for i in range(len(jobs))]
    else:
        # A fork after numpy has been imported: the workers share its pages.
        ctx = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(min(workers, len(jobs)), mp_context=ctx) as pool:
            results = list(pool.map(_job, range(len(jobs))))
    return results

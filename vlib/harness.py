"""Property-based checking harness on top of Hypothesis.

A property is a list of `Sub` checks.  Each has

  gen(d)          -> a JSON-able case, every choice drawn from Hypothesis
                     through the `Draw` wrapper `d` (array contents come from a
                     RandomState seeded by a drawn integer);
  check(case, R)  -> raises Violation when the property does not hold.

Failing cases are shrunk by Hypothesis and saved as JSON replay files, which
`./run --replay FILE` re-runs without Hypothesis.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from . import env


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, not judged)."""


# ------------------------------------------------------------------ helpers

def require(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _fmt(a):
    a = np.asarray(a)
    s = np.array2string(a, precision=8, threshold=12)
    return "%s%s" % (s, a.shape)


def close(actual, expected, what="", rtol=1e-6, atol=1e-8, scale=None):
    """`actual`, broadcast to the shape of `expected`, equals it."""
    try:
        a = np.asarray(actual, dtype=float)
    except Exception as e:
        raise Violation("%s: result is not a numeric array (%s)" % (what, e))
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        try:
            a = np.broadcast_to(a, e.shape)
        except ValueError:
            raise Violation("%s: shape %s does not broadcast to %s"
                            % (what, a.shape, e.shape))
    s = np.max(np.abs(e[np.isfinite(e)])) if np.any(np.isfinite(e)) else 0.0
    if scale is not None:
        s = max(s, scale)
    tol = atol + rtol * s
    both_inf = np.isinf(a) & np.isinf(e) & (np.sign(a) == np.sign(e))
    bothnan = np.isnan(a) & np.isnan(e)
    with np.errstate(invalid="ignore"):
        bad = ~((np.abs(a - e) <= tol) | both_inf | bothnan)
    if np.any(bad):
        with np.errstate(invalid="ignore"):
            d = np.abs(a - e)[bad]
        raise Violation("%s: differs by %g (tolerance %g)\n  actual   %s\n  expected %s"
                        % (what, np.max(d), tol, _fmt(a), _fmt(e)))


def same_shape(actual, shape, what=""):
    require(tuple(np.shape(actual)) == tuple(shape),
            "%s: shape %s, should be %s", what, np.shape(actual), tuple(shape))


def finite(a, what=""):
    require(np.all(np.isfinite(np.asarray(a, dtype=float))),
            "%s: not finite: %s", what, _fmt(a))


def raises(exceptions, f, what):
    try:
        f()
    except exceptions as e:
        return e
    raise Violation("%s: accepted, should have been rejected" % what)


class quiet:
    """Silence warnings and stdout of the code under test."""

    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.err = np.seterr(all="ignore")
        self.out = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.out
        np.seterr(**self.err)
        self.w.__exit__(*a)


def rng_of(case, extra=0):
    return np.random.RandomState((int(case.get("seed", 0)) * 7919 + extra) % (2 ** 32))


# --------------------------------------------------------------------- Draw

class Draw:
    """Thin wrapper: every choice goes through Hypothesis."""

    def __init__(self, draw):
        from hypothesis import strategies as st
        self._draw = draw
        self._st = st

    def int(self, a, b):
        return self._draw(self._st.integers(a, b))

    def bool(self, num=1, den=2):
        """True with probability about num/den; shrinks to False."""
        if (num, den) == (1, 2):
            return self._draw(self._st.booleans())
        return self._draw(self._st.integers(0, den - 1)) >= den - num

    def choice(self, seq):
        seq = list(seq)
        return seq[self._draw(self._st.integers(0, len(seq) - 1))]

    def float(self, a, b):
        return self._draw(self._st.floats(a, b, allow_nan=False, allow_infinity=False,
                                          width=64))

    def seed(self):
        return self._draw(self._st.integers(0, 2 ** 20 - 1))

    def perm(self, n):
        return list(self._draw(self._st.permutations(list(range(n)))))

    def list(self, f, lo, hi):
        return [f() for _ in range(self.int(lo, hi))]

    def shape(self, maxdim=3, maxlen=3, mindim=0, minlen=1):
        return [self.int(minlen, maxlen) for _ in range(self.int(mindim, maxdim))]

    def subshape(self, shape):
        """A shape that broadcasts to `shape`: axes of length one, leading axes dropped."""
        s = [n if self.bool(2, 3) else 1 for n in shape]
        k = self.int(0, len(s)) if self.bool(1, 3) else 0
        return s[k:]

    def mask(self, shape):
        """None (everything observed) or nested boolean list of a sub-shape."""
        return None if not self.bool() else dict(shape=list(shape), seed=self.seed())


def arr(case_mask):
    rs = np.random.RandomState(case_mask["seed"])
    return rs.rand(*case_mask["shape"]) < case_mask.get("p", 0.6)


class Rec:
    """What one evaluation reports about itself."""

    def __init__(self):
        self.tags = []
        self.nt = False

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def tag(self, *names):
        self.tags.extend(names)


class Sub:
    def __init__(self, name, gen, check, quick, thorough=None, rule="", weight=1.0,
                 shards=None):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.weight = weight
        self.shards = shards


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class HarnessError(Exception):
    pass


def classify(exc):
    """Violation text, or None when the exception is the harness's own fault."""
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    in_repo = [f for f in tb if "/bayespy/" in f.filename]
    text = "%s: %s" % (type(exc).__name__, exc)
    if in_repo:
        f = in_repo[-1]
        return "unexpected exception %s (at %s:%s %s)" % (
            text[:500], f.filename, f.lineno, f.name)
    if isinstance(exc, (NameError, ImportError, AttributeError, AssertionError)):
        return None
    f = tb[-1]
    return "unusable result, %s (at %s:%s)" % (text[:500], f.filename, f.lineno)


CASE_SECONDS = 120


class TooSlow(BaseException):
    pass


def _alarm(signum, frame):
    raise TooSlow()


def evaluate(sub, case):
    """Run one case. Returns (status, message, rec); status ok/skip/violation."""
    R = Rec()
    np.random.seed(int(case.get("seed", 0)) % (2 ** 32))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        try:
            with quiet():
                sub.check(case, R)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return ("ok", None, R)
    except TooSlow:
        return ("violation", "no result within %d s (such cases take milliseconds)"
                % CASE_SECONDS, R)
    except Skip:
        return ("skip", None, R)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        msg = classify(e)
        if msg is None:
            raise HarnessError("".join(traceback.format_exception(e)))
        if os.environ.get("VERIF_DEBUG"):
            msg += "\n" + "".join(traceback.format_exception(e))
        return ("violation", msg, R)


def run_shard(sub, seed, shard, n, deadline, excluded=None):
    """Run n Hypothesis examples of one sub-check; returns a result dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import strategies as st

    res = dict(sub=sub.name, evaluations=0, keys=set(), skipped=0, excluded=0,
               trivial=0, tags={}, samples=[], failure=None, error=None,
               timeout=False, wall=0.0)
    t0 = time.time()
    state = dict(fails=0, best=None, fail_t=None, post=0)

    @st.composite
    def cases(draw):
        return sub.gen(Draw(draw))

    class Found(Exception):
        pass

    def body(case):
        if state["fail_t"] is not None:
            # Shrinking: bounded in evaluations and time.
            state["post"] += 1
            if state["post"] > 400 or time.time() - state["fail_t"] > 25:
                return
        elif time.time() > deadline:
            res["timeout"] = True
            return
        if excluded is not None and excluded(sub.name, case):
            res["excluded"] += 1
            return
        status, msg, R = evaluate(sub, case)
        if state["fail_t"] is None:
            res["evaluations"] += 1
            if status == "skip":
                res["skipped"] += 1
            elif R.nt:
                k = case_key(case)
                if k not in res["keys"]:
                    res["keys"].add(k)
                    if len(res["samples"]) < 2:
                        res["samples"].append(case)
            else:
                res["trivial"] += 1
            for t in R.tags:
                res["tags"][t] = res["tags"].get(t, 0) + 1
        if status == "violation":
            size = len(json.dumps(case))
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, msg)
            raise Found(msg)

    h = int(hashlib.sha1(("%s|%s|%s" % (seed, sub.name, shard)).encode()).hexdigest()[:12], 16)
    test = hypothesis.seed(h)(
        settings(max_examples=n, deadline=None, database=None,
                 phases=([Phase.generate] if os.environ.get("VERIF_NOSHRINK")
                         else [Phase.generate, Phase.shrink]),
                 suppress_health_check=list(HealthCheck),
                 report_multiple_bugs=False, print_blob=False,
                 verbosity=hypothesis.Verbosity.quiet)(given(cases())(body)))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test()
    except Found:
        pass
    except HarnessError as e:
        res["error"] = str(e)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(e))
    if state["best"] is not None:
        res["failure"] = dict(case=state["best"][1], message=state["best"][2])
    res["wall"] = time.time() - t0
    return res

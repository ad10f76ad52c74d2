"""Property-based testing runner shared by every check.

A *facet* is one executable statement about the code: a Hypothesis generator
``gen(draw) -> case`` (a JSON value), and ``check(case, ctx)``, which runs the
real code from the repository on that case and raises when an oracle disagrees.
Everything a facet does is a function of the case, so the shrunk case *is* the
replay file.
"""

import errno
import hashlib
import json
import os
import signal
import sys
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))

sys.path.insert(0, REPO)
sys.path.append(os.path.join(VERIF, "vendor"))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 25

import skada  # noqa: E402

from .budget import QUICK  # noqa: E402

if not os.path.realpath(skada.__file__).startswith(REPO + os.sep):
    print(f"skada is imported from {skada.__file__}, not from {REPO}", file=sys.stderr)
    sys.exit(2)


class Violation(AssertionError):
    """The code under test contradicts the oracle."""


class HarnessError(Exception):
    """The harness, not the code under test, is at fault."""


class Hang(BaseException):
    """A case did not come to an end."""


# CPU time, and wall time for a case that just waits: far above the slowest case on the
# unchanged tree (a few s), also on a loaded machine
CASE_SECONDS = 90
CASE_WALL_SECONDS = 400


def _alarm(signum, frame):
    raise Hang()


class time_limit:
    def __init__(self, seconds):
        self.seconds = seconds
        self.on = threading.current_thread() is threading.main_thread()

    def __enter__(self):
        if self.on:
            self.old = [signal.signal(k, _alarm) for k in (signal.SIGPROF, signal.SIGALRM)]
            signal.setitimer(signal.ITIMER_PROF, self.seconds)
            signal.setitimer(signal.ITIMER_REAL, CASE_WALL_SECONDS)

    def __exit__(self, *exc):
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGPROF, self.old[0])
            signal.signal(signal.SIGALRM, self.old[1])


FACETS = {}  # property -> list of Facet


class Facet:
    def __init__(self, prop, name, gen, check, quick, thorough, shards, rule):
        self.prop, self.name, self.gen, self.check = prop, name, gen, check
        self.quick, self.thorough, self.shards, self.rule = (
            quick,
            thorough,
            shards,
            rule,
        )


def facet(prop, name, gen, quick, thorough=None, shards=1, rule=""):
    """Register ``check`` for ``prop`` under ``name``.

    quick / thorough: number of generated cases per shard (see budget.py).
    """
    quick, shards = QUICK.get(prop, {}).get(name, (quick, shards))

    def deco(fn):
        FACETS.setdefault(prop, []).append(
            Facet(prop, name, gen, fn, quick, thorough or quick * 12, shards, rule)
        )
        return fn

    return deco


class Ctx:
    def __init__(self, known):
        self.labels = []
        self.nontrivial = False
        self.known = known
        self.known_hits = []
        self.hang = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hard(self, flag=True):
        """Mark the case non-trivial by the facet's rule."""
        if flag:
            self.nontrivial = True

    def fail(self, msg, finding=None):
        """Report a violation; `finding` names the known finding the case matches."""
        if finding is not None and finding in self.known:
            self.known_hits.append((finding, msg))
            return
        raise Violation(msg)

    def expect(self, cond, msg, finding=None):
        if not cond:
            self.fail(msg, finding)

    def raises(self, exc, fn, msg):
        """fn() must raise one of `exc`."""
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation(
                f"{msg}: expected {exc}, got {type(e).__name__}: {e}"
            ) from None
        raise Violation(f"{msg}: nothing was raised")

    # ----- array comparisons
    def same(self, a, b, msg):
        """Exact equality of arrays (NaN equal to NaN), shape included."""
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} != {b.shape}")
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            ok = np.array_equal(a, b, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        if not ok:
            raise Violation(f"{msg}: got {_short(a)} expected {_short(b)}")

    def close(self, a, b, msg, rtol=1e-6, atol=1e-8):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} != {b.shape}")
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            with np.errstate(all="ignore"):
                err = np.nanmax(np.abs(a - b)) if a.size else 0
            raise Violation(
                f"{msg}: max abs difference {err:.3g}; "
                f"got {_short(a)} expected {_short(b)}"
            )


def _short(a):
    s = np.array2string(np.asarray(a), threshold=12, precision=6)
    return s if len(s) < 400 else s[:400] + "..."


def canon(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


def _jsonable(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def seed_of(base, *parts):
    h = hashlib.sha256(("/".join([str(base), *map(str, parts)])).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _reset():
    np.random.seed(0)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(0)


# errors of the machine rather than of the code
MACHINE = {
    getattr(errno, k)
    for k in ("ENOSPC", "EDQUOT", "EMFILE", "ENFILE", "ENOMEM", "EIO", "EROFS", "EAGAIN")
}


def blame(tb):
    """True when the exception was raised while code of the repository ran."""
    root = os.path.join(REPO, "skada") + os.sep
    return any(
        os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb)
    )


def run_case(facet, case, known):
    """Run one case; returns (ctx, None | message)."""
    ctx = Ctx(known)
    _reset()
    try:
        with warnings.catch_warnings(), time_limit(CASE_SECONDS):
            warnings.simplefilter("ignore")
            facet.check(case, ctx)
    except Violation as e:
        return ctx, str(e)
    except Hang:
        ctx.hang = True
        return ctx, f"no result within {CASE_SECONDS} s of CPU time"
    except MemoryError as e:
        raise HarnessError(f"{type(e).__name__}: {e}") from None
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:
        if isinstance(e, OSError) and e.errno in MACHINE:
            raise HarnessError(f"{type(e).__name__}: {e}") from None
        tb = e.__traceback__
        if blame(tb):
            where = [
                f"{os.path.relpath(f.filename, REPO)}:{f.lineno}"
                for f in traceback.extract_tb(tb)
                if f.filename.startswith(REPO)
            ]
            return ctx, f"unexpected {type(e).__name__}: {e} (at {', '.join(where)})"
        # The oracles run on whatever the code returned: on outcomes of the promised
        # kind they never raise, so this outcome is not of that kind.
        last = traceback.extract_tb(tb)[-1]
        return ctx, (
            "the outcome is not of the promised kind: "
            f"{type(e).__name__}: {e} (at {os.path.basename(last.filename)}:{last.lineno})"
        )
    return ctx, None


# author-side speed-up for mutation runs: failures are reported without shrinking
FAST = os.environ.get("VERIF_NOSHRINK") == "1"


def run_facet(facet, tier, seed, shard, known):
    """Search one shard. Returns a picklable result dict."""
    n = facet.quick if tier == "quick" else facet.thorough
    res = dict(
        facet=facet.name,
        evals=0,
        hard=set(),
        distinct=set(),
        labels={},
        samples=[],
        failure=None,
        known=[],
        error=None,
        slowest=0.0,
    )

    gen = st.composite(lambda draw: facet.gen(draw))()

    def body(case):
        key = canon(case)
        if res.get("hang") is not None:
            # no shrinking of a case that hangs
            if res["hang"] == key:
                raise Violation(res["failure"]["message"])
            return
        case = json.loads(key)
        t0 = time.time()
        ctx, msg = run_case(facet, case, known)
        if ctx.hang:
            res["hang"] = key
        else:
            res["slowest"] = max(res["slowest"], time.time() - t0)
        if res["failure"] is None:
            res["evals"] += 1
            digest = hashlib.sha1(key.encode()).digest()[:10]
            res["distinct"].add(digest)
            if ctx.nontrivial and digest not in res["hard"]:
                res["hard"].add(digest)
                if len(res["samples"]) < 2 and len(key) < 1500:
                    res["samples"].append(
                        dict(facet=facet.name, case=case, labels=ctx.labels[:8])
                    )
            for lab in set(ctx.labels):
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            for k in ctx.known_hits:
                if k[0] not in [x[0] for x in res["known"]]:
                    res["known"].append(k)
        if msg is not None:
            res["failure"] = dict(case=case, message=msg)
            raise Violation(msg)

    test = given(gen)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
    )(test)
    test = hypothesis.seed(seed_of(seed, facet.prop, facet.name, shard))(test)
    cpu = time.process_time()
    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky as e:
        # The failing case did not fail again although everything the harness does
        # is a function of the case: the code itself is not.
        if res["failure"] is None:
            res["error"] = f"flaky: {e}"
        else:
            for _ in range(20):
                if run_case(facet, res["failure"]["case"], known)[1] is not None:
                    break
            else:
                res["failure"]["message"] += " (not in 20 repetitions of the case)"
    except HarnessError as e:
        res["error"] = str(e)
    except Exception:
        res["error"] = traceback.format_exc()
    res["cpu"] = time.process_time() - cpu
    return res

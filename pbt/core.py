"""Engine: drives Hypothesis over JSON-able cases, shrinks, replays, writes evidence.

A check is a list of ``Sub`` objects.  Each Sub has
  * ``strategy``: a Hypothesis strategy producing a JSON-able ``case`` (dict);
    everything a case does is a pure function of that value,
  * ``run(case, ctx)``: builds inputs from the case, exercises obp's public API
    and compares it with an independent oracle by ``ctx.check`` / ``ctx.close``.

Outcome of one case
  * returns normally                         -> held
  * raises ``Violation``                     -> the oracle disagrees
  * raises something raised inside obp, on an input the Sub declares valid
                                             -> violation ("crash on valid input")
  * the oracle cannot process obp's answer (shape, type, missing key)
                                             -> violation
  * raises something else                    -> harness error (exit 2, never a VIOLATION)
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import zlib

from . import env

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hyp_seed

VERIF = env.VERIF
REPO = env.REPO
OBP_DIR = os.path.join(os.path.abspath(REPO), "obp") + os.sep


class Violation(Exception):
    pass


class Discard(Exception):
    """The generated case is outside the property's domain (counted)."""


class HarnessError(Exception):
    pass


class Ctx:
    """Assertion helpers plus classification counters for one case."""

    def __init__(self, counters=None):
        self.labels = set()
        self.nontrivial = False
        self.n_checks = 0

    def label(self, *names):
        self.labels.update(names)

    def nontriv(self, cond=True):
        if cond:
            self.nontrivial = True

    def check(self, cond, msg, *args):
        self.n_checks += 1
        if not bool(cond):
            raise Violation(msg % args if args else msg)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, scale=1.0):
        """got == want up to rtol*max(|want|, scale) + atol; nan only equals nan."""
        self.n_checks += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            raise Violation("%s: not numeric: %r" % (what, got))
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        if g.size == 0:
            return
        tol = atol + rtol * np.maximum(np.abs(w), scale)
        with np.errstate(invalid="ignore"):
            ok = (np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            i = tuple(int(v) for v in np.argwhere(~ok)[0]) if g.ndim else ()
            raise Violation(
                "%s: got %.17g, expected %.17g%s"
                % (what, float(g[i]), float(w[i]), (" at index %s" % (i,)) if i else "")
            )

    def same(self, got, want, what):
        self.n_checks += 1
        if not np.array_equal(np.asarray(got), np.asarray(want)):
            raise Violation("%s: got %s, expected %s" % (what, _short(got), _short(want)))

    def raises(self, exc_types, fn, what):
        """fn() must raise one of exc_types."""
        self.n_checks += 1
        try:
            out = fn()
        except exc_types:
            return
        except Exception as e:
            raise Violation(
                "%s: expected %s, but %s was raised: %s"
                % (what, _names(exc_types), type(e).__name__, str(e)[:200])
            )
        raise Violation("%s: expected %s, but it returned %s" % (what, _names(exc_types), _short(out)))


def _names(t):
    return t.__name__ if isinstance(t, type) else "/".join(x.__name__ for x in t)


def _short(x, n=300):
    try:
        s = repr(x)
    except Exception:
        s = "<unrepresentable>"
    return s if len(s) <= n else s[:n] + "..."


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, examples=(), budget=(60, 500), doc=""):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = list(examples)  # hand-picked cases (saved regressions), run first
        self.budget = budget
        self.doc = doc or (run.__doc__ or "").strip()


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        return x
    return x


def case_key(case):
    return json.dumps(case, sort_keys=True)


def _reset_global_state():
    random.seed(0)
    np.random.seed(0)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(0)


def in_obp(tb):
    """Did this exception pass through the code under test?"""
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(OBP_DIR):
            return True
    return False


def run_case(sub, case):
    """-> (status, message, ctx) with status in held / violation / discard / error"""
    _reset_global_state()
    ctx = Ctx()
    try:
        sub.run(json.loads(case_key(case)), ctx)
        return "held", "", ctx
    except Violation as e:
        return "violation", str(e), ctx
    except Discard as e:
        return "discard", str(e), ctx
    except MemoryError as e:
        return "error", repr(e), ctx
    except Exception as e:
        if in_obp(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.path.abspath(f.filename).startswith(OBP_DIR)][-1]
            return (
                "violation",
                "valid input made obp raise %s: %s (in %s)"
                % (type(e).__name__, str(e)[:300], where.name),
                ctx,
            )
        if isinstance(e, MALFORMED):
            return "violation", "obp's answer cannot be compared with the oracle (%s)" % "".join(traceback.format_exception(e))[-600:], ctx
        return "error", "".join(traceback.format_exception(e))[-3000:], ctx


# raised by an oracle that cannot process what obp returned (wrong shape, type, missing key, ...)
MALFORMED = (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError)


class _Fail(Exception):
    pass


# how many times the nominal number of cases the quick tier runs, so that every quick check takes about 20-30 s on 8 cores
QUICK_SCALE = dict(
    P01=3, P02=2, P03=2, P04=3, P05=2, P06=2, P07=3, P08=2.5, P09=2, P10=3, P11=3, P12=5, P13=6, P14=8, P15=8, P16=10, P17=6, P18=2, P19=1.5, P20=8, P21=4,
    P22=2.5, P23=3, P24=2, P25=3, P26=4, P27=2, P28=25,
)


def run_sub(sub, tier, seed, known, scale=1):
    t0 = time.time()
    n = int(sub.quick * scale) if tier == "quick" else sub.thorough
    budget = sub.budget[0] if tier == "quick" else sub.budget[1]
    res = dict(
        sub=sub.name, doc=sub.doc, evaluations=0, discarded=0, nontrivial=0, assertions=0,
        labels={}, samples=[], failure=None, error=None, known_hits={}, budget_hit=False,
        requested=n,
    )
    seen = set()
    nontriv_seen = set()
    best = {"case": None, "msg": None, "at": None}

    def one(case):
        case = _jsonable(case)
        if best["case"] is None:
            if time.time() - t0 > budget:
                res["budget_hit"] = True
                return
        elif time.time() - best["at"] > 25.0:
            return  # shrink budget used up
        status, msg, ctx = run_case(sub, case)
        res["evaluations"] += 1
        res["assertions"] += ctx.n_checks
        if status == "discard":
            res["discarded"] += 1
            return
        if status == "error":
            res["error"] = msg + "\ncase: " + case_key(case)[:2000]
            raise HarnessError(msg)
        for lb in ctx.labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        key = hashlib.sha1(case_key(case).encode()).digest()
        if key not in seen:
            seen.add(key)
            if ctx.nontrivial or status == "violation":
                nontriv_seen.add(key)
                if len(res["samples"]) < 3 and len(nontriv_seen) % 7 == 1:
                    res["samples"].append(case)
        if status == "violation":
            for k in known:
                if k["sub"] == sub.name and k_matches(k, case, msg):
                    res["known_hits"][k["id"]] = res["known_hits"].get(k["id"], 0) + 1
                    return
            size = len(case_key(case))
            if best["case"] is None or size <= best["size"]:
                if best["case"] is None:
                    best["at"] = time.time()
                best.update(case=case, msg=msg, size=size)
            raise _Fail(msg)

    try:
        for ex in sub.examples:
            try:
                one(ex)
            except _Fail:
                break
        if best["case"] is None and n > 0:
            phases = (Phase.generate, Phase.shrink)
            s = settings(
                max_examples=n, database=None, deadline=None, phases=phases,
                suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                print_blob=False, derandomize=False, verbosity=hypothesis.Verbosity.quiet,
            )
            sd = (seed * 1000003 + zlib.crc32(sub.name.encode())) % (2**32)

            @hyp_seed(sd)
            @s
            @given(sub.strategy)
            def prop(case):
                one(case)

            try:
                prop()
            except _Fail:
                pass
            except HarnessError:
                pass
            except BaseException as e:  # Flaky etc. once a failure is recorded
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                if best["case"] is None and res["error"] is None:
                    raise
    except Exception as e:
        if res["error"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if best["case"] is not None:
        res["failure"] = dict(case=best["case"], msg=best["msg"])
        res["error"] = None
    res["nontrivial"] = len(nontriv_seen)
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def k_matches(entry, case, msg):
    """A known finding names the failing class by exact case-field values and a
    message fragment, so any other failure of the same property is reported."""
    for k, v in entry.get("case", {}).items():
        if case.get(k) != v:
            return False
    return entry.get("message_contains", "\0") in msg


def _worker(args):
    modname, subname, tier, seed, known = args
    import importlib

    mod = importlib.import_module(modname)
    sub = {s.name: s for s in mod.SUBS}[subname]
    try:
        return run_sub(sub, tier, seed, known, QUICK_SCALE.get(mod.PROPERTY, 1))
    except Exception as e:
        return dict(sub=subname, error="".join(traceback.format_exception(e))[-3000:], failure=None,
                    evaluations=0, nontrivial=0, discarded=0, assertions=0, labels={}, samples=[],
                    known_hits={}, budget_hit=False, requested=0, distinct=0, wall_s=0.0, doc="")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def run_check(mod, tier, seed):
    t0 = time.time()
    pid = mod.PROPERTY
    known = [k for k in load_known() if k["property"] == pid]
    jobs = [(mod.__name__, s.name, tier, seed, known) for s in mod.SUBS]
    nproc = max(1, min(len(jobs), int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))))
    if nproc == 1:
        results = [_worker(j) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            results = pool.map(_worker, jobs, chunksize=1)
    failures, errors = [], []
    for r in results:
        if r["failure"]:
            failures.append(r)
        elif r["error"]:
            errors.append(r)
    replay_paths = []
    for r in failures:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, r["sub"]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=r["sub"], case=r["failure"]["case"],
                           message=r["failure"]["msg"],
                           how="python3 /verif/run.py --replay " + path), f, indent=1)
        replay_paths.append(path)
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[r["sub"] + ":" + k] = v
    samples = []
    for r in results:
        for c in r["samples"][:2]:
            samples.append(dict(sub=r["sub"], case=c))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=sum(r["nontrivial"] for r in results),
            discarded=sum(r["discarded"] for r in results),
            oracle_assertions=sum(r["assertions"] for r in results),
            rule=mod.RULE,
            samples=samples[:24],
            sub_checks=[
                dict(name=r["sub"], what=r["doc"], cases=r["evaluations"], distinct=r["distinct"],
                     nontrivial=r["nontrivial"], discarded=r["discarded"], requested=r["requested"],
                     time_budget_hit=r["budget_hit"], wall_s=r["wall_s"])
                for r in results
            ],
            classes=dict(sorted(labels.items())),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r, p in zip(failures, replay_paths):
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  [%s] %s" % (r["sub"], r["failure"]["msg"]))
    for r in errors:
        print("ERROR property=%s sub=%s\n%s" % (pid, r["sub"], r["error"]), file=sys.stderr)
    print(
        "property=%s tier=%s seed=%d cases=%d nontrivial=%d assertions=%d wall=%.1fs: %s"
        % (pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
           ev["coverage"]["oracle_assertions"], ev["wall_s"],
           "VIOLATED" if failures else ("ERROR" if errors else "held"))
    )
    if failures:
        return 1
    if errors:
        return 2
    return 0

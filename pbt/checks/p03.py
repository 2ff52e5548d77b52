"""P03: confidence intervals are percentile-bootstrap intervals of each estimator's own per-round terms."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from . import p08
from .. import families as F, gen, ref
from ..core import Sub
from ..gen import SEED, fmean, fx

from obp.utils import estimate_confidence_interval_by_bootstrap as boot

PROPERTY = "P03"
RULE = (
    "Samples of 1-5 values whose n^n bootstrap resamples are enumerated exactly, and logged data for all 28 estimators "
    "(11 standard, 6 multi-logger, 7 slate, 3 continuous, MIPW/SNMIPW) whose intervals are compared with the bootstrap of "
    "independently computed per-round (per-slate) terms. Non-trivial: at least two distinct terms."
)
RS = st.one_of(st.sampled_from([0, 1, 12345]), st.integers(0, 2**31))
ALPHA = st.one_of(st.sampled_from([0.05, 0.1, 0.3, 0.5, 0.01]), st.floats(0.001, 0.9))


def keys(alpha):
    return "%s%% CI (lower)" % (100 * (1.0 - alpha)), "%s%% CI (upper)" % (100 * (1.0 - alpha))


def run_exact(case, ctx):
    """helper vs. the exact bootstrap distribution (all n^n resamples enumerated)"""
    r = gen.rng(case)
    n, alpha, B = case["n"], case["alpha"], case["B"]
    x = gen.rewards(r, n, case["rk"]).astype(float)
    if case["dup"]:
        x[-1] = x[0]
    res = boot(samples=x, alpha=alpha, n_bootstrap_samples=B, random_state=case["rs"])
    lo, hi = keys(alpha)
    ctx.check(set(res) == {"mean", lo, hi}, "interval keys are %s" % sorted(res))
    ctx.nontriv(len(set(x.tolist())) > 1)
    vals = np.sort([fmean(c) for c in itertools.product(x.tolist(), repeat=n)])
    eps = 1e-9 * max(1.0, float(np.abs(x).max()))
    for k, p in ((lo, alpha / 2), (hi, 1 - alpha / 2)):
        v = float(res[k])
        d = 6.5 * math.sqrt(p * (1 - p) / B) + 2.0 / B
        below = np.searchsorted(vals, v - eps, "left") / len(vals)   # P(mean* < v)
        upto = np.searchsorted(vals, v + eps, "right") / len(vals)   # P(mean* <= v)
        ctx.check(below <= p + d and upto >= p - d, "%s=%r is not the %.4f-quantile of the bootstrap distribution (P(<)=%.4f, P(<=)=%.4f, B=%d)" % (k, v, p, below, upto, B))
    sd = math.sqrt(fmean([(t - fmean(x)) ** 2 for t in x]) / n)
    ctx.check(abs(float(res["mean"]) - fmean(x)) <= 6.5 * sd / math.sqrt(B) + eps, "mean of the bootstrap estimates %r vs sample mean %r" % (res["mean"], fmean(x)))
    again = boot(samples=x, alpha=alpha, n_bootstrap_samples=B, random_state=case["rs"])
    ctx.check(again == res, "same random_state gives a different interval")


def run_meta(case, ctx):
    """affine equivariance, nesting in alpha, sign symmetry of the mean, range containment"""
    r = gen.rng(case)
    x = gen.rewards(r, case["n"], case["rk"]).astype(float)
    alpha, B, rs = case["alpha"], case["B"], case["rs"]
    a, b = case["a"], case["b"]
    lo, hi = keys(alpha)
    res = boot(samples=x, alpha=alpha, n_bootstrap_samples=B, random_state=rs)
    sc = max(1.0, float(np.abs(x).max()))
    ctx.nontriv(len(set(x.tolist())) > 1)
    ctx.check(x.min() - 1e-9 * sc <= res[lo] <= res[hi] + 1e-12 * sc and res[hi] <= x.max() + 1e-9 * sc, "interval %r outside the sample range or reversed" % res)
    aff = boot(samples=a * x + b, alpha=alpha, n_bootstrap_samples=B, random_state=rs)
    for k in ("mean", lo, hi):
        ctx.close(aff[k], a * res[k] + b, "affine equivariance of %s" % k, rtol=1e-8, scale=sc * a + abs(b))
    neg = boot(samples=-x, alpha=alpha, n_bootstrap_samples=B, random_state=rs)
    for k, k2 in (("mean", "mean"), (lo, hi), (hi, lo)):
        ctx.close(neg[k], -res[k2], "%s of the negated sample is minus %s" % (k, k2), rtol=1e-8, scale=sc)
    alpha2 = alpha / 2
    wide = boot(samples=x, alpha=alpha2, n_bootstrap_samples=B, random_state=rs)
    l2, h2 = keys(alpha2)
    ctx.check(wide[l2] <= res[lo] + 1e-9 * sc and wide[h2] >= res[hi] - 1e-9 * sc, "a smaller alpha gives a narrower interval")


def run_orders(case, ctx):
    """the bounds at levels 2k/(B-1) are the order statistics of the B resample means: their average is the reported mean"""
    r = gen.rng(case)
    x = gen.rewards(r, case["n"], case["rk"]).astype(float)
    B, rs = case["B"], case["rs"]
    ctx.nontriv(B > 2 and len(set(x.tolist())) > 1)
    sc = max(1.0, float(np.abs(x).max()))
    m = float(boot(samples=x, alpha=0.05, n_bootstrap_samples=B, random_state=rs)["mean"])
    if B == 1:
        res = boot(samples=x, alpha=case["alpha"], n_bootstrap_samples=1, random_state=rs)
        ctx.close(list(res.values()), [res["mean"]] * 3, "mean and bounds of a single resample", scale=sc)
        return
    q = []
    for k in range(B):
        p = k / (B - 1.0)
        a = min(1.0, 2 * min(p, 1 - p))
        res = boot(samples=x, alpha=a, n_bootstrap_samples=B, random_state=rs)
        q.append(float(res[keys(a)[0 if p <= 0.5 else 1]]))
    ctx.check(all(u <= v + 1e-9 * sc for u, v in zip(q, q[1:])), "bounds are not ordered by level: %s", q)
    ctx.close(fmean(q), m, "average of the order statistics of the resample means", scale=sc)


def run_large(case, ctx):
    """samples of hundreds to thousands of values: quantiles of the resample means against the normal limit (Berry-Esseen slack)"""
    r = gen.rng(case)
    n, B, alpha = case["n"], case["B"], case["alpha"]
    x = gen.rewards(r, n, case["rk"]).astype(float)
    if case["trend"]:  # values that depend on their place in the sample
        x = x + np.linspace(0, 4 * (np.std(x) + 1), n)
    m, sd = fmean(x), math.sqrt(fmean([(t - fmean(x)) ** 2 for t in x]))
    if sd == 0:
        return
    ctx.nontriv()
    rho = fmean([abs(t - m) ** 3 for t in x])
    be = 0.4748 * rho / sd**3 / math.sqrt(n)
    res = boot(samples=x, alpha=alpha, n_bootstrap_samples=B, random_state=case["rs"])
    for k, p in zip(keys(alpha), (alpha / 2, 1 - alpha / 2)):
        z = (float(res[k]) - m) / (sd / math.sqrt(n))
        F = 0.5 * math.erfc(-z / math.sqrt(2))
        d = 6.5 * math.sqrt(p * (1 - p) / B) + 2.0 / B + be
        ctx.check(abs(F - p) <= d, "%s of %d values is at the %.4f-quantile of the resample means, expected %.4f (+-%.4f)" % (k, n, F, p, d))
    ctx.check(abs(float(res["mean"]) - m) <= 6.5 * sd / math.sqrt(n * B) + 1e-9 * abs(m), "mean of the resample means %r, sample mean %r" % (res["mean"], m))


def make_family(fam):
    case_st, build = F.FAMILIES[fam]

    def run(case, ctx):
        f = build(case)
        if f is None:
            ctx.label("undefined (0/0)")
            return
        ctx.label(f.name)
        ctx.nontriv(len(set(f.terms)) > 1)
        alpha, B, rs = case["alpha"], case["B"], case["rs"]
        F.warm(f, case)
        if case["nopos"] and case.get("L") == 1 and fam in ("std", "multi", "embed"):
            f.kw.pop("position")
        got = f.est.estimate_interval(alpha=alpha, n_bootstrap_samples=B, random_state=rs, **f.kw)
        want = boot(samples=np.array(f.terms), alpha=alpha, n_bootstrap_samples=B, random_state=rs)
        ctx.check(isinstance(got, dict) and set(got) == set(want), "%s.estimate_interval returned %r" % (f.name, got))
        for k in want:
            ctx.close(got[k], want[k], "%s.estimate_interval[%s]" % (f.name, k), scale=getattr(f, "scale", None) or ref.scale_of(f.terms))
        if case["dflt"]:
            got = f.est.estimate_interval(n_bootstrap_samples=B, random_state=rs, **f.kw)
            want = boot(samples=np.array(f.terms), alpha=0.05, n_bootstrap_samples=B, random_state=rs)
            ctx.check(set(got) == set(want), "%s.estimate_interval default alpha: %r" % (f.name, got))
            for k in want:
                ctx.close(got[k], want[k], "%s.estimate_interval (default alpha)[%s]" % (f.name, k), scale=getattr(f, "scale", None) or ref.scale_of(f.terms))

    run.__doc__ = "%s estimators: interval == bootstrap of the reference terms (same seed)" % fam
    extra = dict(alpha=ALPHA, B=st.integers(1, 60), rs=RS, dflt=st.booleans(), nopos=st.booleans())
    return Sub("interval_" + fam, case_st(**extra), run, 900 if fam in ("std", "multi") else 500, 15000)


def run_defaults(case, ctx):
    """the documented default level (0.05) and number of resamples (10000)"""
    f = F.FAMILIES[case["fam"]][1](case)
    if f is None:
        return
    got = f.est.estimate_interval(random_state=case["rs"], **f.kw)
    want = boot(samples=np.array(f.terms), alpha=0.05, n_bootstrap_samples=10000, random_state=case["rs"])
    ctx.nontriv(len(set(f.terms)) > 1)
    ctx.label(f.name)
    ctx.check(set(got) == set(want), "%s.estimate_interval with default arguments: %r" % (f.name, got))
    for k in want:
        ctx.close(got[k], want[k], "%s.estimate_interval with default arguments[%s]" % (f.name, k), scale=getattr(f, "scale", None) or ref.scale_of(f.terms))


def run_selected(case, ctx):
    """MIPW with data-driven embedding selection: the interval bootstraps the terms of the selected subset of dimensions"""
    s = p08.selected(case, ctx)
    if s is None:
        return
    est, kw, _, terms, dims = s
    alpha, B, rs = case["alpha"], case["B"], case["rs"]
    got = est.estimate_interval(alpha=alpha, n_bootstrap_samples=B, random_state=rs, **kw)
    want = boot(samples=np.array(terms), alpha=alpha, n_bootstrap_samples=B, random_state=rs)
    ctx.check(set(got) == set(want), "interval with embedding selection: %r" % got)
    for k in want:
        ctx.close(got[k], want[k], "interval with %s embedding selection (kept dims %s)[%s]" % (case["method"], dims, k), scale=ref.scale_of(terms))


SUBS = [
    Sub("large_samples", fx(n=st.one_of([st.integers(200, 3000)] * 9 + [st.integers(3001, 30000)]), B=st.sampled_from([300, 1000]), alpha=st.sampled_from([0.05, 0.1, 0.3, 0.5]), rk=gen.REWARDS, seed=SEED, rs=RS, trend=st.booleans()), run_large, 120, 1500),
    Sub("exact_distribution", fx(n=st.integers(1, 5), alpha=ALPHA, B=st.sampled_from([500, 2000, 2000, 500, 10000]), rk=gen.REWARDS, dup=st.booleans(), seed=SEED, rs=RS), run_exact, 200, 5000),
    Sub("orders", fx(n=st.integers(1, 30), alpha=ALPHA, B=gen.some(1, 12, 60), rk=gen.REWARDS, seed=SEED, rs=RS), run_orders, 150, 3000),
    Sub("metamorphic", fx(n=st.integers(1, 40), alpha=ALPHA, B=st.integers(1, 200), rk=gen.REWARDS, seed=SEED, rs=RS,
                          a=st.sampled_from([0.5, 1.0, 2.0, 3.0]), b=st.sampled_from([0.0, 1.0, -5.0, 100.0])), run_meta, 400, 10000),
    Sub("interval_defaults", st.one_of([c(fam=st.just(k), rs=RS) for k, (c, _) in F.FAMILIES.items()]), run_defaults, 50, 600),
    Sub("interval_selected_embedding", p08.select_case(alpha=ALPHA, B=st.integers(1, 40), rs=RS), run_selected, 300, 6000),
] + [make_family(f) for f in F.FAMILIES]
gen.huge(SUBS, "interval_std interval_multi interval_slate interval_continuous interval_embed", hi=4000)

"""P04: data-driven hyperparameter tuning returns the base estimator at the candidate its criterion selects."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import gen, ref
from ..core import Sub
from ..gen import fmean

import obp.ope as ope
from obp.utils import estimate_confidence_interval_by_bootstrap as boot

PROPERTY = "P04"
RULE = (
    "Logged data (2-72 rounds) and lists of 1-6 candidate hyperparameters in any order (incl. duplicates, 0, inf and exact ties with a "
    "weight) for the six tuned estimators, both criteria. The reference scores every candidate independently; the result must be the "
    "base estimate of a candidate the criterion selects (numerically tied candidates are all acceptable). Non-trivial: candidates give "
    "at least two different estimates and the selected set is a strict subset."
)
ASSUMPTIONS = ["tuning is performed on the first data set an estimator object sees (obp keeps the tuned value afterwards)"]

T = dict(
    ipw=(ope.InverseProbabilityWeightingTuning, ref.ipw, ref.w_clip, False),
    dr=(ope.DoublyRobustTuning, ref.dr, ref.w_clip, True),
    switch=(ope.SwitchDoublyRobustTuning, ref.switch_dr, ref.w_switch, True),
    dros=(ope.DoublyRobustWithShrinkageTuning, ref.dros, ref.w_os, True),
    sgipw=(ope.SubGaussianInverseProbabilityWeightingTuning, ref.sgipw, ref.w_sg, False),
    sgdr=(ope.SubGaussianDoublyRobustTuning, ref.sgdr, ref.w_sg, True),
)
LAMS = st.lists(
    st.one_of(st.sampled_from([0.0, 0.5, 1.0, 2.0, 10.0, 100.0, float("inf")]), st.floats(0, 20, allow_nan=False), st.integers(0, 71).map(lambda k: "w%d" % k)),
    min_size=1, max_size=6,
)
LAMS01 = st.lists(st.one_of(st.sampled_from([0.0, 0.1, 0.5, 0.9]), st.floats(0, 0.99)), min_size=1, max_size=6)


def _var(t):
    m = fmean(t)
    return fmean([(x - m) ** 2 for x in t])


def mse_score(d, terms, w, what, q, delta, ub):
    n = d.n
    bias = abs(fmean([(w[i] - what[i]) * (float(d.reward[i]) - (ref.q_fact(d, i) if q else 0.0)) for i in range(n)]))
    if ub:
        l = math.log(2 / delta)
        bias += math.sqrt(2 * fmean([x * x for x in w]) * l / n) + 2 * max(w) * l / (3 * n)
    return _var(terms) / n + bias ** 2


def slope_answers(stats_, tol):
    """all indices the SLOPE rule may return, exploring both outcomes of numerically undecidable comparisons"""
    C = math.sqrt(6) - 1
    idx = sorted(range(len(stats_)), key=lambda k: -stats_[k][1])
    for a, b in zip(idx, idx[1:]):
        (ta, ca), (tb, cb) = stats_[a], stats_[b]
        if abs(ca - cb) <= tol and abs(ta - tb) > tol:
            return None  # order undecidable between different estimates
    out = set()
    for i, k in enumerate(idx):
        if i == 0:
            continue
        th, c = stats_[k]
        maybe_fail = sure_fail = False
        for j in idx[:i]:
            tj, cj = stats_[j]
            gap = abs(tj - th) - (c + C * cj)
            if gap > tol:
                sure_fail = True
            elif gap > -tol:
                maybe_fail = True
        if sure_fail or maybe_fail:
            out.add(idx[i - 1])
        if sure_fail:
            return out
    out.add(idx[-1])
    return out


def run(case, ctx):
    """estimate_policy_value and estimate_interval after tuning, all six estimators"""
    d = gen.logged(case)
    cls, f, wf, q = T[case["which"]]
    sg = case["which"].startswith("sg")
    e = case["est_ps"]
    ps = d.est_pscore if e else d.pscore
    w = gen.weights(d, ps)
    lams = [w[int(l[1:]) % d.n] if isinstance(l, str) else l for l in (case["lams01"] if sg else case["lams"])]
    delta = case["delta"]
    terms = [f(d, l, ps) for l in lams]
    theta = [fmean(t) for t in terms]
    sc = max(ref.scale_of(t) for t in terms)
    if case["method"] == "mse":
        scores = [mse_score(d, t, w, [wf(x, l) for x in w], q, delta, case["ub"]) for t, l in zip(terms, lams)]
        m = min(scores)
        ok = {k for k, s in enumerate(scores) if s <= m + 1e-9 * max(1.0, sc * sc)}
    else:
        st_ = [(fmean(t), math.sqrt(_var(t) / (d.n - 1)) * stats.t.ppf(1 - delta, d.n - 1)) for t in terms]
        ok = slope_answers(st_, 1e-9 * max(1.0, sc))
        if ok is None:
            ctx.label("order undecidable")
            ok = set(range(len(lams)))
    ctx.label(case["which"], case["method"])
    distinct = lambda ks: {round(theta[k] / sc, 7) for k in ks}
    ctx.nontriv(len(distinct(range(len(lams)))) > 1 and len(distinct(ok)) < len(distinct(range(len(lams)))))
    kw = dict(reward=d.reward, action=d.action, action_dist=d.action_dist, position=d.position)
    kw["estimated_pscore" if e else "pscore"] = ps
    if case["nopos"] and d.L == 1:
        kw.pop("position")
    if case["both"]:
        kw.setdefault("estimated_pscore", d.est_pscore)
        kw.setdefault("pscore", d.pscore)
    if q:
        kw["estimated_rewards_by_reg_model"] = d.q
    given = list(lams)
    init = dict(lambdas=given, tuning_method=case["method"], use_bias_upper_bound=case["ub"], delta=delta, use_estimated_pscore=e)
    est = cls(**init)
    ctx.check(given == lams, "the caller's lambdas list was modified")

    def point():
        got = est.estimate_policy_value(**kw)
        tol = 1e-9 + 1e-7 * sc
        ctx.check(any(abs(float(got) - theta[k]) <= tol for k in ok),
                  "%s tuned by %s over %r: estimate %.12g, selected candidates give %s" % (case["which"], case["method"], lams, got, sorted(set(theta[k] for k in ok))))

    def interval():
        a, B, rs = case["alpha"], case["B"], case["rs"]
        got = est.estimate_interval(alpha=a, n_bootstrap_samples=B, random_state=rs, **kw)
        good = False
        for k in ok:
            want = boot(samples=np.array(terms[k]), alpha=a, n_bootstrap_samples=B, random_state=rs)
            good = good or (set(got) == set(want) and all(abs(got[x] - want[x]) <= 1e-9 + 1e-7 * sc for x in want))
        ctx.check(good, "%s tuned by %s: interval %r is not the bootstrap of a selected candidate" % (case["which"], case["method"], got))

    if case["first"] == "interval":
        interval()
        point()
    else:
        point()
        interval()
    ctx.check(any(est.best_hyperparam == l for l in lams), "best_hyperparam %r is not a candidate %r" % (est.best_hyperparam, lams))


def _strategy(which):
    return gen.logged_case(
        which=st.sampled_from(which), lams=LAMS, lams01=LAMS01, method=st.sampled_from(["mse", "slope"]), ub=st.booleans(), est_ps=st.booleans(), both=st.booleans(), nopos=st.booleans(),
        delta=st.sampled_from([0.05, 0.1, 0.5, 0.01]), alpha=st.sampled_from([0.05, 0.3]), B=st.integers(1, 20), rs=st.one_of(st.just(0), st.integers(0, 10**6)), first=st.sampled_from(["point", "interval"]),
    ).map(lambda c: dict(c, n=max(2, c["n"])))


SUBS = [Sub("tuning_" + k, _strategy([k]), run, 600, 10000) for k in T]
gen.huge(SUBS, "tuning_ipw tuning_dr tuning_switch tuning_dros tuning_sgipw tuning_sgdr", hi=4000, quick=2)

"""P01: point estimates of the standard OPE estimators equal their documented formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import fmean

from obp.ope import (
    BalancedInverseProbabilityWeighting,
    DirectMethod,
    DoublyRobust,
    DoublyRobustWithShrinkage,
    InverseProbabilityWeighting,
    ReplayMethod,
    SelfNormalizedDoublyRobust,
    SelfNormalizedInverseProbabilityWeighting,
    SubGaussianDoublyRobust,
    SubGaussianInverseProbabilityWeighting,
    SwitchDoublyRobust,
)

PROPERTY = "P01"
RULE = (
    "Logged data sets of 1-72 rounds, 2-6 actions, 1-4 positions drawn by Hypothesis (dyadic, one-hot, Dirichlet "
    "and mixed policies, ties between weights and the hyperparameter, 7 reward kinds, several dtypes/memory layouts). "
    "Non-trivial: at least two rounds, at least one round whose logged action has evaluation probability > 0 and "
    "one reward different from 0."
)

LAM = st.one_of(
    st.sampled_from([0, 0.0, 0.25, 0.5, 1, 1.0, 2.0, 4, 8.0, 1e6, float("inf")]),
    st.floats(0, 20, allow_nan=False),
    st.integers(0, 71).map(lambda k: "w%d" % k),  # tie: exactly the weight of round k
)


def _lam(case, d, ps):
    lam = case["lam"]
    if isinstance(lam, str):
        w = gen.weights(d, ps)
        return w[int(lam[1:]) % d.n]
    return lam


def _call(est, d, case, ps_kwargs, q=False, iw=False):
    kw = dict(reward=d.reward, action=d.action, action_dist=d.action_dist)
    if not (d.L == 1 and case["nopos"]):
        kw["position"] = d.position
    kw.update(ps_kwargs)
    if q:
        kw["estimated_rewards_by_reg_model"] = d.q
    if iw:
        kw["estimated_importance_weights"] = d.est_iw
    if case["warm"]:  # use the estimator object on other data first
        m = max(1, d.n // 2)
        other = {k: v[:m] for k, v in kw.items()}
        other["reward"] = d.reward[:m][::-1] * 3.0 + 1.0
        est.estimate_policy_value(**other)
    return est.estimate_policy_value(**kw)


def _setup(case):
    d = gen.logged(case)
    if case["est_ps"]:
        ps = d.est_pscore
        kw = dict(estimated_pscore=ps)
        if case["give_both"]:
            kw["pscore"] = d.pscore
    else:
        ps = d.pscore
        kw = dict(pscore=ps)
        if case["give_both"]:
            kw["estimated_pscore"] = d.est_pscore
    return d, ps, kw


def _classify(case, ctx, d, lam=None, ps=None):
    w = gen.weights(d, ps)
    ctx.nontriv(d.n >= 2 and any(x > 0 for x in w) and any(float(x) != 0 for x in d.reward))
    if any(x == 0 for x in w):
        ctx.label("some weight 0")
    if lam is not None and any(x == lam for x in w):
        ctx.label("weight ties hyperparameter")
    if lam is not None and any(x > lam for x in w):
        ctx.label("weight above hyperparameter")
    if d.L > 1:
        ctx.label("several positions")


COMMON = dict(warm=st.booleans(), nopos=st.booleans(), est_ps=st.booleans(), give_both=st.booleans())


def run_ipw(case, ctx):
    """IPW with weight clipping and with true / estimated propensities"""
    d, ps, kw = _setup(case)
    lam = _lam(case, d, ps)
    terms = ref.ipw(d, lam, ps)
    _classify(case, ctx, d, lam, ps)
    got = _call(InverseProbabilityWeighting(lambda_=lam, use_estimated_pscore=case["est_ps"]), d, case, kw)
    ctx.close(got, fmean(terms), "IPW(lambda_=%r)" % lam, scale=ref.scale_of(terms))


def run_sn(case, ctx):
    """self-normalised IPW and DR"""
    d, ps, kw = _setup(case)
    _classify(case, ctx, d, None, ps)
    if math.fsum(gen.weights(d, ps)) <= 0:
        ctx.label("all weights zero (undefined)")
        ctx.nontrivial = False
        return
    terms = ref.snipw(d, ps)
    got = _call(SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=case["est_ps"]), d, case, kw)
    ctx.close(got, fmean(terms), "SNIPW", scale=ref.scale_of(terms))
    r = [float(x) for x in d.reward]
    ctx.check(min(r) - 1e-6 * ref.scale_of(r) <= got <= max(r) + 1e-6 * ref.scale_of(r), "SNIPW outside the reward range")
    terms = ref.sndr(d, ps)
    got = _call(SelfNormalizedDoublyRobust(use_estimated_pscore=case["est_ps"]), d, case, kw, q=True)
    ctx.close(got, fmean(terms), "SNDR", scale=ref.scale_of(terms))


def run_dm_rm(case, ctx):
    """Direct Method and Replay Method"""
    d = gen.logged(case)
    _classify(case, ctx, d)
    terms = ref.dm(d)
    got = _call(DirectMethod(), d, case, {}, q=True)
    ctx.close(got, fmean(terms), "DM", scale=ref.scale_of(terms))
    # DM needs neither rewards nor actions
    kw = dict(action_dist=d.action_dist, estimated_rewards_by_reg_model=d.q)
    if not (d.L == 1 and case["nopos"]):
        kw["position"] = d.position
    ctx.close(DirectMethod().estimate_policy_value(**kw), fmean(terms), "DM (minimal arguments)", scale=ref.scale_of(terms))
    terms = ref.rm(d)
    if any(t != 0 for t in terms):
        ctx.label("RM has matches")
    got = _call(ReplayMethod(), d, case, {})
    ctx.close(got, fmean(terms), "ReplayMethod", scale=ref.scale_of(terms))


def run_dr(case, ctx):
    """DR (clipped), Switch-DR and DRos over the whole hyperparameter range incl. 0, ties and inf"""
    d, ps, kw = _setup(case)
    lam = _lam(case, d, ps)
    _classify(case, ctx, d, lam, ps)
    for cls, f in (
        (DoublyRobust, ref.dr),
        (SwitchDoublyRobust, ref.switch_dr),
        (DoublyRobustWithShrinkage, ref.dros),
    ):
        terms = f(d, lam, ps)
        got = _call(cls(lambda_=lam, use_estimated_pscore=case["est_ps"]), d, case, kw, q=True)
        ctx.close(got, fmean(terms), "%s(lambda_=%r)" % (cls.__name__, lam), scale=ref.scale_of(terms))


def run_sg(case, ctx):
    """Sub-Gaussian IPW and DR, lambda in [0, 1]"""
    d, ps, kw = _setup(case)
    lam = case["lam01"]
    w = gen.weights(d, ps)
    if lam == 1 and min(w) == 0:  # 0/0 in the documented formula
        lam = 0.5
    _classify(case, ctx, d, lam, ps)
    for cls, f, q in (
        (SubGaussianInverseProbabilityWeighting, ref.sgipw, False),
        (SubGaussianDoublyRobust, ref.sgdr, True),
    ):
        terms = f(d, lam, ps)
        got = _call(cls(lambda_=lam, use_estimated_pscore=case["est_ps"]), d, case, kw, q=q)
        ctx.close(got, fmean(terms), "%s(lambda_=%r)" % (cls.__name__, lam), scale=ref.scale_of(terms))


def run_bipw(case, ctx):
    """Balanced IPW from estimated importance weights (clipped, self-normalised)"""
    d = gen.logged(case)
    lam = case["lam"]
    if isinstance(lam, str):
        lam = float(d.est_iw[int(lam[1:]) % d.n])
    if math.fsum(min(float(x), lam) for x in d.est_iw) <= 1e-200:
        ctx.label("all weights zero (undefined)")
        return
    ctx.nontriv(d.n >= 2 and any(float(x) != 0 for x in d.reward))
    if any(x == lam for x in d.est_iw):
        ctx.label("weight ties hyperparameter")
    terms = ref.bipw(d, lam)
    got = _call(BalancedInverseProbabilityWeighting(lambda_=lam), d, case, {}, iw=True)
    ctx.close(got, fmean(terms), "B-IPW(lambda_=%r)" % lam, scale=ref.scale_of(terms))


def run_defaults(case, ctx):
    """documented defaults and limits: default IPW/DR unclipped, DRos(0)=DM, Switch(0)=DM when no zero weights, SG(0)=vanilla"""
    d, ps, kw = _setup(case)
    _classify(case, ctx, d, None, ps)
    e = case["est_ps"]
    ipw, dr, dm = ref.ipw(d, math.inf, ps), ref.dr(d, math.inf, ps), ref.dm(d)
    for est, terms, q in (
        (InverseProbabilityWeighting(use_estimated_pscore=e), ipw, False),
        (DoublyRobust(use_estimated_pscore=e), dr, True),
        (SwitchDoublyRobust(use_estimated_pscore=e), dr, True),
        (DoublyRobustWithShrinkage(use_estimated_pscore=e), dm, True),
        (SubGaussianInverseProbabilityWeighting(use_estimated_pscore=e), ipw, False),
        (SubGaussianDoublyRobust(use_estimated_pscore=e), dr, True),
        (DoublyRobust(lambda_=0.0, use_estimated_pscore=e), dm, True),
        (SwitchDoublyRobust(lambda_=0.0, use_estimated_pscore=e), dm, True),
        (DoublyRobustWithShrinkage(lambda_=float("inf"), use_estimated_pscore=e), dr, True),
    ):
        got = _call(est, d, case, kw, q=q)
        ctx.close(got, fmean(terms), "%s limit (lambda_=%r)" % (type(est).__name__, est.lambda_), scale=ref.scale_of(terms))


SUBS = [
    Sub("ipw", gen.logged_case(lam=LAM, **COMMON), run_ipw, 1500),
    Sub("self_normalized", gen.logged_case(**COMMON), run_sn, 1200),
    Sub("dm_rm", gen.logged_case(nopos=st.booleans(), warm=st.booleans()), run_dm_rm, 1200),
    Sub("dr_family", gen.logged_case(lam=LAM, **COMMON), run_dr, 1500),
    Sub("sub_gaussian", gen.logged_case(lam01=st.one_of(st.sampled_from([0, 0.0, 0.5, 1, 1.0, 0.25]), st.floats(0, 1)), **COMMON), run_sg, 1000),
    Sub("balanced", gen.logged_case(lam=LAM, nopos=st.booleans(), warm=st.booleans()), run_bipw, 1000),
    Sub("defaults_and_limits", gen.logged_case(**COMMON), run_defaults, 800),
]
gen.huge(SUBS, "ipw self_normalized dm_rm dr_family sub_gaussian balanced")

"""P05: multi-logger estimators equal their documented stratified formulas."""
from .. import families as F, gen, ref
from ..core import Sub
from ..gen import fmean, relayout
from hypothesis import strategies as st
import numpy as np

PROPERTY = "P05"
RULE = (
    "Logged data of 1-72 rounds from 1-4 loggers with arbitrary (also non-contiguous, unsorted) stratum labels, true/estimated "
    "(average) propensities, clipping incl. ties and q-hat. Non-trivial: at least two strata present and two distinct terms."
)
ASSUMPTIONS = ["weighted estimators: every stratum's terms have positive variance (the documented weights are undefined otherwise)"]


def run_point(case, ctx):
    """point estimate == mean of the reference terms, for all six estimators"""
    f = F.multi(case)
    if f is None:
        ctx.label("undefined stratum variance")
        return
    ctx.label(f.name)
    ctx.nontriv(len(set(f.kw["stratum_idx"].tolist())) > 1 and len(set(f.terms)) > 1)
    kw = dict(f.kw)
    if case["L"] == 1 and case["nopos"]:
        kw.pop("position")
    if not f.name.startswith("weighted"):
        kw.pop("stratum_idx")
    F.warm(f, case)
    got = f.est.estimate_policy_value(**kw)
    ctx.close(got, fmean(f.terms), "%s(lambda_=%r)" % (f.name, f.est.lambda_), scale=ref.scale_of(f.terms))


def run_meta(case, ctx):
    """relabelling strata and permuting rounds leave every estimate unchanged; one logger => single-logger estimate"""
    f = F.multi(case)
    if f is None:
        ctx.label("undefined stratum variance")
        return
    ctx.label(f.name)
    s = f.kw["stratum_idx"]
    ctx.nontriv(len(set(s.tolist())) > 1)
    base = f.est.estimate_policy_value(**f.kw)
    perm = np.random.RandomState(case["seed"] % 1000).permutation(len(s))
    kw = {k: (v[perm] if isinstance(v, np.ndarray) else v) for k, v in f.kw.items()}
    ctx.close(f.est.estimate_policy_value(**kw), base, "%s after permuting the rounds" % f.name, scale=ref.scale_of(f.terms))
    lab = np.array([7, 2, 11, 5])[np.unique(s, return_inverse=True)[1]]
    ctx.close(f.est.estimate_policy_value(**dict(f.kw, stratum_idx=lab)), base, "%s after relabelling the strata" % f.name, scale=ref.scale_of(f.terms))


SUBS = [
    Sub("point", F.multi_case(nopos=st.booleans()), run_point, 3000, 60000),
    Sub("metamorphic", F.multi_case(), run_meta, 1200, 20000),
]
gen.huge(SUBS, "point metamorphic")

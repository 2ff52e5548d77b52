"""P07: kernelized estimators for continuous actions and their kernels."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import families as F, gen, ref
from ..core import Sub
from ..gen import SEED, fmean, fx

from obp.ope import (
    cosine_kernel,
    epanechnikov_kernel,
    gaussian_kernel,
    triangular_kernel,
)

PROPERTY = "P07"
RULE = (
    "Logged continuous-action data (1-60 rounds; real, grid and integer actions; 4 kernels; bandwidth 0.01-10; densities above 1; "
    "actions exactly one bandwidth apart). Non-trivial: some kernel weight positive and two distinct terms."
)
ASSUMPTIONS = ["bandwidth > 0; self-normalised estimator: at least one round with positive kernel weight"]
KF = dict(gaussian=gaussian_kernel, epanechnikov=epanechnikov_kernel, triangular=triangular_kernel, cosine=cosine_kernel)


def run_point(case, ctx):
    """K-IPW, K-SNIPW, K-DR == documented formulas"""
    f = F.cont(case)
    if f is None:
        ctx.label("no kernel mass (undefined)")
        return
    ctx.label(f.name, case["kernel"])
    if any(x == 0 for x in f.k):
        ctx.label("some round outside the kernel support")
    ctx.nontriv(any(x > 0 for x in f.k) and len(set(f.terms)) > 1)
    F.warm(f, case)
    got = f.est.estimate_policy_value(**f.kw)
    ctx.close(got, fmean(f.terms), "%s(%s, h=%r)" % (f.name, case["kernel"], case["h"]), scale=f.scale)
    if f.name == "K-SNIPW":
        r = [float(x) for x in f.kw["reward"]]
        ctx.check(min(r) - 1e-6 * ref.scale_of(r) <= got <= max(r) + 1e-6 * ref.scale_of(r), "K-SNIPW outside the reward range")


def run_kernel(case, ctx):
    """kernels: value, symmetry, non-negativity, compact support, unit mass, monotone in |u|"""
    k = KF[case["kernel"]]
    u = np.array(case["u"], dtype=float)
    ctx.nontriv(np.any((u != 0) & (np.abs(u) < 1)))
    v = k(u)
    ctx.close(v, [F.kern(case["kernel"], float(x)) for x in u], "%s kernel" % case["kernel"], atol=1e-12)
    ctx.check(np.all(v >= -1e-15), "%s kernel negative" % case["kernel"])
    ctx.close(k(-u), v, "%s kernel symmetry" % case["kernel"])
    if case["kernel"] != "gaussian":
        ctx.close(v[np.abs(u) >= 1], np.zeros(int((np.abs(u) >= 1).sum())), "%s kernel outside [-1, 1]" % case["kernel"], atol=1e-12)
    h = case["h"]
    g = np.linspace(-9, 9, 18001)
    ctx.close(np.sum(k(g / h)) * (g[1] - g[0]) / h, 1.0, "%s kernel integral at bandwidth %r" % (case["kernel"], h), rtol=2e-3)


SUBS = [
    Sub("point", F.cont_case(), run_point, 2500, 50000),
    Sub("kernels", fx(kernel=st.sampled_from(F.KERNELS), u=st.lists(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]), st.floats(-5, 5)), min_size=1, max_size=6), h=st.floats(0.2, 1.0)), run_kernel, 600, 10000),
]
gen.huge(SUBS, "point")

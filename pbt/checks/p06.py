"""P06: slate estimators equal their documented formulas."""
import numpy as np
from .. import families as F, gen, ref
from ..core import Sub
from ..gen import fmean
from hypothesis import strategies as st

PROPERTY = "P06"
RULE = (
    "Logged slates (1-12 slates, length 1-4, 2-5 actions) with slate-level, item-position and cascade propensities, evaluation "
    "propensities incl. 0, arbitrary slate ids and (except cascade-DR) shuffled rows. Non-trivial: two slates or more, length two or more."
)
ASSUMPTIONS = ["every slate is complete (one row per position); cascade-DR rows are ordered by slate and position, as its q_hat layout documents"]


def run_point(case, ctx):
    """SIPS/IIPS/RIPS, their self-normalised versions and cascade-DR == per-slate sums averaged over slates"""
    f = F.slate(case)
    if f is None:
        ctx.label("undefined (0/0)")
        return
    ctx.label(f.name)
    ctx.nontriv(case["n"] > 1 and case["L"] > 1 and len(set(f.terms)) > 1)
    F.warm(f, case)
    got = f.est.estimate_policy_value(**f.kw)
    ctx.close(got, fmean(f.terms), f.name, scale=ref.scale_of(f.terms))


def run_meta(case, ctx):
    """permuting rows / relabelling slates changes nothing; linear in the reward; on-policy weights give the mean slate reward"""
    f = F.slate(case)
    if f is None:
        ctx.label("undefined (0/0)")
        return
    ctx.label(f.name)
    ctx.nontriv(case["n"] > 1 and case["L"] > 1)
    base = f.est.estimate_policy_value(**f.kw)
    sc = ref.scale_of(f.terms)
    n = len(f.kw["slate_id"])
    rel = dict(f.kw, slate_id=np.unique(f.kw["slate_id"], return_inverse=True)[1] * 5 + 2)
    ctx.close(f.est.estimate_policy_value(**rel), base, "%s after relabelling the slates" % f.name, scale=sc)
    if f.name != "cascade-DR":
        perm = np.random.RandomState(case["seed"] % 1000).permutation(n)
        kw = {k: v[perm] for k, v in f.kw.items()}
        ctx.close(f.est.estimate_policy_value(**kw), base, "%s after permuting the rows" % f.name, scale=sc)
        twice = f.est.estimate_policy_value(**dict(f.kw, reward=2.0 * f.kw["reward"]))
        ctx.close(twice, 2 * base, "%s with doubled rewards" % f.name, scale=sc)
        pk = [k for k in f.kw if k.startswith("pscore")][0]
        on = f.est.estimate_policy_value(**dict(f.kw, **{"evaluation_policy_" + pk: f.kw[pk]}))
        ctx.close(on, float(np.sum(f.kw["reward"])) / case["n"], "%s on-policy" % f.name, scale=sc + float(np.abs(f.kw["reward"]).max()))


SUBS = [Sub("point", F.slate_case(), run_point, 1500, 30000), Sub("metamorphic", F.slate_case(), run_meta, 600, 10000)]
gen.huge(SUBS, "point metamorphic", lo=300, hi=3000)

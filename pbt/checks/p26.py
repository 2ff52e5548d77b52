"""P26: results are reproducible from the given seed alone."""
import random

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Discard, Sub
from ..gen import SEED, fx
from ..ops import OPS, diff, same, snap

PROPERTY = "P26"
RULE = (
    "Random inputs and integer seeds for every public operation of the registry, run twice under different global random states with another operation in between. "
    "Non-trivial: the operation draws random numbers."
)
RANDOM = {
    "est_std", "est_multi", "est_slate", "est_continuous", "est_embed", "tuning", "front", "front_multi", "front_slate", "front_continuous", "reward_model", "propensity_model", "weight_model", "learner", "nn_learner", "nn_learner_continuous",
    "synthetic", "synthetic_multi", "synthetic_embed", "synthetic_slate", "synthetic_continuous", "multiclass", "functions", "online_replay", "online_simulation",
}


def world(k):
    random.seed(k)
    np.random.seed(k % 2**32)
    torch.manual_seed(k)


def run(case, ctx):
    """same seed, same result, whatever the global random state and whatever ran in between; seeded calls leave numpy's global state alone"""
    b = OPS[case["op"]](case)
    if b is None:
        raise Discard("documented formula undefined")
    inputs, make, call, pure = b
    world(case["g1"])
    s0 = np.random.get_state()
    r1 = snap(call(make()))
    s1 = np.random.get_state()
    ctx.check(all(np.array_equal(u, v) for u, v in zip(s0, s1)), "%s with a seed consumed numpy's global random state", case["op"])
    other = OPS[case["other"]](dict(case, seed=case["g2"]))
    if other is not None:
        other[2](other[1]())
    world(case["g2"])
    r2 = call(make())
    ctx.check(same(r2, r1), "%s: same seed, different result %s", case["op"], diff(r1, r2))
    ctx.label(case["op"])
    ctx.nontriv(case["op"] in RANDOM)


def run_seeds(case, ctx):
    """different seeds give different random results"""
    rs = [case["rs"] + k for k in range(4)]
    outs = []
    for s in rs:
        inputs, make, call, pure = OPS[case["op"]](dict(case, rs=s))
        outs.append(snap(call(make())))
    ctx.check(any(not same(o, outs[0]) for o in outs[1:]), "%s returns the same result for the seeds %s", case["op"], rs)
    ctx.label(case["op"])
    ctx.nontriv()


NAMES = sorted(OPS)
GROUPS = [NAMES[i::6] for i in range(6)]


def cases(names):
    return fx(op=st.sampled_from(names), other=st.sampled_from(NAMES), rs=gen.RS, seed=SEED, g1=st.integers(0, 2**31), g2=st.integers(0, 2**31))


SEEDED = ["synthetic", "synthetic_multi", "synthetic_embed", "synthetic_slate", "synthetic_continuous", "online_simulation"]
SUBS = [Sub("ops%d" % i, cases(g), run, 30 * len(g), budget=(60, 500)) for i, g in enumerate(GROUPS)]
SUBS += [Sub("seeds", fx(op=st.sampled_from(SEEDED), rs=gen.RS, seed=SEED), run_seeds, 60, budget=(40, 300))]

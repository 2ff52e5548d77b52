"""P25: operations do not interfere with the caller's data, with earlier results or with each other."""
from hypothesis import strategies as st

from .. import gen
from ..core import Discard, Sub
from ..gen import SEED, fx
from ..ops import OPS, EarlierResultChanged, diff, same, snap

PROPERTY = "P25"
RULE = (
    "Random inputs for every public operation of the registry (estimators, tuning, front-ends, reward/propensity/weight models, learners, data sets, replay and simulation, stand-alone functions), "
    "called repeatedly. Non-trivial: the operation has caller-owned inputs or returns arrays that a later call could overwrite."
)


def run(case, ctx):
    """inputs are unchanged; a repeated call returns the same; results returned earlier stay as they were"""
    b = OPS[case["op"]](case)
    if b is None:
        raise Discard("documented formula undefined")
    inputs, make, call, pure = b
    keep = snap(inputs)
    try:
        o = make()
        r1 = call(o)
        ctx.check(same(inputs, keep), "%s modified its input %s", case["op"], diff(keep, inputs))
        k1 = snap(r1)
        r2 = call(o if pure else make())
        ctx.check(same(r1, k1), "%s: a later call changed an earlier result %s", case["op"], diff(k1, r1))
        ctx.check(same(r2, k1), "%s: the same call returned something else %s", case["op"], diff(k1, r2))
        ctx.check(same(inputs, keep), "%s modified its input %s", case["op"], diff(keep, inputs))
    except EarlierResultChanged as e:
        ctx.check(False, "%s: a later call changed an earlier result %s", case["op"], e)
    ctx.label(case["op"])
    ctx.nontriv()


NAMES = sorted(OPS)
GROUPS = [NAMES[i::6] for i in range(6)]


def cases(names):
    return fx(op=st.sampled_from(names), rs=gen.RS, seed=SEED)


SUBS = [Sub("ops%d" % i, cases(g), run, 40 * len(g), budget=(60, 500)) for i, g in enumerate(GROUPS)]

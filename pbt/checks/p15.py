"""P15: synthetic bandit data with continuous actions."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import log_ndtr

from .. import gen
from ..core import Sub
from ..gen import SEED, fx

from obp import dataset as D

PROPERTY = "P15"
RULE = (
    "Random configurations (bounds, action/reward noise, library or table-driven reward and behaviour functions, seeds) and up to two batches; "
    "library functions are identified from probe points and then compared on random points. Non-trivial: at least two rounds."
)


def log_ndtr_diff(a, b):
    """log(Phi(b) - Phi(a)), a < b"""
    if a > 0:
        a, b = -b, -a
    la, lb = log_ndtr(a), log_ndtr(b)
    return lb + math.log1p(-math.exp(la - lb)) if la > -math.inf else lb


def density(x, mu, sd, lo, hi):
    z = (x - mu) / sd
    return math.exp(-0.5 * z * z - 0.5 * math.log(2 * math.pi) - math.log(sd) - log_ndtr_diff((lo - mu) / sd, (hi - mu) / sd))


class RF:
    def __init__(self, salt):
        self.salt = salt % 89

    def values(self, context, action):
        return np.sin(context.sum(1) * 3 + self.salt) + 0.5 * action

    def __call__(self, context, action, random_state=None):
        return self.values(context, action)


class BF(RF):
    def values(self, context, action=None):
        return np.sin(context.sum(1) * 2 + self.salt) * 2

    def __call__(self, context, random_state=None):
        return self.values(context)


def run_batch(case, ctx):
    """every field of a continuous-action batch agrees with the configuration"""
    lo, hi = case["lo"], case["lo"] + case["width"]
    if case["bf"] != "none" and case["open"]:
        lo, hi = (-math.inf, hi) if case["open"] == 1 else ((lo, math.inf) if case["open"] == 2 else (-math.inf, math.inf))
    rf = {"none": None, "linear": D.linear_reward_funcion_continuous, "quadratic": D.quadratic_reward_funcion_continuous, "table": RF(case["seed"])}[case["rf"]]
    bf_ = {"none": None, "linear": D.linear_behavior_policy_continuous, "table": BF(case["seed"])}[case["bf"]]
    ds = D.SyntheticContinuousBanditDataset(
        dim_context=case["dim"], action_noise=case["an"], reward_noise=case["rn"], min_action_value=lo, max_action_value=hi, reward_function=rf, behavior_policy_function=bf_, random_state=case["rs"]
    )

    def q(x, a):
        if rf is None:
            return np.array([2 * abs(v) ** 1.5 - 5 * v for v in a])
        return rf.values(x, a) if isinstance(rf, RF) else rf(context=x, action=a, random_state=case["rs"])

    prev = None
    for n in case["ns"]:
        b = ds.obtain_batch_bandit_feedback(n_rounds=n)
        ctx.check(set(b) == {"n_rounds", "context", "action", "reward", "pscore", "position", "expected_reward"} and b["n_rounds"] == n and b["position"] is None, "keys of the batch")
        x, a = b["context"], b["action"]
        ctx.check(x.shape == (n, case["dim"]), "shape of context")
        for k in ("action", "reward", "pscore", "expected_reward"):
            ctx.check(np.shape(b[k]) == (n,), "shape of %s is %s", k, np.shape(b[k]))
        eps = 1e-9 * (1 + abs(a).max())
        ctx.check((a >= lo - eps).all() and (a <= hi + eps).all(), "actions outside [%g, %g]: %s", lo, hi, a)
        if bf_ is None:
            want = [1.0 / (hi - lo)] * n
        else:
            mu = bf_.values(x) if isinstance(bf_, BF) else bf_(context=x, random_state=case["rs"])
            want = [density(float(np.clip(a[i], lo, hi)), float(mu[i]), float(case["an"]), lo, hi) for i in range(n)]
            ctx.check((np.abs(a - np.clip(mu, lo, hi)) <= 9 * case["an"] + eps).all(), "an action is more than 9 standard deviations from its mean")
        ctx.close(b["pscore"], want, "density of the logged actions", rtol=1e-5, scale=0.0)
        ctx.close(b["expected_reward"], q(x, a), "expected_reward", rtol=1e-7)
        if case["rn"] == 0:
            ctx.close(b["reward"], b["expected_reward"], "reward without noise", rtol=1e-12)
        else:
            ctx.check((np.abs(b["reward"] - b["expected_reward"]) <= 9 * case["rn"]).all(), "a reward is more than 9 standard deviations from its expectation")
        r = gen.rng(case, 2)
        ae = r.uniform(-3, 3, size=n)
        ctx.close(ds.calc_ground_truth_policy_value(context=x, action=ae), math.fsum(q(x, ae).tolist()) / n, "ground-truth value", scale=10.0)
        if prev is not None:
            ctx.check(not (prev[:, 0][:, None] == x[:, 0][None, :]).any(), "a second batch repeats contexts")
        prev = x
    ctx.label("reward %s" % case["rf"], "behaviour %s" % case["bf"])
    ctx.nontriv(max(case["ns"]) > 1)


BATCH = fx(
    dim=gen.some(1, 4, 12), lo=st.sampled_from([-10.0, -1.0, 0.0, 0.5, -3]), width=st.sampled_from([0.5, 1.0, 4, 20.0]), open=st.integers(0, 3), an=st.sampled_from([1.0, 0.3, 2]), rn=st.sampled_from([1.0, 0.0, 0.2, 3]),
    rf=st.sampled_from(["none", "linear", "quadratic", "table"]), bf=st.sampled_from(["none", "linear", "table"]), ns=st.lists(gen.some(1, 25, 300), min_size=1, max_size=2), rs=gen.RS, seed=SEED,
)


def run_functions(case, ctx):
    """library functions have their defining form with coefficients fixed by the seed"""
    r = gen.rng(case)
    n, d, rs = case["n"], case["dim"], case["rs"]
    X, a = r.normal(size=(n, d)), r.normal(size=n) * 3
    E = np.eye(d)
    lin = lambda x, a: D.linear_reward_funcion_continuous(context=np.atleast_2d(x), action=np.atleast_1d(np.asarray(a, float)), random_state=rs)
    b = lin(np.zeros(d), 0.0)[0]
    p = math.log2(lin(np.zeros(d), 2.0)[0] - b)
    if p > 0.05:
        M = 50.0
        th = np.array([M - (lin(E[j], M)[0] - b) ** (1 / p) for j in range(d)])
        ctx.check(0 <= b <= 1 and 0 < p <= 1, "linear reward function: power %g, bias %g", p, b)
        want = np.array([abs(float(X[i] @ th) - a[i]) ** p + b for i in range(n)])
        ctx.close(lin(X, a), want, "linear reward function == |x'theta - a|^p + b", rtol=1e-4, atol=1e-4)
    qd = lambda x, a: D.quadratic_reward_funcion_continuous(context=np.atleast_2d(x), action=np.atleast_1d(np.asarray(a, float)), random_state=rs)
    WW = np.array([[(qd(E[i] + E[j], 0.0)[0] - qd(E[i], 0.0)[0] - qd(E[j], 0.0)[0]) / 2 for j in range(d)] for i in range(d)])
    k = np.array([qd(E[j], 1.0)[0] - 1 - qd(E[j], 0.0)[0] for j in range(d)])
    ctx.check(np.linalg.matrix_rank(WW, tol=1e-6) == 1 and (np.diag(WW) >= -1e-9).all(), "quadratic reward function at action 0 is not a square of a linear form")
    ctx.close(qd(X, a), a**2 + a * (X @ k) + np.einsum("ni,ij,nj->n", X, WW, X), "quadratic reward function", rtol=1e-7, scale=10.0)
    g = lambda x: D.linear_behavior_policy_continuous(context=np.atleast_2d(x), random_state=rs)
    g0 = g(np.zeros(d))[0]
    ctx.check(0 <= g0 <= 1, "intercept of the linear behaviour policy is %g", g0)
    ctx.close(g(X), g0 + X @ np.array([g(E[j])[0] - g0 for j in range(d)]), "linear behaviour policy is affine")
    m = [math.fsum(v) / d for v in X.tolist()]
    ctx.close(D.linear_synthetic_policy_continuous(context=X), m, "linear synthetic policy")
    Y = np.vstack([X + 1.5, np.full((1, d), 1.5)])  # a mean exactly at the threshold
    m2 = [math.fsum(v) / d for v in Y.tolist()]
    ctx.close(D.threshold_synthetic_policy_continuous(context=Y), [1.0 + (1 if v > 1.5 else -1 if v < 1.5 else 0) for v in m2], "threshold synthetic policy")
    ctx.close(D.sign_synthetic_policy_continuous(context=X), [math.sin(v) for v in m], "sign synthetic policy")
    ctx.nontriv(n > 1)


FN = fx(n=gen.some(1, 8, 200), dim=gen.some(1, 4, 12), rs=gen.RS, seed=SEED)

SUBS = [Sub("batch", BATCH, run_batch, 300, budget=(60, 600)), Sub("functions", FN, run_functions, 120, budget=(40, 300))]
gen.huge(SUBS, "batch", quick=1, field="ns")

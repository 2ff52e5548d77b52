"""P22: drifting reward coefficients."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from ..stat import freq

from obp.dataset import linear_reward_function
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.simulator import BanditEnvironmentSimulator

PROPERTY = "P22"
RULE = (
    "Random drift intervals, transition periods, base weights, seasons, dimensions and seeds, and random splits of the rounds into calls. "
    "Non-trivial: the rounds cover at least two drift intervals."
)


def make(case, **kw):
    a = dict(drift_interval=case["D"], transition_period=case["T"], transition_type=case["type"], seasonal=case["season"], base_coefficient_weight=case["w"], random_state=case["rs"])
    if case["seed"] % 2:  # leave out what equals the documented default
        dflt = dict(transition_period=0, transition_type="linear", seasonal=False, base_coefficient_weight=0.0)
        a = {k: v for k, v in a.items() if k not in dflt or v != dflt[k]}
    a.update(kw)
    if case["dims_at"] == "init":
        a.update(effective_dim_context=case["dc"], effective_dim_action_context=case["da"])
    return CoefficientDrifter(**a)


def get(case, d, n):
    kw = {} if case["dims_at"] == "init" else dict(effective_dim_context=case["dc"], effective_dim_action_context=case["da"])
    return d.get_coefficients(n_rounds=n, **kw)


def step_weight(case, t):
    left = case["D"] - t % case["D"]  # rounds left in the interval, this one included
    return max(0, case["T"] - left + 1) / (case["T"] + 1)


def run(case, ctx):
    """coefficients stay constant within an interval, move to the next ones over the transition period, and do not depend on how the rounds are split into calls"""
    D, T, w = case["D"], case["T"], case["w"]
    splits = case["splits"]
    n = sum(splits)
    whole = get(case, make(case), n)
    shapes = [(n, case["dc"]), (n, case["da"]), (n, case["dc"], case["da"])]
    for c, s in zip(whole, shapes):
        ctx.check(c.shape == s, "shape %s, expected %s", c.shape, s)
        ctx.check((np.abs(c) <= 1 + 1e-12).all(), "coefficients outside [-1, 1]")
    K = (n - 1) // D + 2
    # stage coefficients c_0, c_1, ... of the same drifter without transition and base weight
    pure = get(case, make(case, transition_period=0, base_coefficient_weight=0.0, transition_type="linear"), K * D)
    d = make(case)
    parts = [get(case, d, k) for k in splits]
    for j in range(3):
        stage = [pure[j][k * D] for k in range(K)]
        for k in range(K):
            ctx.close(pure[j][k * D : (k + 1) * D], np.stack([stage[k]] * D), "coefficients without transition are constant in interval %d" % k, rtol=1e-12)
            if k and not (case["season"] and k > 1):
                ctx.check(not np.allclose(stage[k], stage[k - 1]), "the coefficients did not change after interval %d", k - 1)
            if case["season"] and k > 1:
                ctx.close(stage[k], stage[k - 2], "season %d" % k, rtol=1e-12)
        joined = np.concatenate([p[j] for p in parts])
        if case["type"] == "linear":
            want = []
            for t in range(n):
                k, a = t // D, step_weight(case, t)
                want.append(w * stage[0] + (1 - w) * ((1 - a) * stage[k] + a * stage[k + 1]))
            ctx.close(whole[j], np.array(want), "coefficients %d" % j, rtol=1e-9)
            ctx.close(joined, np.array(want), "coefficients %d obtained in %d calls" % (j, len(splits)), rtol=1e-9)
    if case["type"] != "linear":
        base = pure[0][0]
        hits = {}
        for src, cs in (("one call", whole), ("several calls", [np.concatenate([p[j] for p in parts]) for j in range(3)])):
            # the coefficient stages of a sampled transition draw from one generator: recover them from rounds outside the transition
            for t in range(n):
                a = step_weight(case, t)
                if a == 0:
                    continue
                k = t // D
                if T >= D:
                    continue
                nxt = (k + 1) * D
                if nxt >= n or step_weight(case, nxt) > 0:
                    continue
                kinds = []
                for j in range(3):
                    y, y0, y1 = cs[j][t], cs[j][k * D], cs[j][nxt]
                    is0, is1 = np.allclose(y, y0, atol=1e-12), np.allclose(y, y1, atol=1e-12)
                    ctx.check(is0 or is1, "%s: sampled transition: round %d has neither the old nor the new coefficients", src, t)
                    if not (is0 and is1):
                        kinds.append(bool(is1))
                ctx.check(len(set(kinds)) <= 1, "%s: round %d mixes old and new coefficients", src, t)
                if kinds:
                    h = hits.setdefault(round(a, 9), [0, 0])
                    h[0] += kinds[0]
                    h[1] += 1
        for a, (k1, m) in hits.items():
            freq(ctx, k1, m, a, a, "sampled transition with weight %g" % a)
        ctx.close(whole[0][0] if step_weight(case, 0) == 0 else base, base, "first coefficients", rtol=1e-12)
        ctx.label("sampled")
    if T:
        ctx.label("transition")
    if len(splits) > 1:
        ctx.label("split")
    ctx.nontriv(n > D)


CASE = fx(
    D=st.integers(1, 7), T=st.integers(0, 8), type=st.sampled_from(["linear", "linear", "weighted_sampled"]), season=st.booleans(), w=st.sampled_from([0.0, 0.3, 0.8, 1.0]), dc=gen.some(1, 3, 8), da=gen.some(1, 3, 8), dims_at=st.sampled_from(["init", "call"]),
    splits=st.lists(gen.some(1, 12, 60), min_size=1, max_size=5), rs=gen.RS, seed=SEED,
)


def run_freq(case, ctx):
    """over many seasons, sampled transitions take the new coefficients with the documented probability"""
    case = dict(case, type="weighted_sampled", season=True, w=0.0, dc=2, da=2, dims_at="init", T=case["T"] % case["D"], splits=[case["D"] * 600])
    run(case, ctx)


FREQ = fx(D=st.integers(2, 5), T=st.integers(1, 4), rs=gen.RS, seed=SEED)


def run_env(case, ctx):
    """an environment with a drifter: the reward function of a round is the one of the drifter's current coefficients"""
    A, dim, D = case["A"], case["dim"], case["D"]
    d = CoefficientDrifter(drift_interval=D, transition_period=0, random_state=case["rs"])
    env = BanditEnvironmentSimulator(n_actions=A, dim_context=dim, reward_function=linear_reward_function, coef_function=d.get_coefficients, random_state=case["rs"])
    r = gen.rng(case)
    x = np.repeat(r.normal(size=(1, dim)), 3 * D, axis=0)
    q = env.calc_expected_reward(x)
    ctx.check(q.shape == (3 * D, A), "shape of expected rewards")
    for k in range(3):
        ctx.close(q[k * D : (k + 1) * D], np.stack([q[k * D]] * D), "expected rewards of one context within interval %d" % k, rtol=1e-9, scale=10.0)
    ctx.check(not np.allclose(q[0], q[D]) and not np.allclose(q[D], q[2 * D]), "expected rewards do not drift")
    ctx.nontriv(D > 1)


ENV = fx(A=st.integers(2, 4), dim=st.integers(2, 3), D=st.integers(2, 5), rs=gen.RS, seed=SEED)

SUBS = [Sub("drift", CASE, run, 400, budget=(60, 500)), Sub("frequencies", FREQ, run_freq, 20, budget=(40, 300)), Sub("environment", ENV, run_env, 60, budget=(30, 200))]

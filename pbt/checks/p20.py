"""P20: online simulation with delayed rewards."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from ..stat import freq

from obp.policy.policy_type import PolicyType
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator, BanditRounds

PROPERTY = "P20"
RULE = (
    "Random sequences of single steps, multi-round steps, batches and queue clearings with context-free and contextual recording policies and table-driven "
    "reward and delay functions. Non-trivial: a reward was delivered in a later round than it was obtained, or the environment has no delays and several rounds were played."
)


class Recorder:
    """policy whose choices are a fixed function of what it was asked; records everything"""

    policy_name = "recorder"

    def __init__(self, A, L, salt, contextual):
        self.A, self.L, self.salt, self.contextual = A, L, salt, contextual
        self.n_actions, self.len_list = A, L
        self.t = 0
        self.calls, self.updates = [], []

    @property
    def policy_type(self):
        return PolicyType.CONTEXTUAL if self.contextual else PolicyType.CONTEXT_FREE

    def select_action(self, *args, **kw):
        ctx = list(args) + list(kw.values())
        self.calls.append([np.array(c, copy=True) for c in ctx])
        a = (self.t * 7 + self.salt + self.t * self.t) % self.A
        self.t += 1
        return np.array([(a + j) % self.A for j in range(self.L)])

    def update_params(self, action, reward, context=None):
        u = dict(action=np.array(action, copy=True), reward=np.array(reward, copy=True), context=None if context is None else np.array(context, copy=True))
        self.updates.append((self.t, u))


class Table:
    def __init__(self, A, salt):
        self.A, self.salt = A, salt % 53

    def values(self, context):
        return 1 / (1 + np.exp(-3 * np.sin(np.outer(context.sum(1), np.arange(1, self.A + 1)) + self.salt)))

    def __call__(self, context, action_context, random_state=None, coef_function=None, **kw):
        return self.values(context)


class Delays:
    def __init__(self, A, top, salt):
        self.r, self.A, self.top = np.random.RandomState(salt), A, top
        self.log, self.rounds = [], []

    def __call__(self, n_rounds, n_actions, expected_rewards, **kw):
        if self.top < 0:  # all rounds of a period fall due together
            t = len(self.rounds) + np.arange(n_rounds)
            d = np.tile((-self.top - 1 - t % -self.top)[:, None], (1, n_actions)).astype(float)
        else:
            d = self.r.randint(0, self.top + 1, size=(n_rounds, n_actions)).astype(float)
        self.rounds += [None] * n_rounds
        self.log.append((n_rounds, n_actions, np.array(expected_rewards), d))
        return d


def run_sim(case, ctx):
    """every obtained reward reaches the policy exactly once, in its due round, with its own context and action"""
    A, L = case["A"], min(case["L"], case["A"])
    rf = None if case["rf"] == "none" else Table(A, case["seed"])
    delays = None if case["delay"] is None else Delays(A, case["delay"], case["seed"] % 2**31)
    env = BanditEnvironmentSimulator(n_actions=A, dim_context=case["dim"], reward_function=rf, delay_function=delays, random_state=case["rs"])
    pol = Recorder(A, L, case["seed"] % 11, case["contextual"])
    sim = BanditPolicySimulator(policy=pol, environment=env)
    queue = {}  # due round -> list of rounds
    want = []  # (policy clock, round)
    D = []
    late = False

    def sync(k_before):
        """replay the model for the rounds played since k_before"""
        nonlocal late
        sel = sim.selected_actions
        for t in range(k_before, len(sel)):
            a = int(sel[t])
            if delays is None:
                want.append((t + 1, t))
            else:
                queue.setdefault(t + int(D[t][a]), []).append(t)
                for s in queue.pop(t, []):
                    want.append((t + 1, s))
                    late = late or s < t

    def given(n0):
        """single rounds: the delay function gets the expected rewards of that round"""
        if delays is not None:
            log = delays.log[n0:]
            for (nr, na, er, _), x in zip(log, sim.contexts[len(D) - len(log) :]):
                ctx.check((nr, na) == (1, A), "the delay function was called for %s rounds and %s actions", nr, na)
                ctx.close(er, rf.values(x[None, :]) if rf is not None else env.expected_reward[None, :], "expected rewards given to the delay function")

    for op, k in case["ops"]:
        before = len(sim.selected_actions)
        if op == "step":
            n0 = 0 if delays is None else len(delays.log)
            sim.step()
            D.extend([None] if delays is None else [delays.log[n0][3][0]])
            given(n0)
        elif op == "steps":
            n0 = 0 if delays is None else len(delays.log)
            sim.steps(n_rounds=k)
            D.extend([None] * k if delays is None else [e[3][0] for e in delays.log[n0:]])
            given(n0)
        elif op in ("batch", "batch1"):
            n0 = 0 if delays is None else len(delays.log)
            b = env.next_bandit_round_batch(n_rounds=k)
            ctx.check(isinstance(b, BanditRounds) and len(b) == k and b.n_rounds == k and b.n_actions == A, "size of the batch")
            ctx.check(b.context.shape == (k, case["dim"]) and b.rewards.shape == (k, A) and b.expected_rewards.shape == (k, A), "shapes of the batch")
            if rf is not None:
                ctx.close(b.expected_rewards, rf.values(b.context), "expected rewards of the batch")
            else:
                ctx.close(b.expected_rewards, np.tile(env.expected_reward, (k, 1)), "context-free expected rewards")
            ctx.check(np.isin(b.rewards, (0, 1)).all(), "rewards of the batch are not binary")
            if delays is None:
                ctx.check(b.round_delays is None, "delays without a delay function")
            else:
                ctx.check(len(delays.log) == n0 + 1, "the delay function was not called once for the batch")
                nr, na, er, d = delays.log[n0]
                ctx.check((nr, na) == (k, A), "the delay function was called for %s rounds and %s actions", nr, na)
                ctx.close(er, b.expected_rewards, "expected rewards given to the delay function")
                ctx.same(b.round_delays, d, "delays of the batch")
            first = next(iter(b))  # an iteration that is given up does not affect later ones
            ctx.same(first.context, b.context[0], "context of the first round")
            rows = [x for x in b]
            ctx.check(len(rows) == k, "iterating over the batch gives %d rounds", len(rows))
            for i, x in enumerate(rows):
                ctx.same(x.context, b.context[i], "context of round %d" % i)
                ctx.same(x.rewards, b.rewards[i], "rewards of round %d" % i)
                ctx.same(x.expected_rewards, b.expected_rewards[i], "expected rewards of round %d" % i)
                if delays is not None:
                    ctx.same(x.round_delays, b.round_delays[i], "delays of round %d" % i)
            if op == "batch":
                sim.steps(batch_bandit_rounds=b)
            else:
                for x in rows:
                    sim.step(x)
            ctx.same(sim.contexts[before:], b.context, "contexts played")
            ctx.same(sim.ground_truth_rewards[before:], b.rewards, "rewards of all actions")
            D.extend([None] * k if delays is None else list(b.round_delays))
        else:
            n_up = len(pol.updates)
            sim.clear_delayed_queue()
            pending = sorted(t for v in queue.values() for t in v)
            got = len(pol.updates) - n_up
            ctx.check(got == len(pending), "clearing the queue delivered %d rewards, %d were pending", got, len(pending))
            order = []
            for _, u in pol.updates[n_up:]:
                hit = [t for t in pending if t not in order and int(sim.selected_actions[t]) == int(u["action"]) and float(u["reward"]) == float(sim.obtained_rewards[t]) and (not case["contextual"] or np.array_equal(np.ravel(u["context"]), sim.contexts[t]))]
                ctx.check(hit, "clearing the queue delivered a reward that was not pending")
                order.append(hit[0])
            want.extend((len(D), t) for t in order)
            late = late or bool(pending)
            queue.clear()
            ctx.label("clear")
            continue
        after = len(D)
        ctx.check(len(sim.selected_actions) == after and sim.rounds_played == after and len(sim.obtained_rewards) == after, "%d rounds recorded, %d played", len(sim.selected_actions), after)
        sync(before)
    n = len(D)
    if not n:
        return
    ctx.check(sim.contexts.shape == (n, case["dim"]) and sim.ground_truth_rewards.shape == (n, A), "shapes of the recorded contexts and rewards")
    ctx.same(sim.obtained_rewards, [sim.ground_truth_rewards[t, sim.selected_actions[t]] for t in range(n)], "obtained rewards")
    ctx.check(sim.total_reward == sum(sim.obtained_rewards.tolist()), "total reward")
    ref = Recorder(A, L, case["seed"] % 11, case["contextual"])
    ctx.same(sim.selected_actions, [ref.select_action()[0] for _ in range(n)], "actions (first slot of the policy's list)")
    for t in range(n):
        if case["contextual"]:
            ctx.check(len(pol.calls[t]) == 1 and pol.calls[t][0].shape == (1, case["dim"]), "context given to select_action")
            ctx.same(pol.calls[t][0][0], sim.contexts[t], "context given to select_action in round %d" % t)
    ctx.check(len(pol.updates) == len(want), "%d updates, expected %d", len(pol.updates), len(want))
    for (clock, u), (at, t) in zip(pol.updates, want):
        ctx.check(clock == at, "the reward of round %d was delivered after round %d instead of round %d", t, clock - 1, at - 1)
        ctx.check(int(u["action"]) == int(sim.selected_actions[t]) and float(u["reward"]) == float(sim.obtained_rewards[t]), "update %s instead of action and reward of round %d", u, t)
        if case["contextual"]:
            ctx.check(u["context"].shape == (1, case["dim"]) and np.array_equal(u["context"][0], sim.contexts[t]), "the update of round %d has another context", t)
    x = sim.contexts[:, 0]
    ctx.check(len(set(x.tolist())) == n, "contexts repeat")
    if late:
        ctx.label("late delivery")
    ctx.nontriv(late or (delays is None and n > 1))


SIM = fx(
    A=gen.some(2, 4, 12), L=st.integers(1, 2), dim=gen.some(1, 3, 8), rf=st.sampled_from(["none", "table"]), delay=st.sampled_from([None, 0, 1, 3, 3, 6, -5, -12, 1000]), contextual=st.booleans(), rs=gen.RS, seed=SEED,
    ops=st.lists(st.tuples(st.sampled_from(["step", "steps", "batch", "batch", "batch1", "clear"]), gen.some(1, 6, 40)), min_size=1, max_size=8),
)


def law(ctx, d, scale, what):
    """independent exponential delays rounded up to whole rounds"""
    if len(d) >= 20:
        for u in (0.3, 0.7, 1.5):
            t = max(1, int(round(u * scale)))
            p = 1 - math.exp(-t / scale)
            freq(ctx, int((d <= t).sum()), len(d), p, p, "%s up to %d rounds (scale %g)" % (what, t, scale))


def run_delay(case, ctx):
    """exponential delays: whole non-negative rounds, one per round and action, fixed by the seed, scaled as documented"""
    n, A = case["n"], case["A"]
    sc = dict(max_scale=case["max"], min_scale=case["min"])
    if case["dflt"] == "both":
        sc = {}
    elif case["dflt"] != "none":
        del sc[case["dflt"]]
    case["max"], case["min"] = sc.get("max_scale", 100.0), sc.get("min_scale", 10.0)  # documented defaults
    mk = lambda: ExponentialDelaySampler(random_state=case["rs"], **sc)
    s = mk()
    d = s.exponential_delay_function(n_rounds=n, n_actions=A, expected_rewards=None)
    ctx.check(d.shape == (n, A) and (d >= 0).all() and (d == np.round(d)).all(), "delays %s", d)
    ctx.check((d == d[:, :1]).all(), "a delay differs between the actions of one round")
    ctx.same(mk().exponential_delay_function(n_rounds=n, n_actions=A), d, "delays with the same seed")
    big = ExponentialDelaySampler(max_scale=case["max"] * 4, min_scale=case["min"], random_state=case["rs"]).exponential_delay_function(n_rounds=n, n_actions=A)
    ctx.check((np.abs(big - 4 * d) <= 4).all(), "delays do not scale with max_scale")
    d2 = s.exponential_delay_function(n_rounds=n, n_actions=A)
    law(ctx, d[:, 0], case["max"], "delays")
    if n >= 15 and case["max"] >= 20:
        ctx.check(not np.array_equal(d, d2), "a second batch repeats the delays")
    r = gen.rng(case)
    q = r.uniform(size=(n, A))
    w = mk().exponential_delay_function_expected_reward_weighted(expected_rewards=q)
    hi = mk().exponential_delay_function_expected_reward_weighted(expected_rewards=np.zeros((n, A)))
    lo = mk().exponential_delay_function_expected_reward_weighted(expected_rewards=np.ones((n, A)))
    law(ctx, hi.ravel(), case["max"], "delays of worthless actions")
    law(ctx, lo.ravel(), case["min"], "delays of sure rewards")
    ctx.check(w.shape == (n, A) and (w == np.round(w)).all() and (w >= 0).all(), "weighted delays %s", w)
    if case["max"] >= case["min"]:
        ctx.check((lo <= w).all() and (w <= hi).all(), "delay is not decreasing in the expected reward")
    # unit delays recovered from the two extremes: scale = min + (1 - q) (max - min)
    for e, sc in ((hi, case["max"]), (lo, case["min"])):
        u_lo, u_hi = (e - 1) / sc, e / sc
        s_w = case["min"] + (1 - q) * (case["max"] - case["min"])
        ctx.check((w >= np.floor(u_lo * s_w - 1e-9)).all() and (w <= np.ceil(u_hi * s_w + 1e-9)).all(), "weighted delays do not have the documented scale")
    ctx.nontriv(n > 1)


DEL = fx(dflt=st.sampled_from(["none", "none", "none", "both", "max_scale", "min_scale"]), n=gen.some(1, 40, 400), A=gen.some(2, 4, 30), max=st.sampled_from([100.0, 20.0, 5.0, 50]), min=st.sampled_from([10.0, 1.0, 5.0]), rs=gen.RS, seed=SEED)

SUBS = [Sub("simulation", SIM, run_sim, 400, budget=(60, 600)), Sub("delays", DEL, run_delay, 150, budget=(30, 200))]
gen.huge(SUBS, "delays", quick=1)

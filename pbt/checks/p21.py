"""P21: replaying logged data with an online policy, and its Monte-Carlo ground truth."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from ..stat import mean_ok
from . import p19
from .p20 import Recorder

from obp.policy import BernoulliTS, EpsilonGreedy, LinEpsilonGreedy, LinTS, LinUCB, LogisticEpsilonGreedy, LogisticTS, LogisticUCB, Random
from obp.simulator import calc_ground_truth_policy_value
from obp.simulator.replay import run_bandit_replay

PROPERTY = "P21"
RULE = (
    "Random logged data (with and without positions, logged actions possibly only a subset) replayed with recording stubs and with every online policy; "
    "Monte-Carlo ground truth of policies on random expected rewards. Non-trivial: at least one round matched (replay) / several simulations (ground truth)."
)
KINDS = ["stub", "stub_ctx", "egreedy", "random", "bts", "LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"]


class Stub(Recorder):
    """recording policy with a generator of its own; choices depend on the history of updates"""

    def __init__(self, A, L, salt, contextual):
        super().__init__(A, L, salt, contextual)
        self.random_ = np.random.RandomState(salt)
        self.n_trial = 0

    def select_action(self, *args, **kw):
        s = super().select_action(*args, **kw)
        return (s + len(self.updates)) % self.A


def make(case, rs=None):
    A, L, k = case["A"], min(case["L"], case["A"]), case["kind"]
    if k.startswith("stub"):
        return Stub(A, L, case["seed"] % 11, k == "stub_ctx")
    kw = dict(n_actions=A, len_list=L, batch_size=case["bs"], random_state=case["rs"] if rs is None else rs)
    if k == "egreedy":
        return EpsilonGreedy(epsilon=case["eps"], **kw)
    if k == "random":
        return Random(**kw)
    if k == "bts":
        return BernoulliTS(**kw)
    kw["dim"] = case["dim"]
    if k in ("LinEpsilonGreedy", "LinUCB", "LogisticEpsilonGreedy", "LogisticUCB"):
        kw["epsilon"] = case["eps"]
    return dict(LinEpsilonGreedy=LinEpsilonGreedy, LinUCB=LinUCB, LinTS=LinTS, LogisticEpsilonGreedy=LogisticEpsilonGreedy, LogisticUCB=LogisticUCB, LogisticTS=LogisticTS)[k](**kw)


def contextual(case):
    return case["kind"] == "stub_ctx" or case["kind"].startswith("L")


def data(case):
    r = gen.rng(case)
    n, A, L = case["n"], case["A"], min(case["L"], case["A"])
    top = max(1, A - case["unlogged"])
    bf = dict(
        n_rounds=n, n_actions=A, context=r.normal(size=(n, case["dim"])), action=r.randint(top, size=n), reward=r.randint(2, size=n), pscore=r.uniform(0.1, 1, size=n),
        position=None if case["pos"] == "none" else (np.zeros(n, int) if case["pos"] == "zero" else r.randint(L, size=n)), expected_reward=r.uniform(size=(n, A)),
    )
    if case["kind"].startswith("stub"):
        if case["rep"]:
            bf["context"] = bf["context"][r.randint(max(1, n // 2), size=n)]
        bf["reward"] = np.round(r.normal(size=n), 3) if case["realrew"] else bf["reward"]
    return bf


def run_replay(case, ctx):
    """the policy sees exactly the rounds where its choice at the logged position is the logged action"""
    bf = data(case)
    n, A, L = case["n"], case["A"], min(case["L"], case["A"])
    snap = {k: copy.deepcopy(v) for k, v in bf.items()}
    pol, ref = make(case), make(case)
    dist = run_bandit_replay(bandit_feedback=bf, policy=pol)
    for k in snap:
        ctx.check(k in bf and (np.array_equal(bf[k], snap[k]) if snap[k] is not None else bf[k] is None), "the caller's %s was modified", k)
    ctx.check(set(bf) == set(snap), "keys of the caller's feedback changed")
    ctx.check(dist.shape == (n, A, L), "shape of the action distribution is %s", dist.shape)
    matched = 0
    model = None
    if case["kind"] in ("LinUCB", "LinEpsilonGreedy", "LogisticUCB", "LogisticEpsilonGreedy"):
        model = (p19.Lin if case["kind"].startswith("Lin") else p19.Log)(dict(case, lam=1.0, al=1.0))
    for t in range(n):
        x = bf["context"][t][None, :].copy()
        sel = ref.select_action(x) if contextual(case) else ref.select_action()
        seen = dist[t].argmax(axis=0)
        if model is not None and not np.array_equal(seen, sel):
            # actions with tied scores are ranked by the last bit of a product, which may depend on the memory alignment
            s = p19.scores(case, model, x[0])
            if len(set(seen.tolist())) == L and np.abs(s[seen] - s[sel]).max() <= 1e-9 * (1 + np.abs(s).max()):
                sel = seen
                ctx.label("tie broken differently")
        for j in range(L):
            want = np.zeros(A)
            want[sel[j]] = 1.0
            ctx.close(dist[t, :, j], want, "action distribution of round %d, slot %d" % (t, j))
        p = 0 if bf["position"] is None else bf["position"][t]
        if sel[p] == bf["action"][t]:
            matched += 1
            kw = dict(context=x) if contextual(case) else {}
            ref.update_params(action=bf["action"][t], reward=bf["reward"][t], **kw)
            if model is not None:
                model.update(bf["action"][t], bf["reward"][t], x[0])
    ctx.check(pol.n_trial == ref.n_trial, "%d updates, expected %d", pol.n_trial, ref.n_trial)
    if case["kind"].startswith("stub"):
        ctx.check(len(pol.updates) == len(ref.updates), "%d updates, expected %d", len(pol.updates), len(ref.updates))
        for (a, u), (b, v) in zip(pol.updates, ref.updates):
            ctx.check(a == b and u["action"] == v["action"] and u["reward"] == v["reward"], "update %s in round %d, expected %s in round %d", u, a, v, b)
            if contextual(case):
                ctx.same(u["context"], v["context"], "context of an update")
    ctx.label(case["kind"])
    ctx.nontriv(matched)


# LinTS draws through a factorisation of the covariance; when eigenvalues repeat, the last bit of a product (which depends on the memory
# alignment of the arrays) rotates the draw, so draws are compared one by one only in dimensions without repeated eigenvalues
REP = fx(
    kind=st.sampled_from(KINDS), n=gen.some(1, 25, 150), A=gen.some(2, 5, 12), L=st.integers(1, 5), dim=gen.some(1, 3, 7), bs=gen.some(1, 3, 15), eps=st.sampled_from([0.0, 0.4, 1.0]), unlogged=st.integers(0, 3), rep=st.booleans(), realrew=st.booleans(),
    pos=st.sampled_from(["none", "zero", "any"]), rs=gen.RS, seed=SEED,
).map(lambda c: dict(c, dim=min(c["dim"], 2)) if c["kind"] == "LinTS" else c)


class Sampler:
    """reward sampler with its own stream"""

    def __init__(self, kind, seed):
        self.kind, self.r = kind, np.random.RandomState(seed)

    def __call__(self, context, action):
        if self.kind == "fixed":
            return float(int(action[0]) % 2)
        v = self.r.binomial(1, 0.2 + 0.6 * (int(action[0]) % 2), size=len(action))
        return float(v[0]) if self.kind == "scalar" else v


def simulate(case, bf, pol, sampler):
    """one independent run: total expected reward"""
    tot = 0.0
    for t in range(case["n"]):
        x = bf["context"][t][None, :]
        sel = pol.select_action(x) if contextual(case) else pol.select_action()
        a = int(sel[0 if bf["position"] is None else bf["position"][t]])
        rew = float(np.ravel(sampler(x, np.array([a])))[0])
        tot += float(bf["expected_reward"][t, a])
        kw = dict(context=x) if contextual(case) else {}
        pol.update_params(action=a, reward=rew, **kw)
    return tot / case["n"]


def run_truth(case, ctx):
    """the ground truth is the mean expected reward of independent runs of the policy, which itself is left as it was"""
    bf = data(case)
    snap = {k: copy.deepcopy(v) for k, v in bf.items()}
    n_sim = case["n_sim"]
    pol = make(case)
    det = case["kind"].startswith("stub") or case["kind"].endswith("UCB") or (case["kind"] in ("LinEpsilonGreedy", "LogisticEpsilonGreedy") and case["eps"] == 0.0)
    before = copy.deepcopy(pol)
    v = calc_ground_truth_policy_value(bandit_feedback=bf, reward_sampler=Sampler("fixed" if det else case["sampler"], case["rs"]), policy=pol, n_sim=n_sim)
    for k in snap:
        ctx.check(k in bf and (np.array_equal(bf[k], snap[k]) if snap[k] is not None else bf[k] is None), "the caller's %s was modified", k)
    ctx.check(pol.n_trial == 0, "the caller's policy was updated")
    if not case["kind"].startswith("stub"):
        arg = (np.ones((1, case["dim"])),) if contextual(case) else ()
        a = [pol.select_action(*arg).tolist() for _ in range(4)]
        b = [before.select_action(*arg).tolist() for _ in range(4)]
        ctx.check(a == b, "the caller's policy selects differently after the simulation: %s, %s", a, b)
    if det:
        one = simulate(case, bf, make(case), Sampler("fixed", 0))
        ctx.close(v, one, "ground truth of a deterministic policy")
        ctx.label("deterministic")
    else:
        M = 60
        xs = [simulate(case, bf, make(case, rs=case["rs"] + 1000 + i), Sampler(case["sampler"], case["seed"] % 1000 + i)) for i in range(M)]
        er = bf["expected_reward"]
        rng_ = float(er.max() - er.min()) + 1e-12
        lo, hi = float(er.min()), float(er.max())
        ctx.check(lo - 1e-9 <= v <= hi + 1e-9, "ground truth %g outside the expected rewards [%g, %g]", v, lo, hi)
        mu, var = float(np.mean(xs)), float(np.var(xs))
        # both averages estimate one mean: Bernstein half-widths of each, the variance padded for its own error
        vv = 2 * var + (rng_**2) * 0.02
        h = math.sqrt(2 * vv * 28 * (1 / n_sim + 1 / M)) + rng_ * 28 / 3 * (1 / n_sim + 1 / M)
        ctx.check(abs(v - mu) <= h, "ground truth of %d simulations is %g, %d independent simulations give %g (allowed distance %g)", n_sim, v, M, mu, h)
        if case["n"] >= 4 and n_sim >= 8 and case["kind"] == "random":
            one = calc_ground_truth_policy_value(bandit_feedback=bf, reward_sampler=Sampler(case["sampler"], case["rs"]), policy=make(case), n_sim=1)
            # identical simulations would give exactly the value of one
            ctx.check(abs(one - v) > 1e-13 or len(set(np.round(xs, 12))) < M // 2, "%d simulations give exactly the value of one (%g): they are not independent", n_sim, v)
            ctx.label("independence")
    ctx.label(case["kind"])
    ctx.nontriv(n_sim > 1)


TRUTH = fx(
    kind=st.sampled_from(KINDS), rep=st.booleans(), realrew=st.booleans(), n=st.integers(1, 10), A=st.integers(2, 5), L=st.integers(1, 4), dim=st.integers(1, 2), bs=st.integers(1, 3), eps=st.sampled_from([0.0, 0.4, 1.0]), unlogged=st.just(0), n_sim=st.sampled_from([1, 2, 10, 30]),
    pos=st.sampled_from(["none", "zero", "any"]), sampler=st.sampled_from(["array", "scalar"]), rs=gen.RS, seed=SEED,
).map(lambda c: dict(c, dim=1) if c["kind"] in ("LinTS", "LinUCB", "LogisticUCB") else c)


def run_uniform(case, ctx):
    """with many simulations the ground truth of the uniform policy is close to the mean expected reward"""
    case = dict(case, rep=False, realrew=False, kind="random", bs=1, L=1, unlogged=0, pos="none", sampler="array", eps=1.0)
    bf = data(case)
    v = calc_ground_truth_policy_value(bandit_feedback=bf, reward_sampler=Sampler("array", case["rs"]), policy=make(case), n_sim=case["n_sim"])
    er = bf["expected_reward"]
    var = float(np.mean(np.var(er, axis=1)))
    ctx.check(mean_ok(v, case["n"] * case["n_sim"], float(er.mean()), var, 1.0), "ground truth of the uniform policy over %d simulations is %g, expected %g", case["n_sim"], v, er.mean())
    ctx.nontriv(case["n"] * case["n_sim"] >= 500)


UNI = fx(n=st.integers(1, 4), A=st.integers(2, 4), dim=st.just(1), n_sim=st.sampled_from([400, 600]), rs=gen.RS, seed=SEED)

SUBS = [Sub("replay", REP, run_replay, 300, budget=(70, 600)), Sub("ground_truth", TRUTH, run_truth, 120, budget=(90, 700)), Sub("uniform", UNI, run_uniform, 40, budget=(40, 300))]
gen.huge(SUBS, "replay", lo=400, hi=2000, quick=2)

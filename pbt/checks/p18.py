"""P18: context-free online policies."""
import os

import numpy as np
import yaml
from hypothesis import strategies as st

import obp
from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from ..stat import freq, mc_interval

from obp.policy import BernoulliTS, EpsilonGreedy, Random

PROPERTY = "P18"
RULE = (
    "Random histories of select / update / initialize calls (batch sizes, rewards, any number of actions and slots), followed by repeated selections. "
    "Non-trivial: the history contains an update after the first batch boundary, or selection frequencies were compared."
)


class Model:
    """what a context-free policy must know after a history"""

    def __init__(self, A, bs):
        self.A, self.bs = A, bs
        self.reset()

    def reset(self):
        self.t = 0
        self.all = [[] for _ in range(self.A)]
        self.seen = [(0, 0.0)] * self.A

    def update(self, a, r):
        self.t += 1
        self.all[a].append(r)
        if self.t % self.bs == 0:
            self.seen = [(len(x), float(sum(x))) for x in self.all]


def make(case, seed_offset=0):
    kw = dict(n_actions=case["A"], len_list=min(case["L"], case["A"]), batch_size=case["bs"], random_state=case["rs"] + seed_offset)
    kind = case["kind"]
    if kind == "egreedy":
        return EpsilonGreedy(epsilon=case["eps"], **kw)
    if kind == "random":
        return Random(**kw)
    r = gen.rng(case, 5)
    if case["prior"] == "none":
        return BernoulliTS(**kw)
    return BernoulliTS(alpha=r.uniform(0.3, 5, size=case["A"]), beta=r.uniform(0.3, 5, size=case["A"]), **kw)


def legal(ctx, sel, case):
    L = min(case["L"], case["A"])
    s = np.asarray(sel)
    ctx.check(s.shape == (L,), "select_action returned %s for len_list=%d", s, L)
    ctx.check(len(set(s.tolist())) == L and s.min() >= 0 and s.max() < case["A"] and s.dtype.kind in "iu", "select_action returned %s", s)
    return s


def ranked(ctx, sel, score, what, tol=1e-9):
    """sel are the positions of the largest scores in decreasing order (ties in any order)"""
    s = np.asarray(score, float)
    best = np.sort(s)[::-1][: len(sel)]
    got = s[np.asarray(sel)]
    ctx.check((np.abs(got - best) <= tol * (1 + np.abs(best))).all(), "%s: selected %s, scores are %s", what, list(sel), s)


def state(ctx, pol, m):
    ctx.check(pol.n_trial == m.t, "n_trial is %s after %d updates", pol.n_trial, m.t)
    ctx.same(pol.action_counts, [c for c, _ in m.seen], "action_counts (committed at batch boundaries)")
    ctx.close(pol.reward_counts, [r for _, r in m.seen], "reward_counts (committed at batch boundaries)")


def play(case, ctx, pol, m, ops):
    for op, a, r in ops:
        a %= case["A"]
        if op == "up":
            pol.update_params(action=a, reward=r)
            m.update(a, r)
        elif op == "init":
            pol.initialize()
            m.reset()
        else:
            sel = legal(ctx, pol.select_action(), case)
            if case["kind"] == "egreedy" and case["eps"] == 0.0 and min(c for c, _ in m.seen) > 0:
                ranked(ctx, sel, [r / c for c, r in m.seen], "greedy selection")
                ctx.label("greedy selection")
        state(ctx, pol, m)


def run_history(case, ctx):
    """counts are committed exactly at batch boundaries, greedy selections rank the empirical means, initialize() forgets everything"""
    pol = make(case)
    m = Model(case["A"], case["bs"])
    r = gen.rng(case)
    ops = [tuple(o) for o in case["ops"]]
    if case["kind"] == "ts":
        ops = [(o, a, float(w in (1, 2.5))) for o, a, w in ops]  # Bernoulli rewards
    if case["more"]:
        ops += [("up" if r.rand() < 0.9 else "sel", int(r.randint(case["A"])), float(r.randint(2))) for _ in range(case["more"])]
    if case["warm"]:
        ops = [("up", a, float(r.randint(2))) for a in range(case["A"])] * case["bs"] + ops
    play(case, ctx, pol, m, ops)
    ctx.nontriv(m.t > case["bs"])
    # a twin with the same seed and history selects the same; initialize() restores the start
    twin = make(case)
    play(case, ctx, twin, Model(case["A"], case["bs"]), ops)
    a = [pol.select_action().tolist() for _ in range(4)]
    b = [twin.select_action().tolist() for _ in range(4)]
    ctx.check(a == b, "same seed and history, different selections: %s, %s", a, b)
    pol.initialize()
    fresh = make(case)
    for p in (pol, fresh):
        play(case, ctx, p, Model(case["A"], case["bs"]), [o for o in ops if o[0] != "init"])
    a = [pol.select_action().tolist() for _ in range(4)]
    b = [fresh.select_action().tolist() for _ in range(4)]
    ctx.check(a == b, "initialize() does not restore the initial policy: %s, %s", a, b)


OPS = st.lists(st.tuples(st.sampled_from(["up", "up", "up", "up", "sel", "sel", "init"]), st.integers(0, 40), st.sampled_from([0.0, 1.0, 1, 0, 1, 0.25, -1.5, 2.5])), max_size=25)
HIST = fx(kind=st.sampled_from(["egreedy", "egreedy", "ts", "random"]), A=gen.some(2, 6, 40), L=gen.some(1, 4, 10), bs=gen.some(1, 5, 40), more=st.sampled_from([0] * 11 + [200]), eps=st.sampled_from([0.0, 0.0, 0.3, 1.0]), prior=st.sampled_from(["none", "given"]), warm=st.booleans(), ops=OPS, rs=gen.RS, seed=SEED)


def counts(pol, n, A, L, arg=()):
    k = np.zeros((A, L), int)
    top = {}
    for _ in range(n):
        s = pol.select_action(*arg)
        for j in range(L):
            k[s[j], j] += 1
        top[tuple(int(v) for v in s)] = top.get(tuple(int(v) for v in s), 0) + 1
    return k, top


def learn(case, pol, m, r):
    for i in range(case["n_up"] * case["bs"]):
        a = i if i < case["A"] and case["cover"] else r.randint(case["A"])
        rew = float(r.rand() < (a + 1.0) / (case["A"] + 1))
        pol.update_params(action=a, reward=rew)
        m.update(a, rew)


def run_explore(case, ctx):
    """epsilon-greedy explores uniformly with probability epsilon (always while an action is untried), Random always"""
    A, L, N = case["A"], min(case["L"], case["A"]), 1500
    pol = make(case)
    m = Model(A, case["bs"])
    learn(case, pol, m, gen.rng(case))
    ready = min(c for c, _ in m.seen) > 0
    eps = 1.0 if case["kind"] == "random" or not ready else case["eps"]
    k, top = counts(pol, N, A, L)
    pg = np.zeros((A, L))
    if eps < 1.0:
        score = [r / c for c, r in m.seen]
        if len(set(score)) < A:
            order = None
        else:
            order = np.argsort(score)[::-1][:L]
            for j in range(L):
                pg[order[j], j] = 1.0
        if order is None:  # ties: only the slots whose occupant is unambiguous
            ctx.label("ties")
            srt = sorted(score, reverse=True)
            for j in range(L):
                if srt.count(srt[j]) > 1:
                    pg[:, j] = np.nan
                else:
                    pg[score.index(srt[j]), j] = 1.0
    for a in range(A):
        for j in range(L):
            if not np.isnan(pg[a, j]):
                p = (1 - eps) * pg[a, j] + eps / A
                freq(ctx, k[a, j], N, p, p, "%s: action %d selected in slot %d (epsilon=%g)" % (case["kind"], a, j, eps))
    if eps == 1.0 and L > 1:
        # all ordered lists are equally likely
        tot = 1
        for j in range(L):
            tot *= A - j
        for lst, c in top.items():
            freq(ctx, c, N, 1.0 / tot, 1.0 / tot, "list %s" % (lst,))
    if case["kind"] == "random":
        d = pol.compute_batch_action_dist(n_rounds=case["n_up"] + 1)
        ctx.close(d, np.full((case["n_up"] + 1, A, L), 1.0 / A), "action distribution of Random")
        ctx.close(pol.compute_batch_action_dist(), np.full((1, A, L), 1.0 / A), "action distribution of Random with the default number of rounds")
        ctx.check(pol.policy_name == "random", "name of Random is %s", pol.policy_name)
    ctx.label("explore" if eps == 1.0 else "mixed" if eps else "greedy")
    ctx.nontriv()


EXPL = fx(kind=st.sampled_from(["egreedy", "egreedy", "random"]), A=st.integers(2, 5), L=st.integers(1, 3), bs=st.integers(1, 3), eps=st.sampled_from([0.0, 0.2, 0.5, 0.9, 1.0]), n_up=st.integers(0, 15), cover=st.booleans(), rs=gen.RS, seed=SEED)


def run_ts(case, ctx):
    """BernoulliTS selects by sampling the Beta posteriors of the committed data"""
    case = dict(case, kind="ts")
    A, L, N, M = case["A"], min(case["L"], case["A"]), 1500, 40000
    pol = make(case)
    m = Model(A, case["bs"])
    r = gen.rng(case)
    learn(case, pol, m, r)
    r5 = gen.rng(case, 5)
    al, be = (np.ones(A), np.ones(A)) if case["prior"] == "none" else (r5.uniform(0.3, 5, size=A), r5.uniform(0.3, 5, size=A))
    a = np.array([x + s for x, (c, s) in zip(al, m.seen)])
    b = np.array([x + c - s for x, (c, s) in zip(be, m.seen)])
    ref = np.argsort(-gen.rng(case, 9).beta(a, b, size=(M, A)), axis=1)[:, :L]
    k, _ = counts(pol, N, A, L)
    for act in range(A):
        for j in range(L):
            lo, hi = mc_interval(int((ref[:, j] == act).sum()), M)
            freq(ctx, k[act, j], N, lo, hi, "action %d sampled in slot %d (posterior Beta(%g, %g))" % (act, j, a[act], b[act]))
    n_sim = case["n_sim"]
    kw, nr, n_sim = (dict(n_rounds=3), 3, n_sim) if case["seed"] % 3 else ({}, 1, n_sim)
    if case["seed"] % 20 == 0:
        n_sim = 100000
    else:
        kw["n_sim"] = n_sim
    d = pol.compute_batch_action_dist(**kw)
    ctx.check(d.shape == (nr, A, L), "shape of the action distribution is %s (n_rounds=%d)", d.shape, nr)
    ctx.close(d.sum(axis=1), np.ones((nr, L)), "the action distribution sums to one in each slot")
    ctx.same(d[-1], d[0], "rounds of the action distribution")
    for act in range(A):
        for j in range(L):
            lo, hi = mc_interval(int((ref[:, j] == act).sum()), M)
            ctx.close(d[0, act, j] * n_sim, round(d[0, act, j] * n_sim), "probabilities are frequencies of %d simulations" % n_sim, atol=1e-6)
            freq(ctx, int(round(d[0, act, j] * n_sim)), n_sim, lo, hi, "simulated distribution: action %d, slot %d" % (act, j))
    state(ctx, pol, m)
    ctx.nontriv()


TS = fx(A=st.integers(2, 5), L=st.integers(1, 3), bs=st.integers(1, 3), prior=st.sampled_from(["none", "given"]), n_up=st.integers(0, 15), cover=st.booleans(), n_sim=st.sampled_from([1, 100, 700]), rs=gen.RS, seed=SEED)


def run_prior(case, ctx):
    """the ZOZOTOWN priors are those of the campaign"""
    with open(os.path.join(os.path.dirname(obp.__file__), "policy", "conf", "prior_bts.yaml")) as f:
        conf = yaml.safe_load(f)[case["campaign"]]
    A = len(conf["alpha"])
    pol = BernoulliTS(n_actions=A, len_list=3, is_zozotown_prior=True, campaign=case["campaign"], random_state=case["rs"])
    ctx.close(pol.alpha, conf["alpha"], "prior alpha")
    ctx.close(pol.beta, conf["beta"], "prior beta")
    a = case["a"] % A
    N = 60
    mean = np.array(conf["alpha"]) / (np.array(conf["alpha"]) + np.array(conf["beta"]))
    for _ in range(N):
        legal(ctx, pol.select_action(), dict(A=A, L=3))
    for _ in range(case["up"]):
        pol.update_params(action=a, reward=1.0)
    big = case["up"] > 2000 * max(1.0, conf["beta"][a] + conf["alpha"][a])
    if big and mean.max() < 0.5:
        ctx.check(pol.select_action()[0] == a, "after %d rewards action %d is not selected", case["up"], a)
    ctx.check(A == {"all": 80, "men": 34, "women": 46}[case["campaign"]], "%d priors for campaign %s", A, case["campaign"])
    ctx.nontriv()


PRIOR = fx(campaign=st.sampled_from(["all", "men", "women"]), a=st.integers(0, 79), up=st.sampled_from([0, 5, 50]), rs=gen.RS, seed=SEED)

SUBS = [
    Sub("history", HIST, run_history, 400, budget=(60, 600)),
    Sub("explore", EXPL, run_explore, 120, budget=(60, 600)),
    Sub("thompson", TS, run_ts, 120, budget=(60, 600)),
    Sub("prior", PRIOR, run_prior, 12, thorough=60, budget=(30, 60)),
]

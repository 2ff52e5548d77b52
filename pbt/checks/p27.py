"""P27: logged data are random draws from the distributions the data set reports.

Every random quantity is turned into a residual whose conditional mean (given everything drawn before it) is zero under the
configured model; sums of residuals, of residuals times functions of the past, and of products with other rounds', batches' and
quantities' residuals are compared with Freedman bounds (false-alarm probability about 1e-13 per comparison).
"""
import math
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm, truncnorm

from .. import gen
from ..core import Discard, Sub
from ..gen import SEED, fx
from ..stat import freq
from . import p14, p16, p17

from obp import dataset as D
from obp.simulator.simulator import BanditEnvironmentSimulator

PROPERTY = "P27"
RULE = (
    "Random configurations of every data generator with user-supplied reward and behaviour functions, several batches of one data set (thousands of rounds in total). "
    "Non-trivial: every case (each compares means, cross-quantity, cross-round and cross-batch correlations)."
)
LN = 30.6  # ln(2 / 1e-13)


def bound(V, M):
    return M * LN / 3 + math.sqrt((M * LN / 3) ** 2 + 2 * V * LN) + 1e-6


class Noise:
    """ordered residuals of several batches; later ones have conditional mean zero given earlier ones"""

    def __init__(self, ctx):
        self.ctx, self.batches, self.draw = ctx, [], {}

    def batch(self):
        self.batches.append([])

    def add(self, name, res, var, past=(), draw=None):
        """res: (n,) residual in [-1, 1]; var: (n,) conditional variance; past: functions of what was drawn before, in [-1, 1]; draw: residuals with the same label come from one random draw"""
        self.draw.setdefault(name, draw or name)
        self.batches[-1].append((name, np.asarray(res, float), np.broadcast_to(np.asarray(var, float), np.shape(res)), past))

    def indicator(self, name, hit, p, past=(), draw=None):
        p = np.asarray(p, float)
        self.add(name, np.asarray(hit, float) - p, p * (1 - p), past, draw)

    def pit(self, name, u, past=()):
        """u: probability integral transforms, uniform under the model"""
        u = np.asarray(u, float)
        self.add(name, u - 0.5, 1 / 12.0, past, name)
        self.add(name + " (spread)", np.abs(u - 0.5) - 0.25, 1 / 48.0, past, name)

    def test(self, parts, what):
        s, v, m, n = 0.0, 0.0, 0.0, 0
        for res, var, g in parts:
            k = min(len(res), len(g))
            if k:
                s += float(np.dot(res[:k], g[:k]))
                v += float(np.dot(var[:k], g[:k] ** 2))
                m = max(m, float(np.abs(g[:k]).max()))
                n += k
        self.ctx.check(abs(s) <= bound(v, m), "%s: sum over %d rounds is %.4g, expected 0 up to %.4g", what, n, s, bound(v, m))

    def run(self):
        names = [b[0] for b in self.batches[0]]
        for i, name in enumerate(names):
            col = [b[i] for b in self.batches]
            self.test([(r, v, np.ones(len(r))) for _, r, v, _ in col], "%s does not follow its distribution" % name)
            for j in range(len(col[0][3])):
                self.test([(r, v, np.asarray(p[j], float)) for _, r, v, p in col], "%s depends on function %d of what was drawn before" % (name, j))
            for k in range(i):
                if self.draw[names[k]] == self.draw[name]:
                    continue
                self.test([(b[i][1], b[i][2], b[k][1]) for b in self.batches], "%s depends on %s" % (name, names[k]))
            for k in range(len(names)):
                self.test([(b[i][1][1:], b[i][2][1:], b[k][1][:-1]) for b in self.batches], "%s depends on %s of the previous round" % (name, names[k]))
                self.test([(b[i][1], b[i][2], a[k][1]) for a, b in zip(self.batches, self.batches[1:])], "%s depends on %s of the same round of the previous batch" % (name, names[k]))


class Across:
    """the same round of many data sets that differ only in their seed, as one batch of independent rounds"""

    def __init__(self, make, case):
        self.row, self.sets = case["row"], [make(case["rs"] + s) for s in range(case["ns"][0])]

    def obtain_batch_bandit_feedback(self, n_rounds, **kw):
        out = {}
        for ds in self.sets:
            bf = ds.obtain_batch_bandit_feedback(n_rounds=self.row + 2, **kw)
            for k, v in bf.items():
                if isinstance(v, np.ndarray) and len(v) >= self.row + 2 and len(v) % (self.row + 2) == 0:
                    m = len(v) // (self.row + 2)  # slates: one row per slot
                    out.setdefault(k, []).append(v[self.row * m : (self.row + 1) * m])
        return {k: np.concatenate(v) for k, v in out.items() if len(v) == len(self.sets)}


def source(make, case):
    return Across(make, case) if "row" in case else make(case["rs"])


def contexts(N, x):
    for j in range(min(x.shape[1], 2)):
        N.add("context %d" % j, np.sign(x[:, j]), 1.0)


def feats(x, a=None, n_a=0):
    out = [np.tanh(x[:, 0]), np.sign(x[:, -1])]
    if a is not None:
        out += [(a == k).astype(float) for k in range(n_a)]
    return out


def functions(case, n_a, dim):
    r = gen.rng(case, 3)
    M, c = r.normal(size=(dim, n_a)), r.normal(size=n_a)
    B, d = r.normal(size=(dim, n_a)), r.normal(size=n_a)
    return (lambda x: x @ M + c), (lambda x: x @ B + d)


def draw_actions(N, a, pi, x, name="action"):
    for k in range(pi.shape[1]):
        N.indicator("%s %d" % (name, k), a == k, pi[:, k], feats(x) + [pi[:, k]], name)


def reward_part(N, case, bf, x, a, loc, std, exp):
    n_a = exp.shape[1]
    rows = np.arange(len(a))
    if case["rt"] == "binary":
        N.indicator("reward", bf["reward"], exp[rows, a], feats(x, a, n_a))
    else:
        m = loc[rows, a]
        N.pit("reward", truncnorm.cdf(bf["reward"], (0 - m) / std, (1e10 - m) / std, loc=m, scale=std), feats(x, a, n_a))


def run_base(case, ctx):
    """single- and multi-logger synthetic data"""
    n_a, dim = case["A"], case["dim"]
    f, g = functions(case, n_a, dim)
    binary = case["rt"] == "binary"
    loc = (lambda x: 1 / (1 + np.exp(-f(x)))) if binary else f
    kw = dict(n_actions=n_a, dim_context=dim, reward_type=case["rt"], reward_std=case["std"], n_deficient_actions=case["ndef"] % n_a,
              reward_function=(lambda context, action_context, random_state=None: loc(context)) if case["fun"] else None)
    if case["multi"]:
        make = lambda rs: D.SyntheticMultiLoggersBanditDataset(betas=[2.0, -1.0, 0.0][: case["multi"]], rhos=[1, 2, 3][: case["multi"]], random_state=rs, **kw)
    else:
        make = lambda rs: D.SyntheticBanditDataset(beta=case["beta"], behavior_policy_function=(lambda context, action_context, random_state=None: g(context)) if case["beh"] else None, random_state=rs, **kw)
    ds = source(make, case)
    N = Noise(ctx)
    n_sup = n_a - case["ndef"] % n_a
    for n in case["ns"]:
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n)
        N.batch()
        x, a, pi = bf["context"], bf["action"], bf["pi_b"][:, :, 0]
        contexts(N, x)
        if n_sup < n_a:
            for k in range(n_a):
                N.indicator("support of action %d" % k, pi[:, k] > 0, n_sup / n_a, feats(x), "support")
        draw_actions(N, a, pi, x)
        mean = loc(x) if case["fun"] else np.tile(ds.expected_reward, (n, 1))
        reward_part(N, case, bf, x, a, mean, case["std"], bf["expected_reward"])
    N.run()
    if not case["fun"]:
        ctx.label("context-free rewards")
    ctx.label("%d loggers" % (case["multi"] or 1), case["rt"], "deficient" if n_sup < n_a else "full support")
    ctx.nontriv()


def run_sample_reward(case, ctx):
    """sample_reward draws from the expected rewards of the given contexts and actions, afresh at every call"""
    n_a, dim = case["A"], case["dim"]
    f, g = functions(case, n_a, dim)
    binary = case["rt"] == "binary"
    loc = (lambda x: 1 / (1 + np.exp(-f(x)))) if binary else f
    ds = D.SyntheticBanditDataset(n_actions=n_a, dim_context=dim, reward_type=case["rt"], reward_std=case["std"], random_state=case["rs"], reward_function=lambda context, action_context, random_state=None: loc(context))
    r = gen.rng(case, 8)
    N = Noise(ctx)
    x, a = r.normal(size=(case["n"], dim)), r.randint(n_a, size=case["n"])
    for _ in range(3):
        N.batch()
        reward_part(N, case, dict(reward=ds.sample_reward(context=x, action=a)), x, a, loc(x), case["std"], loc(x))
    N.run()
    ctx.label(case["rt"])
    ctx.nontriv()


def run_embed(case, ctx):
    """action embeddings given actions, rewards given embeddings"""
    n_a, dim = case["A"], case["dim"]
    n_cat, n_dim, hid = case["C"], case["D"], case["hid"] % case["D"]
    r = gen.rng(case, 4)
    M = r.normal(size=(dim, 3))
    _, g = functions(case, n_a, dim)
    binary = case["rt"] == "binary"

    def q(context, action_context, random_state=None):
        v = context @ M @ np.asarray(action_context)[:, :3].T
        return 1 / (1 + np.exp(-v)) if binary else v

    ds = D.SyntheticBanditDatasetWithActionEmbeds(
        n_actions=n_a, dim_context=dim, reward_type=case["rt"], reward_function=q, reward_std=case["std"], beta=1.0, n_deficient_actions=case["ndef"] % n_a, random_state=case["rs"],
        behavior_policy_function=(lambda context, action_context, random_state=None: g(context)) if case["beh"] else None,
        n_cat_per_dim=n_cat, latent_param_mat_dim=3, n_cat_dim=n_dim, p_e_a_param_std=1.0, n_unobserved_cat_dim=hid, n_irrelevant_cat_dim=case["irr"] % n_dim,
    )
    N = Noise(ctx)
    for n in case["ns"]:
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n)
        N.batch()
        x, a, pi, e, pe = bf["context"], bf["action"], bf["pi_b"][:, :, 0], bf["action_embed"], bf["p_e_a"]
        rows = np.arange(n)
        contexts(N, x)
        draw_actions(N, a, pi, x)
        for d in range(e.shape[1]):
            for c in range(n_cat):
                N.indicator("embedding %d category %d" % (d, c), e[:, d] == c, pe[a, c, d], feats(x, a, n_a), "embedding %d" % d)
        w = np.asarray(getattr(ds, "cat_dim_importance", np.ones(e.shape[1] + 1))).ravel()
        h = len(w) - e.shape[1]  # unobserved dimensions come first
        if not w[:h].any() and hasattr(ds, "latent_cat_param"):
            mean = np.clip(sum(w[h + d] * q(x, ds.latent_cat_param[h + d])[rows, e[:, d]] for d in range(e.shape[1])), 0 if binary else -np.inf, 1 if binary else np.inf)
            past = feats(x, a, n_a) + [(e[:, d] == c).astype(float) for d in range(e.shape[1]) for c in range(n_cat)]
            if binary:
                N.indicator("reward", bf["reward"], mean, past)
            else:
                N.pit("reward", norm.cdf(bf["reward"], mean, case["std"]), past)
        elif binary:
            N.indicator("reward", bf["reward"], bf["expected_reward"][rows, a], feats(x, a, n_a))
    N.run()
    ctx.label(case["rt"], "rewards depend on unobserved dimensions" if w[:h].any() else "rewards depend on observed dimensions")
    ctx.nontriv()


def run_slate(case, ctx):
    """slots of a slate are drawn one after the other; clicks follow the click model"""
    n_a = case["A"]
    L = case["L"] if case["fact"] else min(case["L"], n_a)
    dim = 2
    f, g = functions(case, n_a, dim)
    binary = case["rt"] == "binary"
    click = case["click"] if binary else None
    cc = dict(case, click=click)

    def q(context, action_context, random_state=None):
        v = f(context)
        return 1 / (1 + np.exp(-v)) if binary else np.abs(v)

    make = lambda rs: D.SyntheticSlateBanditDataset(
        n_unique_action=n_a, len_list=L, dim_context=dim, reward_type=case["rt"], reward_structure=case["struct"], click_model=click, eta=case["eta"], is_factorizable=case["fact"], random_state=rs,
        base_reward_function=q if case["fun"] else None, behavior_policy_function=(lambda context, action_context, random_state=None: g(context)) if case["beh"] else None,
    )
    ds = source(make, case)
    N = Noise(ctx)
    for n in case["ns"]:
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=False)
        N.batch()
        x, a = bf["context"], bf["action"].reshape(n, L)
        logit = g(x) if case["beh"] else np.zeros((n, n_a))
        contexts(N, x)
        left = np.ones((n, n_a), bool)
        past = feats(x)
        for k in range(L):
            w = np.exp(logit - logit.max(1, keepdims=True)) * left
            p = w / w.sum(1, keepdims=True)
            for b in range(n_a):
                N.indicator("slot %d action %d" % (k, b), a[:, k] == b, p[:, b], past + [p[:, b]], "slot %d" % k)
            if not case["fact"]:
                left[np.arange(n), a[:, k]] = False
            past = past + [(a[:, k] == b).astype(float) for b in range(n_a)]
        r, e = np.asarray(bf["reward"], float).reshape(n, L), np.asarray(bf["expected_reward_factual"], float).reshape(n, L)
        disc = np.ones(n)
        for k in range(L):
            if binary:
                if k:
                    disc = disc * np.where(r[:, k - 1] > 0, p14.attract(cc, k), 1.0)
                N.indicator("reward of slot %d" % k, r[:, k], disc * e[:, k], past)
                past = past + [r[:, k]]
            else:
                # bounded transform of the truncated normal reward; the location is recovered from the reported mean
                m = invert_trunc_mean(e[:, k])
                N.pit("reward of slot %d" % k, truncnorm.cdf(r[:, k], -m, np.inf, loc=m, scale=1.0), past)
    N.run()
    ctx.label(case["struct"], "click %s" % click, case["rt"], "factorizable" if case["fact"] else "non-factorizable")
    ctx.nontriv()


GRID = np.linspace(-30, 60, 40001)
MEANS = np.where(GRID > -25, GRID + np.exp(norm.logpdf(GRID) - norm.logcdf(GRID)), np.nan)
OK = np.isfinite(MEANS)


def invert_trunc_mean(e):
    """location of the unit-scale normal truncated at zero whose mean is e"""
    return np.interp(e, MEANS[OK], GRID[OK])


def run_continuous(case, ctx):
    """continuous actions, densities and noise"""
    dim = case["dim"]
    r = gen.rng(case, 5)
    m, c, lo, hi = r.normal(size=dim), float(r.normal()), -1.5, 2.5
    beh = (lambda context, random_state=None: context @ m + c) if case["beh"] else None
    make = lambda rs: D.SyntheticContinuousBanditDataset(
        dim_context=dim, action_noise=case["an"], reward_noise=case["std"], min_action_value=lo, max_action_value=hi, random_state=rs, behavior_policy_function=beh,
        reward_function=(lambda context, action, random_state=None: np.sin(context[:, 0]) + action) if case["fun"] else None,
    )
    ds = source(make, case)
    N = Noise(ctx)
    for n in case["ns"]:
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n)
        N.batch()
        x, a = bf["context"], bf["action"]
        contexts(N, x)
        if case["beh"]:
            mu = x @ m + c
            u = truncnorm.cdf(a, (lo - mu) / case["an"], (hi - mu) / case["an"], loc=mu, scale=case["an"])
            ok = np.isfinite(u)
            u = np.where(ok, np.clip(u, 0, 1), 0.5)
        else:
            u = (a - lo) / (hi - lo)
        N.pit("action", u, feats(x))
        N.pit("reward", norm.cdf(bf["reward"], bf["expected_reward"], case["std"]), feats(x) + [u - 0.5, np.abs(u - 0.5)])
    N.run()
    ctx.label("behaviour function" if case["beh"] else "uniform behaviour")
    ctx.nontriv()


def run_multiclass(case, ctx):
    """actions of the multi-class reduction, over many seeds"""
    K, n = case["K"], 120 if "row" not in case else 4 * case["K"]
    r = gen.rng(case, 6)
    X, y = np.c_[np.arange(n) + 0.0, r.normal(size=(n, 2))], np.arange(n) % K
    ndef = case["ndef"] % K
    ds = D.MultiClassToBanditReduction(X=X, y=y, base_classifier_b=p16.Rule(1), alpha_b=case["ab"], n_deficient_actions=ndef)
    ds.split_train_eval(eval_size=0.5, random_state=case["rs"])
    N = Noise(ctx)
    del p16.LOG[:]
    if "row" in case:
        bfs = [ds.obtain_batch_bandit_feedback(random_state=case["rs"] + s) for s in range(case["B"])]
        data = [(np.array([bf["action"][case["row"]] for bf in bfs]), np.array([bf["pi_b"][case["row"], :, 0] for bf in bfs]))]
    else:
        data = ((bf["action"], bf["pi_b"][:, :, 0]) for bf in (ds.obtain_batch_bandit_feedback(random_state=case["rs"] + s) for s in range(case["B"])))
    for a, pi in data:
        N.batch()
        x = r.normal(size=(len(a), 1))
        if ndef:
            for k in range(K):
                # given the classifier's choice (row-wise constant over seeds), every set of deficient actions is equally likely
                N.indicator("support of action %d" % k, pi[:, k] > 0, (K - ndef) / K, (), "support")
        draw_actions(N, a, pi, x)
    N.run()
    ctx.label("deficient" if ndef else "full support")
    ctx.nontriv()


def run_env(case, ctx):
    """rewards of all actions offered by the online environment"""
    n_a, dim = case["A"], case["dim"]
    f, _ = functions(case, n_a, dim)
    make = lambda rs: BanditEnvironmentSimulator(n_actions=n_a, dim_context=dim, random_state=rs, reward_function=(lambda context, action_context, random_state=None, coef_function=None: 1 / (1 + np.exp(-f(context)))) if case["fun"] else None)
    if "row" in case:
        envs = [make(case["rs"] + s) for s in range(case["ns"][0])]
    else:
        env = make(case["rs"])
    N = Noise(ctx)
    for n in case["ns"]:
        if "row" in case:
            b = [e.next_bandit_round_batch(n_rounds=case["row"] + 2) for e in envs]
            x, rew, exp = (np.array([getattr(v, k)[case["row"]] for v in b]) for k in ("context", "rewards", "expected_rewards"))
        elif case["single"]:
            b = [env.next_bandit_round() for _ in range(min(n, 300))]
            x, rew, exp = np.vstack([v.context for v in b]), np.array([v.rewards for v in b]), np.array([v.expected_rewards for v in b])
        else:
            b = env.next_bandit_round_batch(n_rounds=n)
            x, rew, exp = b.context, b.rewards, b.expected_rewards
        N.batch()
        contexts(N, x)
        past = feats(x)
        for k in range(n_a):
            N.indicator("reward of action %d" % k, rew[:, k], exp[:, k], past)
            past = past + [rew[:, k]]
    N.run()
    ctx.label("one round at a time" if case["single"] else "batches")
    ctx.nontriv()


def run_obd(case, ctx):
    """bootstrap samples of the Open Bandit Dataset draw rows uniformly and independently"""
    root = tempfile.mkdtemp(prefix="p27-")
    try:
        c = dict(case, A=3, policy="random", campaign="all", pos="123", nuf=2, cats=2, nif=1, coarse=1)
        rows, _ = p17.write(c, root)
        ds = D.OpenBanditDataset(behavior_policy="random", campaign="all", data_path=p17.Path(root))
        ref = ds.obtain_batch_bandit_feedback()
        m = len(ref["pscore"])
        ident = {float(p): i for i, p in enumerate(ref["pscore"])}
        if len(ident) < m:
            raise Discard("propensities do not identify the rows")
        size = None if case["full"] else max(1, m // 2)
        idx = []
        for s in range(case["B"]):
            bf = ds.sample_bootstrap_bandit_feedback(sample_size=size, random_state=case["rs"] + s)
            idx.append([ident[float(p)] for p in bf["pscore"]])
        idx = np.array(idx)
        for i in range(m):
            freq(ctx, int((idx == i).sum()), idx.size, 1 / m, 1 / m, "row %d of %d in bootstrap samples" % (i, m))
        if idx.shape[1] > 1:
            rep = int((idx[:, 1:] == idx[:, :-1]).sum())
            freq(ctx, rep, idx[:, 1:].size, 1 / m, 1 / m, "consecutive sampled rows are the same row (of %d)" % m)
        same = int((idx[1:] == idx[:-1]).sum())
        freq(ctx, same, idx[1:].size, 1 / m, 1 / m, "samples of two seeds agree in a row (of %d)" % m)
        ctx.label("full size" if case["full"] else "smaller sample")
        ctx.nontriv()
    finally:
        shutil.rmtree(root, ignore_errors=True)


NS = st.lists(st.integers(500, 2500), min_size=2, max_size=3)
COMMON = dict(A=st.integers(2, 4), dim=st.integers(1, 3), rt=st.sampled_from(["binary", "continuous"]), std=st.sampled_from([0.3, 1.0, 2.0]), ns=NS, rs=gen.RS, seed=SEED, fun=st.booleans(), beh=st.booleans())
ACROSS = dict(ns=st.integers(500, 900).map(lambda n: [n, n]), row=st.integers(0, 2), fun=st.just(True))

SUBS = [
    Sub("single", fx(**COMMON, multi=st.just(0), ndef=st.integers(0, 2), beta=st.sampled_from([-2.0, 0.0, 1.0, 3.0])), run_base, 40, budget=(40, 300)),
    Sub("multi", fx(**COMMON, multi=st.sampled_from([2, 3]), ndef=st.integers(0, 2), beta=st.just(1.0)), run_base, 30, budget=(40, 300)),
    Sub("sample_reward", fx(A=st.integers(2, 4), dim=st.integers(1, 3), rt=st.sampled_from(["binary", "continuous"]), std=st.sampled_from([0.3, 1.0]), n=st.integers(500, 3000), rs=gen.RS, seed=SEED), run_sample_reward, 20, budget=(40, 300)),
    Sub("embed", fx(**{**COMMON, "fun": st.just(True)}, ndef=st.integers(0, 1), C=st.integers(2, 3), D=st.integers(1, 3), hid=st.integers(0, 2), irr=st.integers(0, 1)), run_embed, 25, budget=(40, 300)),
    Sub("slate", fx(**{**COMMON, "ns": st.lists(st.integers(300, 700), min_size=2, max_size=2)}, L=st.integers(2, 3), fact=st.booleans(), click=st.sampled_from([None, "pbm", "cascade"]), eta=st.sampled_from([0.5, 1.0]), struct=st.sampled_from(p14.STRUCTS)), run_slate, 25, budget=(60, 400)),
    Sub("continuous", fx(**COMMON, an=st.sampled_from([0.5, 1.0, 3.0])), run_continuous, 25, budget=(40, 300)),
    Sub("multiclass", fx(K=st.integers(2, 4), ndef=st.integers(0, 2), ab=st.sampled_from([0.0, 0.3, 0.9]), B=st.integers(20, 40), rs=gen.RS, seed=SEED), run_multiclass, 20, budget=(40, 300)),
    Sub("environment", fx(A=st.integers(2, 4), dim=st.integers(1, 3), ns=NS, rs=gen.RS, seed=SEED, fun=st.booleans(), single=st.booleans()), run_env, 20, budget=(40, 300)),
    Sub("single_across", fx(**{**COMMON, **ACROSS}, multi=st.just(0), ndef=st.integers(0, 2), beta=st.sampled_from([-2.0, 1.0])), run_base, 6, 60, budget=(40, 300)),
    Sub("multi_across", fx(**{**COMMON, **ACROSS}, multi=st.sampled_from([2, 3]), ndef=st.integers(0, 2), beta=st.just(1.0)), run_base, 6, 60, budget=(40, 300)),
    Sub("slate_across", fx(**{**COMMON, **ACROSS}, L=st.integers(2, 3), fact=st.booleans(), click=st.sampled_from([None, "pbm", "cascade"]), eta=st.just(1.0), struct=st.sampled_from(p14.STRUCTS)), run_slate, 4, 40, budget=(60, 400)),
    Sub("continuous_across", fx(**{**COMMON, **ACROSS}, an=st.sampled_from([0.5, 3.0])), run_continuous, 6, 60, budget=(40, 300)),
    Sub("multiclass_across", fx(K=st.integers(2, 4), ndef=st.integers(1, 2), ab=st.sampled_from([0.0, 0.3]), B=st.integers(600, 900), rs=gen.RS, seed=SEED, row=st.integers(0, 1)), run_multiclass, 6, 60, budget=(40, 300)),
    Sub("environment_across", fx(A=st.integers(2, 4), dim=st.integers(1, 3), rs=gen.RS, seed=SEED, single=st.just(False), **ACROSS), run_env, 6, 60, budget=(40, 300)),
    Sub("bootstrap_rows", fx(n=st.integers(3, 12), B=st.integers(150, 300), full=st.booleans(), rs=gen.RS, seed=SEED), run_obd, 8, budget=(40, 300)),
]

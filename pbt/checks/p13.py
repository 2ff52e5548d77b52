"""P13: synthetic bandit data (single logger, several loggers, action embeddings)."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import erfcx
from sklearn.preprocessing import PolynomialFeatures

from .. import gen
from ..core import Sub
from ..gen import SEED, fx

from obp import dataset as D

PROPERTY = "P13"
RULE = (
    "Random configurations of the three synthetic data set classes (actions, context dimension, library or table-driven reward and "
    "behaviour functions, inverse temperatures, deficient actions, loggers and ratios, embedding dimensions, unobserved/irrelevant "
    "dimensions, seeds) and one or two consecutive batches. Non-trivial: at least two rounds and a non-degenerate logging policy."
)

REWARD_FUNCS = ["none", "linear", "polynomial", "sparse", "logistic", "logistic_polynomial", "logistic_sparse", "table", "table01"]
LIB = dict(
    linear=D.linear_reward_function, polynomial=D.polynomial_reward_function, sparse=D.sparse_reward_function,
    logistic=D.logistic_reward_function, logistic_polynomial=D.logistic_polynomial_reward_function, logistic_sparse=D.logistic_sparse_reward_function,
)


class Table:
    """reward/behaviour function: a fixed arbitrary function of (context row, action), recording its calls"""

    def __init__(self, kind, salt):
        self.kind, self.salt, self.calls = kind, salt, []

    def values(self, context, action_context):
        s = np.abs(context).sum(1)[:, None] * (3.7 + self.salt % 5) + np.arange(len(action_context))[None, :] * 1.31 + (np.asarray(action_context, float) @ np.arange(1, action_context.shape[1] + 1))[None, :] * 0.77
        u = np.abs(np.sin(s * 12.9898 + self.salt % 97)) % 1.0
        if self.kind == "01":
            return (u > 0.5).astype(float)
        if self.kind == "logit":
            return (u - 0.5) * 6
        if self.kind == "pos":
            return 5 + 3 * u
        return u

    def __call__(self, context, action_context, random_state=None):
        self.calls.append((np.array(context), np.array(action_context), random_state))
        return self.values(context, action_context)


def softmax_rows(logits):
    out = np.zeros(logits.shape)
    for i in range(len(logits)):
        m = max(logits[i])
        e = [math.exp(v - m) for v in logits[i]]
        s = math.fsum(e)
        out[i] = [v / s for v in e]
    return out


def trunc_mean(mu, sd):
    """mean of a normal(mu, sd) truncated to [0, inf)"""
    return mu + sd * math.sqrt(2 / math.pi) / erfcx(-mu / sd / math.sqrt(2))


def reward_function(case):
    k = case["rf"]
    if "sparse" in k:
        # with very few features the sparse functions can select constants only; standardising a constant is 0/0
        case["dim"], case["ac_dim"] = max(case["dim"], 2), max(case["ac_dim"], 2)
        if case["ac"] == "int":
            case["ac"] = "real"
    if k == "none":
        return None
    if k == "table":
        return Table("prob" if case["rt"] == "binary" else "pos", case["seed"])
    if k == "table01":
        return Table("01" if case["rt"] == "binary" else "pos", case["seed"])
    if case["rt"] == "binary" and not k.startswith("logistic"):
        return LIB["logistic"]
    return LIB[k]


def behavior_function(case):
    return {"none": None, "linear": D.linear_behavior_policy, "polynomial": D.polynomial_behavior_policy, "table": Table("logit", case["seed"] + 1)}[case["bf"]]


def action_context(case, A):
    if case["ac"] == "none":
        return None
    r = gen.rng(case, 5)
    return r.normal(size=(A, case["ac_dim"])) if case["ac"] == "real" else r.randint(-2, 3, size=(A, case["ac_dim"]))


def expected_of(ctx, case, ds, x, A):
    """the expected rewards the configuration defines for contexts x"""
    rf = ds.reward_function
    if rf is None:
        base = np.asarray(ds.expected_reward, float)
        ctx.check(base.shape == (A,) and (base >= 0).all() and (base <= 1).all(), "context-free expected rewards are not one value in [0,1] per action: %s", base)
        mean = np.tile(base, (len(x), 1))
    elif isinstance(rf, Table):
        mean = rf.values(x, ds.action_context)
    else:
        mean = rf(context=x, action_context=ds.action_context, random_state=case["rs"])
    if case["rt"] == "continuous":
        sd = float(ds.reward_std)
        return mean, np.array([[trunc_mean(float(v), sd) for v in row] for row in mean])
    return mean, mean


def check_policy(ctx, logits, beta_rows, pi, n_def, what="pi_b"):
    """pi[i] is softmax(beta_i * logits[i]) restricted to a set of A - n_def actions; returns supports"""
    n, A = logits.shape
    for i in range(n):
        sup = np.flatnonzero(pi[i] > 0)
        if n_def:
            if len(sup) < A - n_def and abs(float(beta_rows[i])) * np.ptp(logits[i]) > 300:
                ctx.check(len(sup) >= 1, "%s of round %d has no support", what, i)  # exp() underflow
                ctx.close(pi[i][sup], softmax_rows(float(beta_rows[i]) * logits[i : i + 1, sup])[0], "%s of round %d" % (what, i))
                continue
            ctx.check(len(sup) == A - n_def, "%s of round %d supports %d actions, expected %d of %d", what, i, len(sup), A - n_def, A)
        else:
            sup = np.arange(A)
        want = np.zeros(A)
        want[sup] = softmax_rows(float(beta_rows[i]) * logits[i : i + 1, sup])[0]
        ctx.close(pi[i], want, "%s of round %d" % (what, i), rtol=1e-7)


def common(ctx, case, ds, bf, n, A, keys):
    ctx.check(set(bf) == keys, "keys of the batch: %s", sorted(set(bf) ^ keys))
    ctx.check(bf["n_rounds"] == n and bf["n_actions"] == A, "n_rounds/n_actions are %s/%s", bf["n_rounds"], bf["n_actions"])
    ctx.check(bf["position"] is None, "position is not None")
    for k, sh in dict(context=(n, case["dim"]), action=(n,), reward=(n,), pscore=(n,), expected_reward=(n, A), pi_b=(n, A, 1)).items():
        ctx.check(np.shape(bf[k]) == sh, "shape of %s is %s", k, np.shape(bf[k]))
    a = bf["action"]
    ctx.check(np.issubdtype(a.dtype, np.integer) and a.min() >= 0 and a.max() < A, "actions are not integers in range: %s", a)
    pi = bf["pi_b"][:, :, 0]
    for i in range(n):
        ctx.check(pi[i, a[i]] > 0, "round %d: the logged action %d has probability zero under pi_b", i, a[i])
        ctx.check(bf["pscore"][i] == pi[i, a[i]], "round %d: pscore %r, but pi_b of the logged action is %r", i, bf["pscore"][i], pi[i, a[i]])
    if case["rt"] == "binary":
        ctx.check(set(np.unique(bf["reward"]).tolist()) <= {0, 1}, "binary rewards are %s", bf["reward"])


def check_rewards(ctx, case, ds, mean, bf):
    """rewards that the expected rewards determine (0/1) or bound (continuous)"""
    n = len(mean)
    a = bf["action"]
    q = mean[np.arange(n), a]
    r = np.asarray(bf["reward"], float)
    if case["rt"] == "binary":
        sure = (q <= 0) | (q >= 1)
        ctx.check((r[sure] == q[sure]).all(), "binary reward of a round whose expected reward is 0 or 1 differs from it")
    else:
        ctx.check((r >= 0).all(), "a truncated-normal reward is negative: %s", r.min())
        sd = float(ds.reward_std)
        ctx.check((np.abs(r - np.maximum(q, 0)) <= 9 * sd + 1e-9).all(), "a reward is more than 9 standard deviations from its mean parameter")


def min_rounds(case):
    """the library's functions standardise over rounds and actions: one round can be constant"""
    return 1 if case["rf"] in ("none", "table", "table01") and case.get("bf", "none") in ("none", "table") else 2


def run_base(case, ctx):
    """SyntheticBanditDataset: every field of every batch is consistent with the configuration"""
    A = case["A"]
    rfun, bfun = reward_function(case), behavior_function(case)
    ac = action_context(case, A)
    ac0 = None if ac is None else ac.copy()
    n_def = case["ndef"] % A
    ds = D.SyntheticBanditDataset(
        n_actions=A, dim_context=case["dim"], reward_type=case["rt"], reward_function=rfun, reward_std=case["sd"],
        action_context=ac, behavior_policy_function=bfun, beta=case["beta"], n_deficient_actions=n_def, random_state=case["rs"],
    )
    ctx.check(ds.len_list == 1, "len_list")
    keys = {"n_rounds", "n_actions", "context", "action_context", "action", "position", "reward", "expected_reward", "pi_b", "pscore"}
    prev = None
    for n in case["ns"]:
        n = max(n, min_rounds(case))
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n)
        common(ctx, case, ds, bf, n, A, keys)
        ctx.same(bf["action_context"], np.eye(A) if ac0 is None else ac0, "action_context of the batch")
        mean, q = expected_of(ctx, case, ds, bf["context"], A)
        ctx.close(bf["expected_reward"], q, "expected_reward", rtol=1e-6)
        if bfun is None:
            logits = q
        elif isinstance(bfun, Table):
            ctx.same(bfun.calls[-1][0], bf["context"], "contexts given to the behavior policy function")
            ctx.same(bfun.calls[-1][1], bf["action_context"], "action contexts given to the behavior policy function")
            logits = bfun.values(bf["context"], bf["action_context"])
        else:
            logits = bfun(context=bf["context"], action_context=bf["action_context"], random_state=case["rs"])
        check_policy(ctx, logits, [case["beta"]] * n, bf["pi_b"][:, :, 0], n_def)
        check_rewards(ctx, case, ds, mean, bf)
        # sample_reward and the true value use the same expected rewards
        r = gen.rng(case, 9)
        other = r.randint(A, size=n)
        rw = ds.sample_reward(context=bf["context"], action=other)
        ctx.check(np.shape(rw) == (n,), "shape of sample_reward")
        check_rewards(ctx, case, ds, mean, dict(action=other, reward=rw))
        ad = gen.dist_rows(r, n, A, case["style"])[:, :, None]
        v = ds.calc_ground_truth_policy_value(expected_reward=bf["expected_reward"], action_dist=ad)
        want = math.fsum(float(ad[i, k, 0]) * float(bf["expected_reward"][i, k]) for i in range(n) for k in range(A)) / n
        ctx.close(v, want, "ground-truth policy value", scale=float(np.abs(bf["expected_reward"]).max()))
        if prev is not None:
            ctx.check(not (prev[:, 0][:, None] == bf["context"][:, 0][None, :]).any(), "a second batch repeats contexts of the first one")
        prev = bf["context"]
    if ac0 is not None:
        ctx.same(ac, ac0, "the caller's action_context")
    ctx.label("%s/%s" % (case["rt"], case["rf"]), "behavior %s" % case["bf"])
    if n_def:
        ctx.label("deficient actions")
    ctx.nontriv(max(case["ns"]) > 1)


BASE = fx(
    A=gen.some(2, 6, 20), dim=gen.some(1, 4, 10), rt=st.sampled_from(["binary", "continuous"]), rf=st.sampled_from(REWARD_FUNCS), sd=st.sampled_from([1.0, 0.1, 2, 0.5]),
    bf=st.sampled_from(["none", "none", "linear", "polynomial", "table"]), beta=st.sampled_from([0.0, 1.0, 3, -2.0, 0.3, 40.0, -40]), ndef=st.integers(0, 5),
    ac=st.sampled_from(["none", "real", "int"]), ac_dim=st.integers(2, 3), ns=st.lists(gen.some(1, 25, 200), min_size=1, max_size=2), rs=gen.RS, seed=SEED, style=gen.STYLES,
)


def run_multi(case, ctx):
    """SyntheticMultiLoggersBanditDataset: strata, per-logger and average policies"""
    A = case["A"]
    K = len(case["betas"])
    rhos = case["rhos"][:K]
    n_def = case["ndef"] % A
    betas0, rhos0 = list(case["betas"]), list(rhos)
    rfun = reward_function(case)
    ac = action_context(case, A)
    ds = D.SyntheticMultiLoggersBanditDataset(
        n_actions=A, dim_context=case["dim"], reward_type=case["rt"], reward_function=rfun, reward_std=case["sd"], action_context=ac, betas=case["betas"],
        rhos=rhos, n_deficient_actions=n_def, random_state=case["rs"],
    )
    ctx.check(case["betas"] == betas0 and rhos == rhos0, "the caller's betas or rhos were modified")
    ctx.check(ds.n_strata == K, "n_strata is %s", ds.n_strata)
    p = [v / math.fsum(rhos0) for v in rhos0]
    keys = {"n_rounds", "n_actions", "n_strata", "context", "action_context", "action", "position", "reward", "expected_reward", "stratum_idx", "pi_b", "pi_b_avg", "pscore", "pscore_avg"}
    for n in case["ns"]:
        n = max(n, min_rounds(case))
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n)
        common(ctx, case, ds, bf, n, A, keys)
        ctx.check(bf["n_strata"] == K, "n_strata of the batch")
        s = bf["stratum_idx"]
        ctx.check(np.shape(s) == (n,) and s.min() >= 0 and s.max() < K and (np.diff(s) >= 0).all(), "stratum_idx %s", s)
        cnt = np.bincount(s, minlength=K)
        for k in range(K):
            ctx.check(abs(cnt[k] - n * p[k]) <= 1 + 1e-6, "stratum %d has %d of %d rounds, ratio %g", k, cnt[k], n, p[k])
        mean, q = expected_of(ctx, case, ds, bf["context"], A)
        ctx.close(bf["expected_reward"], q, "expected_reward", rtol=1e-6)
        pi, avg = bf["pi_b"][:, :, 0], bf["pi_b_avg"][:, :, 0]
        check_policy(ctx, q, [betas0[k] for k in s], pi, n_def)
        for i in range(n):
            sup = np.flatnonzero(pi[i] > 0) if n_def else np.arange(A)
            want = np.zeros(A)
            for k in range(K):
                want[sup] += p[k] * softmax_rows(betas0[k] * q[i : i + 1, sup])[0]
            ctx.close(avg[i], want, "pi_b_avg of round %d" % i, rtol=1e-7)
            ctx.check(bf["pscore_avg"][i] == avg[i, bf["action"][i]], "pscore_avg of round %d is not pi_b_avg of its action", i)
        check_rewards(ctx, case, ds, mean, bf)
    ctx.label("%d loggers" % K)
    if n_def:
        ctx.label("deficient actions")
    ctx.nontriv(max(case["ns"]) > 1 and K > 1)


MULTI = fx(
    A=gen.some(2, 5, 15), dim=gen.some(1, 3, 8), rt=st.sampled_from(["binary", "continuous"]), rf=st.sampled_from(REWARD_FUNCS), sd=st.sampled_from([1.0, 0.1, 2]),
    betas=st.lists(st.sampled_from([0.0, 1.0, 5, -3.0, 0.2]), min_size=1, max_size=5), rhos=st.lists(st.sampled_from([1.0, 1, 0.5, 0.1, 3, 0.33]), min_size=5, max_size=5), ndef=st.integers(0, 4),
    ac=st.sampled_from(["none", "real", "int"]), ac_dim=st.integers(2, 3), ns=st.lists(gen.some(1, 25, 200), min_size=1, max_size=2), rs=gen.RS, seed=SEED,
)


def run_embed(case, ctx):
    """SyntheticBanditDatasetWithActionEmbeds: embeddings, their probabilities and the expected rewards fit together"""
    A, Dm, C = case["A"], case["cdim"], case["ncat"]
    n_def = case["ndef"] % A
    n_un, n_ir = case["nun"] % (Dm + 1), case["nir"] % Dm
    bfun = behavior_function(case)
    rfun = Table("prob" if case["rt"] == "binary" else "logit", case["seed"]) if case["rf"] == "table" else (Table("01", case["seed"]) if case["rf"] == "table01" and Dm - n_ir == 1 else None)
    ds = D.SyntheticBanditDatasetWithActionEmbeds(
        n_actions=A, dim_context=case["dim"], reward_type=case["rt"], reward_function=rfun, reward_std=case["sd"], behavior_policy_function=bfun, beta=case["beta"], n_cat_per_dim=C, n_cat_dim=Dm,
        p_e_a_param_std=case["std"], n_unobserved_cat_dim=n_un, n_irrelevant_cat_dim=n_ir, n_deficient_actions=n_def, random_state=case["rs"],
    )
    O = Dm - n_un
    keys = {"n_rounds", "n_actions", "action_context", "action_embed", "context", "action", "position", "reward", "expected_reward", "q_x_e", "p_e_a", "pi_b", "pscore"}
    first = None
    for n in case["ns"]:
        n = max(n, 1 if rfun is not None and case["bf"] in ("none", "table") else 4)
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n)
        common(ctx, case, ds, bf, n, A, keys)
        for k, sh in dict(action_embed=(n, O), q_x_e=(n, C, O), p_e_a=(A, C, O), action_context=(A, O)).items():
            ctx.check(np.shape(bf[k]) == sh, "shape of %s is %s, expected %s", k, np.shape(bf[k]), sh)
        p, q, e, a = bf["p_e_a"], bf["q_x_e"], bf["action_embed"], bf["action"]
        ctx.check((p >= 0).all(), "negative embedding probabilities")
        if O:
            ctx.close(p.sum(1), np.ones((A, O)), "total embedding probability of an action")
            for m in (e, bf["action_context"]):
                ctx.check(np.issubdtype(m.dtype, np.integer) and m.min() >= 0 and m.max() < C, "embedding category out of range")
            for d in range(O):
                ctx.check((p[a, e[:, d], d] > 0).all(), "a logged embedding has probability zero given the logged action")
        if first is None:
            first = (p.copy(), bf["action_context"].copy())
        else:
            ctx.same(p, first[0], "p_e_a of a second batch")
            ctx.same(bf["action_context"], first[1], "action_context of a second batch")
        if n_un == 0:
            # q(x,a) = sum_d w_d sum_c p(c|a,d) q(x,c,d) with fixed weights w on the simplex, zero on irrelevant dimensions
            M = np.stack([q[:, :, d] @ p[:, :, d].T for d in range(O)], -1)
            R = list(range(n_ir, O))
            if "w" not in case:
                w = np.zeros(O)
                if len(R) == 1:
                    w[R[0]] = 1.0
                else:
                    sol = np.linalg.lstsq(M.reshape(-1, O)[:, R], bf["expected_reward"].reshape(-1), rcond=None)
                    w[R] = sol[0]
                    if sol[2] < len(R) or sol[3][-1] < 1e-6 * sol[3][0]:
                        w = None
                if w is not None:
                    ctx.check((w >= -1e-5).all() and abs(w.sum() - 1) < 1e-5, "weights of the embedding dimensions in the expected reward are not a distribution: %s", w)
                    case["w"] = w
            if "w" in case:
                ctx.close(bf["expected_reward"], M @ case["w"], "expected_reward from q_x_e and p_e_a (weights %s)" % np.round(case["w"], 4), rtol=1e-5, atol=1e-7)
                ctx.label("weights identified")
                f = sum(case["w"][d] * q[np.arange(n), e[:, d], d] for d in range(O))
                if case["rt"] == "binary":
                    sure = (f <= 1e-9) | (f >= 1 - 1e-9)
                    ctx.check((np.abs(bf["reward"] - f)[sure] < 1e-6).all(), "binary reward differs from its 0/1 expected value given the embedding")
                else:
                    ctx.check((np.abs(bf["reward"] - f) <= 9 * float(case["sd"]) + 1e-4).all(), "a reward is more than 9 standard deviations from its mean given the embedding")
        if isinstance(rfun, Table):
            for c in rfun.calls[-(Dm if len(rfun.calls) >= Dm else 1) :]:
                ctx.same(c[0], bf["context"], "contexts given to the reward function")
        if bfun is None:
            logits = bf["expected_reward"]
        elif isinstance(bfun, Table):
            logits = bfun.values(bf["context"], np.eye(A))
        else:
            logits = bfun(context=bf["context"], action_context=np.eye(A), random_state=case["rs"])
        check_policy(ctx, logits, [case["beta"]] * n, bf["pi_b"][:, :, 0], n_def)
    ctx.nontriv(max(case["ns"]) > 1)
    if n_un:
        ctx.label("unobserved dimensions")
    if n_ir:
        ctx.label("irrelevant dimensions")


EMBED = fx(
    A=gen.some(2, 5, 15), dim=gen.some(1, 3, 8), rt=st.sampled_from(["binary", "continuous"]), rf=st.sampled_from(["none", "table", "table01", "none"]), sd=st.sampled_from([1.0, 0.1, 2]),
    bf=st.sampled_from(["none", "linear", "table"]), beta=st.sampled_from([0.0, 1.0, 3, -2.0]), cdim=gen.some(1, 4, 7), ncat=gen.some(2, 5, 9), std=st.sampled_from([1.0, 0.0, 3]),
    nun=st.sampled_from([0, 0, 0, 1, 2, 3, 4]), nir=st.sampled_from([0, 0, 1, 2, 3]), ndef=st.sampled_from([0, 0, 1, 2]), ns=st.lists(gen.some(1, 20, 150), min_size=1, max_size=2), rs=gen.RS, seed=SEED,
)


def feats(X, degree):
    """polynomial features by definition (graded lexicographic order like scikit-learn's)"""
    X = np.asarray(X, float)
    cols = []
    for d in range(degree + 1):
        for comb in itertools.combinations_with_replacement(range(X.shape[1]), d):
            v = np.ones(len(X))
            for c in comb:
                v = v * X[:, c]
            cols.append(v)
    return np.stack(cols, 1)


DEG = dict(linear=1, polynomial=3, sparse=4, logistic=1, logistic_polynomial=3, logistic_sparse=4)


def run_reward_function(case, ctx):
    """library reward functions == documented polynomial form with the given coefficients, standardised, then the logistic link"""
    r = gen.rng(case)
    n, A, dx, da = case["n"], case["A"], case["dim"], case["ac_dim"]
    X = r.normal(size=(n, dx))
    Z = r.normal(size=(A, da)) if case["ac"] == "real" else r.randint(-2, 3, size=(A, da))
    k = case["f"]
    deg = DEG[k]
    seen = {}

    def coefs(n_rounds, effective_dim_action_context, effective_dim_context, random_, **kw):
        seen.update(n=n_rounds, ea=effective_dim_action_context, ec=effective_dim_context)
        if case["dynamic"]:
            out = (r.uniform(-1, 1, (n_rounds, effective_dim_context)), r.uniform(-1, 1, (n_rounds, effective_dim_action_context)), r.uniform(-1, 1, (n_rounds, effective_dim_context, effective_dim_action_context)))
        else:
            out = (r.uniform(-1, 1, effective_dim_context), r.uniform(-1, 1, effective_dim_action_context), r.uniform(-1, 1, (effective_dim_context, effective_dim_action_context)))
        seen["c"] = out
        return out

    got = LIB[k](context=X, action_context=Z, coef_function=coefs, z_score=case["z"], random_state=case["rs"])
    fxx, fa = feats(X, deg), feats(Z, deg)
    ctx.check(got.shape == (n, A), "shape %s", got.shape)
    if "sparse" in k:
        # probe with unit coefficients which features are in use: they must be distinct polynomial features, fewer than all of them
        def probe(which, j):
            def unit(n_rounds, effective_dim_action_context, effective_dim_context, random_, **kw):
                c1, c2, c3 = np.zeros(effective_dim_context), np.zeros(effective_dim_action_context), np.zeros((effective_dim_context, effective_dim_action_context))
                (c1 if which == "x" else c2)[j] = 1.0
                return c1, c2, c3

            return D.sparse_reward_function(context=X, action_context=Z, coef_function=unit, z_score=False, random_state=case["rs"]) / deg

        ec, ea = seen["ec"], seen["ea"]
        ctx.check(1 <= ec and ec < max(fxx.shape[1], 2) and 1 <= ea and ea < max(fa.shape[1], 2), "sparse function uses %d of %d context and %d of %d action features", ec, fxx.shape[1], ea, fa.shape[1])
        x = np.stack([probe("x", j)[:, 0] for j in range(ec)], 1)
        a = np.stack([probe("a", j)[0] for j in range(ea)], 1)
        for F, full, nm in ((x, fxx, "context"), (a, fa, "action")):
            for j in range(F.shape[1]):
                ctx.check(min(np.abs(full[:, c] - F[:, j]).max() for c in range(full.shape[1])) < 1e-9, "effective %s feature %d is not one of the polynomial features", nm, j)
            if nm == "context" or case["ac"] == "real":
                ctx.check(len(set(np.round(F.T, 9).tobytes()[i * 8 * F.shape[0] : (i + 1) * 8 * F.shape[0]] for i in range(F.shape[1]))) == F.shape[1], "a %s feature is used twice", nm)
    else:
        x, a = fxx, fa
        ctx.check((seen["ec"], seen["ea"]) == (x.shape[1], a.shape[1]), "coefficient function was asked for %s coefficients, expected %s", (seen["ec"], seen["ea"]), (x.shape[1], a.shape[1]))
    ctx.check(seen["n"] == n, "coefficient function was told %s rounds", seen["n"])
    cx, ca, cxa = seen["c"]
    out = np.zeros((n, A))
    for i in range(n):
        c1, c2, c3 = (cx[i], ca[i], cxa[i]) if case["dynamic"] else (cx, ca, cxa)
        for b in range(A):
            out[i, b] = x[i] @ c1 + a[b] @ c2 + x[i] @ c3 @ a[b]
    if case["z"]:
        if out.std() < 1e-6:
            return
        out = (out - out.mean()) / out.std()
    out = deg * out
    if k.startswith("logistic"):
        out = 1 / (1 + np.exp(-np.clip(out, -700, 700)))
    ctx.close(got, out, k, rtol=1e-6, scale=1.0)
    ctx.label(k, "per-round coefficients" if case["dynamic"] else "static coefficients")
    ctx.nontriv(n > 1)


RF = fx(
    n=gen.some(2, 7, 120), A=gen.some(2, 4, 25), dim=gen.some(1, 2, 6), ac_dim=st.integers(1, 2), ac=st.sampled_from(["real", "int"]), f=st.sampled_from(sorted(LIB)), dynamic=st.booleans(), z=st.booleans(), rs=gen.RS, seed=SEED,
)


def run_default_functions(case, ctx):
    """with the default random coefficients: same seed, same function of (x, a); logistic versions are the sigmoid of the plain ones; behaviour logits standardised"""
    r = gen.rng(case)
    n, A = case["n"], case["A"]
    X = r.normal(size=(n, case["dim"]))
    Z = r.normal(size=(A, 2))
    for plain in ("linear", "polynomial", "sparse"):
        kw = dict(action_context=Z, random_state=case["rs"], z_score=False)
        full = LIB[plain](context=X, **kw)
        sub = r.permutation(n)[: max(1, n // 2)]
        ctx.close(LIB[plain](context=X[sub], **kw), full[sub], "%s_reward_function of a subset of the contexts" % plain, rtol=1e-6)
        perm = r.permutation(A)
        ctx.close(LIB[plain](context=X, action_context=Z[perm], random_state=case["rs"], z_score=False), full[:, perm], "%s_reward_function with permuted actions" % plain, rtol=1e-6)
        lg = LIB[{"linear": "logistic", "polynomial": "logistic_polynomial", "sparse": "logistic_sparse"}[plain]](context=X, **kw)
        with np.errstate(over="ignore"):
            ctx.close(lg, 1 / (1 + np.exp(-full)), "logistic version of %s" % plain, rtol=1e-6)
        z = LIB[plain](context=X, action_context=Z, random_state=case["rs"])
        if full.std() > 1e-6:
            ctx.close(z, DEG[plain] * (full - full.mean()) / full.std(), "standardised %s_reward_function" % plain, rtol=1e-6)
    for f, deg in ((D.linear_behavior_policy, 1), (D.polynomial_behavior_policy, 3)):
        g = f(context=X, action_context=Z, random_state=case["rs"])
        # generic form: logits = c + s * (phi(x) M psi(a) + theta psi(a)) with mean 0 and std degree
        ctx.check(g.shape == (n, A), "shape of the logits")
        ctx.close([g.mean(), g.std()], [0.0, deg], "mean and standard deviation of the behaviour logits", atol=1e-7)
        perm = r.permutation(A)
        ctx.close(f(context=X, action_context=Z[perm], random_state=case["rs"]), g[:, perm], "behaviour logits with permuted actions", rtol=1e-6)
        rp = r.permutation(n)
        ctx.close(f(context=X[rp], action_context=Z, random_state=case["rs"]), g[rp], "behaviour logits with permuted rounds", rtol=1e-6)
    ctx.nontriv()


DF = fx(n=gen.some(2, 9, 200), A=gen.some(2, 4, 30), dim=gen.some(1, 3, 10), rs=gen.RS, seed=SEED)

# with this seed a concentration parameter of the Dirichlet distribution of the dimensions' importance is tiny
NAN_IMPORTANCE = dict(A=3, dim=2, rt="binary", rf="none", sd=1.0, bf="none", beta=1.0, cdim=2, ncat=2, std=1.0, nun=0, nir=1, ndef=0, ns=[5], rs=342, seed=1)

SUBS = [
    Sub("base", BASE, run_base, 260, budget=(60, 700)),
    Sub("multi", MULTI, run_multi, 200, budget=(60, 700)),
    Sub("embed", EMBED, run_embed, 200, budget=(60, 700), examples=[NAN_IMPORTANCE]),
    Sub("reward_function", RF, run_reward_function, 200, budget=(60, 500)),
    Sub("default_functions", DF, run_default_functions, 80, budget=(40, 400)),
]
gen.huge(SUBS, "base multi embed", hi=3000, quick=1, field="ns")
gen.huge(SUBS, "reward_function", hi=3000, quick=1)

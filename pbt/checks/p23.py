"""P23: offline policy learners built on supervised models (IPWLearner, QLearner)."""
import itertools

import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from .. import gen
from ..core import Discard, Sub
from ..gen import SEED, fx
from ..stat import freq
from ..stubs import TabularClassifier, TabularRegressor

from obp.policy import IPWLearner, QLearner

PROPERTY = "P23"
RULE = (
    "Random logged data (actions and positions unbalanced, actions never logged, zero rewards, missing propensities), tabular and scikit-learn base models, temperatures and list lengths. "
    "Non-trivial: at least two distinct actions are logged at some position and the learned scores are not all equal."
)


def data(case):
    r = gen.rng(case)
    n, A = case["n"], case["A"]
    L = min(case["L"], A)
    top = max(1, A - case["unlogged"])
    pos = r.randint(L, size=n)
    for p in range(L):
        if not (pos == p).any():
            raise Discard("a position has no rounds")
    x = r.randint(-1, 2, size=(n, case["dim"])).astype(float)
    act = r.randint(top, size=n)
    if case["offset"]:
        act = A - 1 - act
    rew = gen.rewards(r, n, case["rk"])
    if case["learner"] == "ipw":
        rew = np.abs(rew)
    ps = gen.pscores(r, n, case["pstyle"])
    grid = np.array(list(itertools.product([-1.0, 0.0, 1.0, 2.0], repeat=case["dim"])))
    test = grid[r.permutation(len(grid))[: (7 if r.randint(4) else 90)]]
    return n, A, L, x, act, rew, ps, pos, test, r


def one_hot(idx, A):
    return np.eye(A)[np.asarray(idx, int)]


def soft(s):
    e = np.exp(s - s.max())
    return e / e.sum()


def check_sampling(case, ctx, lr, scores, xs, A, L, what):
    """sample_action ranks score/tau + independent Gumbel noise: Plackett-Luce frequencies, for rounds with different contexts in any order"""
    tau = case["tau"]
    N = case.get("N", 900)
    K = len(xs)
    row = gen.rng(dict(seed=case["seed"] + 1)).permutation(np.repeat(np.arange(K), N))
    s = lr.sample_action(context=xs[row], tau=tau, random_state=case["rs"])
    s2 = lr.sample_action(context=xs[row], tau=tau, random_state=case["rs"])
    ctx.same(s, s2, "%s: sampled actions with the same random_state" % what)
    ctx.check(s.shape == (K * N, A, L) and np.isin(s, (0, 1)).all() and (s.sum(axis=1) == 1).all() and (s.sum(axis=2) <= 1).all(), "%s: sampled lists are not lists of distinct actions", what)
    for k in range(K):
        one_context(ctx, tau, N, s[row == k], scores[k], A, L, what)


def one_context(ctx, tau, N, s, score, A, L, what):
    p = soft(score / tau)
    k = s.sum(axis=0)
    for a in range(A):
        freq(ctx, int(k[a, 0]), N, float(p[a]), float(p[a]), "%s: action %d sampled in the first slot (temperature %g)" % (what, a, tau))
    if L > 1:
        for a in range(A):
            p2 = sum(float(p[b]) * float(p[a]) / (1 - float(p[b])) for b in range(A) if b != a and p[b] < 1 - 1e-9)
            if max(p) < 1 - 1e-9:
                freq(ctx, int(k[a, 1]), N, p2, p2, "%s: action %d sampled in the second slot (temperature %g)" % (what, a, tau))
        if max(p) < 0.9:
            # the two slots are drawn jointly without replacement
            a, b = int(np.argsort(-p)[0]), int(np.argsort(-p)[1])
            j = int(((s[:, a, 0] == 1) & (s[:, b, 1] == 1)).sum())
            q = float(p[a] * p[b] / (1 - p[a]))
            freq(ctx, j, N, q, q, "%s: actions %d, %d in the first two slots" % (what, a, b))


def run_ipw(case, ctx):
    """IPWLearner: per-position classifier of the logged action weighted by reward / propensity; scores by action; softmax and Gumbel sampling"""
    case = dict(case, learner="ipw")
    n, A, L, x, act, rew, ps, pos, test, r = data(case)
    kind = case["model"]
    mk = dict(
        tab=lambda: TabularClassifier(), tree=lambda: DecisionTreeClassifier(max_depth=3, random_state=0), logit=lambda: LogisticRegression(max_iter=300), default=lambda: LogisticRegression(),
    )[kind]
    if kind != "tab":
        for p in range(L):
            w = rew[pos == p] / ps[pos == p]
            if len(set(act[(pos == p)][w > 0].tolist())) < 2:
                raise Discard("scikit-learn classifiers need two classes")
    lr = IPWLearner(n_actions=A, len_list=L, **({} if kind == "default" else dict(base_classifier=mk())))
    pscore = None if case["no_ps"] else ps
    snap = gen.snapshot(x, act, rew, ps, pos)
    lr.fit(context=x, action=act, reward=rew, pscore=pscore, position=None if L == 1 and case["no_pos"] else pos)
    gen.unchanged(ctx, [x, act, rew, ps, pos], snap, "fit")
    score = np.zeros((len(test), A, L))
    pred = np.zeros((len(test), A, L))
    for p in range(L):
        i = (pos == p) if L > 1 else np.ones(n, bool)
        m = mk().fit(x[i], act[i], sample_weight=rew[i] / (np.full(i.sum(), 1.0 / (act.max() + 1)) if case["no_ps"] else ps[i]))
        pp = m.predict_proba(test)
        for k, a in enumerate(m.classes_):
            score[:, int(a), p] = pp[:, k]
        pred[:, :, p] = one_hot(m.predict(test), A)
        if len(m.classes_) > 1:
            ctx.nontriv(np.ptp(pp) > 1e-9)
        if len(m.classes_) < A:
            ctx.label("unlogged action")
    ctx.close(lr.predict(context=test), pred, "predicted actions")
    ctx.close(lr.predict_score(context=test), score, "scores")
    k = r.randint(len(test))
    ctx.close(lr.predict_score(context=test[k : k + 1]), score[k : k + 1], "scores of a single round")
    if L == 1:
        want = np.stack([soft(score[i, :, 0] / case["tau"]) for i in range(len(test))])[:, :, None]
        ctx.close(lr.predict_proba(context=test, tau=case["tau"]), want, "choice probabilities at temperature %g" % case["tau"])
    k = r.permutation(len(test))[:2]
    check_sampling(case, ctx, lr, score[k].mean(axis=2), test[k], A, L, "IPWLearner")
    # refitting forgets the first fit
    lr.fit(context=x, action=act, reward=rew[::-1].copy(), pscore=pscore, position=pos)
    new = IPWLearner(n_actions=A, len_list=L, base_classifier=mk())
    if kind == "tab":
        new.fit(context=x, action=act, reward=rew[::-1].copy(), pscore=pscore, position=pos)
        ctx.close(lr.predict_score(context=test), new.predict_score(context=test), "scores after fitting again")
    ctx.label(kind)


BASE = dict(
    n=gen.some(2, 40, 300), A=gen.some(2, 5, 12), L=gen.some(1, 3, 6), dim=gen.some(1, 2, 5), unlogged=st.integers(0, 2), offset=st.booleans(), rk=gen.REWARDS, pstyle=gen.STYLES, no_ps=st.booleans(), no_pos=st.booleans(),
    tau=st.sampled_from([1.0, 1, 0.5, 0.1, 3.0, 0.02]), rs=gen.RS, seed=SEED,
)
IPW = fx(model=st.sampled_from(["tab", "tab", "tree", "logit", "default"]), **BASE)


def run_q(case, ctx):
    """QLearner: greedy, softmax and Gumbel policies of the reward model fitted to the logged data"""
    case = dict(case, learner="q")
    n, A, L, x, act, rew, ps, pos, test, r = data(case)
    clf = case["model"] == "clf"
    if clf:
        rew = (rew > np.median(rew)).astype(int)
        for p in range(L):
            if len(set(rew[pos == p].tolist())) < 2:
                raise Discard("one class")
    method = case["method"]
    if method != "normal" and case["no_ps"] and act.max() == 0:
        raise Discard("no propensities")
    mk = (lambda: TabularClassifier()) if clf else (lambda: TabularRegressor(default=case["default"])) if case["model"] == "tab" else (lambda: DecisionTreeRegressor(max_depth=3, random_state=0))
    lr = QLearner(n_actions=A, len_list=L, base_model=mk(), fitting_method=method)
    snap = gen.snapshot(x, act, rew, ps, pos)
    lr.fit(context=x, action=act, reward=rew, pscore=None if case["no_ps"] else ps, position=None if L == 1 and case["no_pos"] else pos)
    gen.unchanged(ctx, [x, act, rew, ps, pos], snap, "fit")
    q = np.zeros((len(test), A, L))
    for p in range(L):
        i = (pos == p) if L > 1 else np.ones(n, bool)
        pp = np.full(i.sum(), 1.0 / (act.max() + 1)) if case["no_ps"] else ps[i]
        w = None if method == "normal" else (1.0 / A) / pp if method == "iw" else (1.0 / A) * (1 - pp) / pp**2
        if case["model"] == "tree" and w is not None and not (w > 0).all():
            raise Discard("zero weights")
        m = mk().fit(np.c_[x[i], one_hot(act[i], A)], rew[i], **({} if w is None else dict(sample_weight=w)))
        for a in range(A):
            X = np.c_[test, np.tile(np.eye(A)[a], (len(test), 1))]
            q[:, a, p] = m.predict_proba(X)[:, 1] if clf else m.predict(X)
    sc = max(1.0, float(np.abs(q).max()))
    got = lr.predict_score(context=test)
    ctx.close(got, q, "estimated rewards (%s)" % method, scale=sc)
    greedy = lr.predict(context=test)
    ctx.check(greedy.shape == (len(test), A, L) and np.isin(greedy, (0, 1)).all() and (greedy.sum(axis=1) == 1).all(), "predicted actions are not one action per slot")
    for i in range(len(test)):
        for p in range(L):
            ctx.check(q[i, int(greedy[i, :, p].argmax()), p] >= q[i, :, p].max() - 1e-7 * sc, "slot %d: action %d is not the best of %s", p, int(greedy[i, :, p].argmax()), q[i, :, p])
    tau = case["tau"]
    want = np.stack([np.stack([soft(q[i, :, p] / tau) for p in range(L)], axis=1) for i in range(len(test))])
    if sc / tau < 1e4:
        ctx.close(lr.predict_proba(context=test, tau=tau), want, "choice probabilities at temperature %g" % tau, rtol=1e-5)
        k = r.permutation(len(test))[:2]
        check_sampling(case, ctx, lr, q[k].mean(axis=2), test[k], A, L, "QLearner")
    ctx.nontriv(np.ptp(q) > 1e-9 and len(set(act.tolist())) > 1)
    ctx.label(method, case["model"])


Q = fx(model=st.sampled_from(["tab", "tab", "clf", "tree"]), method=st.sampled_from(["normal", "normal", "iw", "mrdr"]), default=st.sampled_from([0.0, 0.7, -1.5]), **BASE)

SUBS = [Sub("ipw_learner", IPW, run_ipw, 250, budget=(80, 600)), Sub("q_learner", Q, run_q, 250, budget=(80, 600))]
gen.huge(SUBS, "ipw_learner q_learner", hi=4000, quick=2)

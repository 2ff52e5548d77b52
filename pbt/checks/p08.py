"""P08: marginalised IPW (action embeddings): weights, self-normalisation and data-driven embedding selection."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats
from sklearn.base import BaseEstimator, ClassifierMixin

from .. import families as F, gen, ref
from ..core import Sub
from ..gen import fmean

import obp.ope as ope

PROPERTY = "P08"
RULE = (
    "Logged data with 1-4 categorical embedding dimensions, true p(e|a) or a recording classifier for pi(a|x,e); the reference "
    "computes marginal weights per round by summation over actions and runs the SLOPE selection on reference (estimate, width) "
    "pairs. Non-trivial: two embedding dimensions or more / more than one action logged."
)


class StubClassifier(ClassifierMixin, BaseEstimator):
    """deterministic fake of pi(a|x,e): records fit arguments, predicts from the row content"""

    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.X_, self.y_ = np.array(X), np.array(y)
        return self

    def predict_proba(self, X):
        X = np.asarray(X, dtype=float)
        z = np.stack([np.abs(np.sin(X @ (np.arange(X.shape[1]) + 1.0) + 1.7 * c + self.salt)) + 0.05 for c in self.classes_], 1)
        return z / z.sum(1, keepdims=True)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def _cls(sn):
    return ope.SelfNormalizedMarginalizedInverseProbabilityWeighting if sn else ope.MarginalizedInverseProbabilityWeighting


def run_true(case, ctx):
    """MIPW / SNMIPW with the true p(e|a)"""
    f = F.embed(case)
    if f is None:
        return
    ctx.label(f.name)
    ctx.nontriv(case["D"] > 1 and len(set(f.terms)) > 1)
    kw = dict(f.kw)
    if case["L"] == 1:
        kw.pop("position")
    F.warm(f, case)
    ctx.close(f.est.estimate_policy_value(**kw), fmean(f.terms), f.name, scale=ref.scale_of(f.terms))


def _one_hot(emb):
    cols = []
    for d in range(emb.shape[1]):
        vals = sorted(set(emb[:, d].tolist()))
        for v in vals[1:]:
            cols.append((emb[:, d] == v).astype(float))
    return np.stack(cols, 1) if cols else np.zeros((emb.shape[0], 0))


def est_terms(d, ctx_x, dims, sn, salt):
    """terms with pi(a|x,e) predicted by the stub: w = sum_a pi_e/pi_b * pi(a|x,e)"""
    x = np.c_[ctx_x, _one_hot(d.emb[:, list(dims)])]
    st_ = StubClassifier(salt).fit(x, d.action)
    p = st_.predict_proba(x)
    w = []
    for i in range(d.n):
        s = 0.0
        for j, a in enumerate(st_.classes_):
            b = float(d.pi_b[i, a, d.position[i]])
            if b > 0:
                s += float(d.pi_e[i, a, d.position[i]]) / b * float(p[i, j])
        w.append(s)
    if sn:
        m = fmean(w)
        if m <= 0:
            return None
        w = [v / m for v in w]
    return [w[i] * float(d.reward[i]) for i in range(d.n)]


def run_estimated(case, ctx):
    """w(x,e) = E_{pi(a|x,e)}[pi_e/pi_b] with a user-given classifier; actions never logged get weight 0"""
    d = F.embed_data(case)
    x = d.r.normal(size=(d.n, case["dx"]))
    if case["zero_b"]:
        # the logging policy may have zero probability for actions it never chose
        for i in range(d.n):
            for a in range(d.A):
                if a != d.action[i] and d.r.rand() < 0.3:
                    d.pi_b[i, a, :] = 0.0
            d.pi_b[i] /= d.pi_b[i].sum(0, keepdims=True)
    terms = est_terms(d, x, range(d.D), case["sn"], case["salt"])
    if terms is None:
        return
    ctx.nontriv(len(set(d.action.tolist())) > 1)
    if len(set(d.action.tolist())) < d.A:
        ctx.label("some action never logged")
    est = _cls(case["sn"])(n_actions=d.A, pi_a_x_e_estimator=StubClassifier(case["salt"]))
    kw = dict(context=x, reward=d.reward, action=d.action, action_embed=d.emb, pi_b=d.pi_b, action_dist=d.pi_e, position=d.position)
    ctx.close(est.estimate_policy_value(**kw), fmean(terms), "MIPW with estimated pi(a|x,e)", scale=ref.scale_of(terms))


C = math.sqrt(6) - 1


def _var(t):
    m = fmean(t)
    return fmean([(x - m) ** 2 for x in t])


class Ambiguous(Exception):
    pass


def select(method, D, min_dim, stat):
    """SLOPE over embedding subsets; stat(dims) -> (theta, width).  Returns the set of acceptable answers' dims.
    Near-ties (in the ordering or in the acceptance test) make the reference answer undefined -> Ambiguous."""
    full = tuple(range(D))
    acc = [stat(full)]
    chosen = full

    def ok(th, c):
        for tj, cj in acc:
            lhs, rhs = abs(tj - th), c + C * cj
            if abs(lhs - rhs) <= 1e-9 * max(1.0, rhs, lhs):
                raise Ambiguous
            if lhs > rhs:
                return False
        return True

    def order(cands):
        cands = sorted(cands, key=lambda z: -z[0][1])
        for u, v in zip(cands, cands[1:]):
            if abs(u[0][1] - v[0][1]) <= 1e-9 * max(1.0, u[0][1]):
                raise Ambiguous
        return cands

    if method == "exact":
        for k in range(D - 1, min_dim - 1, -1):
            for (th, c), dims in order([(stat(s), s) for s in itertools.combinations(full, k)]):
                if not ok(th, c):
                    return acc[-1][0], chosen
                acc.append((th, c))
                chosen = dims
    else:
        cur = full
        while len(cur) > min_dim:
            cands = [(stat(tuple(x for x in cur if x != d)), tuple(x for x in cur if x != d)) for d in cur]
            for (th, c), dims in order(cands):
                if not ok(th, c):
                    return acc[-1][0], chosen
                acc.append((th, c))
                chosen = dims
            cur = chosen
    return acc[-1][0], chosen


def selected(case, ctx):
    """-> estimator, its arguments, the value and the terms of the subset of dimensions the SLOPE rule selects (None: ambiguous)"""
    d = F.embed_data(case)
    sn = case["sn"]
    min_dim = min(case["min_dim"], d.D)
    x = d.r.normal(size=(d.n, 2))
    if case["scale"] > 1:
        d.reward = d.reward * case["scale"] ** d.r.rand(d.n)

    def terms(dims):
        t = F.embed_terms(d, dims, sn) if case["true_p"] else est_terms(d, x, dims, sn, case["salt"])
        if t is None:
            raise Ambiguous
        return t

    def stat(dims):
        t = terms(dims)
        return fmean(t), math.sqrt(_var(t) / (d.n - 1)) * stats.t.ppf(1 - case["delta"] / 2, d.n - 1)

    try:
        want, dims = select(case["method"], d.D, min_dim, stat) if d.D > 1 else (stat((0,))[0], (0,))
    except Ambiguous:
        ctx.label("tie: selection ambiguous")
        return None
    ctx.label("selected %d of %d dims" % (len(dims), d.D))
    ctx.nontriv(d.D > 1 and len(dims) < d.D)
    est = _cls(sn)(n_actions=d.A, embedding_selection_method=case["method"], min_emb_dim=min_dim, delta=case["delta"], pi_a_x_e_estimator=StubClassifier(case["salt"]))
    kw = dict(context=x, reward=d.reward, action=d.action, action_embed=d.emb, pi_b=d.pi_b, action_dist=d.pi_e, position=d.position)
    if case["true_p"]:
        kw["p_e_a"] = d.pea
    return est, kw, want, terms(dims), dims


def run_select(case, ctx):
    """exact and greedy embedding selection return the estimate the SLOPE rule selects"""
    s = selected(case, ctx)
    if s is None:
        return
    est, kw, want, _, dims = s
    ctx.close(est.estimate_policy_value(**kw), want, "%s selection (kept dims %s)" % (case["method"], dims), scale=max(1.0, float(np.abs(kw["reward"]).max())))


def select_case(**extra):
    return F.embed_case(
        method=st.sampled_from(["exact", "greedy"]), min_dim=st.integers(1, 3), true_p=st.booleans(), salt=st.integers(0, 20),
        delta=st.sampled_from([0.05, 0.3, 0.9]), scale=st.sampled_from([1, 1, 100]), **extra
    ).map(lambda c: dict(c, D=c["D"] + 1))


SUBS = [
    Sub("true_p_e_a", F.embed_case(), run_true, 800, 15000),
    Sub("estimated", F.embed_case(dx=st.integers(1, 3), salt=st.integers(0, 20), zero_b=st.booleans()), run_estimated, 600, 10000),
    Sub("selection", select_case(), run_select, 900, 15000),
]
gen.huge(SUBS, "true_p_e_a estimated", hi=5000)

"""P16: reduction of multi-class classification data to bandit data."""
import math

import numpy as np
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, ClassifierMixin

from .. import gen
from ..core import Sub
from ..gen import SEED, fx

from obp import dataset as D

PROPERTY = "P16"
RULE = (
    "Random labelled data (labels with gaps, negative, float, any class sizes; feature rows carry an id), rule-based classifiers, "
    "alpha, deficient actions, splits and seeds. Non-trivial: at least three classes, or deficient actions, or labels that are not 0..K-1."
)

LOG = []


class Rule(BaseEstimator, ClassifierMixin):
    """predicts a function of the features and of the training set among the classes seen in training; records its training data"""

    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.key_ = int(np.sum(X[:, 0] * (y + 1)))  # what it was trained on shows in its predictions
        LOG.append((self.salt, np.array(X), np.array(y)))
        return self

    def rule(self, X):
        return (np.abs(X[:, 0] * 7 + self.salt * 3 + self.key_ % 1009).astype(int) // 3) % len(self.classes_)

    def predict(self, X):
        return self.classes_[self.rule(X)]


def run(case, ctx):
    """logged data, policies and true values of the reduction"""
    r = gen.rng(case)
    K = case["K"]
    n = max(case["n"], 2 * K + 2)
    if case["ev"] == "half":
        case["ev"] = n // 2
    if case["ev"] in (0.1, 0.9):
        n = max(n, 30)
    cls = np.concatenate([np.arange(K), np.arange(K), r.randint(K, size=n - 2 * K)])
    cls = cls[r.permutation(n)]
    kind = case["labels"]
    names = {"std": np.arange(K), "gap": np.cumsum(r.randint(1, 4, size=K)), "neg": np.arange(K) - K // 2, "float": np.arange(K) * 1.0 + 1.0, "huge": np.arange(K) * 1000 + 5, "2^60": np.arange(K) + 2**60, "close": 1.0 + np.arange(K) * 2.0**-50}[kind]
    y = names[cls]
    X = np.c_[np.arange(n) + 0.0, r.normal(size=(n, 2))]
    X0, y0 = X.copy(), y.copy()
    ndef = case["ndef"] % K
    alpha_b = case["ab"]
    own_b, own_e = Rule(1), Rule(2)
    ds = D.MultiClassToBanditReduction(X=X, y=y, base_classifier_b=own_b, alpha_b=alpha_b, n_deficient_actions=ndef)
    ctx.check(ds.n_actions == K and ds.n_rounds == n and ds.len_list == 1, "n_actions %s, n_rounds %s", ds.n_actions, ds.n_rounds)
    ctx.same(ds.y, cls, "encoded labels")
    for split in range(2):
        del LOG[:]
        ds.split_train_eval(eval_size=case["ev"], random_state=case["rs"] + split)
        id_tr, id_ev = ds.X_tr[:, 0].astype(int), ds.X_ev[:, 0].astype(int)
        ctx.check(sorted(id_tr.tolist() + id_ev.tolist()) == list(range(n)), "train and evaluation sets do not partition the data")
        n_ev = len(id_ev)
        want_ev = case["ev"] if isinstance(case["ev"], int) else math.ceil(case["ev"] * n)
        ctx.check(abs(n_ev - want_ev) <= 1 and ds.n_rounds_ev == n_ev, "evaluation set has %d rounds, expected %d", n_ev, want_ev)
        ctx.same(ds.X_ev, X0[id_ev], "features of the evaluation set")
        ctx.same(ds.y_ev, cls[id_ev], "labels of the evaluation set")
        ctx.same(ds.y_tr, cls[id_tr], "labels of the training set")

        def trained(salt):
            """whatever was trained since the split was trained on its training part"""
            for t in LOG:
                if t[0] == salt:
                    o = np.argsort(t[1][:, 0])
                    ctx.same(t[1][o], X0[np.sort(id_tr)], "training features of the classifier")
                    ctx.same(t[2][o], cls[np.sort(id_tr)], "training labels of the classifier")

        for rep in range(2):
            bf = ds.obtain_batch_bandit_feedback(random_state=case["rs"] + rep)
            ctx.check(set(bf) == {"n_actions", "n_rounds", "context", "action", "reward", "position", "pi_b", "pscore"} and bf["n_actions"] == K and bf["n_rounds"] == n_ev and bf["position"] is None, "keys of the batch")
            ctx.same(bf["context"], X0[id_ev], "contexts of the logged data")
            a = bf["action"]
            pi = bf["pi_b"]
            ctx.check(pi.shape == (n_ev, K, 1) and a.shape == (n_ev,), "shapes of pi_b and action")
            ctx.check(a.min() >= 0 and a.max() < K and np.issubdtype(a.dtype, np.integer), "actions out of range")
            trained(1)
            m = Rule(1).fit(X0[id_tr], cls[id_tr])
            del LOG[:]
            pred = m.predict(X0[id_ev])
            for i in range(n_ev):
                w = np.full(K, (1 - alpha_b) / K)
                w[pred[i]] += alpha_b
                if ndef:
                    dead = np.flatnonzero(pi[i, :, 0] == 0)
                    ctx.check(len(dead) == ndef, "round %d has %d deficient actions, expected %d", i, len(dead), ndef)
                    w[dead] = 0
                    w = w / w.sum()
                ctx.close(pi[i, :, 0], w, "behaviour policy of round %d" % i)
                ctx.check(bf["pscore"][i] == pi[i, a[i], 0] and bf["pscore"][i] > 0, "pscore of round %d is not the probability of its action", i)
                ctx.check(bf["reward"][i] == float(a[i] == cls[id_ev[i]]), "round %d: action %d, label %d, reward %s", i, a[i], cls[id_ev[i]], bf["reward"][i])
        del LOG[:]
        alpha_e = case["ae"]
        clf = own_e if case["own"] else None
        pe = ds.obtain_action_dist_by_eval_policy(base_classifier_e=clf, alpha_e=alpha_e)
        ctx.check(pe.shape == (n_ev, K, 1), "shape of the evaluation policy")
        trained(2 if case["own"] else 1)
        m = Rule(2 if case["own"] else 1).fit(X0[id_tr], cls[id_tr])
        pred = m.predict(X0[id_ev])
        w = np.full((n_ev, K), (1 - alpha_e) / K)
        w[np.arange(n_ev), pred] += alpha_e
        ctx.close(pe[:, :, 0], w, "evaluation policy")
        any_pi = gen.dist_rows(r, n_ev, K, case["style"])[:, :, None]
        for d in (pe, any_pi):
            ctx.close(ds.calc_ground_truth_policy_value(action_dist=d), math.fsum(float(d[i, cls[id_ev[i]], 0]) for i in range(n_ev)) / n_ev, "ground-truth value")
    ctx.same(X, X0, "the caller's X")
    ctx.check(not hasattr(own_b, "classes_") and not hasattr(own_e, "classes_"), "the caller's own classifier was fitted instead of a copy")
    ctx.same(y, y0, "the caller's y")
    ctx.label("labels %s" % kind)
    if ndef:
        ctx.label("deficient actions")
    ctx.nontriv(K > 2 or ndef or kind != "std")


CASE = fx(
    K=gen.some(2, 5, 10), n=gen.some(6, 40, 300), labels=st.sampled_from(["std", "gap", "neg", "float", "huge", "2^60", "close"]), ndef=st.integers(0, 4), ab=st.sampled_from([0.0, 0.3, 0.8, 0.99]), ae=st.sampled_from([0.0, 0.5, 0.9, 1.0]),
    ev=st.sampled_from([0.25, 0.5, 0.7, 3, 4, 0.1, 0.9, "half"]), rs=gen.RS, own=st.booleans(), style=gen.STYLES, seed=SEED,
)
SUBS = [Sub("reduction", CASE, run, 300, budget=(60, 600))]
gen.huge(SUBS, "reduction", hi=4000, quick=1)

"""P12: estimated propensity scores and importance weights."""
import math

import numpy as np
from hypothesis import strategies as st
from sklearn.calibration import CalibratedClassifierCV
from sklearn.linear_model import LogisticRegression

from .. import gen, stubs
from ..core import Sub
from ..gen import SEED, fx

from .p11 import same_features, vectors

from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

PROPERTY = "P12"
RULE = (
    "Logged data with repeated contexts and tabular classifiers (cell frequencies are the exact answer), unique contexts with "
    "provenance classifiers (every prediction identifies its training set), actions missing from the data or from training folds, "
    "positions missing from folds. Non-trivial: two rounds or more of training data and at least two distinct answers."
)


def base(case, unique=False):
    r = gen.rng(case)
    n, A, L = case["n"], case["A"], case["L"]
    dim = case.get("dim", 2)
    if unique:
        x = np.c_[1000.0 + np.arange(n), r.normal(size=(n, dim - 1)) * 5]
    else:
        x = vectors(r, 4, dim)[r.randint(3, size=n)]
    a = r.randint(A, size=n).astype(case.get("idt", "int64"))
    if case["miss"]:
        a = np.where(a == case["miss"] % A, (a + 1) % A, a)
    pos = np.concatenate([np.arange(L), r.randint(L, size=n)])[:n][r.permutation(n)] if n >= L else np.arange(n)
    return r, n, A, L, x, a, pos


def run_ps(case, ctx):
    """uncalibrated propensities == frequency of the logged action among training rounds with that context and position"""
    r, n, A, L, x, a, pos = base(case)
    m = PropensityScoreEstimator(base_model=stubs.TabularClassifier(), n_actions=A, calibration_cv=1, **({} if L == 1 else dict(len_list=L)))
    p_arg = None if (L == 1 and case["nopos"]) else pos
    if case["warm"]:  # fitted and used before, with an action unseen there
        b = np.where(a == A - 1, 0, a)[::-1].copy()
        k = int(r.randint(3))  # which of the arrays were other ones
        m.fit(context=x[::-1].copy() if k else x, action=a if k == 1 else b, position=p_arg)
        m.predict(context=x, action=b, position=p_arg)
    if case["via"] == "fit":
        m.fit(context=x, action=a, position=p_arg)
        k = 7
        nx = np.vstack([x[r.randint(n, size=k - 1)], 1.5 * x[:1] + 17.0])
        na = r.randint(A, size=k)
        np_ = r.randint(L, size=k)
        got = m.predict(context=nx, action=na, position=None if p_arg is None else np_)
    else:
        nx, na, np_ = x, a, pos
        got = m.fit_predict(context=x, action=a, position=p_arg)
    want = []
    for i in range(len(na)):
        rows = [k for k in range(n) if pos[k] == np_[i] and (x[k] == nx[i]).all()]
        seen = sorted(set(a[pos == np_[i]].tolist()))
        if rows:
            want.append(sum(a[k] == na[i] for k in rows) / len(rows))
        else:
            want.append(1.0 / len(seen) if na[i] in seen else 0.0)
    ctx.label(case["via"])
    if len(set(a.tolist())) < A:
        ctx.label("action absent from the data")
    ctx.nontriv(n > 1 and len(set(want)) > 1)
    ctx.close(got, want, "estimated propensities")


def run_ps_cal(case, ctx):
    """calibrated propensities == scikit-learn's calibrated classifier fitted per position; probabilities of all actions sum to one"""
    r, n, A, L, x, a, pos = base(dict(case, miss=0))
    cv = case["cv"]
    a = np.arange(n) % A
    pos = (np.arange(n) // A) % L
    x = r.normal(size=(n, 2)) + a[:, None] * 0.5
    m = PropensityScoreEstimator(base_model=LogisticRegression(), n_actions=A, len_list=L, calibration_cv=cv)
    got = m.fit_predict(context=x, action=a, position=pos)
    ctx.nontriv(n > 1)
    want = np.zeros(n)
    for l in range(L):
        idx = np.flatnonzero(pos == l)
        c = CalibratedClassifierCV(LogisticRegression(), cv=cv) if cv > 1 else LogisticRegression()
        c.fit(x[idx], a[idx])
        pr = c.predict_proba(x[idx])
        for k, i in enumerate(idx):
            want[i] = pr[k, list(c.classes_).index(a[i])]
    ctx.close(got, want, "calibrated propensities", rtol=1e-6)
    tot = np.zeros(n)
    for b in range(A):
        tot += m.predict(context=x, action=np.full(n, b), position=pos)
    ctx.close(tot, np.ones(n), "sum of the propensities over actions", rtol=1e-9)


def _groups(ctx, K, n, L, pos, fit_of, log, what):
    """cross-fitting structure from provenance.  fit_of[i] = index of the fit that answered round i."""
    # rounds answered by the same fit share fold and position
    folds = {}
    for i in range(n):
        train_ids = [int(v) - 1000 for v in log.fits[fit_of[i]]["X"].max(1)]
        same = [j for j in range(n) if pos[j] == pos[i]]
        held = tuple(sorted(set(same) - set(train_ids)))
        extra = sorted(set(train_ids) - set(same))
        ctx.check(not extra, "%s: the model answering round %d (position %d) was trained on rounds %s of another position" % (what, i, pos[i], extra))
        if K == 1:
            ctx.check(not held, "%s: n_folds=1 but rounds %s were left out" % (what, held))
        else:
            ctx.check(i in held, "%s: round %d was used to train the model that answers it" % (what, i))
            folds.setdefault(pos[i], set()).add(held)
    if K > 1:
        for l, hs in folds.items():
            members = sorted(j for h in hs for j in h)
            ctx.check(members == [j for j in range(n) if pos[j] == l], "%s: held-out sets of position %d do not partition its rounds: %s" % (what, l, sorted(hs)))
            ctx.check(len(hs) <= K, "%s: more held-out sets than folds" % what)
        if L == 1:
            sz = sorted(len(h) for h in folds[0])
            ctx.check(len(sz) == K and sz[-1] - sz[0] <= 1, "%s: fold sizes %s for %d folds" % (what, sz, K))


class _ProvMulti(stubs.ProvClassifier):
    """provenance for propensities: the column of class c predicts id + 0.25*index so that a wrong column is visible"""

    def fit(self, X, y, sample_weight=None):
        super().fit(X, y)
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        i = self._ids(X)
        return np.stack([i + c / 64.0 for c in self.classes_], 1)


def run_ps_cf(case, ctx):
    """cross-fitted propensities come from models of that position that never saw the round"""
    r, n, A, L, x, a, pos = base(case, unique=True)
    K = min(case["folds"], n)
    log = stubs.reset_log()
    m = PropensityScoreEstimator(base_model=_ProvMulti(), n_actions=A, calibration_cv=1, **({} if L == 1 else dict(len_list=L)))
    try:
        got = m.fit_predict(context=x, action=a, position=None if (L == 1 and case["nopos"]) else pos, n_folds=K, random_state=case["rs"], evaluate_model_performance=case["ev"])
    except ValueError as e:
        if "No training data" in str(e) and K > 1 and any((pos == l).sum() <= -(-n // K) for l in range(L)):
            ctx.label("a fold swallowed a position")
            return
        raise
    ctx.nontriv(K > 1 and n > 3)
    fit_of = []
    for i in range(n):
        if got[i] == 0:
            fit_of.append(None)
            continue
        f, row = log.preds[int(got[i]) - 1]
        ctx.check(row.max() == 1000 + i and same_features(row, x[i], []), "propensity of round %d was predicted from round %g's context (%s)" % (i, row.max() - 1000, row))
        fit_of.append(f)
        ctx.check(round((got[i] - int(got[i])) * 64) == a[i], "propensity of round %d was read for action %d, logged %d" % (i, round((got[i] - int(got[i])) * 64), a[i]))
        ctx.check(a[i] in log.fits[f]["y"].tolist(), "probability of a class absent from training")
        for k, rowid in enumerate(log.fits[f]["X"].max(1)):
            ctx.check(log.fits[f]["y"][k] == a[int(rowid) - 1000], "training label of round %d" % (rowid - 1000))
            if k == 0:
                ctx.check(same_features(log.fits[f]["X"][k], x[int(rowid) - 1000], []), "training features of round %d" % (rowid - 1000))
    if all(f is not None for f in fit_of):
        _groups(ctx, K, n, L, pos, fit_of, log, "propensity")
    else:
        ctx.label("action absent from a training fold -> propensity 0")
        for i in range(n):
            if fit_of[i] is None:  # its action occurs nowhere else at this position outside its fold: at most fold-size many occurrences
                occ = [j for j in range(n) if a[j] == a[i] and pos[j] == pos[i]]
                ctx.check(len(occ) <= -(-n // K), "propensity 0 for an action logged %d times at that position" % len(occ))
    if case["ev"] and K > 1:
        ys = np.concatenate(m.eval_result["y"])
        ctx.check(sorted(ys.tolist()) == sorted(a.tolist()), "eval_result['y'] does not hold every logged action once")
        for p_, y_ in zip(m.eval_result["proba"], m.eval_result["y"]):
            ctx.check(np.shape(p_) == (len(y_), A), "eval_result probabilities have shape %s for %d labels, %d actions" % (np.shape(p_), len(y_), A))
            for row_, b in zip(np.asarray(p_), np.asarray(y_)):
                v = row_.max()
                f, row = log.preds[int(v) - 1]
                i = int(row.max()) - 1000
                ctx.check(a[i] == b, "eval_result: label %d next to the probabilities of round %d, whose logged action is %d" % (b, i, a[i]))
                ctx.check(1000 + i not in log.fits[f]["X"].max(1), "eval_result: round %d was scored by a model trained on it" % i)
                ctx.check(all(pos[int(t) - 1000] == pos[i] for t in log.fits[f]["X"].max(1)), "eval_result: round %d was scored by the model of another position" % i)
                for c in range(A):
                    ctx.check((row_[c] == int(v) + c / 64.0) if c in log.fits[f]["y"] else row_[c] == 0, "eval_result: probability of action %d of round %d" % (c, i))


def det_policy(r, n, A, L):
    ch = r.randint(A, size=(n, L))
    ad = np.zeros((n, A, L))
    for l in range(L):
        ad[np.arange(n), ch[:, l], l] = 1.0
    return ch, ad


def run_iw(case, ctx):
    """deterministic evaluation policy, tabular classifier: weight == (evaluation count) / (logged count) of the (context, action, position) cell"""
    r, n, A, L, x, a, pos = base(case)
    ch, ad = det_policy(r, n, A, L)
    if case["skew"]:  # cells in which the evaluation policy takes a logged-once action almost always
        a = np.where(r.rand(n) < 3.0 / n, 1, a * 0)
        a[:L] = 1
        x[:] = x[0]
        ch[r.rand(n, L) < 0.95] = 1
        ad = np.zeros((n, A, L))
        for l in range(L):
            ad[np.arange(n), ch[:, l], l] = 1.0
    ac = (np.c_[-1000.0 - np.arange(A), r.normal(size=(A, 1))] if case["ac"] else None)
    m = ImportanceWeightEstimator(base_model=stubs.TabularClassifier(), n_actions=A, len_list=L, action_context=ac, fitting_method=case["method"], calibration_cv=1)
    p_arg = None if (L == 1 and case["nopos"]) else pos
    if case["warm"]:
        k = r.randint(2, size=3)  # which of the arrays were other ones
        m.fit(context=x[::-1].copy() if k[0] else x, action=a[::-1].copy() if k[1] else a, action_dist=ad[:, ::-1].copy() if k[2] else ad, position=p_arg, random_state=case["rs"])
        m.predict(context=x, action=a, position=p_arg)
    if case["via"] == "fit":
        m.fit(context=x, action=a, action_dist=ad, position=p_arg, random_state=case["rs"])
        idx = r.randint(n, size=5)
        got = m.predict(context=x[idx], action=a[idx], position=None if p_arg is None else pos[idx])
    else:
        idx = np.arange(n)
        got = m.fit_predict(context=x, action=a, action_dist=ad, position=p_arg, random_state=case["rs"])
    want = []
    for i in idx:
        rows = [k for k in range(n) if pos[k] == pos[i] and (x[k] == x[i]).all()]
        want.append(sum(ch[k, pos[k]] == a[i] for k in rows) / sum(a[k] == a[i] for k in rows))
    ctx.label(case["method"], case["via"])
    ctx.nontriv(len(set(want)) > 1)
    ctx.close(got, want, "importance weights (%s)" % case["method"], rtol=1e-6)


def run_iw_cal(case, ctx):
    """calibrated weights == odds of scikit-learn's calibrated classifier fitted per position on logged (0) and evaluation (1) samples"""
    r, n, A, L, x, a, pos = base(dict(case, miss=0))
    cv = case["cv"]
    x = r.normal(size=(n, case["dim"])) * 2
    pos = np.arange(n) % L
    ch, ad = det_policy(r, n, A, L)
    eye = np.eye(A, dtype=int)
    kw = {} if cv == 2 and case["rs"] % 2 else dict(calibration_cv=cv)  # the documented default is 2
    m = ImportanceWeightEstimator(base_model=LogisticRegression(), n_actions=A, len_list=L, fitting_method=case["method"], **kw)
    got = m.fit_predict(context=x, action=a, action_dist=ad, position=pos, random_state=case["rs"])
    ctx.nontriv(n > 1)
    want = np.zeros(n)
    for l in range(L):
        idx = np.flatnonzero(pos == l)
        c = CalibratedClassifierCV(LogisticRegression(), cv=cv) if cv > 1 else LogisticRegression()
        X0 = np.c_[x[idx], eye[a[idx]]]
        c.fit(np.r_[X0, np.c_[x[idx], eye[ch[idx, l]]]], np.r_[np.zeros(len(idx), int), np.ones(len(idx), int)])
        p = c.predict_proba(X0)[:, 1]
        want[idx] = p / (1 - p)
    ctx.close(got, want, "calibrated importance weights (cv=%d, %s)" % (cv, case["method"]), rtol=1e-6)


def run_iw_cf(case, ctx):
    """cross-fitted weights: odds of a model that never saw the round; training labels 0 = logged action, 1 = evaluation action of the same round"""
    r, n, A, L, x, a, pos = base(case, unique=True)
    ad = np.stack([gen.dist_rows(r, n, A, case["style"]) for _ in range(L)], 2)
    ac = np.c_[-1000.0 - np.arange(A), r.normal(size=(A, case["acdim"] - 1))]
    K = min(case["folds"], n)
    log = stubs.reset_log()
    raw = case["method"] == "raw"
    m = ImportanceWeightEstimator(base_model=stubs.ProvWeightClassifier(), n_actions=A, len_list=L, action_context=None if raw else ac, fitting_method=case["method"], calibration_cv=1)
    try:
        got = m.fit_predict(context=x, action=a, action_dist=ad, position=None if (L == 1 and case["nopos"]) else pos, n_folds=K, random_state=case["rs"], evaluate_model_performance=case["ev"])
    except ValueError as e:
        if "No training data" in str(e) and K > 1 and any((pos == l).sum() <= -(-n // K) for l in range(L)):
            ctx.label("a fold swallowed a position")
            return
        raise
    ctx.nontriv(K > 1 and n > 3)
    ctx.label(case["method"])
    fit_of = []
    for i in range(n):
        v = got[i] * 2.0**20
        ctx.check(abs(v - round(v)) < 1e-3 and 1 <= round(v) <= len(log.preds), "weight of round %d (%.6g) is not the odds of a model prediction" % (i, got[i]))
        f, row = log.preds[int(round(v)) - 1]
        ctx.check(row.max() == 1000 + i, "weight of round %d was predicted from round %g's context" % (i, row.max() - 1000))
        if raw:
            ctx.check(row[-A:].argmax() == a[i] and row[-A:].sum() == 1, "weight of round %d was not predicted for its logged action" % i)
        else:
            ctx.check(row.min() == -1000 - a[i], "weight of round %d was predicted for action %g, logged %d" % (i, -1000 - row.min(), a[i]))
            ctx.check(same_features(row, x[i], ac[a[i]]), "weight of round %d was predicted from the features %s" % (i, row))
        fit_of.append(f)
    _groups(ctx, K, n, L, pos, fit_of, log, "importance weight")
    for f in sorted(set(fit_of)):
        X, y = log.fits[f]["X"], log.fits[f]["y"]
        ids = X.max(1).astype(int) - 1000
        ctx.check(sorted(ids[y == 0]) == sorted(ids[y == 1]), "logged and evaluation samples do not cover the same rounds")
        for k in range(len(y)):
            i = ids[k]
            if y[k] == 0:
                ok = X[k][-A:].argmax() == a[i] if raw else -1000 - X[k].min() == a[i] and (k % 7 or same_features(X[k], x[i], ac[a[i]]))
                ctx.check(ok, "logged sample of round %d has the wrong action" % i)
            elif raw:
                ctx.close(X[k][-A:], ad[i, :, pos[i]], "evaluation sample of round %d" % i)
            else:
                b = int(-1000 - X[k].min())
                ctx.check(k % 7 or same_features(X[k], x[i], ac[b]), "evaluation sample of round %d has the features %s" % (i, X[k]))
                ctx.check(ad[i, b, pos[i]] > 0, "evaluation sample of round %d has action %d of probability 0" % (i, b))
    if case["ev"] and K > 1:
        zeros, ones = [], []
        for p_, y_ in zip(m.eval_result["proba"], m.eval_result["y"]):
            ctx.check(len(p_) == len(y_), "eval_result: %d probabilities, %d labels" % (len(p_), len(y_)))
            for pr, lab in zip(np.asarray(p_, float), np.asarray(y_)):
                v = pr / (1 - pr) * 2.0**20
                ctx.check(abs(v - round(v)) < 1e-3 and 1 <= round(v) <= len(log.preds), "eval_result: probability %.6g is not a model prediction" % pr)
                f, row = log.preds[int(round(v)) - 1]
                i = int(row.max()) - 1000
                (ones if lab else zeros).append(i)
                ctx.check(1000 + i not in log.fits[f]["X"].max(1), "eval_result: round %d was scored by a model trained on it" % i)
                ctx.check(all(pos[int(t) - 1000] == pos[i] for t in log.fits[f]["X"].max(1)), "eval_result: round %d was scored by the model of another position" % i)
                if lab == 0:
                    ok = row[-A:].argmax() == a[i] if raw else -1000 - row.min() == a[i]
                    ctx.check(ok, "eval_result: the logged sample of round %d has another action" % i)
                elif raw:
                    ctx.close(row[-A:], ad[i, :, pos[i]], "eval_result: evaluation sample of round %d" % i)
                else:
                    ctx.check(ad[i, int(-1000 - row.min()), pos[i]] > 0, "eval_result: evaluation sample of round %d has an action of probability 0" % i)
        ctx.check(sorted(zeros) == list(range(n)) and sorted(ones) == list(range(n)), "eval_result does not hold every round once per label")


B = dict(warm=st.booleans(), n=gen.some(2, 30, 400), A=gen.some(2, 4, 30), L=gen.some(1, 3, 6), dim=gen.some(1, 3, 8), acdim=gen.some(1, 3, 5), idt=st.sampled_from(["int64", "int32", "int8"]), seed=SEED, miss=st.integers(0, 3), nopos=st.booleans(), rs=gen.RS, via=st.sampled_from(["fit", "fit_predict"]))
FOLDS = st.one_of([st.integers(1, 4)] * 8 + [st.integers(5, 12)])
ok = lambda s: s.map(lambda c: dict(c, n=max(c["n"], c["L"])))
SUBS = [
    Sub("propensity", ok(fx(**B)), run_ps, 700, 12000),
    Sub("propensity_calibrated", fx(n=st.integers(40, 60), A=st.integers(2, 3), L=st.integers(1, 2), seed=SEED, cv=st.sampled_from([1, 2, 3])), run_ps_cal, 40, 600, budget=(40, 400)),
    Sub("weights_calibrated", fx(n=st.integers(24, 60), A=st.integers(2, 4), L=st.integers(1, 2), dim=st.integers(1, 3), seed=SEED, cv=st.sampled_from([1, 2, 3, 4]), method=st.sampled_from(["sample", "raw"]), rs=gen.RS), run_iw_cal, 60, 600, budget=(40, 400)),
    Sub("propensity_cross_fitting", ok(fx(folds=FOLDS, ev=st.booleans(), **B)), run_ps_cf, 600, 10000),
    Sub("weights", ok(fx(method=st.sampled_from(["sample", "raw"]), ac=st.booleans(), skew=st.sampled_from([False, False, False, True]), **B)), run_iw, 600, 10000),
    Sub("weights_cross_fitting", ok(fx(folds=FOLDS, ev=st.booleans(), style=gen.STYLES, method=st.sampled_from(["sample", "raw"]), **B)), run_iw_cf, 600, 10000),
]
gen.huge(SUBS, "propensity propensity_cross_fitting weights weights_cross_fitting", hi=2500, quick=1)

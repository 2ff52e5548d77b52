"""P11: reward models (bandit and slate) are trained on the right rows and answer for the right cell, with clean cross-fitting."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, stubs
from ..core import Sub
from ..gen import SEED, fx

from obp.ope import RegressionModel, SlateRegressionModel

PROPERTY = "P11"
RULE = (
    "Logged data whose contexts repeat (tabular regressors, so the fitted cell means are known exactly) or are unique (provenance "
    "regressors whose every prediction identifies its training set and feature row). Non-trivial: two positions or folds or a weighted method."
)


def vectors(r, k, dim):
    """k different context vectors, some entries negative, large or equal to another's"""
    v = r.normal(size=(k, dim)) * np.array([1.0, 30.0])[r.randint(2, size=dim)]
    v[:, r.randint(dim)] = r.permutation(k) - 1.0
    return v


def same_features(row, x, z):
    """the row consists of exactly the context's and the action representation's values"""
    return len(row) == len(x) + len(z) and np.array_equal(np.sort(row), np.sort(np.r_[x, z]))


def data(case, unique=False):
    r = gen.rng(case)
    n, A, L = case["n"], case["A"], min(case["L"], case["n"])
    dim = case.get("dim", 2)
    if unique:
        x = np.c_[1000.0 + np.arange(n), r.normal(size=(n, dim - 1)) * 5]
        x = x[:, r.permutation(dim)]
    else:
        x = vectors(r, 4, dim)[r.randint(3, size=n)]
    a = r.randint(A, size=n).astype(case.get("idt", "int64"))
    pos = np.arange(n) % L
    pos = pos[r.permutation(n)]
    if case["rew"] == "binary":
        y = r.randint(2, size=n)
        y[: min(2, n)] = np.arange(2)[: min(2, n)]
    else:
        y = gen.rewards(r, n, case["rk"])
    ps = gen.pscores(r, n, case["pstyle"]).clip(0, 1)
    ad = np.stack([gen.dist_rows(r, n, A, case["style"]) for _ in range(L)], 2)
    ac = np.c_[-1000.0 - np.arange(A), r.normal(size=(A, case.get("acdim", 2) - 1)) * 5] if case["ac"] or unique else None
    return r, n, A, L, x, a, pos, y, ps, ad, ac


def wts(method, ps, ad, a, pos, A):
    n = len(a)
    if method == "normal":
        return [1.0] * n
    if method == "iw":
        return [float(ad[i, a[i], pos[i]]) / float(ps[i]) for i in range(n)]
    return [float(ad[i, a[i], pos[i]]) * (1 - float(ps[i])) / float(ps[i]) ** 2 for i in range(n)]


def defaults(L, m):
    """leave out what the documentation gives a default for"""
    return dict(({} if L == 1 else dict(len_list=L)), **({} if m == "normal" else dict(fitting_method=m)))


def run_tab(case, ctx):
    """fit/predict: q(x,a,l) is the (weighted) mean reward of the rounds with that context, action and position"""
    r, n, A, L, x, a, pos, y, ps, ad, ac = data(case)
    m = case["method"]
    clf = case["rew"] == "binary" and case["clf"]
    base = stubs.TabularClassifier() if clf else stubs.TabularRegressor(default=-7.0)
    model = RegressionModel(base_model=base, n_actions=A, action_context=ac, **defaults(L, m))
    ps_arg = None if case["nops"] else ps
    pse = np.full(n, 1.0 / A) if case["nops"] else ps
    kw = dict(context=x, action=a, reward=y, pscore=ps_arg, position=None if (L == 1 and case["nopos"]) else pos, action_dist=None if m == "normal" else ad)
    if case["const"]:  # rare rewards: none (or all) at some position
        y = y.copy()
        y[pos == 0] = y.min() if case["const"] == "low" else y.max()
        kw["reward"] = y
    if clf and any(len(set(y[pos == l].tolist())) < 2 for l in range(L)):
        ctx.label("one class only")
    if case["warm"]:  # a model that has been fitted and used before
        p = r.permutation(n)
        other = dict(reward=y[p], action=(a + 1) % A, context=x[p])
        if case["seed"] % 4:  # only one of the arrays differed
            k = ["reward", "action", "context"][case["seed"] % 4 - 1]
            other = {k: other[k]}
        model.fit(**dict(kw, **other))
        model.predict(context=x)
    snap = gen.snapshot(x, a, y, ps, pos, ad)
    if case["via"] == "fit":
        ret = model.fit(**kw)
        new = np.vstack([x[r.randint(n, size=4)], 1.5 * x[:1] + 17.0])  # seen contexts and an unseen one
        model.predict(context=new[::-1].copy())
        buf = new.copy()
        q = model.predict(context=buf)
        buf[:] = buf[::-1].copy()  # the same array object, other contexts
        q3 = model.predict(context=buf)
        ctx.same(q3, q[::-1], "predictions for the rows of the same array in reversed order")
    else:
        new = x
        q = model.fit_predict(**kw)
    gen.unchanged(ctx, [x, a, y, ps, pos, ad], snap, "RegressionModel")
    w = wts(m, pse, ad, a, pos, A)
    ctx.nontriv(L > 1 or m != "normal")
    ctx.label(m, "clf" if clf else "reg", case["via"])
    want = np.zeros((len(new), A, L))
    for i in range(len(new)):
        for b in range(A):
            for l in range(L):
                rows = [k for k in range(n) if a[k] == b and pos[k] == l and (x[k] == new[i]).all()]
                den = math.fsum(w[k] for k in rows)
                if den > 0:
                    want[i, b, l] = math.fsum(w[k] * float(y[k]) for k in rows) / den
                else:
                    cl = sorted(set(y[pos == l].tolist()))
                    want[i, b, l] = (0.5 if len(cl) > 1 else cl[0]) if clf else -7.0
    ctx.close(q, want, "estimated rewards (%s)" % m, scale=max(1.0, float(np.abs(y).max())))


def run_cf(case, ctx):
    """cross-fitting: predictions of a round come from a model whose training set is every round of that position outside its fold"""
    r, n, A, L, x, a, pos, y, ps, ad, ac = data(case, unique=True)
    K = min(n, 30) if case["folds"] == "loo" else min(case["folds"], n)
    m = case["method"]
    clf = case["clf"]
    pse = ps
    if case["nops"]:
        pse, ps = np.full(n, 1.0 / A), None
    log = stubs.reset_log()
    model = RegressionModel(base_model=stubs.ProvClassifier() if clf else stubs.ProvRegressor(), n_actions=A, len_list=L, action_context=ac, fitting_method=m)
    # every position must keep training data in every fold
    kw = dict(context=x, action=a, reward=y, pscore=ps, position=None if (L == 1 and case["nopos"]) else pos, action_dist=None if m == "normal" else ad, n_folds=K, random_state=case["rs"])
    try:
        q = model.fit_predict(**kw)
    except ValueError as e:
        if "No training data" in str(e) and any((pos == l).sum() <= -(-n // K) for l in range(L)):
            ctx.label("a fold swallowed a position")
            return
        raise
    ctx.check(q.shape == (n, A, L), "shape %s" % (q.shape,))
    ctx.label(m, "folds=%s" % (K if K < 5 else "n" if K == n else "5 or more"))
    ctx.nontriv(K > 1 and n >= 4)
    w = wts(m, pse, ad, a, pos, A)
    fit_of = {}
    for i in range(n):
        for l in range(L):
            f0 = None
            for b in range(A) if n * A * L * (n * L if K > 4 else 1) <= 20000 else r.choice(A, size=2, replace=False):
                v = q[i, b, l]
                ctx.check(v == int(v) and 1 <= v <= len(log.preds), "q[%d,%d,%d] was not produced by the base model" % (i, b, l))
                f, row = log.preds[int(v) - 1]
                ctx.check(row.max() == 1000 + i, "q[%d,%d,%d] was predicted from round %g's context" % (i, b, l, row.max() - 1000))
                ctx.check(row.min() == -1000 - b, "q[%d,%d,%d] was predicted for action %g" % (i, b, l, -1000 - row.min()))
                ctx.check(same_features(row, x[i], ac[b]), "q[%d,%d,%d]: the features %s are not the context %s and the action's representation %s" % (i, b, l, row, x[i], ac[b]))
                ctx.check(f0 is None or f0 == f, "different models answered for different actions of one round")
                f0 = f
            fit_of[i, l] = f0
    groups = {}
    for i in range(n):
        groups.setdefault(tuple(fit_of[i, l] for l in range(L)), []).append(i)
    ctx.check(len(groups) == K, "%d folds requested but %d groups of models used" % (K, len(groups)))
    sizes = sorted(len(g) for g in groups.values())
    if K > 1:
        ctx.check(sizes[-1] - sizes[0] <= 1, "fold sizes %s are not balanced" % sizes)
    for fits, g in groups.items():
        held = set() if K == 1 else set(g)
        for l in range(L):
            fit = log.fits[fits[l]]
            ids = [int(v) - 1000 for v in fit["X"].max(1)]
            want = [i for i in range(n) if pos[i] == l and i not in held]
            ctx.check(sorted(ids) == want, "model for position %d of fold %s was trained on rounds %s, expected %s" % (l, sorted(held), sorted(ids), want))
            for k, i in enumerate(ids):
                ctx.check(-1000 - fit["X"][k].min() == a[i], "round %d trained with action %g, logged %d" % (i, -1000 - fit["X"][k].min(), a[i]))
                if n * K <= 600 or k % 7 == 0:
                    ctx.check(same_features(fit["X"][k], x[i], ac[a[i]]), "round %d was trained with the features %s, not its context and its action's representation" % (i, fit["X"][k]))
                ctx.check(fit["y"][k] == y[i], "round %d trained with reward %g, logged %g" % (i, fit["y"][k], y[i]))
                if m != "normal":
                    ctx.close(fit["w"][k], w[i], "sample weight of round %d" % i)
                elif fit["w"] is not None:
                    ctx.check(fit["w"][k] == fit["w"][0], "unequal sample weights with fitting_method='normal'")
    # same seed, same folds
    log2 = stubs.reset_log()
    model2 = RegressionModel(base_model=stubs.ProvClassifier() if clf else stubs.ProvRegressor(), n_actions=A, len_list=L, action_context=ac, fitting_method=m)
    q2 = model2.fit_predict(**kw)
    g2 = {}
    for i in range(n):
        g2.setdefault(tuple(log2.preds[int(q2[i, 0, l]) - 1][0] for l in range(L)), []).append(i)
    ctx.check(sorted(map(tuple, g2.values())) == sorted(map(tuple, groups.values())), "the same random_state gave different folds")


def run_slate(case, ctx):
    """SlateRegressionModel with a tabular regressor == exact backward fitted-Q recursion"""
    r = gen.rng(case)
    n, L, A = case["n"], case["L"], case["A"]
    xv = vectors(r, 3, case["dim"])
    xi = r.randint(2, size=n)
    x = xv[xi]
    a = r.randint(A, size=(n, L))
    y = gen.rewards(r, n * L, case["rk"]).reshape(n, L)
    pb = np.cumprod(gen.pscores(r, n * L, case["pstyle"]).clip(0.05, 1).reshape(n, L), 1)
    pe = np.cumprod(gen.pscores(r, n * L, case["pstyle"]).clip(0.05, 1).reshape(n, L), 1)
    ad = np.stack([gen.dist_rows(r, n, A, case["style"]) for _ in range(L)], 1)  # n, L, A
    m = case["method"]
    model = SlateRegressionModel(base_model=stubs.TabularRegressor(default=-3.0), len_list=L, n_unique_action=A, fitting_method=m)
    kw = dict(context=x, action=a.reshape(-1), reward=y.reshape(-1), pscore_cascade=pb.reshape(-1), evaluation_policy_pscore_cascade=pe.reshape(-1), evaluation_policy_action_dist=ad.reshape(-1))
    if case["warm"]:
        other = dict(reward=y[::-1].reshape(-1) + 1, action=a[::-1].reshape(-1).copy(), context=x[::-1].copy())
        if case["seed"] % 4:
            k = ["reward", "action", "context"][case["seed"] % 4 - 1]
            other = {k: other[k]}
        model.fit(**dict(kw, **other))
        model.predict(context=x, action=a.reshape(-1))
    if case["via"] == "fit":
        model.fit(**kw)
        q = model.predict(context=x, action=a.reshape(-1))
    else:
        q = model.fit_predict(**kw)
    q3 = model.predict(context=x[::-1].copy(), action=a[::-1].reshape(-1))
    ctx.same(np.reshape(q3, (n, -1))[::-1], np.reshape(q, (n, -1)), "predictions of the same slates in another order")
    ctx.nontriv(L > 1 and n > 1)
    ctx.label(m)
    w = pe / pb if m == "iw" else np.ones((n, L))
    tables = [None] * L
    for l in reversed(range(L)):
        t = {}
        for i in range(n):
            nxt = 0.0
            if l + 1 < L:
                nxt = math.fsum(float(ad[i, l + 1, b]) * tables[l + 1].get((xi[i],) + tuple(a[i, : l + 1]) + (b,), -3.0) for b in range(A))
            t.setdefault((xi[i],) + tuple(a[i, : l + 1]), []).append((float(y[i, l]) + nxt, float(w[i, l])))
        tables[l] = {k: math.fsum(u * v for u, v in vs) / math.fsum(v for _, v in vs) for k, vs in t.items()}
    for l in range(L):
        ctx.close(model.base_model_list[l].w_, w[:, l], "sample weights at position %d (%s)" % (l, m))
    want = np.zeros((n, L, A))
    for i in range(n):
        for l in range(L):
            for b in range(A):
                want[i, l, b] = tables[l].get((xi[i],) + tuple(a[i, :l]) + (b,), -3.0)
    ctx.close(q, want.reshape(-1), "slate q_hat (%s)" % m, scale=max(1.0, float(np.abs(y).max())) * L, rtol=1e-6)


B = dict(dim=gen.some(1, 4, 9), acdim=gen.some(1, 3, 6), idt=st.sampled_from(["int64", "int32", "int8"]), nops=st.booleans(), nopos=st.booleans(), seed=SEED, style=gen.STYLES, pstyle=gen.STYLES, rk=gen.REWARDS, method=st.sampled_from(["normal", "iw", "mrdr"]), ac=st.booleans(), clf=st.booleans(), rew=st.sampled_from(["binary", "other"]))
SUBS = [
    Sub("tabular", fx(n=gen.some(4, 40, 500), A=gen.some(2, 4, 30), L=gen.some(1, 3, 6), warm=st.booleans(), const=st.sampled_from([None, None, None, "low", "high"]), via=st.sampled_from(["fit", "fit_predict"]), **B), run_tab, 700, 12000),
    Sub("tabular_2", fx(n=gen.some(4, 40, 500), A=gen.some(2, 4, 30), L=gen.some(1, 3, 6), warm=st.booleans(), const=st.sampled_from([None, None, None, "low", "high"]), via=st.sampled_from(["fit", "fit_predict"]), **B), run_tab, 700, 12000),
    Sub("cross_fitting", fx(n=gen.some(4, 30, 300), A=gen.some(2, 4, 25), L=gen.some(1, 3, 5), folds=st.one_of([st.integers(1, 4)] * 6 + [st.integers(5, 12), st.just("loo")]), rs=gen.RS, **B), run_cf, 700, 12000),
    Sub("slate", fx(n=gen.some(1, 20, 150), A=gen.some(2, 3, 6), L=gen.some(1, 4, 7), dim=gen.some(1, 3, 7), seed=SEED, style=gen.STYLES, pstyle=gen.STYLES, rk=gen.REWARDS, method=st.sampled_from(["normal", "iw"]), warm=st.booleans(), via=st.sampled_from(["fit", "fit_predict"])), run_slate, 700, 12000),
]
gen.huge(SUBS, "tabular", hi=2500, quick=2, A=3)
gen.huge(SUBS, "cross_fitting", hi=3000)
gen.huge(SUBS, "slate", lo=300, hi=1500)

"""P28: confidence bounds, bias estimates and the numeric building blocks shared by the whole library."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy import stats

from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from ..stat import freq

from obp import utils as U
from obp.ope import helper as H

PROPERTY = "P28"
RULE = (
    "Random samples (any size, ties, constants, one round), ranges and confidence levels; all outcomes of n two-valued draws for the exact coverage of the lower bounds; "
    "random policies with zero and one probabilities for sampling; real numbers of every magnitude for the link functions. Non-trivial: samples that are not constant, policies with at least two supported actions."
)


def run_bounds(case, ctx):
    """the bounds equal their documented inequalities"""
    r = gen.rng(case)
    n = case["n"]
    x = {"real": r.gamma(1.0, size=n), "binary": r.randint(2, size=n).astype(float), "ties": r.randint(4, size=n) / 2.0, "constant": np.full(n, 0.7), "big": r.gamma(1.0, size=n) * 1e6}[case["kind"]]
    d = case["delta"]
    mean = math.fsum(x.tolist()) / n
    var = math.fsum(((x - mean) ** 2).tolist()) / n
    top = float(x.max())
    for given in (None, top, top + case["slack"]):
        m = top if given is None else given
        sc = 1 + abs(mean) + m
        want = mean - m * math.sqrt(math.log(1 / d) / (2 * n))
        ctx.close(H.estimate_hoeffding_lower_bound(x, given, d), want, "Hoeffding bound (x_max=%s)" % given, scale=sc)
        if given is None:
            ctx.close(H.estimate_hoeffding_lower_bound(x, delta=d), want, "Hoeffding bound with the default x_max", scale=sc)
        if n > 1:
            want = mean - 7 * m * math.log(2 / d) / (3 * (n - 1)) - math.sqrt(2 * math.log(2 / d) * var / (n - 1))
            ctx.close(H.estimate_bernstein_lower_bound(x, given, d), want, "empirical Bernstein bound (x_max=%s)" % given, scale=sc)
    if n > 1 and var > 0:
        want = mean - math.sqrt(var * n / (n - 1)) / math.sqrt(n) * stats.t.ppf(1 - d, n - 1)
        ctx.close(H.estimate_student_t_lower_bound(x, d), want, "Student t bound", scale=1 + abs(mean) + math.sqrt(var))
    d0 = 0.05  # the documented default
    ctx.close(H.estimate_hoeffding_lower_bound(x), mean - top * math.sqrt(math.log(1 / d0) / (2 * n)), "Hoeffding bound with the default delta", scale=1 + abs(mean) + top)
    if n > 1:
        want = mean - 7 * top * math.log(2 / d0) / (3 * (n - 1)) - math.sqrt(2 * math.log(2 / d0) * var / (n - 1))
        ctx.close(H.estimate_bernstein_lower_bound(x, x_max=top), want, "empirical Bernstein bound with the default delta", scale=1 + abs(mean) + top)
    if n > 1 and var > 0:
        want = mean - math.sqrt(var * n / (n - 1)) / math.sqrt(n) * stats.t.ppf(1 - d0, n - 1)
        ctx.close(H.estimate_student_t_lower_bound(x), want, "Student t bound with the default delta", scale=1 + abs(mean) + math.sqrt(var))
    if d < 0.5:
        d2 = d / 2
        ctx.check(H.estimate_hoeffding_lower_bound(x, delta=d2) <= H.estimate_hoeffding_lower_bound(x, delta=d) + 1e-12, "the Hoeffding bound is not monotone in delta")
    for f, kw in ((H.estimate_hoeffding_lower_bound, dict(x_max=top)), (H.estimate_bernstein_lower_bound, dict(x_max=top)), (H.estimate_student_t_lower_bound, {})):
        for bad in (-0.01, 1.01, "0.1", None):
            ctx.raises((ValueError, TypeError), lambda: f(x, delta=bad, **kw), "%s with delta=%r" % (f.__name__, bad))
        if kw and top > 0:
            ctx.raises((ValueError, TypeError), lambda: f(x, delta=d, x_max=0.99 * top), "%s with x_max below the largest value" % f.__name__)
    ctx.label(case["kind"])
    ctx.nontriv(case["kind"] != "constant" and n > 1)


def run_coverage(case, ctx):
    """exact coverage for n independent draws from {0, b}: the bound exceeds the mean with probability at most delta"""
    n, b, d, p = case["n"], case["b"], case["delta"], case["p"]
    for name, f in (("Hoeffding", H.estimate_hoeffding_lower_bound), ("Bernstein", H.estimate_bernstein_lower_bound)):
        wrong = 0.0
        for k in range(n + 1):
            x = np.r_[np.zeros(n - k), np.full(k, b)]
            if f(x, float(b), d) > p * b + 1e-12:
                wrong += stats.binom.pmf(k, n, p)
        ctx.check(wrong <= d * (1 + 1e-9), "%s lower bound for the mean of %d draws from {0, %g} with probability %g is too large with probability %.6g > delta=%g", name, n, b, p, wrong, d)
    ctx.nontriv(0 < p < 1)


def run_bias(case, ctx):
    """bias estimate and its upper bound"""
    r = gen.rng(case)
    n, d = case["n"], case["delta"]
    rew, q = r.normal(size=n) if case["signed"] else r.randint(2, size=n), r.normal(size=n)
    w = r.gamma(0.5, size=n) * 3
    lam = case["lam"]
    wh = {"clip": np.minimum(w, lam), "switch": w * (w <= lam), "shrink": lam * w / (lam + w**2)}[case["mod"]]
    for qq in (None, q):
        t = [(w[i] - wh[i]) * (float(rew[i]) - (0.0 if qq is None else q[i])) for i in range(n)]
        b = abs(math.fsum(t) / n)
        sc = 1 + float(np.abs(t).max())
        ctx.close(H.estimate_bias_in_ope(reward=rew, iw=w, iw_hat=wh, q_hat=qq), b, "bias estimate", scale=sc)
        want = b + math.sqrt(2 * math.fsum((w**2).tolist()) / n * math.log(2 / d) / n) + 2 * float(w.max()) * math.log(2 / d) / (3 * n)
        ctx.close(H.estimate_high_probability_upper_bound_bias(reward=rew, iw=w, iw_hat=wh, q_hat=qq, delta=d), want, "bias upper bound", scale=sc + want)
        want0 = b + math.sqrt(2 * math.fsum((w**2).tolist()) / n * math.log(2 / 0.05) / n) + 2 * float(w.max()) * math.log(2 / 0.05) / (3 * n)
        ctx.close(H.estimate_high_probability_upper_bound_bias(reward=rew, iw=w, iw_hat=wh, q_hat=qq), want0, "bias upper bound with the default delta", scale=sc + want0)
        ctx.close(H.estimate_high_probability_upper_bound_bias(reward=rew, iw=w, iw_hat=w, q_hat=qq, delta=d), want - b, "bias upper bound without modification of the weights", scale=sc + want)
    for bad in (-0.01, 1.01, "0.1", None):
        ctx.raises((ValueError, TypeError), lambda: H.estimate_high_probability_upper_bound_bias(reward=rew, iw=w, iw_hat=wh, delta=bad), "bias upper bound with delta=%r" % bad)
    ctx.label(case["mod"])
    ctx.nontriv(n > 1)


def run_sampling(case, ctx):
    """sample_action_fast samples every row from its own distribution, rows independently"""
    r = gen.rng(case)
    A, N = case["A"], case["N"]
    rows = 2
    p = gen.dist_rows(r, rows, A, case["style"])
    if case["zero"]:
        p[0] = np.eye(A)[r.randint(A)]
    dist = np.concatenate([np.tile(p[0], (N, 1)), np.tile(p[1], (N, 1))])
    order = r.permutation(2 * N)
    a = np.empty(2 * N, int)
    got = U.sample_action_fast(dist[order], random_state=case["rs"])
    ctx.check(got.shape == (2 * N,) and np.issubdtype(got.dtype, np.integer), "shape or type of the sampled actions")
    a[order] = got
    for k in range(rows):
        s = a[k * N : (k + 1) * N]
        for j in range(A):
            c = int((s == j).sum())
            if p[k, j] == 0:
                ctx.check(c == 0, "an action with probability zero was sampled %d times", c)
            freq(ctx, c, N, float(p[k, j]), float(p[k, j]), "action %d" % j)
        for j in range(A):
            c = int(((s[0::2][: N // 2] == j) & (s[1::2][: N // 2] == j)).sum())
            freq(ctx, c, N // 2, float(p[k, j]) ** 2, float(p[k, j]) ** 2, "action %d in two rounds" % j)
    ctx.same(U.sample_action_fast(dist[order], random_state=case["rs"]), got, "sampled actions with the same seed")
    ctx.label("deterministic row" if case["zero"] else case["style"])
    ctx.nontriv()


def run_dist(case, ctx):
    """convert_to_action_dist is the one-hot encoding of the selected actions"""
    r = gen.rng(case)
    n, A, L = case["n"], case["A"], case["L"]
    sel = r.randint(A, size=(n, L)).astype(case["dt"])
    if case["layout"] == "F":
        sel = np.asfortranarray(sel)
    got = U.convert_to_action_dist(n_actions=A, selected_actions=sel)
    want = [[[1.0 if sel[i, l] == a else 0.0 for l in range(L)] for a in range(A)] for i in range(n)]
    ctx.check(got.shape == (n, A, L), "shape %s", got.shape)
    ctx.same(got, np.array(want), "action distribution")
    ctx.nontriv(n > 1)


def exact_sigmoid(v):
    if v >= 0:
        return 1 / (1 + math.exp(-v))
    return math.exp(v) / (1 + math.exp(v))


def run_link(case, ctx):
    """sigmoid and softmax for every magnitude"""
    r = gen.rng(case)
    n, A, s = case["n"], case["A"], 10.0 ** case["mag"]
    x = r.normal(size=(n, A)) * s
    x[r.rand(n, A) < 0.1] = 0.0
    g = U.sigmoid(x)
    ctx.check(g.shape == x.shape and np.isfinite(g).all() and (g >= 0).all() and (g <= 1).all(), "sigmoid outside [0, 1] for inputs of magnitude %g", s)
    for i in range(n):
        for j in range(A):
            ctx.check(abs(g[i, j] - exact_sigmoid(x[i, j])) <= 1e-12 * exact_sigmoid(x[i, j]) + 1e-300, "sigmoid(%r) = %r", x[i, j], g[i, j])
    ctx.close(g + U.sigmoid(-x), np.ones((n, A)), "sigmoid(x) + sigmoid(-x)")
    ctx.close(U.sigmoid(float(x[0, 0])), exact_sigmoid(float(x[0, 0])), "sigmoid of a number")
    p = U.softmax(x)
    ctx.check(p.shape == x.shape and np.isfinite(p).all() and (p >= 0).all(), "softmax is not finite for inputs of magnitude %g", s)
    for i in range(n):
        m = float(x[i].max())
        e = [math.exp(float(v) - m) for v in x[i]]
        t = math.fsum(e)
        ctx.close(p[i], [v / t for v in e], "softmax")
    ctx.close(p.sum(axis=1), np.ones(n), "sum of softmax")
    ctx.close(U.softmax(x[::-1])[::-1], p, "softmax of other rows")
    if case["mag"] <= 2:
        ctx.close(U.softmax(x + 1000.0), p, "softmax of shifted values")
    ctx.label("magnitude 1e%d" % case["mag"])
    ctx.nontriv(n > 1)


def run_arrays(case, ctx):
    """check_array / check_tensor accept exactly arrays / tensors of the expected dimension"""
    r = gen.rng(case)
    dims = case["dims"]
    shape = tuple(int(v) for v in r.randint(1, 4, size=dims))
    arr = np.zeros(shape)
    obj = {"array": arr, "tensor": torch.zeros(shape), "list": arr.tolist(), "none": None}[case["obj"]]
    for f, kw, ok in ((U.check_array, "array", case["obj"] == "array"), (U.check_tensor, "tensor", case["obj"] == "tensor")):
        try:
            f(**{kw: obj}, name="thing", expected_dim=case["want"])
            res = True
        except ValueError as e:
            res = False
            ctx.check("thing" in str(e), "the message does not name the argument: %s", e)
        ctx.check(res == (ok and dims == case["want"]), "%s(%s with %d dimensions, expected_dim=%d) %s", f.__name__, case["obj"], dims, case["want"], "accepted" if res else "rejected")
    ctx.nontriv()


DELTA = st.sampled_from([0.001, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9])
SUBS = [
    Sub("bounds", fx(n=gen.some(1, 60, 1000), kind=st.sampled_from(["real", "binary", "ties", "constant", "big"]), delta=DELTA, slack=st.sampled_from([0.5, 3.0]), seed=SEED), run_bounds, 150),
    Sub("coverage", fx(n=st.integers(2, 80), b=st.sampled_from([0.5, 1.0, 3.0]), delta=DELTA, p=st.sampled_from([0.0, 0.01, 0.1, 0.3, 0.5, 0.8, 0.95, 1.0])), run_coverage, 60),
    Sub("bias", fx(n=gen.some(1, 30, 500), delta=DELTA, signed=st.booleans(), lam=st.sampled_from([0.3, 1.0, 5.0]), mod=st.sampled_from(["clip", "switch", "shrink"]), seed=SEED), run_bias, 150),
    Sub("sampling", fx(A=st.integers(1, 6), N=st.integers(200, 4000), style=st.sampled_from(["generic", "mixed"]), zero=st.booleans(), rs=gen.RS, seed=SEED), run_sampling, 80),
    Sub("action_dist", fx(n=gen.some(1, 12, 200), A=gen.some(1, 6, 60), L=st.integers(1, 4), dt=st.sampled_from(["int64", "int32", "uint8"]), layout=st.sampled_from(["C", "F"]), seed=SEED), run_dist, 100),
    Sub("links", fx(n=gen.some(1, 5, 100), A=gen.some(1, 6, 60), mag=st.integers(-3, 6), seed=SEED), run_link, 150),
    Sub("arrays", fx(dims=st.integers(1, 4), want=st.integers(1, 4), obj=st.sampled_from(["array", "tensor", "list", "none"]), seed=SEED), run_arrays, 60),
]
gen.huge(SUBS, "bounds bias", lo=3000, hi=20000, quick=1)
gen.huge(SUBS, "action_dist links", lo=1000, hi=5000, quick=1)

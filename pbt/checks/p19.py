"""P19: contextual online policies (linear and logistic)."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import expit

from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from ..stat import freq, mc_interval
from .p18 import counts, legal, ranked

from obp.policy import LinEpsilonGreedy, LinTS, LinUCB, LogisticEpsilonGreedy, LogisticTS, LogisticUCB

PROPERTY = "P19"
RULE = (
    "Random histories of select / update / initialize calls with random contexts (repeated, zero, one-hot and collinear ones included) for all six policies. "
    "Non-trivial: at least two batches of updates were learned before a compared selection."
)


class Lin:
    """ridge regression per action by solving the normal equations"""

    def __init__(self, case):
        self.A, self.dim, self.bs = case["A"], case["dim"], case["bs"]
        self.reset()

    def reset(self):
        self.t, self.log, self.seen = 0, [], []
        self.counts = [0] * self.A

    def update(self, a, r, x):
        self.t += 1
        self.counts[a] += 1
        self.log.append((a, r, x.copy()))
        if self.t % self.bs == 0:
            self.seen = list(self.log)

    def stats(self, x):
        """posterior mean and standard deviation of the reward of every action"""
        mu, sd = [], []
        for a in range(self.A):
            M, b = np.eye(self.dim), np.zeros(self.dim)
            for aa, r, v in self.seen:
                if aa == a:
                    M += np.outer(v, v)
                    b += r * v
            mu.append(x @ np.linalg.solve(M, b))
            sd.append(np.sqrt(x @ np.linalg.solve(M, x)))
        return np.array(mu), np.array(sd)


class Log(Lin):
    """Bayesian logistic regression per action with Gaussian (diagonal Laplace) approximation, updated batch by batch"""

    def __init__(self, case):
        self.lam, self.al = case["lam"], case["al"]
        super().__init__(case)

    def reset(self):
        super().reset()
        self.m = np.zeros((self.A, self.dim))
        self.q = np.full((self.A, self.dim), float(self.lam))

    def update(self, a, r, x):
        self.t += 1
        self.counts[a] += 1
        self.log.append((a, r, x.copy()))
        if self.t % self.bs == 0:
            for k in range(self.A):
                X = np.array([v for aa, _, v in self.log if aa == k])
                y = np.array([rr for aa, rr, _ in self.log if aa == k], float)
                if len(X):
                    w, m, q = self.m[k].copy(), self.m[k].copy(), self.q[k]
                    f = lambda v: 0.5 * (q * (v - m) ** 2).sum() + np.logaddexp(0, X @ v).sum() - (y * (X @ v)).sum()
                    for _ in range(60):  # damped Newton
                        p = expit(X @ w)
                        g = q * (w - m) + X.T @ (p - y)
                        H = np.diag(q) + (X.T * (p * (1 - p))) @ X
                        step = np.linalg.solve(H, g)
                        s = 1.0
                        while f(w - s * step) > f(w) + 1e-12 and s > 1e-8:
                            s /= 2
                        w = w - s * step
                        if np.abs(step).max() < 1e-12:
                            break
                    p = expit(X @ w)
                    self.m[k] = w
                    self.q[k] = q + (p * (1 - p)) @ X**2
            self.seen = self.seen + self.log
            self.log = []


KINDS = ["LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"]
CLS = dict(LinEpsilonGreedy=LinEpsilonGreedy, LinUCB=LinUCB, LinTS=LinTS, LogisticEpsilonGreedy=LogisticEpsilonGreedy, LogisticUCB=LogisticUCB, LogisticTS=LogisticTS)


def make(case):
    kw = dict(dim=case["dim"], n_actions=case["A"], len_list=min(case["L"], case["A"]), batch_size=case["bs"], random_state=case["rs"])
    if case["kind"] not in ("LinTS", "LogisticTS"):
        kw["epsilon"] = case["eps"]
    if case["kind"].startswith("Logistic"):
        kw.update(alpha_=case["al"], lambda_=case["lam"])
        return CLS[case["kind"]](**kw), Log(case)
    return CLS[case["kind"]](**kw), Lin(case)


def pick(r, case):
    u = r.rand()
    d = case["dim"]
    if u < 0.15:
        return np.ones(d) * case.get("cs", 1)
    if u < 0.3:
        return np.eye(d)[r.randint(d)]
    if u < 0.35:
        return np.zeros(d)
    return np.round(r.normal(size=d), 3) * case.get("cs", 1)


def scores(case, m, x):
    if case["kind"].startswith("Lin"):
        mu, sd = m.stats(x)
        return mu + (case["eps"] * sd if case["kind"] == "LinUCB" else 0.0)
    th = expit(m.m @ x)
    return th + (case["eps"] * np.sqrt((x**2 / m.q).sum(axis=1)) if case["kind"] == "LogisticUCB" else 0.0)


def deterministic(case):
    return case["kind"].endswith("UCB") or (case["kind"].endswith("Greedy") and case["eps"] == 0.0)


def play(case, ctx, pol, m, ops, check=True):
    r = gen.rng(case, 3)
    out = []
    for op, a, rew in ops:
        a %= case["A"]
        x = pick(r, case)
        c = x[None, :].copy()
        if case.get("icx") and (c == np.round(c)).all():
            c = c.astype(int)
        if op == "up":
            if case["kind"].startswith("Lin") and case.get("real"):
                rew = float(np.round(3 * rew - 1.5 + r.normal(), 2))
            pol.update_params(action=a, reward=rew, context=c)
            m.update(a, rew, x)
        elif op == "init":
            pol.initialize()
            m.reset()
        else:
            sel = legal(ctx, pol.select_action(c), case)
            out.append((sel.tolist(), None if case["kind"].endswith("TS") else scores(case, m, x)[sel]))
            if check and deterministic(case):
                ranked(ctx, sel, scores(case, m, x), "%s (epsilon=%g) after %d learned rounds" % (case["kind"], case["eps"], len(m.seen)), tol=1e-7 if case["kind"].startswith("Lin") else 2e-3)
                if len(m.seen) > case["bs"]:
                    ctx.nontriv()
        ctx.same(c, x[None, :], "context passed to %s" % op)
        ctx.check(pol.n_trial == m.t, "n_trial is %s after %d updates", pol.n_trial, m.t)
        ctx.same(pol.action_counts, m.counts, "action_counts after %d updates" % m.t)
    return out


def agree(a, b):
    """same selections, up to actions whose scores are tied (the last bit of a product may depend on the memory alignment)"""
    return len(a) == len(b) and all(s == t or (u is not None and (np.abs(u - v) <= 1e-7 * (1 + np.abs(u))).all()) for (s, u), (t, v) in zip(a, b))


def run_history(case, ctx):
    """greedy and UCB selections rank the documented scores of the data of completed batches; same seed and history, same selections; initialize() forgets"""
    pol, m = make(case)
    ops = [tuple(o) for o in case["ops"]]
    if case["more"]:
        r = gen.rng(case, 9)
        ops += [("up" if r.rand() < 0.7 else "sel", int(r.randint(case["A"])), int(r.randint(2))) for _ in range(case["more"])]
    a = play(case, ctx, pol, m, ops)
    twin, m2 = make(case)
    b = play(case, ctx, twin, m2, ops, check=False)
    ctx.check(agree(a, b), "same seed and history, different selections: %s, %s", a, b)
    pol.initialize()
    m.reset()
    a = play(case, ctx, pol, m, ops)
    fresh, m2 = make(case)
    b = play(case, ctx, fresh, m2, ops, check=False)
    ctx.check(agree(a, b), "initialize() does not restore the initial policy: %s, %s", a, b)
    ctx.label(case["kind"])


BASE = dict(A=st.integers(2, 4), L=st.integers(1, 3), dim=st.integers(1, 3), bs=st.integers(1, 4), lam=st.sampled_from([1.0, 0.3, 5.0]), al=st.sampled_from([1.0, 0.4, 2.0]), rs=gen.RS, seed=SEED)
# LinTS draws through a factorisation of the covariance; when eigenvalues repeat, the last bit of a product (which depends on the memory
# alignment of the arrays) rotates the draw, so draws are compared one by one only in dimensions without repeated eigenvalues
HIST = fx(
    kind=st.sampled_from(KINDS + ["LinUCB", "LogisticUCB", "LinEpsilonGreedy", "LogisticEpsilonGreedy"]), eps=st.sampled_from([0.0, 0.0, 0.0, 0.3, 1.0, 2.5, 20.0]), icx=st.booleans(), real=st.booleans(),
    ops=st.lists(st.tuples(st.sampled_from(["up"] * 10 + ["sel"] * 6 + ["init"]), st.integers(0, 20), st.sampled_from([0, 1, 1.0, 0.0])), min_size=1, max_size=30), more=st.sampled_from([0, 8, 15, 25, 60]), cs=st.sampled_from([1, 1, 1, 1, 0.01, 30, 1000]), **dict(BASE, A=gen.some(2, 4, 10), L=gen.some(1, 3, 9), dim=gen.some(1, 3, 7), bs=gen.some(1, 4, 20)),
).map(lambda c: dict(c, eps=min(c["eps"], 1.0)) if c["kind"].endswith("Greedy") else c).map(lambda c: dict(c, dim=1) if c["kind"] == "LinTS" else dict(c, cs=min(c["cs"], 4)) if c["kind"].startswith("Log") else c)


def run_freq(case, ctx):
    """selection frequencies: epsilon exploration is uniform; Thompson sampling draws independent parameters per action from the posterior"""
    A, L, N, M = case["A"], min(case["L"], case["A"]), 1200, 40000
    pol, m = make(case)
    r = gen.rng(case, 4)
    for i in range(case["n_up"] * case["bs"]):
        a = r.randint(A)
        x = pick(r, case)
        rew = float(r.rand() < (a + 1.0) / (A + 1))
        pol.update_params(action=a, reward=rew, context=x[None, :])
        m.update(a, rew, x)
    x = pick(r, case)
    if not x.any():
        x[0] = 1.0
    k, top = counts(pol, N, A, L, (x[None, :],))
    g = gen.rng(case, 8)
    if case["kind"] == "LinTS":
        mu, sd = m.stats(x)
        s = g.normal(size=(M, A)) * sd + mu
    elif case["kind"] == "LogisticTS":
        s = g.normal(size=(M, A)) * np.sqrt((x**2 * case["al"] ** 2 / m.q).sum(axis=1)) + m.m @ x
    else:
        s = None
    if s is not None:
        ref = np.argsort(-s, axis=1)[:, :L]
        for a in range(A):
            for j in range(L):
                lo, hi = mc_interval(int((ref[:, j] == a).sum()), M)
                if case["kind"] == "LogisticTS":
                    lo, hi = lo - 0.01, hi + 0.01  # the mode is found by a numerical optimiser
                freq(ctx, k[a, j], N, lo, hi, "%s: action %d in slot %d" % (case["kind"], a, j))
    else:
        sc = scores(case, m, x)
        gap = np.sort(sc)[::-1]
        tol = 1e-6 if case["kind"].startswith("Lin") else 5e-3
        pg = np.full((A, L), np.nan)
        for j in range(L):
            if (j == 0 or gap[j - 1] - gap[j] > tol) and (j == A - 1 or gap[j] - gap[j + 1] > tol):
                pg[:, j] = 0.0
                pg[np.argsort(-sc)[j], j] = 1.0
        for a in range(A):
            for j in range(L):
                p = (1 - case["eps"]) * (pg[a, j] if case["eps"] < 1 else 0.0) + case["eps"] / A
                if not np.isnan(p):
                    freq(ctx, k[a, j], N, p, p, "%s (epsilon=%g): action %d in slot %d" % (case["kind"], case["eps"], a, j))
    ctx.label(case["kind"])
    ctx.nontriv(case["n_up"] > 1)


FREQ = fx(kind=st.sampled_from(["LinEpsilonGreedy", "LinTS", "LogisticEpsilonGreedy", "LogisticTS"]), eps=st.sampled_from([0.0, 0.25, 0.6, 1.0]), n_up=st.integers(1, 8), **BASE)

SUBS = [Sub("history", HIST, run_history, 700, budget=(80, 700)), Sub("frequencies", FREQ, run_freq, 130, budget=(80, 700))]

"""Case generators.  A case is a small JSON dict; arrays are a pure function of it."""
import math
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


def fx(**kw):
    return st.fixed_dictionaries(kw)


# ---------------------------------------------------------------- numbers
def rng(case, salt=0):
    return np.random.RandomState((int(case["seed"]) * 7919 + salt * 104729 + 17) % (2**32))


def dist_rows(r, n_rows, n_actions, style):
    """(n_rows, n_actions) probability rows.

    dyadic : multiples of 1/16 (exact in binary, sums exactly 1, zeros common)
    det    : one-hot rows
    generic: Dirichlet with a random concentration (tiny probabilities included)
    mixed  : each row independently one of the above
    """
    out = np.zeros((n_rows, n_actions))
    for i in range(n_rows):
        s = style
        if s == "mixed":
            s = ("dyadic", "det", "generic")[r.randint(3)]
        if s == "det":
            out[i, r.randint(n_actions)] = 1.0
        elif s == "dyadic":
            cnt = np.bincount(r.randint(n_actions, size=16 if r.rand() < 0.7 else 2), minlength=n_actions)
            out[i] = cnt / cnt.sum()
        else:
            al = (0.1, 1.0, 10.0)[r.randint(3)]
            v = r.gamma(al, size=n_actions) + 1e-300
            v = v / v.sum()
            v[v < 1e-12] = 0.0
            v[v.argmax()] += 1.0 - v.sum()
            out[i] = v
    return out


STYLES = st.sampled_from(["dyadic", "det", "generic", "mixed"])
REWARDS = st.sampled_from(["binary", "int", "real", "signed", "const", "sparse", "big"] * 3 + ["bool", "small-int", "single"])


def rewards(r, n, kind):
    if kind == "binary":
        return r.randint(2, size=n)
    if kind == "int":
        return r.randint(-3, 6, size=n)
    if kind == "bool":
        return r.rand(n) < 0.4
    if kind == "small-int":
        return r.randint(-3, 6, size=n).astype("int8")
    if kind == "single":  # exactly representable in single precision
        return (r.randint(-16, 33, size=n) / 8.0).astype("float32")
    if kind == "real":
        return r.uniform(size=n)
    if kind == "signed":
        return r.normal(size=n) * 3
    if kind == "const":
        return np.full(n, float(r.randint(1, 4)))
    if kind == "sparse":
        return (r.rand(n) < 0.2).astype(float) * r.randint(1, 5)
    return r.normal(size=n) * 1e4 + 1e4


def pscores(r, n, style):
    if style in ("dyadic", "det"):
        return 2.0 ** -r.randint(0, 5, size=n)
    if style == "generic":
        return r.uniform(0.01, 1.0, size=n)
    p = np.where(r.rand(n) < 0.5, 2.0 ** -r.randint(0, 5, size=n), r.uniform(0.001, 1.0, size=n))
    if r.rand() < 0.25:  # rare actions: tiny but positive propensities
        p = np.where(r.rand(n) < 0.3, 10.0 ** -r.uniform(3, 9, size=n), p)
    return p


RS = st.one_of(st.just(0), st.sampled_from([1, 42, 12345]), st.integers(0, 10**6), st.integers(0, 10**6), st.integers(0, 10**6))  # random_state arguments


def some(lo, hi, big, often=11):
    """small integers, with an occasional large one"""
    return st.one_of([st.integers(lo, hi)] * often + [st.integers(hi + 1, big)])


def sizes(max_n=12, max_a=6, max_l=4):
    big = max_n * 6
    s, m = st.integers(1, max_n), st.integers(max_n, big)
    return dict(
        n=st.one_of(s, s, s, s, s, s, s, m, m, m, m, st.integers(big + 1, 700)),  # an occasional large data set
        A=st.one_of([st.integers(2, max_a)] * 22 + [st.integers(max_a + 1, 40), st.integers(41, 120)]),
        L=st.integers(1, max_l) if max_l == 1 else st.one_of([st.integers(1, max_l)] * 14 + [st.integers(max_l + 1, 9)]),
        seed=SEED,
    )


def logged_case(max_n=12, max_a=6, max_l=4, **extra):
    return fx(
        **sizes(max_n, max_a, max_l),
        style=STYLES,
        pstyle=STYLES,
        rk=REWARDS,
        layout=st.sampled_from(["C", "F", "strided"]),
        idt=st.sampled_from(["int64", "int32", "int8"]),
        **extra,
    )


def relayout(a, layout):
    a = np.asarray(a)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    return a


def logged(case, salt=0):
    """Logged bandit data plus evaluation policy, q-hat, estimated pscores and weights."""
    r = rng(case, salt)
    n, A, L = case["n"], case["A"], case["L"]
    ad = np.stack([dist_rows(r, n, A, case["style"]) for _ in range(L)], axis=2)
    idt = case.get("idt", "int64")
    action = r.randint(A, size=n).astype(idt)
    # make roughly half of the logged actions ones the evaluation policy supports
    position = r.randint(L, size=n).astype(idt)
    for i in range(n):
        if r.rand() < 0.5:
            action[i] = int(np.argmax(ad[i, :, position[i]]))
    reward = rewards(r, n, case["rk"])
    ps = pscores(r, n, case["pstyle"])
    eps_ = pscores(r, n, case["style"])
    iw = np.where(r.rand(n) < 0.15, 0.0, r.gamma(1.0, size=n) * 2)
    if case["pstyle"] == "dyadic":
        iw = r.randint(0, 9, size=n) / 2.0
    q = np.stack([rewards(r, n * A, case["rk"] if case["rk"] != "big" else "signed").reshape(n, A) for _ in range(L)], axis=2).astype(float)
    if r.rand() < 0.3:
        q = q + r.normal(size=q.shape)
    lay = case.get("layout", "C")
    return SimpleNamespace(
        n=n, A=A, L=L,
        action=relayout(action, lay), reward=relayout(reward, lay), pscore=relayout(ps, lay),
        position=relayout(position, lay), action_dist=relayout(ad, lay),
        q=relayout(q, lay), est_pscore=eps_, est_iw=iw,
    )


def weights(d, pscore=None):
    """importance weights as a python list"""
    ps = d.pscore if pscore is None else pscore
    return [float(d.action_dist[i, d.action[i], d.position[i]]) / float(ps[i]) for i in range(d.n)]


def fmean(xs):
    xs = list(xs)
    return math.fsum(xs) / len(xs)


def snapshot(*arrays):
    return [None if a is None else np.array(a, copy=True) for a in arrays]


def unchanged(ctx, arrays, snap, what):
    for k, (a, b) in enumerate(zip(arrays, snap)):
        if b is None:
            continue
        ctx.check(np.array_equal(np.asarray(a), b, equal_nan=b.dtype.kind == "f"), "%s modified its input #%d in place" % (what, k))


# ---------------------------------------------------------------- rare sizes
def huge(subs, names, lo=900, hi=9000, quick=4, thorough=60, field="n", budget=(60, 300), **over):
    """one more sub-check per name: the same cases with a size far beyond the usual ones"""
    from pbt.core import Sub

    for name in names.split():
        s = {x.name: x for x in subs}[name]

        def grow(pair):
            case, k = pair
            return dict(case, **{field: [k] if field == "ns" else k}, **{a: b for a, b in over.items() if a in case})

        subs.append(Sub(name + "_huge", st.tuples(s.strategy, st.integers(lo, hi)).map(grow), s.run, quick, thorough, budget=budget, doc=s.doc + " (large data)"))
    return subs

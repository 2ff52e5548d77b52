"""Registry of estimator families: for a case, the estimator, its arguments and the independent
per-round (per-slate) terms whose mean is the estimate and which the bootstrap resamples."""
import math
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .gen import SEED, fmean, fx

import obp.ope as ope

INF = float("inf")
LAM = st.one_of(
    st.sampled_from([0.0, 0.5, 1.0, 2.0, 4.0, 1e6, INF, INF]),
    st.floats(0, 20, allow_nan=False),
    st.integers(0, 71).map(lambda k: "w%d" % k),
)


def _f(name, est, kw, terms):
    return SimpleNamespace(name=name, est=est, kw=kw, terms=[float(t) for t in terms])


def warm(f, case):
    """use the estimator object on other data first: an answer may depend on its own arguments only"""
    if not case["warm"]:
        return
    n = len(f.kw["reward"])
    whole = "slate_id" in f.kw
    kw = {k: (v if whole or not isinstance(v, np.ndarray) or len(v) != n else v[: max(1, n // 2)]) for k, v in f.kw.items()}
    kw["reward"] = kw["reward"][::-1] * 3.0 + 1.0
    for call in (lambda: f.est.estimate_policy_value(**kw), lambda: f.est.estimate_interval(n_bootstrap_samples=3, random_state=1, **kw)):
        try:
            call()
        except Exception:
            pass  # the decoy data may be outside an estimator's domain


# ------------------------------------------------------------------ standard
STD_NAMES = ["RM", "IPW", "SNIPW", "DM", "DR", "SNDR", "Switch", "DRos", "SGIPW", "SGDR", "BIPW"]


def std_case(**extra):
    return gen.logged_case(which=st.sampled_from(STD_NAMES), lam=LAM, lam01=st.sampled_from([0.0, 0.25, 0.5, 0.9]), est_ps=st.booleans(), warm=st.booleans(), **extra)


def std(case):
    """-> family or None when the documented formula is 0/0"""
    d = gen.logged(case)
    e = case["est_ps"]
    ps = d.est_pscore if e else d.pscore
    kw = dict(reward=d.reward, action=d.action, action_dist=d.action_dist, position=d.position)
    w = gen.weights(d, ps)
    lam = case["lam"]
    name = case["which"]
    if isinstance(lam, str):
        k = int(lam[1:]) % d.n
        lam = float(d.est_iw[k]) if name == "BIPW" else w[k]
    pkw = dict(estimated_pscore=ps, pscore=d.pscore) if e else dict(pscore=ps)
    q = dict(estimated_rewards_by_reg_model=d.q)
    if name in ("SNIPW", "SNDR") and math.fsum(w) <= 0:
        return None
    if name == "BIPW" and math.fsum(min(float(x), lam) for x in d.est_iw) <= 1e-200:
        return None
    if name == "RM":
        return _f(name, ope.ReplayMethod(), kw, ref.rm(d))
    if name == "DM":
        return _f(name, ope.DirectMethod(), dict(kw, **q), ref.dm(d))
    if name == "BIPW":
        return _f(name, ope.BalancedInverseProbabilityWeighting(lambda_=lam), dict(kw, estimated_importance_weights=d.est_iw), ref.bipw(d, lam))
    if name == "SNIPW":
        return _f(name, ope.SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=e), dict(kw, **pkw), ref.snipw(d, ps))
    if name == "SNDR":
        return _f(name, ope.SelfNormalizedDoublyRobust(use_estimated_pscore=e), dict(kw, **pkw, **q), ref.sndr(d, ps))
    if name in ("SGIPW", "SGDR"):
        lam = case["lam01"]
        cls, f = (ope.SubGaussianInverseProbabilityWeighting, ref.sgipw) if name == "SGIPW" else (ope.SubGaussianDoublyRobust, ref.sgdr)
        return _f(name, cls(lambda_=lam, use_estimated_pscore=e), dict(kw, **pkw, **(q if name == "SGDR" else {})), f(d, lam, ps))
    cls, f = dict(
        IPW=(ope.InverseProbabilityWeighting, ref.ipw), DR=(ope.DoublyRobust, ref.dr),
        Switch=(ope.SwitchDoublyRobust, ref.switch_dr), DRos=(ope.DoublyRobustWithShrinkage, ref.dros),
    )[name]
    return _f(name, cls(lambda_=lam, use_estimated_pscore=e), dict(kw, **pkw, **({} if name == "IPW" else q)), f(d, lam, ps))


# -------------------------------------------------------------- multi loggers
MULTI_NAMES = ["naive-IPW", "balanced-IPW", "weighted-IPW", "naive-DR", "balanced-DR", "weighted-DR"]


def multi_case(**extra):
    return gen.logged_case(which=st.sampled_from(MULTI_NAMES), lam=LAM, est_ps=st.booleans(), K=st.integers(1, 4), gap=st.sampled_from([1, 1, 3]), off=st.sampled_from([0, 0, 2]), order=st.booleans(), warm=st.booleans(), **extra)


def _var(xs):
    m = fmean(xs)
    return fmean([(x - m) ** 2 for x in xs])


def multi(case):
    d = gen.logged(case)
    r = gen.rng(case, 5)
    idx = r.randint(case["K"], size=d.n)
    if case["order"]:
        idx = np.sort(idx)
    strata = idx * case["gap"] + case["off"]
    e = case["est_ps"]
    name = case["which"]
    avg = gen.pscores(r, d.n, case["pstyle"])
    eavg = gen.pscores(r, d.n, case["style"])
    kw = dict(reward=d.reward, action=d.action, action_dist=d.action_dist, position=d.position, stratum_idx=strata)
    if name.startswith("balanced"):
        ps = eavg if e else avg
        kw.update(pscore_avg=avg)
        if e:
            kw.update(estimated_pscore_avg=eavg)
    else:
        ps = d.est_pscore if e else d.pscore
        kw.update(pscore=d.pscore)
        if e:
            kw.update(estimated_pscore=d.est_pscore)
    w = gen.weights(d, ps)
    lam = case["lam"]
    if isinstance(lam, str):
        lam = w[int(lam[1:]) % d.n]
    dr = name.endswith("DR")
    terms = ref.dr(d, lam, ps) if dr else ref.ipw(d, lam, ps)
    if dr:
        kw.update(estimated_rewards_by_reg_model=d.q)
    if name.startswith("weighted"):
        var = {}
        cnt = {}
        for k in set(strata.tolist()):
            sub = [terms[i] for i in range(d.n) if strata[i] == k]
            var[k] = _var(sub)
            cnt[k] = len(sub)
            # a stratum whose terms are all equal has no inverse variance
            if var[k] <= 1e-9 * max(1.0, max(abs(x) for x in sub)) ** 2:
                return None
        tot = math.fsum(cnt[k] / var[k] for k in var)
        terms = [terms[i] * d.n / (var[int(strata[i])] * tot) for i in range(d.n)]
    cls = {
        "naive-IPW": ope.MultiLoggersNaiveInverseProbabilityWeighting, "balanced-IPW": ope.MultiLoggersBalancedInverseProbabilityWeighting,
        "weighted-IPW": ope.MultiLoggersWeightedInverseProbabilityWeighting, "naive-DR": ope.MultiLoggersNaiveDoublyRobust,
        "balanced-DR": ope.MultiLoggersBalancedDoublyRobust, "weighted-DR": ope.MultiLoggersWeightedDoublyRobust,
    }[name]
    return _f(name, cls(lambda_=lam, use_estimated_pscore=e), kw, terms)


# --------------------------------------------------------------------- slate
SLATE_NAMES = ["SIPS", "IIPS", "RIPS", "SNSIPS", "SNIIPS", "SNRIPS", "cascade-DR"]


def slate_case(**extra):
    return fx(
        n=st.one_of([st.integers(1, 12)] * 11 + [st.integers(13, 150)]), L=st.one_of([st.integers(1, 4)] * 11 + [st.integers(5, 8)]), A=gen.some(2, 5, 20), seed=SEED, pstyle=gen.STYLES, rk=gen.REWARDS,
        which=st.sampled_from(SLATE_NAMES), gap=st.sampled_from([1, 1, 7]), off=st.sampled_from([0, 3]), shuffle=st.booleans(), warm=st.booleans(), **extra
    )


def slate(case):
    r = gen.rng(case)
    n, L, A = case["n"], case["L"], case["A"]
    name = case["which"]
    ids = np.arange(n) * case["gap"] + case["off"]
    sid = np.repeat(ids, L)
    pos = np.tile(np.arange(L), n)
    N = n * L
    rew = gen.rewards(r, N, case["rk"])
    style = case["pstyle"]

    def one(zero_ok, kind):
        """pscore-like arrays: constant in the slate, free, or non-increasing along the slate"""
        def draw(k):
            p = gen.pscores(r, k, style)
            if zero_ok:
                p = np.where(r.rand(k) < 0.2, 0.0, p)
            return p
        if kind == "s":
            return np.repeat(draw(n), L)
        if kind == "i":
            return draw(N)
        p = draw(N).reshape(n, L)
        return np.cumprod(p, axis=1).clip(0.0 if zero_ok else 1e-12).reshape(-1)

    base = name[2:] if name.startswith("SN") else name
    kind = {"SIPS": "s", "IIPS": "i", "RIPS": "c", "cascade-DR": "c"}[base]
    pb, pe = one(False, kind), one(True, kind)
    act = r.randint(A, size=N)
    q = r.normal(size=(N, A))
    ad = np.concatenate([gen.dist_rows(r, 1, A, "mixed") for _ in range(N)])
    w = [float(pe[i]) / float(pb[i]) for i in range(N)]
    if name.startswith("SN"):
        rows = [[w[i] for i in range(N) if pos[i] == l] for l in range(L)]
        if any(math.fsum(x) <= 0 for x in rows):
            return None
        row_terms = [w[i] * float(rew[i]) / fmean(rows[pos[i]]) for i in range(N)]
    elif name == "cascade-DR":
        row_terms = []
        for i in range(N):
            prev = 1.0 if pos[i] == 0 else w[i - 1]
            base_q = math.fsum(float(ad[i, a]) * float(q[i, a]) for a in range(A))
            row_terms.append(w[i] * (float(rew[i]) - float(q[i, act[i]])) + prev * base_q)
    else:
        row_terms = [w[i] * float(rew[i]) for i in range(N)]
    terms = [math.fsum(row_terms[k * L : (k + 1) * L]) for k in range(n)]
    perm = np.arange(N)
    if case["shuffle"] and name != "cascade-DR":
        perm = r.permutation(N)
    pk = {"s": "pscore", "i": "pscore_item_position", "c": "pscore_cascade"}[kind]
    kw = {"slate_id": sid[perm], "position": pos[perm], "reward": rew[perm], pk: pb[perm], "evaluation_policy_" + pk: pe[perm]}
    cls = dict(SIPS=ope.SlateStandardIPS, IIPS=ope.SlateIndependentIPS, RIPS=ope.SlateRewardInteractionIPS, SNSIPS=ope.SelfNormalizedSlateStandardIPS,
               SNIIPS=ope.SelfNormalizedSlateIndependentIPS, SNRIPS=ope.SelfNormalizedSlateRewardInteractionIPS).get(name)
    if name == "cascade-DR":
        kw.update(action=act, q_hat=q.reshape(-1), evaluation_policy_action_dist=ad.reshape(-1))
        est = ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)
    else:
        est = cls(len_list=L)
    return _f(name, est, kw, terms)


# ---------------------------------------------------------------- continuous
KERNELS = ["gaussian", "epanechnikov", "triangular", "cosine"]


def kern(name, u):
    if name == "gaussian":
        return math.exp(-u * u / 2) / math.sqrt(2 * math.pi)
    if abs(u) >= 1:
        return 0.0
    if name == "epanechnikov":
        return 0.75 * (1 - u * u)
    if name == "triangular":
        return 1 - abs(u)
    return math.pi / 4 * math.cos(math.pi / 2 * u)


def cont_case(**extra):
    return fx(
        n=st.one_of([st.integers(1, 10)] * 6 + [st.integers(10, 60)] * 5 + [st.integers(61, 900)]), seed=SEED, pstyle=gen.STYLES, rk=gen.REWARDS,
        which=st.sampled_from(["K-IPW", "K-SNIPW", "K-DR"]), kernel=st.sampled_from(KERNELS),
        h=st.one_of(st.sampled_from([0.5, 1, 2, 1.0, 0.25]), st.floats(0.01, 10)), act=st.sampled_from(["float", "float", "grid", "grid", "int", "int", "wide"]), warm=st.booleans(), **extra
    )


def cont(case):
    r = gen.rng(case)
    n = case["n"]
    rew = gen.rewards(r, n, case["rk"])
    ps = gen.pscores(r, n, case["pstyle"]) * (3.0 if r.rand() < 0.3 else 1.0)  # a density may exceed 1
    if case["act"] == "wide":
        ps = ps * float(r.choice([1, 1, 20, 500]))
    if case["act"] == "float":
        a, b = r.normal(size=n), r.normal(size=n)
    elif case["act"] == "grid":
        a, b = r.randint(-8, 9, size=n) / 4.0, r.randint(-8, 9, size=n) / 4.0
    elif case["act"] == "wide":  # far from the origin, within a few bandwidths of each other
        a = r.normal(size=n) * float(r.choice([10, 300, 2000]))
        b = a + case["h"] * r.uniform(-1.6, 1.6, size=n)
    else:
        a, b = r.randint(-3, 4, size=n), r.randint(-3, 4, size=n)
    h = case["h"]
    k = [kern(case["kernel"], (float(b[i]) - float(a[i])) / h) for i in range(n)]
    q = r.normal(size=n)
    kw = dict(reward=rew, action_by_behavior_policy=a, pscore=ps, action_by_evaluation_policy=b)
    name = case["which"]
    if name == "K-IPW":
        terms = [k[i] * float(rew[i]) / float(ps[i]) / h for i in range(n)]
        est = ope.KernelizedInverseProbabilityWeighting(kernel=case["kernel"], bandwidth=h)
    elif name == "K-SNIPW":
        m = fmean([k[i] / float(ps[i]) for i in range(n)])
        if m <= 1e-8 * fmean([1 / float(x) for x in ps]):
            return None
        terms = [k[i] * float(rew[i]) / float(ps[i]) / m for i in range(n)]
        est = ope.KernelizedSelfNormalizedInverseProbabilityWeighting(kernel=case["kernel"], bandwidth=h)
    else:
        kw["estimated_rewards_by_reg_model"] = q
        terms = [k[i] * (float(rew[i]) - float(q[i])) / float(ps[i]) / h + float(q[i]) for i in range(n)]
        est = ope.KernelizedDoublyRobust(kernel=case["kernel"], bandwidth=h)
    f = _f(name, est, kw, terms)
    f.k = k
    # cos(pi/2) is 6e-17, not 0: the weight of an unlikely action may carry that far
    f.scale = max([1.0] + [abs(t) for t in terms] + [1e-7 * (abs(float(rew[i])) + abs(float(q[i]))) / float(ps[i]) / h for i in range(n)])
    return f


# ----------------------------------------------------------------- embedding
def embed_case(**extra):
    return fx(
        n=st.one_of([st.integers(2, 10)] * 6 + [st.integers(10, 40)] * 5 + [st.integers(41, 150)]), A=gen.some(2, 5, 40), D=gen.some(1, 3, 6), C=gen.some(2, 3, 8), L=gen.some(1, 2, 5),
        seed=SEED, style=gen.STYLES, rk=gen.REWARDS, sn=st.booleans(), warm=st.booleans(), **extra
    )


def embed_data(case):
    r = gen.rng(case)
    n, A, D, C, L = case["n"], case["A"], case["D"], case["C"], case["L"]
    pb = np.stack([0.75 * gen.dist_rows(r, n, A, "generic") + 0.25 / A for _ in range(L)], 2)
    pe = np.stack([gen.dist_rows(r, n, A, case["style"]) for _ in range(L)], 2)
    pea = np.stack([gen.dist_rows(r, A, C, "generic" if r.rand() < 0.5 else "dyadic") * 0.9 + 0.1 / C for _ in range(D)], 2)
    pos = r.randint(L, size=n)
    act = np.array([r.choice(A, p=pb[i, :, pos[i]] / pb[i, :, pos[i]].sum()) for i in range(n)])
    emb = np.array([[r.choice(C, p=pea[act[i], :, d] / pea[act[i], :, d].sum()) for d in range(D)] for i in range(n)])
    rew = gen.rewards(r, n, case["rk"])
    return SimpleNamespace(n=n, A=A, D=D, C=C, L=L, pi_b=pb, pi_e=pe, pea=pea, position=pos, action=act, emb=emb, reward=rew, r=r)


def embed_w(d, dims):
    """marginal importance weights with the true p(e|x,a) restricted to ``dims``"""
    out = []
    for i in range(d.n):
        num = den = 0.0
        for a in range(d.A):
            pe = math.prod(float(d.pea[a, d.emb[i, k], k]) for k in dims)
            num += float(d.pi_e[i, a, d.position[i]]) * pe
            den += float(d.pi_b[i, a, d.position[i]]) * pe
        out.append(num / den)
    return out


def embed_terms(d, dims, sn):
    w = embed_w(d, dims)
    if sn:
        m = fmean(w)
        if m <= 0:
            return None
        w = [x / m for x in w]
    return [w[i] * float(d.reward[i]) for i in range(d.n)]


def embed(case):
    d = embed_data(case)
    terms = embed_terms(d, range(d.D), case["sn"])
    if terms is None:
        return None
    cls = ope.SelfNormalizedMarginalizedInverseProbabilityWeighting if case["sn"] else ope.MarginalizedInverseProbabilityWeighting
    kw = dict(reward=d.reward, action=d.action, action_embed=d.emb, pi_b=d.pi_b, action_dist=d.pi_e, position=d.position, p_e_a=d.pea)
    return _f("SNMIPW" if case["sn"] else "MIPW", cls(n_actions=d.A), kw, terms)


FAMILIES = dict(std=(std_case, std), multi=(multi_case, multi), slate=(slate_case, slate), continuous=(cont_case, cont), embed=(embed_case, embed))

"""P02: importance-weighted estimators are exactly unbiased (expectation by enumeration)."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fx

from obp.ope import (
    DoublyRobust,
    InverseProbabilityWeighting,
    MarginalizedInverseProbabilityWeighting,
    MultiLoggersBalancedDoublyRobust,
    MultiLoggersBalancedInverseProbabilityWeighting,
    MultiLoggersNaiveDoublyRobust,
    MultiLoggersNaiveInverseProbabilityWeighting,
    SlateCascadeDoublyRobust,
    SlateIndependentIPS,
    SlateRewardInteractionIPS,
    SlateStandardIPS,
)

PROPERTY = "P02"
RULE = (
    "Small finite problems (contexts, full-support logging policies, evaluation policies incl. deterministic ones, "
    "reward models, arbitrary q-hat) whose whole sample space of logged data sets is enumerated; the probability-"
    "weighted sum of the estimates is compared with the true policy value; and larger problems (up to tens of thousands of "
    "rounds, 60 actions, 12 loggers, 5-slot slates) evaluated on the data set containing every outcome exactly in proportion "
    "to its probability, on which an unbiased average equals the true value. Non-trivial: logging and evaluation "
    "policy differ and rewards are not all equal."
)
ASSUMPTIONS = ["logging policies have full support on the evaluation policy's actions (the estimators' stated condition)"]


def _policy(r, n, A, style):
    """full-support policy rows"""
    p = gen.dist_rows(r, n, A, "generic" if style == "generic" else "dyadic")
    eps = [0.25, 0.25, 1e-3, 1e-6, 1e-9][r.randint(5)]  # weights up to about 1e9
    return (1 - eps) * p + eps / A


def _finish(ctx, exp, scale, truth, what):
    """scale: the expectation of the absolute value of the estimate (rounding is relative to it)"""
    ctx.close(exp, truth, what, rtol=1e-7, scale=max(1.0, scale))


def run_single(case, ctx):
    """IPW and DR (any q-hat), single logger, all data sets of n rounds enumerated"""
    r = gen.rng(case)
    n, A, L = case["n"], case["A"], case["L"]
    pb = np.stack([_policy(r, n, A, case["style"]) for _ in range(L)], 2)
    pe = np.stack([gen.dist_rows(r, n, A, case["style"]) for _ in range(L)], 2)
    pos = r.randint(L, size=n)
    q = r.normal(size=(n, A, L)) * case["mag"]
    q_hat = r.normal(size=(n, A, L)) * case["mag"]
    noise = case["noise"]  # reward takes q +/- noise with prob 1/2
    truth = np.mean([sum(pe[i, a, pos[i]] * q[i, a, pos[i]] for a in range(A)) for i in range(n)])
    ctx.nontriv(not np.allclose(pb, pe) and A >= 2)
    outs = [-noise, noise] if noise else [0.0]
    e_ipw = e_dr = 0.0
    sc = 0.0
    for acts in itertools.product(range(A), repeat=n):
        for eps in itertools.product(outs, repeat=n):
            prob = 1.0
            for i in range(n):
                prob *= pb[i, acts[i], pos[i]] / len(outs)
            a = np.array(acts)
            rew = np.array([q[i, acts[i], pos[i]] + eps[i] for i in range(n)])
            ps = pb[np.arange(n), a, pos]
            kw = dict(reward=rew, action=a, pscore=ps, action_dist=pe, position=pos)
            v1 = InverseProbabilityWeighting().estimate_policy_value(**kw)
            v2 = DoublyRobust().estimate_policy_value(estimated_rewards_by_reg_model=q_hat, **kw)
            e_ipw += prob * v1
            e_dr += prob * v2
            sc += prob * (abs(v1) + abs(v2))
    _finish(ctx, e_ipw, sc, truth, "E[IPW] vs true policy value")
    _finish(ctx, e_dr, sc, truth, "E[DR] vs true policy value")


def run_multi(case, ctx):
    """naive / balanced IPW and DR, several loggers with rho_k = n_k/n, common context"""
    r = gen.rng(case)
    K, A = case["K"], case["A"]
    counts = case["counts"][:K]
    n = sum(counts)
    strata = np.repeat(np.arange(K), counts)
    pk = _policy(r, K, A, case["style"])
    pe = gen.dist_rows(r, 1, A, case["style"])[0]
    q = r.normal(size=A) * 2
    q_hat = r.normal(size=A) * 2
    avg = sum(counts[k] / n * pk[k] for k in range(K))
    truth = float(pe @ q)
    ctx.nontriv(K > 1)
    ad = np.tile(pe, (n, 1))[:, :, None]
    qh = np.tile(q_hat, (n, 1))[:, :, None]
    ests = [
        (MultiLoggersNaiveInverseProbabilityWeighting(), False),
        (MultiLoggersBalancedInverseProbabilityWeighting(), False),
        (MultiLoggersNaiveDoublyRobust(), True),
        (MultiLoggersBalancedDoublyRobust(), True),
    ]
    exp = [0.0] * len(ests)
    sc = 0.0
    for acts in itertools.product(range(A), repeat=n):
        a = np.array(acts)
        prob = float(np.prod(pk[strata, a]))
        kw = dict(reward=q[a], action=a, pscore=pk[strata, a], pscore_avg=avg[a], action_dist=ad, stratum_idx=strata)
        for j, (e, dr) in enumerate(ests):
            v = e.estimate_policy_value(estimated_rewards_by_reg_model=qh, **kw) if dr else e.estimate_policy_value(**kw)
            exp[j] += prob * v
            sc += prob * abs(v)
    for (e, _), x in zip(ests, exp):
        _finish(ctx, x, sc, truth, "E[%s] vs true policy value" % type(e).__name__)


def slate_policy_probs(logit, slates, factorizable):
    """probability of each slate under a (Plackett-Luce or factorised) softmax policy"""
    out = []
    for s in slates:
        p = 1.0
        rem = list(range(len(logit)))
        for a in s:
            z = math.fsum(math.exp(logit[b]) for b in rem)
            p *= math.exp(logit[a]) / z
            if not factorizable:
                rem.remove(a)
        out.append(p)
    return np.array(out)


def run_slate(case, ctx):
    """SIPS for any reward structure, IIPS for independent, RIPS and cascade-DR for cascading rewards"""
    r = gen.rng(case)
    A, L, fac, K = case["A"], case["L"], case["fac"], case["n"]
    if not fac:
        L = min(L, A)
    slates = list(itertools.product(range(A), repeat=L)) if fac else list(itertools.permutations(range(A), L))
    per_ctx = []
    for k in range(K):
        lb, le = r.normal(size=A), r.normal(size=A) * 2
        per_ctx.append((slate_policy_probs(lb, slates, fac), slate_policy_probs(le, slates, fac)))
    sips_r = r.normal(size=(K, len(slates), L))  # arbitrary reward per slate & slot
    ind = r.normal(size=(K, L, A))
    casc = [dict() for _ in range(K)]

    def casc_r(k, s, l):
        key = tuple(s[: l + 1])
        if key not in casc[k]:
            casc[k][key] = r.normal()
        return casc[k][key]

    for k in range(K):
        for s in slates:
            for l in range(L):
                casc_r(k, s, l)
    ctx.nontriv(L >= 2 and len(slates) > 2)

    def marg(p, s, l):
        return math.fsum(p[j] for j, t in enumerate(slates) if t[l] == s[l])

    def pref(p, s, l):
        return math.fsum(p[j] for j, t in enumerate(slates) if t[: l + 1] == s[: l + 1])

    # expectation of a K-slate data set by linearity within the slate-average: enumerate one slate per
    # context at a time, other contexts fixed at their first slate -> checks the average too
    def dataset(choice):
        d = dict(slate_id=[], position=[], action=[])
        ps, es, pi, ei, pc, ec = [], [], [], [], [], []
        rs, ri, rc = [], [], []
        q, ad = [], []
        for k, j in enumerate(choice):
            s = slates[j]
            pb, pe = per_ctx[k]
            prev = 1.0
            for l in range(L):
                d["slate_id"].append(k)
                d["position"].append(l)
                d["action"].append(s[l])
                ps.append(min(pb[j], 1.0)); es.append(min(pe[j], 1.0))
                pi.append(min(marg(pb, s, l), 1.0)); ei.append(min(marg(pe, s, l), 1.0))
                pc.append(min(pref(pb, s, l), 1.0, *( [pc[-1]] if l else []))); ec.append(min(pref(pe, s, l), 1.0, *([ec[-1]] if l else [])))
                rs.append(sips_r[k, j, l]); ri.append(ind[k, l, s[l]]); rc.append(casc_r(k, s, l))
                cond = []
                for a in range(A):
                    num = math.fsum(pe[m] for m, t in enumerate(slates) if t[:l] == s[:l] and t[l] == a)
                    cond.append(num)
                tot = math.fsum(cond)
                ad.extend([c / tot for c in cond])
                for a in range(A):
                    q.append(qh[k][l, a] if case["qfree"] or l == 0 else qh[k][l, a] * (1 + s[0]))
        g = {x: np.array(v, dtype=int) for x, v in d.items()}
        return g, [np.array(v) for v in (ps, es, pi, ei, pc, ec, rs, ri, rc)], np.array(q), np.array(ad)

    qh = [r.normal(size=(L, A)) for _ in range(K)]
    exp = dict(sips=0.0, iips=0.0, rips=0.0, cdr=0.0)
    sc = 1.0
    for choice in itertools.product(range(len(slates)), repeat=K):
        prob = 1.0
        for k, j in enumerate(choice):
            prob *= per_ctx[k][0][j]
        g, (ps, es, pi, ei, pc, ec, rs, ri, rc), q, ad = dataset(choice)
        b = dict(slate_id=g["slate_id"], position=g["position"])
        v = dict(
            sips=SlateStandardIPS(len_list=L).estimate_policy_value(reward=rs, pscore=ps, evaluation_policy_pscore=es, **b),
            iips=SlateIndependentIPS(len_list=L).estimate_policy_value(reward=ri, pscore_item_position=pi, evaluation_policy_pscore_item_position=ei, **b),
            rips=SlateRewardInteractionIPS(len_list=L).estimate_policy_value(reward=rc, pscore_cascade=pc, evaluation_policy_pscore_cascade=ec, **b),
            cdr=SlateCascadeDoublyRobust(len_list=L, n_unique_action=A).estimate_policy_value(
                reward=rc, action=g["action"], pscore_cascade=pc, evaluation_policy_pscore_cascade=ec, q_hat=q, evaluation_policy_action_dist=ad, **b),
        )
        for x in exp:
            exp[x] += prob * v[x]
            sc += prob * abs(v[x])
    t_s = np.mean([sum(per_ctx[k][1][j] * sips_r[k, j].sum() for j in range(len(slates))) for k in range(K)])
    t_i = np.mean([sum(per_ctx[k][1][j] * sum(ind[k, l, s[l]] for l in range(L)) for j, s in enumerate(slates)) for k in range(K)])
    t_c = np.mean([sum(per_ctx[k][1][j] * sum(casc_r(k, s, l) for l in range(L)) for j, s in enumerate(slates)) for k in range(K)])
    _finish(ctx, exp["sips"], sc, t_s, "E[SIPS]")
    _finish(ctx, exp["iips"], sc, t_i, "E[IIPS] (independent rewards)")
    _finish(ctx, exp["rips"], sc, t_c, "E[RIPS] (cascading rewards)")
    _finish(ctx, exp["cdr"], sc, t_c, "E[cascade-DR] (cascading rewards, arbitrary q-hat)")


def run_mipw(case, ctx):
    """MIPW with the true p(e|a) when the embedding mediates the whole action effect"""
    r = gen.rng(case)
    A, D, C, n = case["A"], case["D"], case["C"], case["n"]
    pb = _policy(r, n, A, case["style"])
    pe = gen.dist_rows(r, n, A, case["style"])
    pea = np.stack([gen.dist_rows(r, A, C, "dyadic") for _ in range(D)], 2)
    embs = list(itertools.product(range(C), repeat=D))
    q = r.normal(size=(n, len(embs)))
    cond = np.array([[math.prod(pea[a, e[d], d] for d in range(D)) for e in embs] for a in range(A)])
    truth = np.mean([sum(pe[i, a] * cond[a, j] * q[i, j] for a in range(A) for j in range(len(embs))) for i in range(n)])
    ctx.nontriv(D >= 2 and not np.allclose(pb, pe))
    if D > 1:
        ctx.label("several embedding dimensions")
    exp, sc = 0.0, 1.0
    est = MarginalizedInverseProbabilityWeighting(n_actions=A)
    per = [[(a, j) for a in range(A) for j in range(len(embs)) if cond[a, j] > 0] for _ in range(n)]
    for choice in itertools.product(*per):
        prob = math.prod(pb[i, a] * cond[a, j] for i, (a, j) in enumerate(choice))
        v = est.estimate_policy_value(
            reward=np.array([q[i, j] for i, (a, j) in enumerate(choice)]),
            action=np.array([a for a, _ in choice]),
            action_embed=np.array([embs[j] for _, j in choice]),
            pi_b=pb[:, :, None], action_dist=pe[:, :, None], p_e_a=pea,
        )
        exp += prob * v
        sc += prob * abs(v)
    _finish(ctx, exp, sc, truth, "E[MIPW] vs true policy value")


# ---------------------------------------------------------------- representative samples
# When every probability of the logging policy is a multiple of 1/D, the data set that contains every outcome exactly in
# proportion to its probability has the distribution of the data as its empirical distribution. An average of per-round
# terms over it is the expectation of the term, so an unbiased average equals the true value: exact, for any number of rounds.


def _counts(r, A, D, need=None):
    """A non-negative integers adding up to D, positive where need is true"""
    c = np.ones(A, dtype=int) if need is None else np.asarray(need).astype(int)
    free = D - c.sum()
    style = r.randint(3)
    if style == 0:
        c += r.multinomial(free, r.dirichlet(np.ones(A)))
    elif style == 1:  # nearly all on one outcome: weights of the size of D
        c[r.randint(A)] += free
    else:
        c += r.multinomial(free, np.ones(A) / A)
    return c


def run_rep_single(case, ctx):
    r = gen.rng(case)
    C, A, L, D = case["C"], case["A"], case["L"], max(case["D"], case["A"])
    rows = []
    truth = []
    pe = np.stack([gen.dist_rows(r, C, A, case["style"]) for _ in range(L)], 2)
    q = r.normal(size=(C, A, L)) * case["mag"]
    qh = r.normal(size=(C, A, L)) * case["mag"]
    for x in range(C):
        l = r.randint(L)
        k = _counts(r, A, D, need=(pe[x, :, l] > 0) if case["deficient"] else None)
        truth.append(math.fsum(pe[x, a, l] * q[x, a, l] for a in range(A)))
        for a in range(A):
            for _ in range(k[a]):
                for z in (-1.0, 1.0) if case["noise"] else (0.0,):
                    rows.append((x, a, l, q[x, a, l] + z * case["mag"], k[a] / D))
    o = r.permutation(len(rows)) if case["shuffle"] else np.arange(len(rows))
    x, a, l, rew, ps = [np.array(c)[o] for c in zip(*rows)]
    kw = dict(reward=rew, action=a, pscore=ps, action_dist=pe[x], position=l)
    if L == 1 and case["shuffle"]:
        kw.pop("position")
    ctx.nontriv(len(rows) > 50)
    truth = gen.fmean(truth)
    w = pe[x, a, l] / ps
    sc = float(np.mean(w * (np.abs(rew) + np.abs(qh[x, a, l]))) + case["mag"])
    for est in case["order"]:
        if est == "ipw":
            ctx.close(InverseProbabilityWeighting().estimate_policy_value(**kw), truth, "IPW on the representative sample of %d rounds vs true value" % len(rows), rtol=1e-9, scale=sc)
        else:
            ctx.close(DoublyRobust().estimate_policy_value(estimated_rewards_by_reg_model=qh[x], **kw), truth, "DR on the representative sample of %d rounds vs true value" % len(rows), rtol=1e-9, scale=sc)


def run_rep_multi(case, ctx):
    r = gen.rng(case)
    C, A, K = case["C"], case["A"], case["K"]
    Ds = [max(A, d) for d in case["Ds"][:K]]
    pe = gen.dist_rows(r, C, A, case["style"])
    q, qh = r.normal(size=(C, A)) * case["mag"], r.normal(size=(C, A)) * case["mag"]
    rows = []
    for x in range(C):
        ks = [_counts(r, A, Ds[k]) for k in range(K)]
        tot = np.sum(ks, 0)
        for k in range(K):
            for a in range(A):
                rows += [(x, a, k, q[x, a], ks[k][a] / Ds[k], tot[a] / sum(Ds))] * ks[k][a]
    o = r.permutation(len(rows))
    x, a, s, rew, ps, avg = [np.array(c)[o] for c in zip(*rows)]
    names = r.choice(50, size=K, replace=False)
    kw = dict(reward=rew, action=a, action_dist=pe[x][:, :, None], stratum_idx=names[s])
    truth = gen.fmean(float(pe[i] @ q[i]) for i in range(C))
    ctx.nontriv(K > 1 and len(rows) > 50)
    sc = float(np.mean(pe[x, a] / ps * (np.abs(rew) + np.abs(qh[x, a]))) + case["mag"])
    for est, key, dr in [
        (MultiLoggersNaiveInverseProbabilityWeighting, "pscore", 0), (MultiLoggersBalancedInverseProbabilityWeighting, "pscore_avg", 0),
        (MultiLoggersNaiveDoublyRobust, "pscore", 1), (MultiLoggersBalancedDoublyRobust, "pscore_avg", 1),
    ]:
        k2 = dict(kw, pscore=ps, pscore_avg=avg) if case["both"] else dict(kw, **{key: ps if key == "pscore" else avg})
        if dr:
            k2["estimated_rewards_by_reg_model"] = qh[x][:, :, None]
        ctx.close(est().estimate_policy_value(**k2), truth, "%s on the representative sample of %d rounds vs true value" % (est.__name__, len(rows)), rtol=1e-9, scale=sc)


def run_rep_slate(case, ctx):
    r = gen.rng(case)
    C, A, L, fac = case["C"], case["A"], case["L"], case["fac"]
    if not fac:
        L = min(L, A)
    slates = list(itertools.product(range(A), repeat=L)) if fac else list(itertools.permutations(range(A), L))
    S = len(slates)
    sl = np.array(slates)
    blocks = []
    truth = dict(sips=0.0, iips=0.0, rips=0.0)
    sid = 0
    out = {k: [] for k in "sid pos act ps es pi ei pc ec rs ri rc q ad".split()}
    for _ in range(C):
        k = _counts(r, S, max(S, case["D"]))
        D = k.sum()
        pb = k / D
        pe = slate_policy_probs(r.normal(size=A) * 2, slates, fac)
        pe = pe / pe.sum()
        rs, ind, qh = r.normal(size=(S, L)), r.normal(size=(L, A)), r.normal(size=(L, A))
        pre, prb, ade = np.zeros((S, L)), np.zeros((S, L)), np.zeros((S, L, A))
        rc = np.zeros((S, L))
        mb, me = np.zeros((S, L)), np.zeros((S, L))
        for l in range(L):
            key = [tuple(s[: l + 1]) for s in slates]
            gb, ge, gr, gm, gn = {}, {}, {}, {}, {}
            for j, s in enumerate(key):
                gb[s] = gb.get(s, 0) + k[j]
                ge[s] = ge.get(s, 0.0) + pe[j]
                gr.setdefault(s, r.normal())
                gm[s[-1]] = gm.get(s[-1], 0) + k[j]
                gn[s[-1]] = gn.get(s[-1], 0.0) + pe[j]
            for j, s in enumerate(key):
                prb[j, l], pre[j, l], rc[j, l], mb[j, l], me[j, l] = gb[s] / D, ge[s], gr[s], gm[s[-1]] / D, gn[s[-1]]
                tot = math.fsum(ge.get(s[:-1] + (b,), 0.0) for b in range(A))
                for b in range(A):
                    ade[j, l, b] = ge.get(s[:-1] + (b,), 0.0) / tot
        ri = ind[np.arange(L)[None], sl]
        truth["sips"] += float(pe @ rs.sum(1)) / C
        truth["iips"] += float(pe @ ri.sum(1)) / C
        truth["rips"] += float(pe @ rc.sum(1)) / C
        reps = np.repeat(np.arange(S), k)
        r.shuffle(reps)
        m = len(reps)
        pc_ = np.minimum.accumulate(np.minimum(pre, 1.0), axis=1)
        out["sid"].append(np.repeat(np.arange(sid, sid + m), L)); sid += m
        out["pos"].append(np.tile(np.arange(L), m)); out["act"].append(sl[reps].ravel())
        out["ps"].append(np.repeat(pb[reps], L)); out["es"].append(np.repeat(np.minimum(pe[reps], 1.0), L))
        for nm, arr in (("pi", mb), ("ei", np.minimum(me, 1.0)), ("pc", prb), ("ec", pc_), ("rs", rs), ("ri", ri), ("rc", rc), ("ad", ade)):
            out[nm].append(arr[reps].ravel())
        out["q"].append(np.tile(qh.ravel(), m))
    o = {a: np.concatenate(b) for a, b in out.items()}
    b = dict(slate_id=o["sid"], position=o["pos"])
    ctx.nontriv(L >= 2 and sid > 20)
    v = dict(
        sips=SlateStandardIPS(len_list=L).estimate_policy_value(reward=o["rs"], pscore=o["ps"], evaluation_policy_pscore=o["es"], **b),
        iips=SlateIndependentIPS(len_list=L).estimate_policy_value(reward=o["ri"], pscore_item_position=o["pi"], evaluation_policy_pscore_item_position=o["ei"], **b),
        rips=SlateRewardInteractionIPS(len_list=L).estimate_policy_value(reward=o["rc"], pscore_cascade=o["pc"], evaluation_policy_pscore_cascade=o["ec"], **b),
        cdr=SlateCascadeDoublyRobust(len_list=L, n_unique_action=A).estimate_policy_value(
            reward=o["rc"], action=o["act"], pscore_cascade=o["pc"], evaluation_policy_pscore_cascade=o["ec"], q_hat=o["q"], evaluation_policy_action_dist=o["ad"], **b),
    )
    sc = L * 10.0
    for a, t in (("sips", "sips"), ("iips", "iips"), ("rips", "rips"), ("cdr", "rips")):
        ctx.close(v[a], truth[t], "%s on the representative sample of %d slates vs true value" % (a.upper(), sid), rtol=1e-9, scale=sc)


def run_rep_mipw(case, ctx):
    r = gen.rng(case)
    C, A, Dm, M = case["C"], case["A"], case["dims"], case["M"]
    D = max(case["D"], A)
    pea = np.zeros((A, M, Dm))
    cnt = np.zeros((A, M, Dm), dtype=int)
    for a in range(A):
        for d in range(Dm):
            cnt[a, :, d] = r.multinomial(4, r.dirichlet(np.ones(M)))
            pea[a, :, d] = cnt[a, :, d] / 4.0
    embs = list(itertools.product(range(M), repeat=Dm))
    mult = np.array([[math.prod(int(cnt[a, e[d], d]) for d in range(Dm)) for e in embs] for a in range(A)])
    pe = gen.dist_rows(r, C, A, case["style"])
    q = r.normal(size=(C, len(embs)))
    rows, truth = [], []
    for x in range(C):
        k = _counts(r, A, D)
        truth.append(float(pe[x] @ ((mult / 4.0**Dm) @ q[x])))
        for a in range(A):
            for j in range(len(embs)):
                rows += [(x, a, j, q[x, j])] * (k[a] * mult[a, j])
        pb = k / D if x == 0 else np.vstack([pb, k / D])
    pb = pb.reshape(C, A)
    o = r.permutation(len(rows))
    x, a, j, rew = [np.array(c)[o] for c in zip(*rows)]
    ctx.nontriv(len(rows) > 100)
    v = MarginalizedInverseProbabilityWeighting(n_actions=A).estimate_policy_value(
        reward=rew, action=a, action_embed=np.array(embs)[j], pi_b=pb[x][:, :, None], action_dist=pe[x][:, :, None], p_e_a=pea)
    ctx.close(v, gen.fmean(truth), "MIPW on the representative sample of %d rounds vs true value" % len(rows), rtol=1e-9, scale=10.0)


DEN = st.one_of(st.integers(4, 40), st.sampled_from([64, 128, 500, 1024]))
SUBS = [
    Sub("rep_single", fx(C=st.integers(1, 4), A=st.one_of(st.integers(2, 8), st.integers(9, 60)), L=st.integers(1, 5), D=st.one_of(DEN, DEN, st.just(6000)), seed=SEED, style=gen.STYLES, mag=st.sampled_from([1.0, 100.0]),
                         noise=st.booleans(), deficient=st.booleans(), shuffle=st.booleans(), order=st.permutations(["ipw", "dr"])), run_rep_single, 250, 4000),
    Sub("rep_multi", fx(C=st.integers(1, 3), A=st.one_of(st.integers(2, 6), st.integers(7, 30)), K=st.integers(1, 12), Ds=st.lists(DEN, min_size=12, max_size=12), seed=SEED, style=gen.STYLES, mag=st.sampled_from([1.0, 100.0]), both=st.booleans()), run_rep_multi, 150, 2000),
    Sub("rep_slate", fx(C=st.integers(1, 3), A=st.integers(2, 5), L=st.integers(1, 5), D=DEN, fac=st.booleans(), seed=SEED).filter(lambda c: c["A"] ** c["L"] <= 700 or not c["fac"]), run_rep_slate, 120, 1500),
    Sub("rep_mipw", fx(C=st.integers(1, 3), A=st.integers(2, 12), dims=st.integers(1, 3), M=st.integers(1, 4), D=st.integers(4, 40), seed=SEED, style=gen.STYLES), run_rep_mipw, 120, 1500),
    Sub("single_logger", fx(n=st.integers(1, 2), A=st.integers(2, 4), L=st.integers(1, 3), seed=SEED,
                            style=gen.STYLES, mag=st.sampled_from([1.0, 100.0]), noise=st.sampled_from([0.0, 1.0])), run_single, 1500, 20000),
    Sub("multi_loggers", fx(K=st.integers(1, 3), counts=st.lists(st.integers(1, 2), min_size=3, max_size=3), A=st.integers(2, 3), seed=SEED, style=gen.STYLES), run_multi, 250, 4000),
    Sub("slate", fx(A=st.integers(2, 3), L=st.integers(1, 3), fac=st.booleans(), n=st.integers(1, 2), seed=SEED, qfree=st.booleans()), run_slate, 40, 600, budget=(60, 600)),
    Sub("mipw", fx(A=st.integers(2, 4), D=st.integers(1, 3), C=st.integers(1, 3), n=st.just(1), seed=SEED, style=gen.STYLES), run_mipw, 700, 10000),
]

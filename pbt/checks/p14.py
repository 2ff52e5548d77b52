"""P14: synthetic slate (ranking) data, its propensities and its ground-truth values."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fx
from .p13 import Table, trunc_mean

from obp import dataset as D

PROPERTY = "P14"
RULE = (
    "Random slate data set configurations (unique actions, slate length, reward type/structure, decay, click model, table-driven or "
    "library base rewards and behaviour logits, factorizable or not); propensities, expected rewards and true values are recomputed by "
    "enumerating every slate and every click pattern. Non-trivial: at least two rounds or a non-uniform policy."
)

STRUCTS = ["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]


def probs(logits):
    m = max(logits)
    e = [math.exp(v - m) for v in logits]
    s = math.fsum(e)
    return [v / s for v in e]


def prefix_probs(logit, slate, fact):
    """probabilities of the first 1..L choices of a slate"""
    out, p, left = [], 1.0, list(range(len(logit)))
    for a in slate:
        pr = probs([logit[b] for b in left])
        p *= pr[left.index(a)]
        out.append(p)
        if not fact:
            left.remove(a)
    return out


def slates(n_a, L, fact):
    return list(itertools.product(range(n_a), repeat=L)) if fact else list(itertools.permutations(range(n_a), L))


def item_prob(logit, pos, a, L, fact):
    """P(action a at slot pos) by enumeration of the slots up to pos"""
    if fact:
        return probs(list(logit))[a]
    return math.fsum(prefix_probs(logit, s, fact)[-1] for s in slates(len(logit), pos + 1, fact) if s[pos] == a)


def decay(kind, d):
    return math.exp(-d) if kind == "exponential" else 1.0 / (d + 1)


def slot_params(case, W, f_row, slate):
    """parameters g(...) of the reward distribution of each slot; f_row: base rewards of the context"""
    L = len(slate)
    binary = case["rt"] == "binary"
    g = [math.log(v / (1 - v)) if binary and 0 < v < 1 else (v if not binary else (math.inf if v >= 1 else -math.inf)) for v in f_row]
    out = []
    for k in range(L):
        v = g[slate[k]]
        for j in range(L):
            if j == k or case["struct"] == "independent" or (case["struct"].startswith("cascade") and j > k):
                continue
            v += W[slate[k], slate[j]] if case["struct"].endswith("additive") else -decay(case["decay"], abs(k - j)) * g[slate[j]]
        out.append(v)
    return out


def link(case, v):
    if case["rt"] == "binary":
        return 1 / (1 + math.exp(-v)) if v > -700 else 0.0
    return max(v, 0.0)


def f16_tol(case, v):
    """the library stores the parameters in half precision"""
    dv = abs(v) * 2.0**-10 + 1e-6 if math.isfinite(v) else 0.0
    if case["rt"] == "binary":
        m = link(case, v)
        return dv * max(m * (1 - m), link(case, v + dv) * (1 - link(case, v + dv)), link(case, v - dv) * (1 - link(case, v - dv))) * 1.5 + m * 2.0**-9 + 1e-6
    return dv * 2 + 1e-6


def exam(case, k):
    return (1.0 / (k + 1)) ** case["eta"] if case["click"] == "pbm" else 1.0


def attract(case, k):
    return (1.0 / (k + 1)) ** case["eta"] if case["click"] == "cascade" else 1.0


def expected_clicks(case, q):
    """exact expectation of the sampled rewards of each slot given per-slot parameters, by enumerating click patterns"""
    L = len(q)
    if case["rt"] == "continuous":
        return [trunc_mean(v, 1.0) for v in q]
    out = [0.0] * L
    for pat in itertools.product((0, 1), repeat=L):
        p, d = 1.0, 1.0
        for k in range(L):
            if k and pat[k - 1]:
                d *= attract(case, k)
            pk = d * q[k]
            p *= pk if pat[k] else 1 - pk
        for k in range(L):
            out[k] += p * pat[k]
    return out


def build(case):
    n_a = case["A"]
    L = case["L"] if case["fact"] else min(case["L"], n_a)
    L = max(L, 2)
    if case["rt"] == "continuous":
        case["click"] = None
    kind = case["base"]
    if kind == "none":
        base = None
    elif kind == "lib":
        base = D.logistic_reward_function if case["rt"] == "binary" else D.linear_reward_function
    elif kind == "01" and case["rt"] == "binary":
        base, case["struct"] = Table("01", case["seed"]), "independent"
    else:
        base = Table("prob" if case["rt"] == "binary" else "pos", case["seed"])
    bpol = {"none": None, "linear": D.linear_behavior_policy_logit, "table": Table("logit", case["seed"] + 1)}[case["beh"]]
    ds = D.SyntheticSlateBanditDataset(
        n_unique_action=n_a, len_list=L, dim_context=case["dim"], reward_type=case["rt"], reward_structure=case["struct"], decay_function=case["decay"],
        click_model=case["click"], eta=case["eta"], base_reward_function=base, behavior_policy_function=bpol, is_factorizable=case["fact"], random_state=case["rs"],
    )
    return ds, n_a, L, base, bpol


def base_rewards(case, ds, base, x):
    """f(x, a) as a function of slot (context-free base rewards depend on the slot)"""
    n_a = case["A"]
    if base is None:
        t = np.asarray(ds.sample_contextfree_expected_reward(random_state=case["rs"]), float)
        return lambda i, k: t[:, k]
    v = base.values(x, np.eye(n_a)) if isinstance(base, Table) else base(context=x, action_context=np.eye(n_a, dtype=int), random_state=case["rs"])
    return lambda i, k: v[i]


def params(case, W, ds, f, i, slate, base):
    """per-slot parameters before/after the link and half-precision tolerance"""
    if base is None:
        q = [float(f(i, k)[slate[k]]) for k in range(len(slate))]
        return q, [1e-9] * len(slate)
    g = slot_params(case, W, [float(v) for v in f(i, 0)], slate)
    return [link(case, v) for v in g], [f16_tol(case, v) for v in g]


def weight_matrix(ctx, case, ds, n_a):
    if not case["struct"].endswith("additive"):
        return None
    W = np.asarray(ds.action_interaction_weight_matrix, float)
    ctx.check(W.shape == (n_a, n_a) and np.array_equal(W, W.T), "the additive interaction matrix is not symmetric")
    return W


def run_batch(case, ctx):
    """every field of a logged slate batch agrees with the configuration"""
    ds, n_a, L, base, bpol = build(case)
    W = weight_matrix(ctx, case, ds, n_a)
    keys = {"n_rounds", "n_unique_action", "slate_id", "context", "action_context", "action", "position", "reward", "expected_reward_factual", "pscore_cascade", "pscore", "pscore_item_position"}
    prev = None
    for n in case["ns"]:
        bf = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=case["item"], clip_logit_value=case["clip"])
        ctx.check(set(bf) == keys and bf["n_rounds"] == n and bf["n_unique_action"] == n_a, "keys or sizes of the batch")
        x = bf["context"]
        ctx.check(x.shape == (n, case["dim"]), "shape of context")
        ctx.same(bf["slate_id"], [i for i in range(n) for _ in range(L)], "slate_id")
        ctx.same(bf["position"], list(range(L)) * n, "position")
        ctx.same(bf["action_context"], np.eye(n_a), "action_context")
        a = bf["action"]
        ctx.check(a.shape == (n * L,) and np.issubdtype(a.dtype, np.integer) and a.min() >= 0 and a.max() < n_a, "actions are not in range")
        if bpol is None:
            logit = np.zeros((n, n_a))
        elif isinstance(bpol, Table):
            ctx.same(bpol.calls[-1][0], x, "contexts given to the behaviour policy function")
            logit = bpol.values(x, np.eye(n_a))
        else:
            logit = bpol(context=x, action_context=np.eye(n_a, dtype=int), random_state=case["rs"])
        f = base_rewards(case, ds, base, x)
        r = np.asarray(bf["reward"], float)
        if case["rt"] == "binary":
            ctx.check(set(np.unique(r).tolist()) <= {0.0, 1.0}, "binary rewards are %s", np.unique(r))
        else:
            ctx.check((r >= 0).all(), "negative continuous reward")
        for i in range(n):
            sl = [int(v) for v in a[i * L : (i + 1) * L]]
            if not case["fact"]:
                ctx.check(len(set(sl)) == L, "slate %d repeats an action: %s", i, sl)
            pre = prefix_probs(list(logit[i]), sl, case["fact"])
            ctx.close(bf["pscore_cascade"][i * L : (i + 1) * L], pre, "pscore_cascade of slate %d" % i)
            ctx.close(bf["pscore"][i * L : (i + 1) * L], [pre[-1]] * L, "pscore of slate %d" % i)
            if case["item"] and n_a <= 8:
                ctx.close(bf["pscore_item_position"][i * L : (i + 1) * L], [item_prob(list(logit[i]), k, sl[k], L, case["fact"]) for k in range(L)], "pscore_item_position of slate %d" % i)
            q, tol = params(case, W, ds, f, i, sl, base)
            got = bf["expected_reward_factual"][i * L : (i + 1) * L]
            for k in range(L):
                want = trunc_mean(q[k], 1.0) if case["rt"] == "continuous" else q[k] * exam(case, k)
                ctx.check(abs(float(got[k]) - want) <= tol[k] * 1.5 + 1e-9, "expected_reward_factual of slate %d slot %d (%s): got %.8g, expected %.8g", i, k, case["struct"], float(got[k]), want)
                if case["rt"] == "continuous":
                    ctx.check(abs(r[i * L + k] - q[k]) <= 9 + tol[k], "a reward is more than 9 standard deviations from its mean parameter")
            if case["base"] == "01" and case["rt"] == "binary":
                sure = [qk in (0.0, 1.0) for qk in q]
                d = 1.0
                for k in range(L):
                    if k and r[i * L + k - 1]:
                        d *= attract(case, k)
                    pk = d * q[k] * exam(case, k)
                    if sure[k] and (pk < 1e-12 or pk == 1.0):
                        ctx.check(r[i * L + k] == round(pk), "slate %d slot %d: click probability %g but reward %g", i, k, pk, r[i * L + k])
        if not case["item"]:
            ctx.check(bf["pscore_item_position"] is None, "pscore_item_position returned although not requested")
        ctx.close(ds.calc_on_policy_policy_value(reward=bf["reward"], slate_id=bf["slate_id"]), math.fsum(r.tolist()) / n, "on-policy value", scale=float(np.abs(r).max()) + 1)
        ids = np.repeat(np.cumsum(gen.rng(case, 9).randint(1, 5, size=n)), L)  # slates of a subset of the data
        ctx.close(ds.calc_on_policy_policy_value(reward=bf["reward"], slate_id=ids), math.fsum(r.tolist()) / n, "on-policy value with other slate ids", scale=float(np.abs(r).max()) + 1)
        if prev is not None:
            ctx.check(not (prev[:, 0][:, None] == x[:, 0][None, :]).any(), "a second batch repeats contexts of the first one")
        prev = x
    ctx.label(case["struct"], "click %s" % case["click"], "factorizable" if case["fact"] else "non-factorizable", case["rt"])
    ctx.nontriv(max(case["ns"]) > 1)


CONF = dict(
    A=st.integers(2, 5), L=st.integers(2, 4), dim=st.integers(1, 3), rt=st.sampled_from(["binary", "binary", "continuous"]), struct=st.sampled_from(STRUCTS), decay=st.sampled_from(["exponential", "inverse"]),
    click=st.sampled_from([None, "pbm", "cascade"]), eta=st.sampled_from([0.0, 0.5, 1.0, 2.0, 60.0]), base=st.sampled_from(["none", "lib", "table", "table", "01"]), beh=st.sampled_from(["none", "linear", "table"]),
    fact=st.booleans(), rs=gen.RS, seed=SEED,
)


def feasible(c):
    """marginal propensities by enumeration only of few slates"""
    if c["item"] and (c["A"] ** c["L"] if c["fact"] else math.perm(c["A"], min(c["A"], c["L"]))) > 1500:
        c = dict(c, item=False)
    return c


WIDE = dict(CONF, A=gen.some(2, 5, 12), L=gen.some(2, 4, 7), dim=gen.some(1, 3, 8))
BATCH = fx(**WIDE, item=st.booleans(), clip=st.sampled_from([None, None, 700.0, 100.0]), ns=st.lists(gen.some(2, 9, 60), min_size=1, max_size=2)).map(feasible)
BIG = fx(**dict(CONF, A=st.sampled_from([40, 128, 129, 200, 300])), item=st.just(False), clip=st.just(None), ns=st.lists(st.integers(5, 9), min_size=1, max_size=1))


def run_value(case, ctx):
    """ground-truth value == average over contexts of sum over slates P(slate) * E[sum of sampled rewards]"""
    case["A"] = min(case["A"], 4)
    case["L"] = min(case["L"], 3)
    ds, n_a, L, base, bpol = build(case)
    W = weight_matrix(ctx, case, ds, n_a)
    r = gen.rng(case, 3)
    n = case["n"]
    x = r.normal(size=(n, case["dim"]))
    logit = r.normal(size=(n, n_a)) * case["spread"]
    got = ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logit)
    f = base_rewards(case, ds, base, x)
    tot, tol = 0.0, 0.0
    for i in range(n):
        for s in slates(n_a, L, case["fact"]):
            p = prefix_probs(list(logit[i]), s, case["fact"])[-1]
            q, t = params(case, W, ds, f, i, s, base)
            tot += p * math.fsum(expected_clicks(case, [q[k] * exam(case, k) for k in range(L)]))
            tol += p * sum(t) * 1.5
    ctx.label(case["struct"], "click %s" % case["click"], "factorizable" if case["fact"] else "non-factorizable")
    ctx.nontriv(n > 1 or L > 2)
    ctx.check(abs(got - tot / n) <= tol / n + 1e-9, "ground-truth value (%s, click model %s): got %.8g, expected %.8g +- %.2g", case["struct"], case["click"], got, tot / n, tol / n)


VALUE = fx(**CONF, n=gen.some(2, 4, 40), spread=st.sampled_from([0.0, 1.0, 3.0, 15.0]))


def run_many(case, ctx):
    """the ground-truth value of many contexts (computed in several batches) == weighted average of the values of parts of them"""
    fact = case["fact"]
    case.update(A=10 if fact else 9, L=4, base="table", beh="none", rt="binary")
    ds, n_a, L, base, bpol = build(case)
    r = gen.rng(case, 3)
    per = len(slates(n_a, L, fact)) * L
    n = 10**7 // per + case["extra"]
    x = r.normal(size=(n, case["dim"]))
    logit = r.normal(size=(n, n_a)) * case["spread"]
    got = ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logit)
    # few enough contexts per part for a single batch
    cut = sorted({0, n, 3, n - 2} | {int(v) for v in np.linspace(0, n, 4)})
    want = math.fsum((b - a) / n * ds.calc_ground_truth_policy_value(context=x[a:b], evaluation_policy_logit_=logit[a:b]) for a, b in zip(cut, cut[1:]))
    ctx.nontriv()
    ctx.label(case["struct"], "click %s" % case["click"], "factorizable" if fact else "non-factorizable")
    ctx.close(got, want, "ground-truth value of %d contexts vs its parts" % n, rtol=1e-6)


MANY = fx(**CONF, extra=st.sampled_from([-1, 1, 2, 5, 30]), spread=st.sampled_from([1.0, 3.0]))


def run_pscore(case, ctx):
    """evaluation propensities, conditional distributions and epsilon-greedy propensities of given slates"""
    ds, n_a, L, base, bpol = build(dict(case, base="table", rt="binary", click=None, struct="independent"))
    fact = case["fact"]
    r = gen.rng(case, 4)
    n = case["n"]
    logit = r.normal(size=(n, n_a)) * case["spread"]
    sl = np.array([r.randint(n_a, size=L) if fact else r.permutation(n_a)[:L] for _ in range(n)])
    x = r.normal(size=(n, case["dim"]))
    f = base.values(x, np.eye(n_a))
    eps = case["eps"]
    order = np.argsort(f, axis=1)
    if case["hit"]:
        for i in range(n):  # make some slates partly agree with the greedy ranking
            k = r.randint(L + 1)
            top = order[i, ::-1] if case["kind"] == "optimal" else order[i]
            if fact:
                sl[i, :k] = top[0]
            else:
                head = list(top[:k])
                sl[i] = head + [b for b in r.permutation(n_a) if b not in head][: L - k]
    act = sl.reshape(-1)
    got = ds.obtain_pscore_given_evaluation_policy_logit(action=act, evaluation_policy_logit_=logit, return_pscore_item_position=case["item"], clip_logit_value=case["clip"])
    pres = [prefix_probs(list(logit[i]), [int(v) for v in sl[i]], fact) for i in range(n)]
    ctx.close(got[0], [p[-1] for p in pres for _ in range(L)], "pscore under the evaluation policy")
    ctx.close(got[2], [v for p in pres for v in p], "pscore_cascade under the evaluation policy")
    if case["item"]:
        ctx.close(got[1], [item_prob(list(logit[i]), k, int(sl[i, k]), L, fact) for i in range(n) for k in range(L)], "pscore_item_position under the evaluation policy")
    else:
        ctx.check(got[1] is None, "pscore_item_position returned although not requested")
    dist = ds.calc_evaluation_policy_action_dist(action=act, evaluation_policy_logit_=logit)
    want = []
    for i in range(n):
        left = list(range(n_a))
        for k in range(L):
            pr = dict(zip(left, probs([logit[i, b] for b in left])))
            want += [pr.get(b, 0.0) for b in range(n_a)]
            if not fact:
                left.remove(int(sl[i, k]))
    ctx.close(dist, want, "slot-level action distribution given the previous slots")
    kind = case["kind"]
    if fact or L <= n_a:
        g = ds.generate_evaluation_policy_pscore(evaluation_policy_type=kind, context=x, action=act, epsilon=eps)
        pp, pi, pc = [], [], []
        for i in range(n):
            top = order[i, ::-1] if kind == "optimal" else order[i]
            rank = [int(top[0])] * L if fact else [int(v) for v in top[:L]]
            e = 1.0 if kind == "random" else eps
            run = True
            for k in range(L):
                run = run and rank[k] == sl[i, k]
                u = n_a ** -(k + 1.0) if fact else 1.0 / math.perm(n_a, k + 1)
                pc.append((1 - e) * (run and kind != "random") + e * u)
                pi.append((1 - e) * (rank[k] == sl[i, k]) + e / n_a)
            pp += [pc[-1]] * L
        for nm, a, b in (("pscore", g[0], pp), ("pscore_item_position", g[1], pi), ("pscore_cascade", g[2], pc)):
            ctx.close(a, b, "%s of the %s epsilon-greedy policy" % (nm, kind))
        if any(0 < v for v in pp) and kind != "random" and eps < 1:
            ctx.label("greedy match" if max(pp) >= 1 - eps else "no greedy match")
    ctx.nontriv(n > 1)
    ctx.label(kind, "factorizable" if fact else "non-factorizable")


PS = fx(**WIDE, n=gen.some(2, 5, 30), spread=st.sampled_from([0.0, 1.0, 5.0, 25.0]), eps=st.sampled_from([0.0, 0.1, 0.5, 1.0]), kind=st.sampled_from(["optimal", "anti-optimal", "random"]), hit=st.booleans(), item=st.booleans(), clip=st.sampled_from([None, 700.0, 200.0])).map(feasible)


def run_functions(case, ctx):
    """linear behaviour logits, the symmetric interaction matrix"""
    r = gen.rng(case)
    n, A, dx, da = case["n"], case["A"], case["dim"], case["da"]
    X, Z = r.normal(size=(n, dx)), r.normal(size=(A, da))
    tau = case["tau"]
    g = D.linear_behavior_policy_logit(context=X, action_context=Z, random_state=case["rs"], tau=tau)
    g1 = D.linear_behavior_policy_logit(context=X, action_context=Z, random_state=case["rs"])
    ctx.close(g, g1 / tau, "logits scale with 1/tau")
    # linear in context and in action context: g(x, a) = u(x) + v(a)
    ctx.close(g1 - g1[:1] - g1[:, :1] + g1[0, 0], np.zeros((n, A)), "additive structure of the logits")
    z0 = D.linear_behavior_policy_logit(context=np.zeros((1, dx)), action_context=np.vstack([np.zeros((1, da)), Z, 2 * Z]), random_state=case["rs"])[0]
    ctx.close(z0[0], 0.0, "logit at the origin")
    ctx.close(z0[1 + A :], 2 * z0[1 : 1 + A], "linearity in the action context")
    x0 = D.linear_behavior_policy_logit(context=np.vstack([X, 3 * X]), action_context=np.zeros((1, da)), random_state=case["rs"])[:, 0]
    ctx.close(x0[n:], 3 * x0[:n], "linearity in the context")
    ctx.close(g1, x0[:n][:, None] + z0[1 : 1 + A][None, :], "sum of context and action parts")
    ctx.nontriv()


FN = fx(n=gen.some(1, 5, 60), A=gen.some(2, 4, 12), dim=gen.some(1, 3, 8), da=st.integers(1, 3), tau=st.sampled_from([1, 0.5, 2.0]), rs=gen.RS, seed=SEED)

SUBS = [
    Sub("batch", BATCH, run_batch, 260, budget=(60, 700)),
    Sub("many_actions", BIG, run_batch, 40, budget=(40, 300)),
    Sub("value", VALUE, run_value, 200, budget=(60, 700)),
    Sub("many_contexts", MANY, run_many, 6, 40, budget=(100, 700)),
    Sub("pscore", PS, run_pscore, 160, budget=(60, 600)),
    Sub("functions", FN, run_functions, 60, budget=(30, 200)),
]
gen.huge(SUBS, "batch", lo=200, hi=1500, quick=1, field="ns")
gen.huge(SUBS, "pscore", lo=100, hi=800, quick=1)

"""P24: neural-network policy learners."""
import copy
import itertools
import os

os.environ.setdefault("TQDM_DISABLE", "1")
import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Discard, Sub
from ..gen import SEED, fx
from .p23 import check_sampling

from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

torch.set_num_threads(1)
PROPERTY = "P24"
RULE = (
    "Random logged data, network shapes, objectives, regularisers and optimisers; the trained network is compared with gradient steps on independently written OPE objectives. "
    "Non-trivial: training moved some parameter by more than the comparison tolerance."
)
ACT = dict(identity=lambda z: z, logistic=torch.sigmoid, tanh=torch.tanh, relu=torch.relu, elu=torch.nn.functional.elu)


def opt_kw(case):
    kw = dict(solver=case["solver"], alpha=case["l2"], learning_rate_init=case["lr"], max_iter=case["epochs"], shuffle=case["shuffle"], batch_size=case["batch"], n_iter_no_change=10**6, epsilon=case["eps"], hidden_layer_size=tuple(case["hidden"]), activation=case["act"], random_state=case["rs"])
    if case["solver"] == "sgd":
        kw.update(momentum=case["mom"], nesterovs_momentum=case["nest"] and case["mom"] > 0)
    if case["solver"] == "adam":
        kw.update(beta_1=case["b1"], beta_2=case["b2"])
    return kw


class Net:
    """the documented network as plain matrices (double precision)"""

    def __init__(self, case, module):
        self.act = ACT[case["act"]]
        self.p0 = [v.detach().clone().double() for v in module.parameters()]
        self.reset(torch.float64)

    def reset(self, dtype, noise=0.0):
        g = torch.Generator().manual_seed(7)
        self.p = [(v.detach() + noise * torch.randn(v.shape, generator=g, dtype=v.dtype)).to(dtype).requires_grad_(True) for v in self.p0]

    def __call__(self, x):
        z = x.to(self.p[0].dtype)
        k = len(self.p) // 2
        for i in range(k):
            z = z @ self.p[2 * i].T + self.p[2 * i + 1]
            if i < k - 1:
                z = self.act(z)
        return z


def steps(case, net, loss, n, order=None):
    """plain optimisation of net by the documented solver; discards cases whose result depends on rounding"""
    ends = []
    for dtype, noise in ((torch.float32, 0.0), (torch.float64, 1e-6), (torch.float64, 0.0)):
        net.reset(dtype, noise)
        descend(case, net, loss, n, order)
        ends.append([v.detach().double() for v in net.p])
    for a, c, b in zip(*ends):
        if not float(b.abs().max()) < 20:
            raise Discard("training diverges")
        if not max(float((a - b).abs().max()), float((c - b).abs().max())) < 2e-5:
            raise Discard("training is ill-conditioned")


def descend(case, net, loss, n, order):
    kw = opt_kw(case)
    if case["solver"] == "sgd":
        o = torch.optim.SGD(net.p, lr=case["lr"], momentum=kw["momentum"], nesterov=kw["nesterovs_momentum"], weight_decay=case["l2"])
    elif case["solver"] == "adam":
        o = torch.optim.Adam(net.p, lr=case["lr"], betas=(case["b1"], case["b2"]), eps=case["eps"], weight_decay=case["l2"])
    else:
        o = torch.optim.Adagrad(net.p, lr=case["lr"], eps=case["eps"], weight_decay=case["l2"])
    b = min(200, n) if case["batch"] == "auto" else case["batch"]
    idx = np.arange(n) if order is None else np.asarray(order)
    for _ in range(case["epochs"]):
        for i in range(0, len(idx), b):
            o.zero_grad()
            loss(torch.as_tensor(idx[i : i + b].copy())).backward()
            o.step()


def same_net(ctx, case, module, net, what):
    tol = 2e-4
    moved = 0.0
    for k, (a, b, c) in enumerate(zip(module.parameters(), net.p, net.p0)):
        g, w = a.detach().numpy().astype(float), b.detach().numpy()
        moved = max(moved, float(np.abs(w - c.detach().numpy()).max()))
        ctx.close(g, w, "%s: parameters of layer %d after training" % (what, k // 2), rtol=tol, atol=1e-5)
    ctx.nontriv(moved > 1e-3)


def data(case, r):
    n, d = case["n"], case["dim"]
    return torch.as_tensor(r.normal(size=(n, d))).float().double().numpy()


def q_kw(case):
    return dict(hidden_layer_size=(3,), max_iter=2, random_state=case["rs"] + 1, learning_rate_init=0.05, solver="sgd", momentum=0.0, nesterovs_momentum=False)


def value_terms(case, pi, w, q, rew, act):
    """per-round terms of the off-policy estimate (functions of the current policy)"""
    obj, lam = case["obj"], case["lam"]
    i = torch.arange(len(act))
    if obj == "dm":
        return (q * pi).sum(1)
    if obj == "ipw":
        return w * rew
    if obj == "dr":
        return w * (rew - q[i, act]) + (q * pi).sum(1)
    if obj == "snipw":
        return w * (rew - lam)
    if obj == "ipw-os":
        return lam * w / (w**2 + lam) * rew
    return w / (1 - lam + lam * w) * rew


def build(case):
    r = gen.rng(case)
    n, A = case["n"], case["A"]
    x = data(case, r)
    act = r.randint(A, size=n)
    rew = {"binary": r.randint(2, size=n), "real": r.normal(size=n), "int": r.randint(-2, 4, size=n)}[case["rk"]]
    ps = r.uniform(0.15, 1.0, size=n)
    return r, x, act, rew, ps


def lam_of(case):
    return dict(snipw=0.3, **{"ipw-os": 2.0, "ipw-subgauss": 0.4}).get(case["obj"], 1.0) * case["lam_f"]


def run_train(case, ctx):
    """training follows the gradient of the documented off-policy objective minus the regularisers"""
    case = dict(case, lam=lam_of(case))
    r, x, act, rew, ps = build(case)
    n, A = case["n"], case["A"]
    qk = q_kw(case)
    keep = dict(qk)
    lr = NNPolicyLearner(
        n_actions=A, dim_context=case["dim"], off_policy_objective=case["obj"], lambda_=case["lam"], policy_reg_param=case["preg"], var_reg_param=case["vreg"],
        q_func_estimator_hyperparams=qk, **opt_kw(case),
    )
    ctx.check(qk == keep, "the caller's q_func_estimator_hyperparams were modified: %s", qk)
    net = Net(case, lr.nn_model)
    snap = gen.snapshot(x, act, rew, ps)
    lr.fit(context=x, action=act, reward=rew, pscore=None if case["no_ps"] else ps)
    gen.unchanged(ctx, [x, act, rew, ps], snap, "fit")
    X, R, P = torch.as_tensor(x), torch.as_tensor(rew).double(), torch.full((n,), 1.0 / A).double() if case["no_ps"] else torch.as_tensor(ps)
    a = torch.as_tensor(act)
    Q = None
    if case["obj"] in ("dm", "dr"):
        Q = lr.q_func_estimator.predict(context=X.float()).detach().double()
    # straight-through objective: same value terms, but the variance penalty acts on the documented surrogate
    def loss(i):
        pi = torch.softmax(net(X[i]), 1)
        k = torch.arange(len(i))
        w = pi[k, a[i]] / P[i]
        if case["vreg"] == 0:
            out = -value_terms(case, pi, w, None if Q is None else Q[i], R[i], a[i]).mean()
        else:
            t = surrogate(case, pi, P[i], None if Q is None else Q[i], R[i], a[i])
            out = -t.mean() + (case["vreg"] * t.var() if len(i) > 1 else 0.0)
        return out + case["preg"] * torch.log(w.mean())
    steps(case, net, loss, n)
    same_net(ctx, case, lr.nn_model, net, "%s, %s" % (case["obj"], case["solver"]))
    with torch.no_grad():
        t = r.normal(size=(4, case["dim"]))
        want = torch.softmax(net(torch.as_tensor(t)), 1).numpy()
    ctx.close(lr.predict_proba(context=t)[:, :, 0], want, "probabilities of the trained policy", rtol=2e-3, atol=1e-4)
    ctx.label(case["obj"], case["solver"], case["act"])
    if case["batch"] != "auto" and case["batch"] < n:
        ctx.label("mini-batches")
        if n % case["batch"] == 1:
            ctx.label("last mini-batch of one round")


def surrogate(case, pi, P, q, rew, act):
    """log-probability terms whose gradient at the current policy is that of the objective (the quantity whose variance is penalised)"""
    k = torch.arange(len(act))
    c = pi.detach()
    lp = torch.log(pi.clamp(min=torch.finfo(pi.dtype).tiny))
    w = c[k, act] / P
    obj, lam = case["obj"], case["lam"]
    if obj == "dm":
        return (q * c * lp).sum(1)
    if obj == "dr":
        return w * (rew - q[k, act]) * lp[k, act] + (q * c * lp).sum(1)
    f = {"ipw": lambda: w * rew, "snipw": lambda: w * (rew - lam), "ipw-os": lambda: w * lam * (lam - w**2) / (w**2 + lam) ** 2 * rew, "ipw-subgauss": lambda: w * (1 - lam) / (1 - lam + lam * w) ** 2 * rew}[obj]()
    return f * lp[k, act]


OPT = dict(
    solver=st.sampled_from(["sgd", "adam", "adagrad"]), l2=st.sampled_from([0.0, 0.05, 0.3]), lr=st.sampled_from([0.1, 0.02, 0.3]), epochs=st.integers(1, 4), eps=st.sampled_from([1e-2, 1e-1]), mom=st.sampled_from([0.0, 0.9, 0.5]), nest=st.booleans(), b1=st.sampled_from([0.9, 0.5]), b2=st.sampled_from([0.999, 0.9]),
    hidden=st.sampled_from([[3], [2, 3], [4]]), act=st.sampled_from(sorted(ACT)), rs=gen.RS, seed=SEED, dim=gen.some(1, 3, 8),
)
SHUF = st.sampled_from([("auto", True), ("auto", False), (1, False), (2, False), (3, False), (4, False), (5, False)])


def with_batch(d, lo):
    # with more than one automatic batch only the unshuffled order is known
    return st.tuples(fx(**d), SHUF).map(lambda t: dict(t[0], batch=t[1][0] if t[0]["n"] < 190 or t[1][0] == "auto" else 50 * t[1][0], shuffle=t[1][1] and t[0]["n"] <= 200))


TRAIN = with_batch(
    dict(n=st.one_of([gen.some(1, 14, 60)] * 14 + [st.integers(190, 420)]), A=gen.some(2, 4, 9), obj=st.sampled_from(["dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"]), lam_f=st.sampled_from([0.5, 1.0, 1.0, 0.0, 0]), rk=st.sampled_from(["binary", "real", "int"]), no_ps=st.booleans(), preg=st.sampled_from([0.0, 0.0, 0.4]), vreg=st.sampled_from([0.0, 0.0, 0.3]), **OPT), 1
)


def run_q(case, ctx):
    """the reward networks descend the mean squared error of the logged rewards"""
    r, x, act, rew, ps = build(case)
    n, A = case["n"], case["A"]
    cont = case["cont"]
    if cont:
        act = torch.as_tensor(r.normal(size=n)).float().double().numpy()
        est = QFuncEstimatorForContinuousAction(dim_context=case["dim"], **opt_kw(case))
    else:
        est = QFuncEstimator(n_actions=A, dim_context=case["dim"], **opt_kw(case))
    net = Net(case, est.nn_model)
    snap = gen.snapshot(x, act, rew)
    est.fit(context=x, action=act, reward=rew)
    gen.unchanged(ctx, [x, act, rew], snap, "fit")
    X, R = torch.as_tensor(x), torch.as_tensor(rew).double()
    a = torch.as_tensor(act)

    def out(xx, aa):
        return net(torch.cat([xx, aa[:, None]], 1))[:, 0] if cont else net(xx)[torch.arange(len(aa)), aa]

    steps(case, net, lambda i: ((R[i] - out(X[i], a[i])) ** 2).mean(), n)
    same_net(ctx, case, est.nn_model, net, "q function")
    t = torch.as_tensor(r.normal(size=(3, case["dim"])))
    if cont:
        b = torch.as_tensor(r.normal(size=3))
        got, want = est.predict(context=t.float(), action=b.float()), out(t, b)
    else:
        got, want = est.predict(context=t.float()), net(t)
    ctx.close(got.detach().numpy(), want.detach().numpy(), "predicted rewards", rtol=2e-3, atol=1e-3)
    ctx.label("continuous" if cont else "discrete", case["solver"])


QF = with_batch(dict(n=st.one_of([gen.some(1, 14, 60)] * 14 + [st.integers(190, 420)]), A=gen.some(2, 4, 9), rk=st.sampled_from(["binary", "real", "int"]), cont=st.booleans(), **OPT), 1)


def run_cont(case, ctx):
    """the continuous-action learner follows the gradient of the kernelised objectives"""
    r = gen.rng(case)
    n = case["n"]
    x = data(case, r)
    f32 = lambda v: torch.as_tensor(v).float().double().numpy()
    act, rew, ps = f32(r.normal(size=n)), r.normal(size=n), r.uniform(0.2, 2.0, size=n)
    space = None if case["space"] is None else tuple(case["space"])
    qk = q_kw(case)
    keep = dict(qk)
    lr = ContinuousNNPolicyLearner(dim_context=case["dim"], pg_method=case["pg"], bandwidth=case["h"] if case["pg"] != "dpg" else None, output_space=space, q_func_estimator_hyperparams=qk, **opt_kw(case))
    ctx.check(qk == keep, "the caller's q_func_estimator_hyperparams were modified: %s", qk)
    net = Net(case, lr.nn_model)
    snap = gen.snapshot(x, act, rew, ps)
    lr.fit(context=x, action=act, reward=rew, pscore=None if case["no_ps"] else ps)
    gen.unchanged(ctx, [x, act, rew, ps], snap, "fit")
    X, R, P, B = torch.as_tensor(x), torch.as_tensor(rew), torch.ones(n).double() if case["no_ps"] else torch.as_tensor(ps), torch.as_tensor(act)
    q = None
    if case["pg"] != "ipw":
        qnet = copy.deepcopy(lr.q_func_estimator.nn_model).double()
        q = lambda xx, aa: qnet(torch.cat([xx, aa[:, None].double()], 1))[:, 0]

    def policy(xx):
        y = net(xx)[:, 0]
        return y if space is None else torch.clamp(y, space[0], space[1])

    def loss(i):
        y = policy(X[i])
        if case["pg"] == "dpg":
            return -q(X[i], y).mean()
        k = torch.exp(-(((y - B[i]) / case["h"]) ** 2) / 2) / np.sqrt(2 * np.pi) / case["h"] / P[i]
        if case["pg"] == "ipw":
            return -(k * R[i]).mean()
        qq = q(X[i], y)
        return -(k * (R[i] - qq) + qq).mean()

    # the gradient of a clamped output jumps at the bounds: leave out cases that come close to one
    near = []
    if space is not None:
        f0 = loss

        def loss(i):
            with torch.no_grad():
                y = net(X[i])[:, 0].numpy()
                near.append(min(np.abs(y - space[0]).min(), np.abs(y - space[1]).min()))
            return f0(i)

    steps(case, net, loss, n)
    if near and min(near) < 1e-3:
        ctx.label("near a bound: not compared")
        return
    same_net(ctx, case, lr.nn_model, net, "%s, %s" % (case["pg"], case["solver"]))
    t = r.normal(size=(5, case["dim"])) * 3
    with torch.no_grad():
        want = policy(torch.as_tensor(t)).numpy()
    got = lr.predict(context=t)
    ctx.close(got, want, "predicted actions", rtol=2e-3, atol=2e-3)
    if space is not None:
        ctx.check(got.shape == (5,) and got.min() >= space[0] - 1e-6 and got.max() <= space[1] + 1e-6, "predicted actions %s outside %s", got, space)
        ctx.label("bounded")
    ctx.label(case["pg"], case["solver"])


CONT = with_batch(dict(n=st.one_of([gen.some(1, 14, 60)] * 14 + [st.integers(190, 420)]), pg=st.sampled_from(["dpg", "ipw", "dr"]), h=st.sampled_from([0.5, 1.0, 2, 0.8]), space=st.sampled_from([None, None, [-0.3, 0.4], [-1, 1], [0, 5]]), no_ps=st.booleans(), **OPT), 1)


def run_predict(case, ctx):
    """predict is the most probable action, probabilities are a softmax of the context alone, sampling is Plackett-Luce"""
    r, x, act, rew, ps = build(case)
    A, L = case["A"], min(case["L"], case["A"])
    mk = lambda: NNPolicyLearner(n_actions=A, len_list=L, dim_context=case["dim"], off_policy_objective=case["obj"], **dict(opt_kw(case), max_iter=2))
    lr = mk()
    lr.fit(context=x, action=act, reward=rew, pscore=ps, position=r.randint(L, size=case["n"]))
    t = r.normal(size=(6, case["dim"])) * 3
    pr = lr.predict_proba(context=t)
    ctx.check(pr.shape == (6, A, 1) and (pr >= 0).all(), "shape of the probabilities is %s", pr.shape)
    ctx.close(pr.sum(axis=1), np.ones((6, 1)), "probabilities sum to one", atol=1e-5)
    net = Net(case, lr.nn_model)
    with torch.no_grad():
        want = torch.softmax(net(torch.as_tensor(t)), 1).numpy()
    ctx.close(pr[:, :, 0], want, "probabilities of the network", rtol=1e-4, atol=1e-5)
    i = r.permutation(6)
    ctx.close(lr.predict_proba(context=t[i]), pr[i], "probabilities of permuted rounds", atol=1e-6)
    ctx.close(lr.predict_proba(context=t[2:3]), pr[2:3], "probabilities of a single round", atol=1e-6)
    g = lr.predict(context=t)
    ctx.check(g.shape == (6, A, 1) and np.isin(g, (0, 1)).all() and (g.sum(axis=1) == 1).all(), "predicted actions are not one action per round")
    for k in range(6):
        ctx.check(want[k, int(g[k, :, 0].argmax())] >= want[k].max() - 1e-5, "predicted action %d, probabilities are %s", int(g[k, :, 0].argmax()), want[k])
    check_sampling(dict(case, N=700), ctx, lr, pr[:2, :, 0], t[:2], A, L, "NNPolicyLearner")
    # the same seed gives the same policy
    lr2 = mk()
    lr2.fit(context=x, action=act, reward=rew, pscore=ps, position=np.zeros(case["n"], int))
    ctx.close(lr2.predict_proba(context=t), pr, "probabilities of a second learner with the same seed", atol=1e-6)
    ctx.nontriv()


PRED = fx(n=st.integers(2, 14), A=st.integers(2, 5), L=st.integers(1, 3), obj=st.sampled_from(["ipw", "dr", "snipw"]), rk=st.sampled_from(["binary", "real"]), batch=st.sampled_from(["auto", 4]), shuffle=st.booleans(), tau=st.sampled_from([1.0, 1, 0.3, 2.5]), **OPT)


def run_hold(case, ctx):
    """with early stopping the network is trained on all rounds but the validation fraction"""
    case = dict(case, batch="auto", shuffle=True, lam=1.0, obj="ipw", l2=0.0, solver="sgd", mom=0.0, nest=False, epochs=2)
    r, x, act, rew, ps = build(case)
    n, A = case["n"], case["A"]
    rew = rew + 1.5
    f, kind = case["frac"], case["kind"]
    n_val = max(int(n * f), 1)
    kw = dict(dim_context=case["dim"], early_stopping=True, validation_fraction=f, **opt_kw(case))
    if kind.startswith("continuous"):
        act = torch.as_tensor(r.normal(size=n)).float().double().numpy()
    lr = {
        "policy": lambda: NNPolicyLearner(n_actions=A, off_policy_objective="ipw", **kw), "q": lambda: QFuncEstimator(n_actions=A, **kw),
        "continuous policy": lambda: ContinuousNNPolicyLearner(pg_method="ipw", bandwidth=0.8, **kw), "continuous q": lambda: QFuncEstimatorForContinuousAction(**kw),
    }[kind]()
    net = Net(case, lr.nn_model)
    lr.fit(context=x, action=act, reward=rew, **({} if kind.endswith("q") else dict(pscore=ps)))
    X, R, P, a = torch.as_tensor(x), torch.as_tensor(rew).double(), torch.as_tensor(ps), torch.as_tensor(act)

    def loss(i):
        k = torch.arange(len(i))
        if kind == "q":
            return ((net(X[i])[k, a[i]] - R[i]) ** 2).mean()
        if kind == "continuous q":
            return ((net(torch.cat([X[i], a[i][:, None]], 1))[:, 0] - R[i]) ** 2).mean()
        if kind == "policy":
            return -(torch.softmax(net(X[i]), 1)[k, a[i]] / P[i] * R[i]).mean()
        u = (net(X[i])[:, 0] - a[i]) / 0.8
        return -(torch.exp(-(u**2) / 2) / np.sqrt(2 * np.pi) / 0.8 / P[i] * R[i]).mean()

    best = None
    for keep in itertools.combinations(range(n), n - n_val):
        steps(case, net, loss, len(keep), order=keep)
        d = max(float(np.abs(u.detach().numpy() - v.detach().numpy()).max()) for u, v in zip(lr.nn_model.parameters(), net.p))
        best = d if best is None else min(best, d)
    ctx.check(best < 1e-4, "the trained network is not the result of training on any %d of the %d rounds (closest differs by %g)", n - n_val, n, best)
    ctx.label(kind)
    ctx.nontriv()


HOLD = fx(kind=st.sampled_from(["policy", "q", "continuous policy", "continuous q"]), n=st.integers(3, 7), A=st.integers(2, 3), rk=st.sampled_from(["binary", "real"]), frac=st.sampled_from([0.1, 0.3, 0.5]), **OPT)

def run_stop(case, ctx):
    """training is not cut short while the loss improves by more than tol in every iteration (documented stopping rule)"""
    base = dict(case, batch=1, shuffle=False, lam=1.0, obj="ipw", l2=0.0, solver="sgd", mom=0.0, nest=False, epochs=case["epochs"], eps=1e-2)
    n, A = case["n"], 2
    r = gen.rng(case)
    x = np.repeat(data(dict(base, n=1), r), n, axis=0)
    act, rew, ps = np.zeros(n, int), np.ones(n), np.ones(n)
    lr = NNPolicyLearner(n_actions=A, dim_context=case["dim"], off_policy_objective="ipw", **dict(opt_kw(base), n_iter_no_change=case["patience"], tol=1e-9))
    net = Net(base, lr.nn_model)
    lr.fit(context=x, action=act, reward=rew, pscore=ps)
    losses = []

    def loss(i):
        pi = torch.softmax(net(torch.as_tensor(x)[i]), 1)
        losses.append(float(-(pi[0, 0] * torch.log(pi[0, 0]))))
        return -pi[0, 0]

    steps(base, net, loss, n)
    losses = np.array(losses[len(losses) // 2 :])
    if not (np.diff(losses) < -1e-6).all():
        raise Discard("the training loss does not improve in every iteration")
    d = max(float(np.abs(u.detach().numpy() - v.detach().numpy()).max()) for u, v in zip(lr.nn_model.parameters(), net.p))
    ctx.check(d < 1e-4, "rounds were left out of training although the loss improved in every iteration (parameters differ by %g)", d)
    ctx.nontriv()


# one documented-behaviour case only: the stopping rule of the current tree is a known finding (known_findings.json)
STOP_CASE = dict(n=6, epochs=3, patience=2, lr=0.1, act="tanh", hidden=[3], rs=3, seed=5, dim=2)

# a probability that underflows to zero
UNDERFLOW = {'mom': 0.0, 'vreg': 0.0, 'solver': 'adam', 'lr': 0.3, 'hidden': [2, 3], 'no_ps': False, 'rk': 'int', 'b2': 0.9, 'nest': False, 'lam_f': 0.5, 'l2': 0.0, 'b1': 0.9, 'dim': 3, 'act': 'relu', 'seed': 3, 'n': 32, 'A': 5, 'obj': 'dm', 'preg': 0.4, 'rs': 3, 'eps': 0.01, 'epochs': 1, 'batch': 2, 'shuffle': False}

SUBS = [
    Sub("stopping", st.just(STOP_CASE), run_stop, 0, thorough=0, examples=[STOP_CASE]),
    Sub("train", TRAIN, run_train, 300, budget=(90, 700), examples=[UNDERFLOW]),
    Sub("q_function", QF, run_q, 150, budget=(60, 500)),
    Sub("continuous", CONT, run_cont, 220, budget=(80, 600)),
    Sub("predict", PRED, run_predict, 100, budget=(60, 400)),
    Sub("validation", HOLD, run_hold, 120, budget=(60, 400)),
]

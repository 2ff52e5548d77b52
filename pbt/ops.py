"""Registry of public operations for the whole-library properties (no interference, reproducibility).

An operation is built from a case as (inputs, make, call, pure):
  inputs : dict of the caller's objects that are passed in
  make() : fresh library object(s) with an integer seed where the API has one
  call(o): performs the operation on them and returns everything it returned
  pure   : calling again on the same object must give the same result
"""
import copy

import numpy as np
import pandas as pd
import torch
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from . import families, gen
from .stubs import TabularClassifier, TabularRegressor

import obp.ope as ope
from obp import dataset as D
from obp import policy as P
from obp import utils as U
from obp.ope import helper as H
from obp.simulator import delay_sampler, simulator
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.replay import run_bandit_replay
from obp.simulator import calc_ground_truth_policy_value
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame):
        return a.equals(b)
    if isinstance(a, torch.Tensor):
        return torch.equal(a, b)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) or isinstance(a, np.floating):
        return float(a) == float(b) or (np.isnan(a) and np.isnan(b))
    return a is b or bool(a == b)


def snap(x):
    """deep copy of plain data; library objects and functions are kept by reference"""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snap(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, pd.DataFrame):
        return x.copy(deep=True)
    if isinstance(x, torch.Tensor):
        return x.clone()
    return x


def diff(a, b, path=""):
    """where two structures differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s keys %s vs %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            if not same(a[k], b[k]):
                return diff(a[k], b[k], path + "[%r]" % (k,))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, path + "[%d]" % i)
    return "%s: %s vs %s" % (path or "value", str(a)[:120].replace("\n", " "), str(b)[:120].replace("\n", " "))


# ------------------------------------------------------------------ estimators
def _fam_case(case, fam):
    r = gen.rng(case, 77)
    base = dict(n=int(r.randint(2, 12) if r.randint(8) else r.randint(12, 130)), A=int(r.randint(2, 5)), L=int(r.randint(1, 4)), seed=case["seed"], style="mixed", pstyle=("dyadic", "generic")[r.randint(2)], rk=("binary", "real", "signed", "int")[r.randint(4)])
    lam = (0.0, 0.5, 2.0, float("inf"), "w1")[r.randint(5)]
    e = bool(r.randint(2))
    if fam == "std":
        return dict(base, layout=("C", "F", "strided")[r.randint(3)], idt="int64", which=families.STD_NAMES[r.randint(len(families.STD_NAMES))], lam=lam, lam01=0.25, est_ps=e)
    if fam == "multi":
        return dict(base, layout="C", idt="int64", which=families.MULTI_NAMES[r.randint(6)], lam=lam, est_ps=e, K=int(r.randint(1, 4)), gap=1, off=0, order=bool(r.randint(2)))
    if fam == "slate":
        return dict(base, which=families.SLATE_NAMES[r.randint(7)], gap=1, off=0, shuffle=bool(r.randint(2)))
    if fam == "continuous":
        return dict(n=base["n"], seed=case["seed"], pstyle=base["pstyle"], rk=base["rk"], which=("K-IPW", "K-SNIPW", "K-DR")[r.randint(3)], kernel=families.KERNELS[r.randint(4)], h=0.7, act=("float", "int")[r.randint(2)])
    return dict(n=base["n"], A=base["A"], D=int(r.randint(1, 4)), C=2, L=1, seed=case["seed"], style="generic", rk=base["rk"], sn=bool(r.randint(2)))


def _family(fam):
    def op(case):
        f = families.FAMILIES[fam][1](_fam_case(case, fam))
        if f is None:
            return None
        rs = case["rs"]
        return f.kw, lambda: copy.deepcopy(f.est), lambda o: (o.estimate_policy_value(**f.kw), o.estimate_interval(n_bootstrap_samples=15, random_state=rs, **f.kw)), True

    return op


def _logged(case, max_n=14, style="mixed"):
    r = gen.rng(case, 5)
    c = dict(n=int(r.randint(3, max_n) if r.randint(8) else r.randint(max_n, 120)), A=int(r.randint(2, 5)), L=int(r.randint(1, 4)), seed=case["seed"], style=style, pstyle="generic", rk=("binary", "real", "int")[r.randint(3)])
    d = gen.logged(c)
    d.context = r.normal(size=(d.n, 2))
    d.r = r
    return d


def tuning(case):
    d = _logged(case)
    cls = [ope.InverseProbabilityWeightingTuning, ope.DoublyRobustTuning, ope.SwitchDoublyRobustTuning, ope.DoublyRobustWithShrinkageTuning, ope.SubGaussianInverseProbabilityWeightingTuning, ope.SubGaussianDoublyRobustTuning][case["seed"] % 6]
    lams = [0.9, 0.1, 0.5] if "SubGaussian" in cls.__name__ else [2.0, float("inf"), 0.5, 1]
    kw = dict(reward=d.reward, action=d.action, pscore=d.pscore, action_dist=d.action_dist, position=d.position)
    if "DoublyRobust" in cls.__name__:
        kw["estimated_rewards_by_reg_model"] = d.q
    make = lambda: cls(lambdas=lams, tuning_method=("slope", "mse")[case["rs"] % 2])
    return dict(kw, lambdas=lams), make, lambda o: (o.estimate_policy_value(**kw), o.estimate_interval(n_bootstrap_samples=15, random_state=case["rs"], **kw)), True


def front(case):
    d = _logged(case)
    bf = dict(n_rounds=d.n, n_actions=d.A, context=d.context, action=d.action, reward=d.reward, position=d.position, pscore=d.pscore)
    q = {"dm": d.q, "dr": d.q + 1}
    ests = lambda: [ope.DirectMethod(), ope.InverseProbabilityWeighting(), ope.DoublyRobust(), ope.ReplayMethod()]
    kw = dict(action_dist=d.action_dist, estimated_rewards_by_reg_model=q)
    rs = case["rs"]

    def call(o):
        return (
            o.estimate_policy_values(**kw), o.estimate_intervals(n_bootstrap_samples=10, random_state=rs, **kw), o.summarize_off_policy_estimates(n_bootstrap_samples=10, random_state=rs, **kw),
            o.evaluate_performance_of_estimators(ground_truth_policy_value=0.7, **kw), o.summarize_estimators_comparison(ground_truth_policy_value=0.7, **kw),
        )

    return dict(bandit_feedback=bf, **kw), lambda: ope.OffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests()), call, True


def front_multi(case):
    d = _logged(case)
    bf = dict(n_rounds=d.n, n_actions=d.A, context=d.context, action=d.action, reward=d.reward, position=d.position, pscore=d.pscore, pscore_avg=d.est_pscore, stratum_idx=d.r.randint(2, size=d.n))
    ests = lambda: [ope.MultiLoggersNaiveInverseProbabilityWeighting(), ope.MultiLoggersBalancedDoublyRobust()]
    kw = dict(action_dist=d.action_dist, estimated_rewards_by_reg_model=d.q)
    return dict(bandit_feedback=bf, **kw), lambda: ope.MultiLoggersOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests()), lambda o: (o.estimate_policy_values(**kw), o.estimate_intervals(n_bootstrap_samples=10, random_state=case["rs"], **kw)), True


def front_slate(case):
    c = dict(_fam_case(case, "slate"), which="SIPS", shuffle=False)
    f = families.slate(c)
    ps = f.kw["pscore"]
    bf = dict(slate_id=f.kw["slate_id"], context=np.zeros((len(ps), 1)), action=np.zeros(len(ps), int), reward=f.kw["reward"], position=f.kw["position"], pscore=ps)
    kw = dict(evaluation_policy_pscore=f.kw["evaluation_policy_pscore"])
    return dict(bandit_feedback=bf, **kw), lambda: ope.SlateOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=[ope.SlateStandardIPS(len_list=c["L"]), ope.SelfNormalizedSlateStandardIPS(len_list=c["L"])]), lambda o: (o.estimate_policy_values(**kw), o.estimate_intervals(n_bootstrap_samples=10, random_state=case["rs"], **kw)), True


def front_continuous(case):
    f = families.cont(dict(_fam_case(case, "continuous"), which="K-DR"))
    bf = dict(action=f.kw["action_by_behavior_policy"], reward=f.kw["reward"], pscore=f.kw["pscore"])
    kw = dict(action_by_evaluation_policy=f.kw["action_by_evaluation_policy"], estimated_rewards_by_reg_model=f.kw["estimated_rewards_by_reg_model"])
    ests = lambda: [ope.KernelizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=0.5), ope.KernelizedDoublyRobust(kernel="cosine", bandwidth=2.0)]
    return dict(bandit_feedback=bf, **kw), lambda: ope.ContinuousOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests()), lambda o: (o.estimate_policy_values(**kw), o.estimate_intervals(n_bootstrap_samples=10, random_state=case["rs"], **kw)), True


# ---------------------------------------------------------------------- models
def reward_model(case):
    d = _logged(case, 24, "generic")
    n = d.n
    pos = np.r_[np.arange(d.L), d.r.randint(d.L, size=n)][:n] if n >= d.L else np.zeros(n, int)
    method = ("normal", "iw", "mrdr")[case["seed"] % 3]
    folds = (1, 2)[case["rs"] % 2]
    for p in range(d.L):
        if folds > 1:
            pos = np.arange(n) % 1  # one position when cross-fitting: every fold then has rounds
    L = d.L if folds == 1 else 1
    ac = d.r.normal(size=(d.A, 2))
    ad = 0.9 * d.action_dist[:, :, :L] + 0.1 / d.A  # every training round has a positive sample weight
    kw = dict(context=d.context, action=d.action, reward=d.reward.astype(float), pscore=np.minimum(d.pscore, 0.9), position=pos, action_dist=ad)
    return dict(kw, action_context=ac), lambda: ope.RegressionModel(n_actions=d.A, len_list=L, action_context=ac, base_model=Ridge(), fitting_method=method), lambda o: (o.fit_predict(n_folds=folds, random_state=case["rs"], **kw), o.predict(context=d.context)), True


def slate_reward_model(case):
    r = gen.rng(case, 6)
    n, A, L = 6, 3, 2
    kw = dict(context=r.normal(size=(n, 2)), action=r.randint(A, size=n * L), reward=r.normal(size=n * L), pscore_cascade=np.cumprod(r.uniform(0.3, 1, size=(n, L)), axis=1).ravel(), evaluation_policy_pscore_cascade=np.cumprod(r.uniform(0.3, 1, size=(n, L)), axis=1).ravel(), evaluation_policy_action_dist=np.concatenate([gen.dist_rows(r, 1, A, "generic").ravel() for _ in range(n * L)]))
    return kw, lambda: ope.SlateRegressionModel(n_unique_action=A, len_list=L, base_model=Ridge(), fitting_method=("normal", "iw")[case["seed"] % 2]), lambda o: o.fit_predict(**kw), True


def propensity_model(case):
    r = gen.rng(case, 7)
    n, A = 150, 3  # every fold then has every action (calibration needs it)
    kw = dict(context=r.normal(size=(n, 2)), action=np.arange(n) % A, position=np.zeros(n, int))
    cal = bool(case["seed"] % 2)
    return kw, lambda: ope.PropensityScoreEstimator(n_actions=A, len_list=1, base_model=LogisticRegression(), calibration_cv=2), lambda o: o.fit_predict(n_folds=(1, 2)[case["rs"] % 2], random_state=case["rs"], **kw) if not cal else o.fit_predict(n_folds=1, random_state=case["rs"], **kw), True


def weight_model(case):
    r = gen.rng(case, 8)
    n, A = 24, 3
    kw = dict(context=r.normal(size=(n, 2)), action=np.arange(n) % A, action_dist=gen.dist_rows(r, n, A, "mixed")[:, :, None], position=np.zeros(n, int))
    ac = r.normal(size=(A, 2))
    return dict(kw, action_context=ac), lambda: ope.ImportanceWeightEstimator(n_actions=A, len_list=1, action_context=ac, base_model=LogisticRegression(), fitting_method=("sample", "raw")[case["seed"] % 2]), lambda o: o.fit_predict(n_folds=(1, 2)[case["rs"] % 2], random_state=case["rs"], **kw), True


# -------------------------------------------------------------------- learners
def learner(case):
    d = _logged(case, 30)
    k = case["seed"] % 2
    act = np.arange(d.n) % d.A
    kw = dict(context=d.context, action=act, reward=np.abs(d.reward).astype(float) + 0.1, pscore=d.pscore)
    test = d.r.normal(size=(5, 2))
    make = (lambda: P.IPWLearner(n_actions=d.A, base_classifier=DecisionTreeClassifier(random_state=0))) if k else (lambda: P.QLearner(n_actions=d.A, base_model=DecisionTreeRegressor(random_state=0), fitting_method=("normal", "iw", "mrdr")[case["rs"] % 3]))

    def call(o):
        o.fit(**kw)
        return o.predict(context=test), o.predict_score(context=test), o.predict_proba(context=test, tau=0.5), o.sample_action(context=test, tau=0.7, random_state=case["rs"])

    return dict(kw, test=test), make, call, True


def nn_learner(case):
    d = _logged(case, 30)
    kw = dict(context=d.context, action=np.arange(d.n) % d.A, reward=d.reward.astype(float), pscore=d.pscore)
    test = d.r.normal(size=(5, 2))
    hyper = dict(max_iter=2, random_state=case["rs"])
    obj = ("ipw", "dr", "dm", "snipw")[case["seed"] % 4]

    def call(_):
        o = P.NNPolicyLearner(n_actions=d.A, dim_context=2, off_policy_objective=obj, hidden_layer_size=(3,), batch_size=4, max_iter=2, random_state=case["rs"], q_func_estimator_hyperparams=hyper, early_stopping=bool(case["seed"] % 3 == 0))
        o.fit(**kw)
        return o.predict(context=test), o.predict_proba(context=test), o.sample_action(context=test, random_state=case["rs"])

    return dict(kw, test=test, hyper=hyper), lambda: None, call, True


def nn_learner_continuous(case):
    r = gen.rng(case, 9)
    n = int(r.randint(3, 20))
    kw = dict(context=r.normal(size=(n, 2)), action=r.normal(size=n), reward=r.normal(size=n), pscore=r.uniform(0.3, 1, size=n))
    test = r.normal(size=(5, 2))
    hyper = dict(max_iter=2, random_state=case["rs"])

    def call(_):
        o = P.ContinuousNNPolicyLearner(dim_context=2, pg_method=("dpg", "ipw", "dr")[case["seed"] % 3], bandwidth=0.5, output_space=(-1, 1), hidden_layer_size=(3,), batch_size=4, max_iter=2, random_state=case["rs"], q_func_estimator_hyperparams=hyper)
        o.fit(**kw)
        return o.predict(context=test)

    return dict(kw, test=test, hyper=hyper), lambda: None, call, True


# ------------------------------------------------------------------- data sets
REW = ["logistic_reward_function", "logistic_polynomial_reward_function", "logistic_sparse_reward_function"]
REWC = ["linear_reward_function", "polynomial_reward_function", "sparse_reward_function"]


def synthetic(case):
    r = gen.rng(case, 10)
    A = int(r.randint(2, 6))
    ac = r.normal(size=(A, 3))
    binary = bool(r.randint(2))
    rf = None if r.rand() < 0.25 else getattr(D, (REW if binary else REWC)[r.randint(3)])
    bf = None if r.rand() < 0.4 else (D.linear_behavior_policy, D.polynomial_behavior_policy)[r.randint(2)]
    n = int(r.randint(5, 12))
    beta = float(r.choice([-1.0, 1.0, 3.0]))
    nd = int(r.randint(0, A - 1)) if bf is not None else 0
    make = lambda: D.SyntheticBanditDataset(n_actions=A, dim_context=3, reward_type="binary" if binary else "continuous", reward_function=rf, behavior_policy_function=bf, action_context=ac, beta=beta, n_deficient_actions=nd, random_state=case["rs"])
    pi = gen.dist_rows(r, n, A, "generic")[:, :, None]
    x = r.normal(size=(n, 3))
    act = r.randint(A, size=n)

    def call(o):
        a, b = o.obtain_batch_bandit_feedback(n), o.obtain_batch_bandit_feedback(n)
        keep = snap(a)
        v = o.calc_ground_truth_policy_value(expected_reward=a["expected_reward"], action_dist=pi)
        s = o.sample_reward(context=x, action=act)
        e = o.calc_expected_reward(x)
        assert_unchanged(a, keep)
        return a, b, v, s, e

    return dict(action_context=ac, pi=pi, x=x, act=act), make, call, False


class EarlierResultChanged(Exception):
    pass


def assert_unchanged(a, keep):
    if not same(a, keep):
        raise EarlierResultChanged(diff(keep, a))


def synthetic_multi(case):
    r = gen.rng(case, 11)
    A, K = int(r.randint(2, 5)), int(r.randint(2, 4))
    betas, rhos = [float(r.choice([-2.0, 0.5, 3.0])) for _ in range(K)], [float(r.randint(1, 4)) for _ in range(K)]
    ac = r.normal(size=(A, 2))
    n = int(r.randint(6, 14))
    make = lambda: D.SyntheticMultiLoggersBanditDataset(n_actions=A, dim_context=3, betas=betas, rhos=rhos, reward_function=D.logistic_reward_function, behavior_policy_function=None if case["seed"] % 2 else D.linear_behavior_policy, action_context=ac, random_state=case["rs"])
    return dict(betas=betas, rhos=rhos, action_context=ac), make, lambda o: (o.obtain_batch_bandit_feedback(n), o.obtain_batch_bandit_feedback(n)), False


def synthetic_embed(case):
    r = gen.rng(case, 12)
    A = int(r.randint(2, 5))
    n = int(r.randint(6, 14))
    nd = int(r.randint(2, 4))
    make = lambda: D.SyntheticBanditDatasetWithActionEmbeds(n_actions=A, dim_context=3, reward_function=D.logistic_reward_function, n_cat_dim=nd, n_cat_per_dim=3, n_unobserved_cat_dim=int(case["seed"] % 2), latent_param_mat_dim=4, random_state=case["rs"])
    return {}, make, lambda o: (o.obtain_batch_bandit_feedback(n), o.obtain_batch_bandit_feedback(n)), False


def synthetic_slate(case):
    r = gen.rng(case, 13)
    A, L = int(r.randint(3, 5)), 2
    fact = bool(r.randint(2))
    click = (None, "pbm", "cascade")[r.randint(3)]
    rs_ = ("independent", "cascade_decay", "cascade_additive", "standard_decay", "standard_additive")[r.randint(5)]
    n = 5
    logit = r.normal(size=(n, A))
    x = r.normal(size=(n, 2))
    make = lambda: D.SyntheticSlateBanditDataset(n_unique_action=A, len_list=L, dim_context=2, reward_type=("binary", "continuous")[case["seed"] % 2], reward_structure=rs_, click_model=click if case["seed"] % 2 == 0 else None, is_factorizable=fact, base_reward_function=(D.logistic_reward_function, D.linear_reward_function)[case["seed"] % 2], behavior_policy_function=None if case["rs"] % 3 == 0 else D.linear_behavior_policy_logit, random_state=case["rs"])

    def call(o):
        a = o.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=True)
        b = o.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=True)
        keep = snap(a)
        e = o.obtain_pscore_given_evaluation_policy_logit(action=a["action"], evaluation_policy_logit_=logit, return_pscore_item_position=True)
        v = o.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logit)
        d = o.calc_evaluation_policy_action_dist(action=a["action"], evaluation_policy_logit_=logit)
        g = o.generate_evaluation_policy_pscore(evaluation_policy_type=("optimal", "anti-optimal", "random")[case["rs"] % 3], context=a["context"], action=a["action"], epsilon=0.3) if not fact else None
        p = o.calc_on_policy_policy_value(a["reward"], a["slate_id"])
        assert_unchanged(a, keep)
        return a, b, e, v, d, g, p

    return dict(logit=logit, x=x), make, call, False


def synthetic_continuous(case):
    r = gen.rng(case, 14)
    n = int(r.randint(3, 12))
    x, a = r.normal(size=(n, 2)), r.uniform(-1, 1, size=n)
    make = lambda: D.SyntheticContinuousBanditDataset(dim_context=2, action_noise=0.7, reward_noise=0.4, min_action_value=-2, max_action_value=3, reward_function=(D.linear_reward_funcion_continuous, D.quadratic_reward_funcion_continuous)[case["seed"] % 2], behavior_policy_function=None if case["rs"] % 3 == 0 else D.linear_behavior_policy_continuous, random_state=case["rs"])

    def call(o):
        b1, b2 = o.obtain_batch_bandit_feedback(n), o.obtain_batch_bandit_feedback(n)
        v = o.calc_ground_truth_policy_value(context=x, action=a)
        f = [g(x) for g in (D.linear_synthetic_policy_continuous, D.threshold_synthetic_policy_continuous, D.sign_synthetic_policy_continuous)]
        return b1, b2, v, f

    return dict(x=x, a=a), make, call, False


def multiclass(case):
    r = gen.rng(case, 15)
    n, K = 30, 3
    X, y = r.normal(size=(n, 2)), np.array(["a", "b", "c"])[np.arange(n) % K] if case["seed"] % 2 else (np.arange(n) % K) * 10
    base, other = DecisionTreeClassifier(random_state=0, max_depth=2), LogisticRegression()

    def call(o):
        o.split_train_eval(eval_size=0.4, random_state=case["rs"])
        a = o.obtain_batch_bandit_feedback(random_state=case["rs"])
        b = o.obtain_batch_bandit_feedback(random_state=case["rs"] + 1)
        d = o.obtain_action_dist_by_eval_policy(base_classifier_e=other, alpha_e=0.7)
        return a, b, d, o.calc_ground_truth_policy_value(d)

    return dict(X=X, y=y), lambda: D.MultiClassToBanditReduction(X=X, y=y, base_classifier_b=base, alpha_b=0.6, n_deficient_actions=case["seed"] % 3), call, True


def functions(case):
    """stand-alone reward, behaviour, sampling and bound functions"""
    r = gen.rng(case, 16)
    n, A = int(r.randint(3, 10)), int(r.randint(3, 6))
    x, ac = r.normal(size=(n, 3)), r.normal(size=(A, 3))
    pi = gen.dist_rows(r, n, A, "mixed")
    v = r.normal(size=n)
    w, wh = r.gamma(1.0, size=n), r.gamma(1.0, size=n)
    rew = r.uniform(size=n)
    logits = r.normal(size=(n, A))
    rs = case["rs"]
    acts = r.randint(A, size=(n, 2))

    def call(_):
        out = [getattr(D, f)(x, ac, random_state=rs) for f in REW + REWC + ["linear_behavior_policy", "polynomial_behavior_policy", "linear_behavior_policy_logit"]]
        out += [U.sample_action_fast(pi, random_state=rs), U.softmax(logits), U.sigmoid(v), U.convert_to_action_dist(n_actions=A, selected_actions=acts)]
        out += [U.estimate_confidence_interval_by_bootstrap(samples=v, n_bootstrap_samples=20, random_state=rs)]
        out += [H.estimate_bias_in_ope(reward=rew, iw=w, iw_hat=wh), H.estimate_high_probability_upper_bound_bias(reward=rew, iw=w, iw_hat=wh), H.estimate_hoeffding_lower_bound(v, v.max(), 0.1), H.estimate_bernstein_lower_bound(v, v.max(), 0.1), H.estimate_student_t_lower_bound(v, 0.1)]
        out += [D.generate_symmetric_matrix(A, rs)] if hasattr(D, "generate_symmetric_matrix") else []
        return out

    return dict(x=x, ac=ac, pi=pi, v=v, w=w, wh=wh, rew=rew, logits=logits, acts=acts), lambda: None, call, True


# --------------------------------------------------------------------- online
def _pol(case, A):
    k = case["seed"] % 9
    rs, bs = case["rs"], 1 + case["rs"] % 3
    kw = dict(n_actions=A, len_list=1, batch_size=bs, random_state=rs)
    ck = dict(kw, dim=2)
    return [
        lambda: P.EpsilonGreedy(epsilon=0.5, **kw), lambda: P.Random(**kw), lambda: P.BernoulliTS(**kw), lambda: P.LinEpsilonGreedy(epsilon=0.5, **ck), lambda: P.LinUCB(epsilon=0.5, **ck), lambda: P.LinTS(**ck),
        lambda: P.LogisticEpsilonGreedy(epsilon=0.5, **ck), lambda: P.LogisticUCB(epsilon=0.5, **ck), lambda: P.LogisticTS(**ck),
    ][k]


def online_replay(case):
    r = gen.rng(case, 17)
    n, A = 10, 3
    bf = dict(n_rounds=n, n_actions=A, context=r.normal(size=(n, 2)), action=r.randint(A, size=n), reward=r.randint(2, size=n), position=None if case["seed"] % 2 else np.zeros(n, int), expected_reward=r.uniform(size=(n, A)), pscore=r.uniform(0.2, 1, size=n))
    mk = _pol(case, A)

    def call(_):
        sampler = np.random.RandomState(1)
        return run_bandit_replay(bandit_feedback=bf, policy=mk()), calc_ground_truth_policy_value(bandit_feedback=bf, reward_sampler=lambda c, a: sampler.binomial(1, 0.5, size=len(a)), policy=mk(), n_sim=3)

    return dict(bandit_feedback=bf), lambda: None, call, True


def online_simulation(case):
    A = 3
    mk = _pol(case, A)

    def call(_):
        drift = CoefficientDrifter(drift_interval=3, transition_period=1, transition_type=("linear", "weighted_sampled")[case["seed"] % 2], random_state=case["rs"])
        delay = delay_sampler.ExponentialDelaySampler(max_scale=3.0, min_scale=1.0, random_state=case["rs"])
        env = BanditEnvironmentSimulator(n_actions=A, dim_context=2, reward_function=D.logistic_reward_function, coef_function=drift.get_coefficients, delay_function=delay.exponential_delay_function if case["rs"] % 2 else delay.exponential_delay_function_expected_reward_weighted, random_state=case["rs"])
        sim = BanditPolicySimulator(policy=mk(), environment=env)
        b = env.next_bandit_round_batch(n_rounds=8)
        keep = [b.context.copy(), b.rewards.copy(), b.expected_rewards.copy(), b.round_delays.copy()]
        sim.steps(batch_bandit_rounds=b)
        sim.clear_delayed_queue()
        assert_unchanged([b.context, b.rewards, b.expected_rewards, b.round_delays], keep)
        return sim.selected_actions, sim.obtained_rewards, sim.contexts, sim.ground_truth_rewards, sim.total_reward

    return {}, lambda: None, call, True


OPS = dict(
    est_std=_family("std"), est_multi=_family("multi"), est_slate=_family("slate"), est_continuous=_family("continuous"), est_embed=_family("embed"), tuning=tuning,
    front=front, front_multi=front_multi, front_slate=front_slate, front_continuous=front_continuous, reward_model=reward_model, slate_reward_model=slate_reward_model, propensity_model=propensity_model, weight_model=weight_model,
    learner=learner, nn_learner=nn_learner, nn_learner_continuous=nn_learner_continuous, synthetic=synthetic, synthetic_multi=synthetic_multi, synthetic_embed=synthetic_embed, synthetic_slate=synthetic_slate, synthetic_continuous=synthetic_continuous,
    multiclass=multiclass, functions=functions, online_replay=online_replay, online_simulation=online_simulation,
)

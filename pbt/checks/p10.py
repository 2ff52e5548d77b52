"""P10: malformed input is rejected, never silently turned into a number."""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression, Ridge

from .. import families, gen
from ..core import Discard, Sub
from ..gen import SEED, fx
from ..stubs import TabularClassifier

import obp.ope as ope
import obp.policy as pol
import obp.dataset as ds
from obp.simulator.replay import run_bandit_replay
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.simulator import BanditEnvironmentSimulator, calc_ground_truth_policy_value

PROPERTY = "P10"
RULE = "the un-mutated call is accepted, and exactly one documented requirement is broken (at one random round for element-wise requirements)"
BAD = (ValueError, TypeError)


def put(a, i, v, dtype=None):
    b = np.array(a, dtype=dtype) if dtype else np.array(a)
    b[i] = v
    return b


def rotated(M, k):
    """every name, starting anywhere"""
    names = sorted(M)
    k %= len(names)
    return names[k:] + names[:k]


def mut_1d(kw, key, r):
    """shape / type mutations of a required 1-d array"""
    a = kw[key]
    out = {
        "list": lambda: a.tolist(),
        "2d": lambda: a.reshape(-1, 1),
        "long": lambda: np.concatenate([a, a[-1:]]),
        "none": lambda: None,
    }
    if a.shape[0] > 1:
        out["short"] = lambda: a[:-1]
        out["single"] = lambda: a[:1]  # would broadcast
    return {key + ":" + k: (key, v) for k, v in out.items()}


def mutations(fam, f, r):
    kw = f.kw
    M = {}
    n = next(v.shape[0] for k, v in kw.items() if k in ("reward",))
    i = r.randint(n)

    def add(key, name, fn):
        M[key + ":" + name] = (key, fn)

    if fam == "slate":
        pk = [k for k in kw if k.startswith("pscore")][0]
        ek = "evaluation_policy_" + pk
        for k in ("slate_id", "position", "reward", pk, ek):
            M.update(mut_1d(kw, k, r))
        for k in ("slate_id", "position"):
            add(k, "float", lambda k=k: kw[k].astype(float))
            add(k, "negative", lambda k=k: put(kw[k], i, -1))
        add(pk, "zero", lambda: put(kw[pk], i, 0.0))
        add(pk, "negative", lambda: put(kw[pk], i, -0.5))
        add(pk, "above-one", lambda: put(kw[pk], i, 1.0 + 2.0 ** -r.randint(0, 20)))
        add(ek, "negative", lambda: put(kw[ek], i, -(2.0 ** -r.randint(0, 20))))
        add(ek, "above-one", lambda: put(kw[ek], i, 1.0 + 2.0 ** -r.randint(0, 20)))
        same = np.flatnonzero((kw["slate_id"] == kw["slate_id"][i]) & (np.arange(n) != i))
        if len(same):
            j = int(same[r.randint(len(same))])
            add("position", "duplicate", lambda: put(kw["position"], i, kw["position"][j]))
            if pk == "pscore":
                add(pk, "not-constant", lambda: put(kw[pk], i, kw[pk][i] * 0.5))
                if kw[ek][i] > 0:
                    add(ek, "not-constant", lambda: put(kw[ek], i, kw[ek][i] * 0.5))
            if pk == "pscore_cascade":
                hi, lo = (i, j) if kw["position"][i] > kw["position"][j] else (j, i)
                add(pk, "increasing", lambda: put(put(kw[pk], lo, 0.25), hi, 0.75))
                add(ek, "increasing", lambda: put(put(kw[ek], lo, 0.25), hi, 0.75))
        if f.name == "cascade-DR":
            A = f.est.n_unique_action
            M.update(mut_1d(kw, "action", r))
            add("action", "float", lambda: kw["action"].astype(float))
            add("action", "negative", lambda: put(kw["action"], i, -1))
            add("action", "too-large", lambda: put(kw["action"], i, A))
            for k in ("q_hat", "evaluation_policy_action_dist"):
                add(k, "list", lambda k=k: kw[k].tolist())
                add(k, "2d", lambda k=k: kw[k].reshape(-1, A))
                add(k, "short", lambda k=k: kw[k][:-A])
                add(k, "long", lambda k=k: np.concatenate([kw[k], kw[k][-A:]]))
            add("evaluation_policy_action_dist", "unnormalised", lambda: put(kw["evaluation_policy_action_dist"], i * A, kw["evaluation_policy_action_dist"][i * A] + 0.25))
        return M
    if fam == "continuous":
        for k in kw:
            M.update(mut_1d(kw, k, r))
        for v in ("zero", "negative"):
            add("pscore", v, lambda v=v: put(kw["pscore"], i, 0.0 if v == "zero" else -0.5))
        return M
    # discrete families: std, multi, embed
    A, L = kw["action_dist"].shape[1:]
    dm = f.name == "DM"
    if not dm:
        for k in ("reward", "action"):
            M.update(mut_1d(kw, k, r))
        add("action", "float", lambda: kw["action"].astype(float))
        add("action", "negative", lambda: put(kw["action"], i, -1))
        add("action", "too-large", lambda: put(kw["action"], i, A + r.randint(3), dtype=np.int64))
    M.update({k: v for k, v in mut_1d(kw, "position", r).items() if not k.endswith("none") or L > 1})
    add("position", "float", lambda: kw["position"].astype(float))
    add("position", "negative", lambda: put(kw["position"], i, -1))
    add("position", "too-large", lambda: put(kw["position"], i, L))
    ad = kw["action_dist"]
    add("action_dist", "2d", lambda: ad[:, :, 0])
    add("action_dist", "list", lambda: ad.tolist())
    a, l = r.randint(A), r.randint(L)
    add("action_dist", "unnormalised-more", lambda: put(ad, (i, a, l), ad[i, a, l] + 0.01))
    if ad[i, a, l] > 0.05:
        add("action_dist", "unnormalised-less", lambda: put(ad, (i, a, l), ad[i, a, l] - 0.01))
    if n > 1:
        add("action_dist", "short", lambda: ad[:-1])
        add("action_dist", "single", lambda: ad[:1])
    add("action_dist", "long", lambda: np.concatenate([ad, ad[-1:]]))
    pk = None
    if fam == "std" and f.name not in ("RM", "DM", "BIPW"):
        pk = "estimated_pscore" if f.est.use_estimated_pscore else "pscore"
    if fam == "multi":
        pk = ("estimated_" if f.est.use_estimated_pscore else "") + ("pscore_avg" if f.name.startswith("balanced") else "pscore")
    if pk:
        M.update(mut_1d(kw, pk, r))
        add(pk, "zero", lambda: put(kw[pk], i, 0.0))
        add(pk, "negative", lambda: put(kw[pk], i, -0.5))
    q = kw.get("estimated_rewards_by_reg_model")
    if q is not None:
        k = "estimated_rewards_by_reg_model"
        add(k, "none", lambda: None)
        add(k, "2d", lambda: q[:, :, 0])
        add(k, "fewer-actions", lambda: q[:, :-1])
        add(k, "more-positions", lambda: np.concatenate([q, q[:, :, -1:]], 2))
        add(k, "long", lambda: np.concatenate([q, q[-1:]]))
        if n > 1:
            add(k, "single", lambda: q[:1])
        add(k, "list", lambda: q.tolist())
    if f.name == "BIPW":
        k = "estimated_importance_weights"
        M.update(mut_1d(kw, k, r))
        add(k, "negative", lambda: put(kw[k], i, -(2.0 ** -r.randint(0, 30))))
    if f.name.startswith("weighted"):
        M.update(mut_1d(kw, "stratum_idx", r))
        add("stratum_idx", "float", lambda: kw["stratum_idx"].astype(float))
        add("stratum_idx", "negative", lambda: put(kw["stratum_idx"], i, -1))
    if fam == "embed":
        pb, pea, em = kw["pi_b"], kw["p_e_a"], kw["action_embed"]
        add("pi_b", "2d", lambda: pb[:, :, 0])
        add("pi_b", "list", lambda: pb.tolist())
        add("pi_b", "unnormalised", lambda: put(pb, (i, a, l), pb[i, a, l] + 0.01))
        add("p_e_a", "2d", lambda: pea[:, :, 0])
        add("p_e_a", "list", lambda: pea.tolist())
        add("action_embed", "1d", lambda: em[:, 0])
        add("action_embed", "list", lambda: em.tolist())
    return M


def ope_case():
    alts = [fam[0](fam=st.just(name), pick=st.integers(0, 10**6), tuned=st.booleans(), api=st.sampled_from(["value", "value", "interval"]), nopos=st.booleans()) for name, fam in families.FAMILIES.items()]
    return st.one_of(*alts)


TUNED = dict(IPW=ope.InverseProbabilityWeightingTuning, DR=ope.DoublyRobustTuning, Switch=ope.SwitchDoublyRobustTuning, DRos=ope.DoublyRobustWithShrinkageTuning,
             SGIPW=ope.SubGaussianInverseProbabilityWeightingTuning, SGDR=ope.SubGaussianDoublyRobustTuning)


def run_ope(case, ctx):
    """one documented-invalid argument at one round -> ValueError/TypeError from the estimators"""
    fam = case["fam"]
    f = families.FAMILIES[fam][1](case)
    if f is None:
        raise Discard("estimator undefined")
    M = mutations(fam, f, gen.rng(case, 99))
    kw = dict(f.kw)
    if case["nopos"] and "action_dist" in kw and kw["action_dist"].shape[2] == 1:  # single-slot data without positions
        M = {k: v for k, v in M.items() if not k.startswith("position:")}
        kw["position"] = None
        ctx.label("no position")
    names = rotated(M, case["pick"])
    if fam == "std" and case["tuned"] and case["n"] > 1 and f.name in TUNED:
        make = lambda: TUNED[f.name](lambdas=[0.2, 0.7], tuning_method=["mse", "slope"][case["pick"] % 2], use_estimated_pscore=f.est.use_estimated_pscore)
        make().estimate_policy_value(**kw)
        f = families._f(f.name + " (tuned)", make(), f.kw, f.terms)
        ctx.label("tuned")
    else:
        f.est.estimate_policy_value(**kw)  # accepted as is
    ctx.label(fam)
    for m in names if case["n"] < 100 else names[:3]:
        key, fn = M[m]
        bad = dict(kw, **{key: fn()})
        if case["api"] == "value":
            ctx.raises(BAD, lambda: f.est.estimate_policy_value(**bad), "%s.estimate_policy_value with malformed %s" % (f.name, m))
        else:
            ctx.raises(BAD, lambda: f.est.estimate_interval(n_bootstrap_samples=2, random_state=0, **bad), "%s.estimate_interval with malformed %s" % (f.name, m))
    ctx.nontriv()


# ------------------------------------------------------- interval arguments
def ci_case():
    alts = [fam[0](fam=st.just(name), arg=st.sampled_from(["alpha", "n_bootstrap_samples", "random_state"]), k=st.integers(0, 9)) for name, fam in families.FAMILIES.items()]
    return st.one_of(*alts)


BAD_CI = dict(alpha=[-0.1, 1.1, "0.05", None, 2.0, -1e-9], n_bootstrap_samples=[0, -1, "10", 2.5, None], random_state=["x", "0"])


def run_ci(case, ctx):
    """estimate_interval rejects impossible levels and sample counts"""
    f = families.FAMILIES[case["fam"]][1](case)
    if f is None:
        raise Discard("estimator undefined")
    bad = BAD_CI[case["arg"]]
    v = bad[case["k"] % len(bad)]
    args = dict(alpha=0.1, n_bootstrap_samples=2, random_state=0)
    f.est.estimate_interval(**args, **f.kw)
    args[case["arg"]] = v
    ctx.nontriv()
    ctx.raises(BAD, lambda: f.est.estimate_interval(**args, **f.kw), "%s.estimate_interval(%s=%r)" % (f.name, case["arg"], v))


# ------------------------------------------------------------ constructors
NEG, NAN = [-1, -0.5, -1e-9], [float("nan")]
BOOLBAD = ["yes", 1, None, 0.0]
POSINT = [0, -1, 1.5, "3", None]
STRBAD = ["foo", None, 3, ""]
LAMBAD = NEG + NAN + ["1", None, [1.0]]
ctors = []


def C(name, make, good, bad):
    for p, vals in bad.items():
        for v in vals:
            ctors.append((name, make, good, p, v))


for _n in ("InverseProbabilityWeighting", "DoublyRobust", "SwitchDoublyRobust", "DoublyRobustWithShrinkage", "MultiLoggersNaiveInverseProbabilityWeighting",
           "MultiLoggersBalancedInverseProbabilityWeighting", "MultiLoggersWeightedInverseProbabilityWeighting", "MultiLoggersNaiveDoublyRobust",
           "MultiLoggersBalancedDoublyRobust", "MultiLoggersWeightedDoublyRobust"):
    C(_n, getattr(ope, _n), dict(lambda_=1.0), dict(lambda_=LAMBAD, use_estimated_pscore=BOOLBAD))
C("BalancedInverseProbabilityWeighting", ope.BalancedInverseProbabilityWeighting, dict(), dict(lambda_=LAMBAD))
for _n in ("SubGaussianInverseProbabilityWeighting", "SubGaussianDoublyRobust"):
    C(_n, getattr(ope, _n), dict(lambda_=0.5), dict(lambda_=LAMBAD + [1.0000001, 2, float("inf")], use_estimated_pscore=BOOLBAD))
LB = ["x", None, (1.0, 2.0), [], [-1.0, 1.0], [1.0, float("nan")], ["1"], 1.0, [1.0, None]]
for _n in ("InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning"):
    C(_n, getattr(ope, _n), dict(lambdas=[1.0, 2.0]), dict(lambdas=LB, use_estimated_pscore=BOOLBAD, tuning_method=STRBAD, use_bias_upper_bound=BOOLBAD, delta=[-0.1, 1.1, "x", None]))
for _n in ("SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning"):
    C(_n, getattr(ope, _n), dict(lambdas=[0.5]), dict(lambdas=LB + [[0.5, 1.5]], use_estimated_pscore=BOOLBAD, tuning_method=STRBAD, use_bias_upper_bound=BOOLBAD, delta=[-0.1, 1.1, "x", None]))
C("SlateCascadeDoublyRobust", ope.SlateCascadeDoublyRobust, dict(len_list=3, n_unique_action=4), dict(n_unique_action=POSINT))
for _n in ("KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust"):
    C(_n, getattr(ope, _n), dict(kernel="gaussian", bandwidth=1.0), dict(kernel=["foo", "", "Gaussian"], bandwidth=[-1, -0.1, "x", None]))
for _n in ("MarginalizedInverseProbabilityWeighting", "SelfNormalizedMarginalizedInverseProbabilityWeighting"):
    C(_n, getattr(ope, _n), dict(n_actions=3), dict(n_actions=POSINT + [1], min_emb_dim=POSINT, delta=[-0.1, 1.1, "x", None], embedding_selection_method=["foo", ""], pi_a_x_e_estimator=[Ridge()]))
C("RegressionModel", ope.RegressionModel, dict(base_model=Ridge(), n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT, fitting_method=["foo", None, "IW"], base_model=["x", None, Ridge]))
C("PropensityScoreEstimator", ope.PropensityScoreEstimator, dict(base_model=LogisticRegression(), n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT, base_model=["x", None, LogisticRegression], calibration_cv=["x", 1.5]))
C("ImportanceWeightEstimator", ope.ImportanceWeightEstimator, dict(base_model=LogisticRegression(), n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT, fitting_method=["foo", None], base_model=["x", None, LogisticRegression], calibration_cv=["x", 1.5]))
C("SlateRegressionModel", ope.SlateRegressionModel, dict(base_model=Ridge(), len_list=3, n_unique_action=4), dict(n_unique_action=POSINT + [1], len_list=POSINT, fitting_method=["foo", "mrdr"], base_model=["x", None, LogisticRegression()]))
C("IPWLearner", pol.IPWLearner, dict(n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT + [4], base_classifier=[Ridge(), "x"]))
C("QLearner", pol.QLearner, dict(n_actions=3, base_model=Ridge()), dict(n_actions=POSINT + [1], len_list=POSINT + [4]))
C("Random", pol.Random, dict(n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT))
C("EpsilonGreedy", pol.EpsilonGreedy, dict(n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT, epsilon=[-0.1, 1.1, "x", None]))
C("BernoulliTS", pol.BernoulliTS, dict(n_actions=3), dict(n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT))
C("LinEpsilonGreedy", pol.LinEpsilonGreedy, dict(dim=2, n_actions=3), dict(dim=POSINT, n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT, epsilon=[-0.1, 1.1, "x", None]))
C("LinUCB", pol.LinUCB, dict(dim=2, n_actions=3), dict(dim=POSINT, n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT, epsilon=[-0.1, "x", None]))
C("LinTS", pol.LinTS, dict(dim=2, n_actions=3), dict(dim=POSINT, n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT))
C("LogisticEpsilonGreedy", pol.LogisticEpsilonGreedy, dict(dim=2, n_actions=3), dict(dim=POSINT, n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT, epsilon=[-0.1, 1.1, "x", None], alpha_=[0.0, -1.0, "x", None], lambda_=[0.0, -1.0, "x", None]))
C("LogisticUCB", pol.LogisticUCB, dict(dim=2, n_actions=3), dict(dim=POSINT, n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT, epsilon=[-0.1, "x", None], alpha_=[0.0, -1.0, "x", None], lambda_=[0.0, -1.0, "x", None]))
C("LogisticTS", pol.LogisticTS, dict(dim=2, n_actions=3), dict(dim=POSINT, n_actions=POSINT + [1], len_list=POSINT + [4], batch_size=POSINT, alpha_=[0.0, -1.0, "x", None], lambda_=[0.0, -1.0, "x", None]))
NNBAD = dict(dim_context=POSINT, hidden_layer_size=[(-1,), (1.5,), "x", (0,)], solver=["foo", None], alpha=[-1.0, "x"], batch_size=[0, -1, "foo"], learning_rate_init=[0.0, -1.0, "x"],
             max_iter=POSINT, shuffle=["x", 1], tol=[0.0, -1.0, "x"], momentum=[-0.1, 1.1, "x"], nesterovs_momentum=["x", 1], early_stopping=["x", 1], validation_fraction=[0.0, -0.1, 1.1, "x"],
             beta_1=[-0.1, 1.1, "x"], beta_2=[-0.1, 1.1, "x"], epsilon=[-1.0, "x"], n_iter_no_change=POSINT)
C("NNPolicyLearner", pol.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective="ipw"), dict(NNBAD, n_actions=POSINT + [1], len_list=POSINT + [4], off_policy_objective=["foo", None], policy_reg_param=[-1.0, "x"], var_reg_param=[-1.0, "x"], activation=["foo", None]))
C("NNPolicyLearner-sg", pol.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective="ipw-subgauss", lambda_=0.5), dict(lambda_=[-1.0, 1.5, "x"]))
C("NNPolicyLearner-os", pol.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective="ipw-os", lambda_=0.5), dict(lambda_=[-1.0, "x"]))
C("ContinuousNNPolicyLearner", pol.ContinuousNNPolicyLearner, dict(dim_context=2, pg_method="ipw", bandwidth=0.5), dict(NNBAD, pg_method=["foo", None], bandwidth=[0.0, -1.0, "x", None], output_space=[("a", 1), ], activation=["foo", None]))
C("SyntheticBanditDataset", ds.SyntheticBanditDataset, dict(n_actions=3, random_state=1), dict(n_actions=POSINT + [1], dim_context=POSINT, beta=["x", None], n_deficient_actions=[-1, 3, 1.5, "x"], reward_type=STRBAD, reward_std=[-0.1, "x", None], random_state=[None], action_context=[np.ones((2, 2)), np.ones(3), "x"]))
C("SyntheticMultiLoggersBanditDataset", ds.SyntheticMultiLoggersBanditDataset, dict(n_actions=3, betas=[1, -1], rhos=[0.5, 0.5], random_state=1), dict(n_actions=POSINT + [1], dim_context=POSINT, betas=["x", None, [1], [1, "x"], (1, 2), [1, 2, 3]], rhos=["x", None, [1], [1, "x"], (1, 2), [0.5, -0.5]], n_deficient_actions=[-1, 3, 1.5, "x"], reward_type=STRBAD, reward_std=[-0.1, "x", None], random_state=[None], action_context=[np.ones((2, 2)), np.ones(3), "x"]))
C("SyntheticBanditDatasetWithActionEmbeds", ds.SyntheticBanditDatasetWithActionEmbeds, dict(n_actions=3, n_cat_dim=2, random_state=1), dict(n_actions=POSINT + [1], n_cat_per_dim=POSINT, latent_param_mat_dim=POSINT, n_cat_dim=POSINT, p_e_a_param_std=[-1, "x", None], n_unobserved_cat_dim=[-1, 3, "x", None], n_irrelevant_cat_dim=[-1, 3, "x", None]))
C("SyntheticSlateBanditDataset", ds.SyntheticSlateBanditDataset, dict(n_unique_action=4, len_list=2, random_state=1), dict(n_unique_action=POSINT + [1], len_list=POSINT + [1, 5], dim_context=POSINT, reward_type=STRBAD, reward_structure=STRBAD, decay_function=STRBAD, click_model=["foo", 3]))
C("SyntheticSlateBanditDataset-click", ds.SyntheticSlateBanditDataset, dict(n_unique_action=4, len_list=2, random_state=1, click_model="pbm"), dict(eta=[-0.1, "x", None], reward_type=["continuous"]))
C("SyntheticContinuousBanditDataset-range", ds.SyntheticContinuousBanditDataset, dict(dim_context=2, min_action_value=-1, max_action_value=2, random_state=1), dict(min_action_value=[2, 3.0], max_action_value=[-1, -1.5]))
C("SyntheticContinuousBanditDataset", ds.SyntheticContinuousBanditDataset, dict(dim_context=2, random_state=1), dict(dim_context=POSINT, action_noise=[-1, "x", None], reward_noise=[-1, "x", None], min_action_value=["x", None], max_action_value=["x", None], random_state=[None]))
_X = np.arange(24).reshape(12, 2)
_Y = np.arange(12) % 3
C("MultiClassToBanditReduction", ds.MultiClassToBanditReduction, dict(X=_X, y=_Y, base_classifier_b=LogisticRegression(), alpha_b=0.5), dict(base_classifier_b=[Ridge(), "x"], alpha_b=[1.0, 1.5, -0.1, "x", None], n_deficient_actions=[-1, 3, "x", 1.5], y=[_Y[:-1], np.c_[_Y, _Y]], X=[_X[:, 0], _X[:-1]]))
C("BanditEnvironmentSimulator", BanditEnvironmentSimulator, dict(n_actions=3, dim_context=2, random_state=1), dict(n_actions=POSINT + [1], dim_context=POSINT, random_state=[None, "x"], action_context=["x", np.eye(2), np.arange(3), np.eye(3).tolist(), np.eye(4)]))
C("ExponentialDelaySampler", ExponentialDelaySampler, dict(random_state=1), dict(random_state=[None, "x"]))
C("CoefficientDrifter", CoefficientDrifter, dict(drift_interval=3, random_state=1), dict(random_state=[None, "x"]))


def ctor_case():
    return fx(i=st.integers(0, len(ctors) - 1))


_seen = {}


def run_ctor(case, ctx):
    """constructors reject every out-of-range or ill-typed hyper-parameter of the table"""
    name, make, good, p, v = ctors[case["i"]]
    if name not in _seen:
        make(**good)
        _seen[name] = True
    ctx.label(name)
    ctx.nontriv()
    ctx.raises(BAD, lambda: make(**dict(good, **{p: v})), "%s(%s=%r)" % (name, p, v))


# ---------------------------------------------------------------- learners
def fit_case():
    return fx(
        which=st.sampled_from(["reg-fit", "reg-fit-iw", "reg-fit_predict", "ipw", "q", "pse", "iwe", "ipw-predict", "q-predict", "meta"]), n=gen.some(16, 30, 150), A=st.integers(2, 4),
        L=st.integers(1, 2), seed=SEED, pick=st.integers(0, 10**6),
    )


def run_fit(case, ctx):
    """regression model, classification models and offline learners reject malformed logged data"""
    r = gen.rng(case)
    n, A, L = case["n"], min(case["A"], 4), case["L"]
    w = case["which"]
    folds = w in ("pse", "iwe") and case["pick"] % 3 == 2
    if folds:  # every class in every position of every (calibration) fold
        n = max(n, 40 * A * L)
    x = r.normal(size=(n, 2))
    a = np.concatenate([np.arange(A)] * (n // A + 1))[:n]
    pos = np.repeat(np.arange(L), (n + L - 1) // L)[:n]
    rew = np.concatenate([[0, 1, 0, 1] * n])[:n][r.permutation(n)].astype(float)
    ps = r.uniform(0.1, 1, n)
    ad = np.stack([gen.dist_rows(r, n, A, "generic") for _ in range(L)], 2)
    i = r.randint(n)
    kw = dict(context=x)
    M = {}

    def add(key, name, fn):
        M[key + ":" + name] = (key, fn)

    def arr1(k):
        v = kw[k]
        add(k, "list", lambda: v.tolist())
        add(k, "2d", lambda: v.reshape(-1, 1))
        add(k, "short", lambda: v[:-1])
        add(k, "long", lambda: np.concatenate([v, v[-1:]]))

    def folded(m):
        """fit, fit_predict or fit_predict with cross-fitting"""
        if folds:
            kw.update(n_folds=2)
            for nm, v in (("zero", 0), ("float", 2.5), ("none", None), ("text", "2")):
                add("n_folds", nm, lambda v=v: v)
        return m.fit_predict if case["pick"] % 3 else m.fit

    add("context", "1d", lambda: x[:, 0])
    add("context", "list", lambda: x.tolist())
    if w.endswith("-predict"):
        if w == "ipw-predict":
            m = pol.IPWLearner(n_actions=A, len_list=L)
        else:
            m = pol.QLearner(n_actions=A, len_list=L, base_model=Ridge())
        m.fit(context=x, action=a, reward=rew + 0.5, position=pos, pscore=ps)
        call = m.predict
    else:
        kw.update(action=a, reward=rew, position=pos)
        arr1("action")
        arr1("reward")
        arr1("position")
        add("context", "short", lambda: x[:-1])
        add("action", "negative", lambda: put(a, i, -1))
        add("action", "float", lambda: a.astype(float))
        if w not in ("ipw", "q"):  # offline learners do not use position with len_list=1
            add("position", "negative", lambda: put(pos, i, -1))
            add("position", "float", lambda: pos.astype(float))
        if w in ("ipw", "q") and L == 1:
            M = {k: v for k, v in M.items() if v[0] != "position"}
        if w in ("reg-fit", "reg-fit-iw", "reg-fit_predict", "ipw", "q"):
            kw.update(pscore=ps)
            arr1("pscore")
            add("pscore", "zero", lambda: put(ps, i, 0.0))
            add("pscore", "negative", lambda: put(ps, i, -0.5))
        if w.startswith("reg"):
            m = ope.RegressionModel(base_model=Ridge(), n_actions=A, len_list=L, fitting_method="iw" if w == "reg-fit-iw" else "normal")
            add("action", "too-large", lambda: put(a, i, A))
            add("position", "too-large", lambda: put(pos, i, L)) if L > 1 else None
            if L > 1:
                add("position", "none", lambda: None)
        if w == "reg-fit-iw":
            kw.update(action_dist=ad)
            add("action_dist", "none", lambda: None)
            add("action_dist", "2d", lambda: ad[:, :, 0])
            add("action_dist", "short", lambda: ad[:-1])
            add("action_dist", "fewer-actions", lambda: ad[:, :-1])
            add("action_dist", "unnormalised", lambda: put(ad, (i, 0, 0), ad[i, 0, 0] + 0.01))
            add("action_dist", "list", lambda: ad.tolist())
        if w == "reg-fit_predict":
            kw.update(n_folds=2)
            add("n_folds", "zero", lambda: 0)
            add("n_folds", "float", lambda: 2.5)
            add("n_folds", "none", lambda: None)
            call = m.fit_predict
        elif w.startswith("reg"):
            call = m.fit
        elif w == "ipw":
            call = pol.IPWLearner(n_actions=A, len_list=L).fit
            add("reward", "negative", lambda: put(rew, i, -1.0))
            if L > 1:
                add("position", "none", lambda: None)
        elif w == "q":
            call = pol.QLearner(n_actions=A, len_list=L, base_model=Ridge()).fit
            if L > 1:
                add("position", "none", lambda: None)
        elif w == "pse":
            m = ope.PropensityScoreEstimator(base_model=LogisticRegression(), n_actions=A, len_list=L)
            del kw["reward"]
            M = {k: v for k, v in M.items() if v[0] != "reward"}
            add("position", "too-large", lambda: put(pos, i, L)) if L > 1 else None
            add("action", "too-large", lambda: put(a, i, A))
            if L > 1:
                add("position", "none", lambda: None)
            call = folded(m)
        elif w == "iwe":
            m = ope.ImportanceWeightEstimator(base_model=LogisticRegression(), n_actions=A, len_list=L)
            del kw["reward"]
            kw.update(action_dist=ad)
            M = {k: v for k, v in M.items() if v[0] != "reward"}
            add("position", "too-large", lambda: put(pos, i, L)) if L > 1 else None
            add("action_dist", "2d", lambda: ad[:, :, 0])
            add("action_dist", "short", lambda: ad[:-1])
            add("action_dist", "fewer-actions", lambda: ad[:, :-1])
            add("action_dist", "unnormalised", lambda: put(ad, (i, 0, 0), ad[i, 0, 0] + 0.01))
            add("action_dist", "list", lambda: ad.tolist())
            add("action_dist", "none", lambda: None)
            add("action", "too-large", lambda: put(a, i, A))
            if L > 1:
                add("position", "none", lambda: None)
            call = folded(m)
        elif w == "meta":
            bf = dict(context=x, action=a, reward=rew, pscore=ps, position=pos)
            o = ope.OffPolicyEvaluation(bandit_feedback=bf, ope_estimators=[ope.DirectMethod(), ope.DoublyRobust(), ope.InverseProbabilityWeighting()])
            kw = dict(action_dist=ad, estimated_rewards_by_reg_model=r.normal(size=ad.shape))
            q = kw["estimated_rewards_by_reg_model"]
            M = {}
            add("estimated_rewards_by_reg_model", "none", lambda: None)
            add("estimated_rewards_by_reg_model", "short", lambda: q[:-1])
            add("estimated_rewards_by_reg_model", "fewer-actions", lambda: q[:, :-1])
            add("estimated_rewards_by_reg_model", "dict-bad", lambda: dict(dm=q, dr=q[:, :-1]))
            add("action_dist", "2d", lambda: ad[:, :, 0])
            add("action_dist", "short", lambda: ad[:-1])
            add("action_dist", "unnormalised", lambda: put(ad, (i, 0, 0), ad[i, 0, 0] + 0.01))
            call = o.estimate_policy_values
    call(**kw)
    ctx.label(w)
    ctx.nontriv()
    for mname in rotated(M, case["pick"]):
        key, fn = M[mname]
        bad = dict(kw, **{key: fn()})
        ctx.raises(BAD, lambda: call(**bad), "%s (%s) with malformed %s" % (w, call.__name__, mname))


# ---------------------------------------------------------------- data sets, neural learners, slate reward models
def calls(which, r):
    """(callable, valid arguments, {argument: {name: malformed value}})"""
    n, A, L, d = r.randint(3, 9), r.randint(2, 5), 2, 2
    x, a, rew, ps = r.normal(size=(n, d)), r.randint(A, size=n), r.rand(n), r.uniform(0.2, 1.0, n)
    i, j = r.randint(n), r.randint(A)
    two = lambda v: {"1d": v[:, 0], "3d": v[:, :, None], "list": v.tolist(), "short": v[:-1], "long": np.concatenate([v, v[-1:]]), "none": None}
    one = lambda v: {"2d": v[:, None], "list": v.tolist(), "short": v[:-1], "long": np.concatenate([v, v[-1:]]), "single": v[:1], "none": None}
    drop = lambda m, *names: {k: v for k, v in m.items() if k not in names}
    rounds = dict(n_rounds={"zero": 0, "negative": -1, "float": 2.0, "text": "3", "none": None})
    other = np.c_[x, x[:, :1]]
    if which == "synthetic-batch":
        return ds.SyntheticBanditDataset(n_actions=A, dim_context=d, random_state=1).obtain_batch_bandit_feedback, dict(n_rounds=n), rounds
    if which == "embed-batch":
        return ds.SyntheticBanditDatasetWithActionEmbeds(n_actions=A, dim_context=d, n_cat_per_dim=2, n_cat_dim=2, latent_param_mat_dim=2, random_state=1).obtain_batch_bandit_feedback, dict(n_rounds=n), rounds
    if which == "multi-batch":
        return ds.SyntheticMultiLoggersBanditDataset(n_actions=A, dim_context=d, betas=[1, -1], rhos=[0.5, 0.5], random_state=1).obtain_batch_bandit_feedback, dict(n_rounds=n), rounds
    if which == "continuous-batch":
        return ds.SyntheticContinuousBanditDataset(dim_context=d, random_state=1).obtain_batch_bandit_feedback, dict(n_rounds=n), rounds
    if which == "slate-batch":
        o = ds.SyntheticSlateBanditDataset(n_unique_action=A + 1, len_list=L, dim_context=d, random_state=1)
        return o.obtain_batch_bandit_feedback, dict(n_rounds=n), rounds
    if which == "synthetic-value":
        er, ad = r.rand(n, A), np.full((n, A, 1), 1.0 / A)
        return ds.SyntheticBanditDataset(n_actions=A, dim_context=d, random_state=1).calc_ground_truth_policy_value, dict(expected_reward=er, action_dist=ad), dict(
            expected_reward=dict(two(er), fewer=er[:, :-1]), action_dist={"2d": ad[:, :, 0], "list": ad.tolist(), "short": ad[:-1], "fewer": ad[:, :-1], "none": None})
    if which == "synthetic-reward":
        return ds.SyntheticBanditDataset(n_actions=A, dim_context=d, reward_function=ds.logistic_reward_function, random_state=1).sample_reward, dict(context=x, action=a), dict(context=two(x), action=dict(one(a), float=a.astype(float)))
    if which == "continuous-value":
        o = ds.SyntheticContinuousBanditDataset(dim_context=d, min_action_value=-1.0, max_action_value=2.0, reward_function=ds.linear_reward_funcion_continuous, random_state=1)
        b = r.uniform(-1, 2, n)
        return o.calc_ground_truth_policy_value, dict(context=x, action=b), dict(context=dict(two(x), wider=other), action=one(b))
    if which == "slate-value":
        o = ds.SyntheticSlateBanditDataset(n_unique_action=A + 1, len_list=L, dim_context=d, random_state=1, base_reward_function=ds.logistic_reward_function)
        lg = r.normal(size=(n, A + 1))
        return o.calc_ground_truth_policy_value, dict(context=x, evaluation_policy_logit_=lg), dict(context=dict(two(x), wider=other), evaluation_policy_logit_=dict(two(lg), fewer=lg[:, :-1]))
    if which in ("slate-pscore", "slate-dist"):
        o = ds.SyntheticSlateBanditDataset(n_unique_action=A + 1, len_list=L, dim_context=d, random_state=1)
        lg = r.normal(size=(n, A + 1))
        act = np.concatenate([r.permutation(A + 1)[:L] for _ in range(n)])
        bad = dict(action=drop(one(act), "2d"), evaluation_policy_logit_=dict(two(lg), fewer=lg[:, :-1]))
        bad["action"]["2d"] = act.reshape(n, L)
        return (o.obtain_pscore_given_evaluation_policy_logit if which == "slate-pscore" else o.calc_evaluation_policy_action_dist), dict(action=act, evaluation_policy_logit_=lg), bad
    if which == "slate-policy":
        o = ds.SyntheticSlateBanditDataset(n_unique_action=A + 1, len_list=L, dim_context=d, random_state=1, base_reward_function=ds.logistic_reward_function)
        act = np.concatenate([r.permutation(A + 1)[:L] for _ in range(n)])
        return o.generate_evaluation_policy_pscore, dict(evaluation_policy_type=["optimal", "anti-optimal"][r.randint(2)], context=x, action=act, epsilon=0.3), dict(
            evaluation_policy_type=dict(other="best", none=None), context=drop(two(x), "none"), action=dict(one(act), duplicate=put(act, 1, act[0])), epsilon=dict(negative=-0.1, large=1.1, text="0.1", none=None))
    if which == "slate-onpolicy":
        o = ds.SyntheticSlateBanditDataset(n_unique_action=A + 1, len_list=L, dim_context=d, random_state=1)
        return o.calc_on_policy_policy_value, dict(reward=rew, slate_id=np.arange(n)), dict(reward=one(rew), slate_id=one(np.arange(n)))
    if which == "multiclass":
        y = r.permutation(np.repeat(np.arange(A), 8))
        o = ds.MultiClassToBanditReduction(X=r.normal(size=(len(y), d)), y=y, base_classifier_b=LogisticRegression(), alpha_b=0.5)
        o.split_train_eval(eval_size=0.5, random_state=1)
        if r.randint(2):
            return o.obtain_action_dist_by_eval_policy, dict(alpha_e=0.5), dict(alpha_e=dict(negative=-0.1, large=1.1, text="x", none=None))
        ad = np.full((o.n_rounds_ev, A, 1), 1.0 / A)
        return o.calc_ground_truth_policy_value, dict(action_dist=ad), dict(action_dist={"2d": ad[:, :, 0], "list": ad.tolist(), "short": ad[:-1], "single": ad[:1], "none": None})
    if which == "reward-function":
        f = [ds.logistic_reward_function, ds.linear_reward_function, ds.polynomial_reward_function, ds.linear_behavior_policy, ds.polynomial_behavior_policy][r.randint(5)]
        ac = r.normal(size=(A, 2))
        shape = lambda v: {"1d": v[:, 0], "3d": v[:, :, None], "list": v.tolist(), "none": None}
        return f, dict(context=x, action_context=ac, random_state=3), dict(context=shape(x), action_context=shape(ac))
    if which in ("nn", "nn-use"):
        o = pol.NNPolicyLearner(n_actions=A, dim_context=d, off_policy_objective=["ipw", "dr", "dm"][r.randint(3)], hidden_layer_size=(2,), max_iter=1, random_state=1)
        kw = dict(context=x, action=a, reward=rew, pscore=ps)
        if which == "nn":
            return o.fit, kw, dict(context=dict(two(x), wider=other), action=dict(one(a), negative=put(a, i, -1), float=a.astype(float)), reward=one(rew), pscore=dict(drop(one(ps), "none"), zero=put(ps, i, 0.0), negative=put(ps, i, -0.1)))
        o.fit(**kw)
        k = r.randint(3)
        bad = dict(context=dict(drop(two(x), "short", "long"), wider=other))
        if k == 2:
            bad["tau"] = dict(negative=-1.0, text="x", none=None)
        return (o.predict, o.predict_proba, o.sample_action)[k], dict(context=x, **(dict(tau=1.0) if k == 2 else {})), bad
    if which in ("cnn", "cnn-use"):
        o = pol.ContinuousNNPolicyLearner(dim_context=d, pg_method=["ipw", "dr", "dpg"][r.randint(3)], bandwidth=0.5, hidden_layer_size=(2,), max_iter=1, random_state=1)
        b = r.normal(size=n)
        kw = dict(context=x, action=b, reward=rew, pscore=ps)
        if which == "cnn":
            return o.fit, kw, dict(context=dict(two(x), wider=other), action=one(b), reward=one(rew), pscore=dict(drop(one(ps), "none"), zero=put(ps, i, 0.0), negative=put(ps, i, -0.1)))
        o.fit(**kw)
        return o.predict, dict(context=x), dict(context=dict(drop(two(x), "short", "long"), wider=other))
    if which == "learner-use":
        o = pol.QLearner(n_actions=A, base_model=Ridge()) if r.randint(2) else pol.IPWLearner(n_actions=A, base_classifier=TabularClassifier())
        o.fit(context=x, action=a, reward=rew + 0.5, pscore=ps)
        k = r.randint(4)
        bad = dict(context=drop(two(x), "short", "long"))
        if k in (1, 2):
            bad["tau"] = dict(negative=-1.0, text="x", none=None)
        return (o.predict, o.predict_proba, o.sample_action, o.predict_score)[k], dict(context=x, **(dict(tau=1.0) if k in (1, 2) else {})), bad
    if which in ("replay", "replay-value"):
        pos = r.randint(L, size=n)
        er = r.rand(n, A)
        policies = [pol.EpsilonGreedy(n_actions=max(A, L), len_list=L, epsilon=0.5, random_state=1), pol.LinUCB(dim=d, n_actions=max(A, L), len_list=L, random_state=1), pol.LogisticTS(dim=d, n_actions=max(A, L), len_list=L, random_state=1)]
        p = policies[r.randint(3)]
        kw = dict(context=x, action=a, reward=rew.round(), position=pos)
        bad = dict(context=dict(drop(two(x), "3d")), action=dict(one(a), negative=put(a, i, -1), float=a.astype(float)), reward=one(rew), position=dict(drop(one(pos), "none"), negative=put(pos, i, -1), float=pos.astype(float)))
        if which == "replay":
            kw["pscore"] = ps
            bad["pscore"] = dict(drop(one(ps), "none"), zero=put(ps, i, 0.0), negative=put(ps, i, -0.1))
            return (lambda **k: run_bandit_replay(bandit_feedback=dict(k, n_rounds=n, n_actions=A), policy=p)), kw, bad
        kw["expected_reward"] = er
        bad["expected_reward"] = drop(two(er), "none")
        return (lambda **k: calc_ground_truth_policy_value(bandit_feedback=dict(k, n_rounds=n, n_actions=A), reward_sampler=lambda c, e: float(np.mean(e)), policy=p, n_sim=1)), kw, bad
    if which == "simulator-rounds":
        return BanditEnvironmentSimulator(n_actions=A, dim_context=d, random_state=1).next_bandit_round_batch, dict(n_rounds=n), rounds
    if which == "slate-model":
        o = ope.SlateRegressionModel(base_model=Ridge(), len_list=L, n_unique_action=A, fitting_method=["normal", "iw"][r.randint(2)])
        N = n * L
        act, rw = r.randint(A, size=N), r.rand(N)
        pc, ec = np.full(N, 0.5), np.full(N, 0.25)
        ed = np.full(N * A, 1.0 / A)
        unit = lambda v: dict(drop(one(v), "2d"), zero=put(v, i, 0.0), large=put(v, i, 1.5), matrix=v.reshape(n, L))
        return [o.fit, o.fit_predict][r.randint(2)], dict(context=x, action=act, reward=rw, pscore_cascade=pc, evaluation_policy_pscore_cascade=ec, evaluation_policy_action_dist=ed), dict(
            context=two(x), action=dict(one(act), negative=put(act, i, -1), large=put(act, i, A), float=act.astype(float)), reward=one(rw), pscore_cascade=unit(pc), evaluation_policy_pscore_cascade=unit(ec),
            evaluation_policy_action_dist=dict(one(ed), unnormalised=put(ed, i, ed[i] + 0.1), matrix=ed.reshape(N, A)))
    raise AssertionError(which)


CALLS = [
    "synthetic-batch", "embed-batch", "multi-batch", "continuous-batch", "slate-batch", "synthetic-value", "synthetic-reward", "continuous-value", "slate-value", "slate-pscore", "slate-dist", "slate-policy", "slate-onpolicy", "multiclass",
    "reward-function", "nn", "nn-use", "cnn", "cnn-use", "learner-use", "slate-model", "replay", "replay-value", "simulator-rounds",
]


def run_calls(case, ctx):
    """data sets, reward functions, neural learners and slate reward models reject malformed arguments"""
    r = gen.rng(case)
    call, kw, bad = calls(case["which"], r)
    call(**kw)
    ctx.label(case["which"])
    ctx.nontriv()
    for k, m in rotated([(k, m) for k in bad for m in bad[k]], case["pick"]):
        ctx.raises(BAD, lambda: call(**dict(kw, **{k: bad[k][m]})), "%s (%s) with malformed %s: %s" % (case["which"], getattr(call, "__name__", "call"), k, m))


SUBS = [
    Sub("ope-inputs", ope_case(), run_ope, 600, 12000, budget=(60, 700)),
    Sub("ope-inputs-2", ope_case(), run_ope, 600, 12000, budget=(60, 700)),
    Sub("interval-args", ci_case(), run_ci, 300, 3000, budget=(40, 300)),
    Sub("constructors", ctor_case(), run_ctor, 1500, 6000, budget=(60, 300), examples=[dict(i=i) for i in range(len(ctors))]),
    Sub("calls", fx(which=st.sampled_from(CALLS), seed=SEED, pick=st.integers(0, 10**6)), run_calls, 600, 9000, budget=(60, 500)),
    Sub("learner-inputs", fit_case(), run_fit, 300, 5000, budget=(60, 700)),
]

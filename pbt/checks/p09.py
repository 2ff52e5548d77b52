"""P09: the OPE front-ends report exactly what each estimator computes on its own inputs."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fmean, fx

import obp.ope as ope

PROPERTY = "P09"
RULE = (
    "Random subsets of estimators (custom names, tuned ones included) with random logged data, model inputs given as one array or as "
    "per-estimator dictionaries, position present or None. Oracle: calling each estimator directly with the inputs meant for it. "
    "Non-trivial: two estimators or more, at least one per-estimator dictionary or model-based estimator."
)

NAMES = ["dm", "ipw", "snipw", "dr", "sndr", "switch-dr", "dr-os", "b-ipw", "sg-ipw", "rm", "mipw", "mipw-exact", "snmipw-greedy", "sg-dr", "ipw-tuned", "dr-tuned", "ipw-2", "snipw-2", "dr-2"]


def make_std(k, A, e):
    return {
        "dm": lambda: ope.DirectMethod(),
        "ipw": lambda: ope.InverseProbabilityWeighting(lambda_=2.0, use_estimated_pscore=e),
        "ipw-2": lambda: ope.InverseProbabilityWeighting(lambda_=0.6, use_estimated_pscore=e, estimator_name="ipw-2"),
        "snipw-2": lambda: ope.SelfNormalizedInverseProbabilityWeighting(lambda_=0.9, use_estimated_pscore=e, estimator_name="snipw-2"),
        "dr-2": lambda: ope.DoublyRobust(lambda_=0.7, use_estimated_pscore=e, estimator_name="dr-2"),
        "snipw": lambda: ope.SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=e),
        "dr": lambda: ope.DoublyRobust(use_estimated_pscore=e),
        "sndr": lambda: ope.SelfNormalizedDoublyRobust(use_estimated_pscore=e),
        "switch-dr": lambda: ope.SwitchDoublyRobust(lambda_=1.0, use_estimated_pscore=e),
        "dr-os": lambda: ope.DoublyRobustWithShrinkage(lambda_=3.0, use_estimated_pscore=e),
        "b-ipw": lambda: ope.BalancedInverseProbabilityWeighting(),
        "sg-ipw": lambda: ope.SubGaussianInverseProbabilityWeighting(lambda_=0.2, use_estimated_pscore=e),
        "rm": lambda: ope.ReplayMethod(),
        "mipw": lambda: ope.MarginalizedInverseProbabilityWeighting(n_actions=A),
        "mipw-exact": lambda: ope.MarginalizedInverseProbabilityWeighting(n_actions=A, embedding_selection_method="exact", delta=0.5),
        "snmipw-greedy": lambda: ope.SelfNormalizedMarginalizedInverseProbabilityWeighting(n_actions=A, embedding_selection_method="greedy", delta=0.5),
        "sg-dr": lambda: ope.SubGaussianDoublyRobust(lambda_=0.3, use_estimated_pscore=e),
        "ipw-tuned": lambda: ope.InverseProbabilityWeightingTuning(lambdas=[0.5, 2.0, 10.0], tuning_method="mse", use_estimated_pscore=e, estimator_name="ipw-tuned"),
        "dr-tuned": lambda: ope.DoublyRobustTuning(lambdas=[0.5, 2.0, 10.0], tuning_method="mse", use_estimated_pscore=e, estimator_name="dr-tuned"),
    }[k]()


def named(x, name):
    x.estimator_name = name
    return x


def _same(ctx, got, want, what):
    g, w = float(got), float(want)
    ctx.check(g == w or (np.isnan(g) and np.isnan(w)) or abs(g - w) <= 1e-12 * max(1.0, abs(w)), "%s: got %r, the estimator itself gives %r", what, g, w)


def compare(ctx, case, meta, direct, eval_kw, behavior_value, reward_mean_positive):
    """meta: front-end object; direct: {name: (factory, kwargs)} independent estimators and inputs"""
    alpha, B, rs = case["alpha"], case["B"], case["rs"]
    ikw = dict(alpha=alpha, n_bootstrap_samples=B, random_state=rs)
    value = {k: f().estimate_policy_value(**kw) for k, (f, kw) in direct.items()}
    inter = {k: f().estimate_interval(**kw, **ikw) for k, (f, kw) in direct.items()}
    got = meta.estimate_policy_values(**eval_kw)
    ctx.check(set(got) == set(value), "estimate_policy_values keys %s, expected %s" % (sorted(got), sorted(value)))
    for k in value:
        _same(ctx, got[k], value[k], "estimate_policy_values[%s]" % k)
    got = meta.estimate_intervals(**eval_kw, **ikw)
    ctx.check(set(got) == set(value), "estimate_intervals keys %s" % sorted(got))
    for k in value:
        ctx.check(set(got[k]) == set(inter[k]), "estimate_intervals[%s] keys %s" % (k, sorted(got[k])))
        for b in inter[k]:
            _same(ctx, got[k][b], inter[k][b], "estimate_intervals[%s][%s]" % (k, b))
    if case["dflt"]:
        d = dict(alpha=0.05, n_bootstrap_samples=100, random_state=rs)  # the documented defaults
        got = meta.estimate_intervals(**eval_kw, random_state=rs)
        _, got2 = meta.summarize_off_policy_estimates(**eval_kw, random_state=rs)
        for k, (f, kw) in direct.items():
            for b, v in f().estimate_interval(**kw, **d).items():
                ctx.check(b in got[k] and b in got2.columns, "the default interval of %s has no entry %s", k, b)
                _same(ctx, got[k][b], v, "estimate_intervals[%s][%s] with default level and sample count" % (k, b))
                _same(ctx, got2.loc[k, b], v, "summary interval[%s][%s] with default level and sample count" % (k, b))
    df, idf = meta.summarize_off_policy_estimates(**eval_kw, **ikw)
    ctx.check(list(df.index) == list(value) and list(df.columns) == ["estimated_policy_value", "relative_estimated_policy_value"], "summary table layout %s %s" % (list(df.index), list(df.columns)))
    for k in value:
        _same(ctx, df.loc[k, "estimated_policy_value"], value[k], "summary value[%s]" % k)
        rel = float(df.loc[k, "relative_estimated_policy_value"])
        if behavior_value > 0:
            _same(ctx, rel, float(value[k]) / behavior_value, "summary relative value[%s]" % k)
        else:
            ctx.check(np.isnan(rel), "relative value must be nan when the behavior value is <= 0, got %r" % rel)
        for b in inter[k]:
            _same(ctx, idf.loc[k, b], inter[k][b], "summary interval[%s][%s]" % (k, b))
    gt = case["gt"]
    for metric in ("se", "relative-ee"):
        if metric == "relative-ee" and gt == 0.0:
            ctx.raises(ValueError, lambda: meta.evaluate_performance_of_estimators(ground_truth_policy_value=gt, metric=metric, **eval_kw), "relative-ee with ground truth 0")
            continue
        want = {k: (float(v) - gt) ** 2 if metric == "se" else abs((float(v) - gt) / gt) for k, v in value.items()}
        got = meta.evaluate_performance_of_estimators(ground_truth_policy_value=gt, metric=metric, **eval_kw)
        ctx.check(set(got) == set(want), "evaluate_performance keys %s" % sorted(got))
        for k in want:
            ctx.close(got[k], want[k], "%s[%s]" % (metric, k), rtol=1e-9, scale=abs(want[k]) + 1e-300)
        cdf = meta.summarize_estimators_comparison(ground_truth_policy_value=gt, metric=metric, **eval_kw)
        for k in want:
            ctx.close(cdf.loc[k, metric], want[k], "comparison table %s[%s]" % (metric, k), rtol=1e-9, scale=abs(want[k]) + 1e-300)
    return value


def pick(mode, names, make, r):
    """model input as an array for everyone ('one') or a dict with a different array per estimator ('per')"""
    if mode == "mixed":
        mode = "one" if r.rand() < 0.5 else "per"
    if mode == "one":
        v = make()
        return v, {k: v for k in names}
    dd = {k: make() for k in names}
    order = [names[i] for i in r.permutation(len(names))]
    return {k: dd[k] for k in order}, dd


def flags(case, names, r):
    """use_estimated_pscore of each estimator: all, none, or a random subset"""
    return {k: bool(r.rand() < 0.5) if case["est_ps"] == "some" else bool(case["est_ps"]) for k in names}


def without(eval_kw, key, name):
    """the same inputs with the entry of one estimator missing from the dictionary `key`"""
    return dict(eval_kw, **{key: {k: v for k, v in eval_kw[key].items() if k != name}})


def missing_entries(ctx, meta, eval_kw, need):
    """an estimator never silently falls back to the model input meant for another one"""
    for key, names in need.items():
        if isinstance(eval_kw.get(key), dict) and len(eval_kw[key]) > 1:
            for name in names:
                ctx.label("missing entry")
                ctx.raises((ValueError, KeyError, TypeError), lambda: meta.estimate_policy_values(**without(eval_kw, key, name)), "no `%s` given for `%s`" % (key, name))


def warm(case, meta, eval_kw, keys, n=None):
    """the front-end has been used before, on another policy (tuned estimators cache by design and are left alone)"""
    if case["warm"] and not any("tuned" in e.estimator_name for e in meta.ope_estimators):
        meta.estimate_policy_values(**dict(eval_kw, **{k: eval_kw[k].reshape((n or len(eval_kw[k]), -1) + eval_kw[k].shape[1:])[::-1].reshape(eval_kw[k].shape) for k in keys}))


def build_std(case):
    r = gen.rng(case, 3)
    d = gen.logged(case)
    d.reward = d.reward * case.get("rscale", 1.0)
    names = list(dict.fromkeys(case["names"]))
    D, C = r.randint(1, 5), r.randint(2, 5)
    nopos = d.L == 1 and case["nopos"]
    pos = None if nopos else d.position
    fb = dict(action=d.action, position=pos, reward=d.reward, context=r.normal(size=(d.n, 2)), pscore=d.pscore)
    eval_kw = dict(action_dist=d.action_dist)
    per = {k: dict(action=d.action, position=pos, reward=d.reward, context=fb["context"], pscore=d.pscore, action_dist=d.action_dist) for k in names}

    def add(key, make):
        v, dd = pick(case["mode"], names, make, r)
        eval_kw[key] = v
        for k in names:
            per[k][key] = dd[k]

    add("estimated_rewards_by_reg_model", lambda: r.normal(size=d.q.shape))
    add("estimated_pscore", lambda: r.uniform(0.05, 1, size=d.n))
    add("estimated_importance_weights", lambda: r.gamma(1.0, size=d.n) + 0.01)
    add("action_embed", lambda: r.randint(C, size=(d.n, D)))
    add("pi_b", lambda: np.stack([0.5 * gen.dist_rows(r, d.n, d.A, "generic") + 0.5 / d.A for _ in range(d.L)], 2))
    add("p_e_a", lambda: np.stack([0.5 * gen.dist_rows(r, d.A, C, "generic") + 0.5 / C for _ in range(D)], 2))
    e = flags(case, names, r)
    if all(e.values()) and case["nops"]:
        fb.pop("pscore")
        for k in names:
            per[k]["pscore"] = None
    direct = {k: ((lambda kk=k: make_std(kk, d.A, e[kk])), per[k]) for k in names}
    ests = [named(make_std(k, d.A, e[k]), k) for k in names]
    return d, fb, ests, direct, eval_kw


def run_std(case, ctx):
    """OffPolicyEvaluation: values, intervals, tables and error metrics"""
    d, fb, ests, direct, eval_kw = build_std(case)
    ctx.label("inputs:" + case["mode"])
    ctx.nontriv(len(ests) > 1)
    meta = ope.OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    warm(case, meta, eval_kw, ["action_dist"])
    compare(ctx, case, meta, direct, eval_kw, float(np.mean(d.reward)), None)
    model_based = {"dm", "dr", "dr-2", "sndr", "switch-dr", "dr-os", "sg-dr"} & set(direct)
    missing_entries(ctx, meta, eval_kw, {"estimated_rewards_by_reg_model": sorted(model_based), "estimated_importance_weights": [k for k in direct if k == "b-ipw"],
                                         "estimated_pscore": [e.estimator_name for e in ests if getattr(e, "use_estimated_pscore", False) and "tuned" not in e.estimator_name]})
    if model_based:
        kw = {k: v for k, v in eval_kw.items() if k != "estimated_rewards_by_reg_model"}
        ctx.raises(ValueError, lambda: meta.estimate_policy_values(**kw), "model-dependent estimators without estimated rewards")
    key = case["drop"]
    bad = {k: v for k, v in fb.items() if k != key}
    ctx.raises(RuntimeError, lambda: ope.OffPolicyEvaluation(bandit_feedback=bad, ope_estimators=ests), "bandit_feedback without %s" % key)


MNAMES = ["multi_ipw", "multi_bal_ipw", "multi_weighted_ipw", "multi_dr", "multi_bal_dr", "multi_weighted_dr"]
MCLS = dict(
    multi_ipw=ope.MultiLoggersNaiveInverseProbabilityWeighting, multi_bal_ipw=ope.MultiLoggersBalancedInverseProbabilityWeighting,
    multi_weighted_ipw=ope.MultiLoggersWeightedInverseProbabilityWeighting, multi_dr=ope.MultiLoggersNaiveDoublyRobust,
    multi_bal_dr=ope.MultiLoggersBalancedDoublyRobust, multi_weighted_dr=ope.MultiLoggersWeightedDoublyRobust,
)


def build_multi(case):
    r = gen.rng(case, 3)
    d = gen.logged(dict(case, n=max(case["n"], 6)))
    names = list(dict.fromkeys(case["names"]))
    strata = np.sort(r.randint(2, size=d.n))
    strata[:3], strata[-3:] = 0, 1
    reward = r.normal(size=d.n) * case.get("rscale", 1.0)  # continuous: stratum variances positive
    ad = np.stack([0.5 * gen.dist_rows(r, d.n, d.A, "generic") + 0.5 / d.A for _ in range(d.L)], 2)
    fb = dict(action=d.action, position=None if d.L == 1 and case["nopos"] else d.position, reward=reward, pscore=d.pscore, pscore_avg=gen.pscores(r, d.n, "generic"), stratum_idx=strata)
    eval_kw = dict(action_dist=ad)
    per = {k: dict(fb, action_dist=ad) for k in names}

    def add(key, make):
        v, dd = pick(case["mode"], names, make, r)
        eval_kw[key] = v
        for k in names:
            per[k][key] = dd[k]

    add("estimated_rewards_by_reg_model", lambda: r.normal(size=d.q.shape))
    add("estimated_pscore", lambda: r.uniform(0.05, 1, size=d.n))
    add("estimated_pscore_avg", lambda: r.uniform(0.05, 1, size=d.n))
    e = flags(case, names, r)
    mk = lambda k: MCLS[k.replace("2:", "")](lambda_=0.8 if k.startswith("2:") else 5.0, use_estimated_pscore=e[k], estimator_name=k)
    direct = {k: ((lambda kk=k: mk(kk)), per[k]) for k in names}
    return fb, [mk(k) for k in names], direct, eval_kw, float(np.mean(reward))


def run_multi(case, ctx):
    """MultiLoggersOffPolicyEvaluation"""
    fb, ests, direct, eval_kw, bv = build_multi(case)
    ctx.nontriv(len(ests) > 1)
    meta = ope.MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    warm(case, meta, eval_kw, ["action_dist"])
    compare(ctx, case, meta, direct, eval_kw, bv, None)
    bal = [x.estimator_name for x in ests if "bal" in x.estimator_name and x.use_estimated_pscore]
    missing_entries(ctx, meta, eval_kw, {"estimated_rewards_by_reg_model": [k for k in direct if "dr" in k], "estimated_pscore_avg": bal,
                                         "estimated_pscore": [x.estimator_name for x in ests if x.use_estimated_pscore and x.estimator_name not in bal]})


SCLS = dict(sips=ope.SlateStandardIPS, iips=ope.SlateIndependentIPS, rips=ope.SlateRewardInteractionIPS, snsips=ope.SelfNormalizedSlateStandardIPS,
            sniips=ope.SelfNormalizedSlateIndependentIPS, snrips=ope.SelfNormalizedSlateRewardInteractionIPS)


def build_slate(case):
    r = gen.rng(case)
    n, L, A = case["n"], case["L"], case["A"]
    N = n * L
    sc = case.get("rscale", 1.0)
    names = list(dict.fromkeys(case["names"]))
    fb = dict(slate_id=np.repeat(np.arange(n) * 2, L), position=np.tile(np.arange(L), n), action=r.randint(A, size=N), reward=gen.rewards(r, N, case["rk"]) * sc,
              context=r.normal(size=(n, 2)), pscore=np.repeat(r.uniform(0.1, 1, size=n), L), pscore_item_position=r.uniform(0.1, 1, size=N),
              pscore_cascade=np.cumprod(r.uniform(0.3, 1, size=(n, L)), 1).reshape(-1))
    eval_kw = dict(evaluation_policy_pscore=np.repeat(r.uniform(0.1, 1, size=n), L), evaluation_policy_pscore_item_position=r.uniform(0.1, 1, size=N),
                   evaluation_policy_pscore_cascade=np.cumprod(r.uniform(0.3, 1, size=(n, L)), 1).reshape(-1))
    if "cascade-dr" in names:
        eval_kw.update(evaluation_policy_action_dist=gen.dist_rows(r, N, A, "generic").reshape(-1), q_hat=r.normal(size=N * A))
    mk = lambda k: ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A, estimator_name=k) if k == "cascade-dr" else SCLS[k](len_list=L, estimator_name=k)
    full = dict({k: v for k, v in fb.items() if k != "context"}, **eval_kw)
    direct = {k: ((lambda kk=k: mk(kk)), full) for k in names}
    return fb, [mk(k) for k in names], direct, eval_kw, float(np.sum(fb["reward"])) / n


def run_slate(case, ctx):
    """SlateOffPolicyEvaluation"""
    fb, ests, direct, eval_kw, bv = build_slate(case)
    ctx.nontriv(len(ests) > 1)
    meta = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    warm(case, meta, eval_kw, list(eval_kw), case["n"])
    compare(ctx, case, meta, direct, eval_kw, bv, None)
    if "cascade-dr" in direct:
        ctx.raises(ValueError, lambda: meta.estimate_policy_values(**{k: v for k, v in eval_kw.items() if k != "q_hat"}), "cascade-DR without q_hat")


def build_cont(case):
    r = gen.rng(case)
    n = case["n"]
    names = list(dict.fromkeys(case["names"]))
    fb = dict(action=r.normal(size=n), reward=gen.rewards(r, n, case["rk"]) * case.get("rscale", 1.0), pscore=r.uniform(0.05, 2, size=n), context=r.normal(size=(n, 2)))
    b = r.normal(size=n)
    eval_kw = dict(action_by_evaluation_policy=b)
    v, dd = pick(case["mode"], names, lambda: r.normal(size=n), r)
    eval_kw["estimated_rewards_by_reg_model"] = v
    cls = dict(kernelized_ipw=ope.KernelizedInverseProbabilityWeighting, kernelized_snipw=ope.KernelizedSelfNormalizedInverseProbabilityWeighting, kernelized_dr=ope.KernelizedDoublyRobust)
    mk = lambda k: cls[k.replace("2:", "")](kernel=case["kernel"], bandwidth=case["h"] * (1.5 if k.startswith("2:") else 1.0), estimator_name=k)
    direct = {k: ((lambda kk=k: mk(kk)), dict(reward=fb["reward"], pscore=fb["pscore"], action_by_behavior_policy=fb["action"], action_by_evaluation_policy=b, estimated_rewards_by_reg_model=dd[k])) for k in names}
    return fb, [mk(k) for k in names], direct, eval_kw, float(np.mean(fb["reward"]))


def run_cont(case, ctx):
    """ContinuousOffPolicyEvaluation"""
    fb, ests, direct, eval_kw, bv = build_cont(case)
    ctx.nontriv(len(ests) > 1)
    meta = ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
    warm(case, meta, eval_kw, ["action_by_evaluation_policy"])
    compare(ctx, case, meta, direct, eval_kw, bv, None)
    missing_entries(ctx, meta, eval_kw, {"estimated_rewards_by_reg_model": [k for k in direct if "dr" in k]})
    if "kernelized_dr" in direct:
        ctx.raises(ValueError, lambda: meta.estimate_policy_values(action_by_evaluation_policy=eval_kw["action_by_evaluation_policy"]), "kernelized DR without estimated rewards")


def _bars(ax):
    return [p.get_height() for p in ax.patches]


def _errs(ax):
    """vertical extents of the error bars, left to right"""
    out = []
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if len(x) >= 2 and np.ptp(x) < 0.05:
            out.append((float(x[0]), float(np.nanmin(y)), float(np.nanmax(y))))
    for c in ax.collections:
        for seg in (c.get_segments() if hasattr(c, "get_segments") else []):
            if len(seg) >= 2 and np.ptp(seg[:, 0]) < 0.05:
                out.append((float(seg[0, 0]), float(seg[:, 1].min()), float(seg[:, 1].max())))
    return [v[1:] for v in sorted(out)]


def run_figures(case, ctx):
    """figures: bar heights are the estimates (divided by the behavior value when relative), one panel per estimator"""
    import matplotlib.pyplot as plt

    kind = case["kind"]
    tmp = Path(tempfile.mkdtemp(prefix="verif-p09-"))
    try:
        plt.close("all")
        kw2 = dict(alpha=case["alpha"], n_bootstrap_samples=case["B"], random_state=case["rs"], is_relative=case["rel"], fig_dir=tmp, fig_name="f.png")
        if kind == "slate":
            fb, ests, direct, eval_kw, bv = build_slate(dict(case, names=case["snames"], rk="real"))
            meta = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
        elif kind == "multi":
            fb, ests, direct, eval_kw, bv = build_multi(dict(case, names=case["mnames"], rk="real"))
            meta = ope.MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
        elif kind == "continuous":
            fb, ests, direct, eval_kw, bv = build_cont(dict(case, names=case["cnames"], rk="real", mode="one", kernel="gaussian", h=1.0))
            meta = ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
        else:
            d, fb, ests, direct, eval_kw = build_std(dict(case, names=case["names"], rk="real", mode="one"))
            bv = float(np.mean(d.reward))
            meta = ope.OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=ests)
        div = bv if case["rel"] else 1.0
        ctx.nontriv(len(ests) > 1)
        ctx.label(kind)
        value = {k: float(f().estimate_policy_value(**kw)) for k, (f, kw) in direct.items()}
        if kind == "slate":
            value = {k: float(f().estimate_interval(alpha=case["alpha"], n_bootstrap_samples=case["B"], random_state=case["rs"], **kw)["mean"]) for k, (f, kw) in direct.items()}
        meta.visualize_off_policy_estimates(**eval_kw, **kw2)
        ctx.check((tmp / "f.png").exists(), "figure file not written")
        ctx.close(_bars(plt.gcf().axes[0]), [v / div for v in value.values()], "bar heights of visualize_off_policy_estimates (%s)" % kind, rtol=1e-6)
        errs = _errs(plt.gcf().axes[0])
        ctx.check(len(errs) == len(value), "%d error bars for %d estimators", len(errs), len(value))
        if kind == "slate":
            for (lo, hi), (k, (f, kw)) in zip(errs, direct.items()):
                iv = sorted(float(v) / div for b, v in f().estimate_interval(alpha=case["alpha"], n_bootstrap_samples=case["B"], random_state=case["rs"], **kw).items() if b != "mean")
                ctx.close([lo, hi], iv, "error bar of %s" % k, rtol=1e-6)
        else:
            # the bootstrap draws depend on the seed alone, so a lower level gives an interval inside this one
            plt.close("all")
            meta.visualize_off_policy_estimates(**eval_kw, **dict(kw2, alpha=case["alpha"] * 1.8, fig_dir=None))
            for (lo, hi), (lo2, hi2), v in zip(errs, _errs(plt.gcf().axes[0]), value.values()):
                e = 1e-9 * max(1.0, abs(lo), abs(hi))
                ctx.check(lo - e <= lo2 <= hi2 <= hi + e, "error bar at level %g is [%r, %r], at level %g it is [%r, %r]", 1 - case["alpha"], lo, hi, 1 - case["alpha"] * 1.8, lo2, hi2)
                if case["B"] >= 8 and len(set(errs)) > 1 and hi > lo:
                    ctx.label("proper error bars")
        plt.close("all")
        if kind != "slate":
            key = "action_by_evaluation_policy" if kind == "continuous" else "action_dist"
            m = case["m"]
            pols = [eval_kw[key][::(-1 if j % 2 else 1)] for j in range(m)]
            rest = {k: v for k, v in eval_kw.items() if k != key}
            kw2["fig_name"] = "g.png"
            lst = "action_by_evaluation_policy_list" if kind == "continuous" else "action_dist_list"
            meta.visualize_off_policy_estimates_of_multiple_policies(policy_name_list=["p%d" % j for j in range(m)], **{lst: pols}, **rest, **kw2)
            axes = plt.gcf().axes
            ctx.check(len(axes) == len(ests), "%d panels for %d estimators" % (len(axes), len(ests)))
            for ax, (k, (f, kw)) in zip(axes, direct.items()):
                want = [float(f().estimate_policy_value(**dict(kw, **{key: p}))) / div for p in pols]
                ctx.close(_bars(ax), want, "bar heights for several policies (%s)" % k, rtol=1e-6)
    finally:
        plt.close("all")
        shutil.rmtree(str(tmp), ignore_errors=True)


CMN = dict(dflt=st.sampled_from([False, False, False, True]), alpha=st.sampled_from([0.05, 0.3]), B=st.integers(1, 10), rs=gen.RS, gt=st.sampled_from([0.0, 1.0, -2.0, 0.37]), mode=st.sampled_from(["one", "per", "mixed"]), est_ps=st.sampled_from([True, False, "some"]), rscale=st.sampled_from([1.0, 1e-5, 1e4]), warm=st.booleans())
STD_ALL = st.lists(st.sampled_from(NAMES), min_size=1, max_size=6)
SL = st.lists(st.sampled_from(sorted(SCLS) + ["cascade-dr"]), min_size=1, max_size=5)
CO = st.lists(st.sampled_from(["kernelized_ipw", "kernelized_snipw", "kernelized_dr", "2:kernelized_ipw", "2:kernelized_dr"]), min_size=1, max_size=4)


def _full_support(c):
    # self-normalised members need a positive weight somewhere
    return dict(c, style="generic", n=max(c["n"], 2))


SUBS = [
    Sub("standard", gen.logged_case(max_n=8, names=STD_ALL, nopos=st.booleans(), nops=st.booleans(), drop=st.sampled_from(["action", "position", "reward", "context"]), **CMN).map(_full_support), run_std, 350, 6000),
    Sub("multi_loggers", gen.logged_case(max_n=8, names=st.lists(st.sampled_from(MNAMES + ["2:" + k for k in MNAMES]), min_size=1, max_size=6), nopos=st.booleans(), **CMN), run_multi, 250, 4000),
    Sub("slate", fx(n=gen.some(1, 8, 150), L=st.integers(1, 3), A=st.integers(2, 4), seed=SEED, rk=gen.REWARDS, names=SL, **CMN), run_slate, 120, 2500),
    Sub("continuous", fx(n=gen.some(1, 15, 300), seed=SEED, rk=gen.REWARDS, names=CO, kernel=st.sampled_from(["gaussian"]), h=st.sampled_from([0.5, 1.0, 2.0]), **CMN), run_cont, 250, 4000),
    Sub("figures", fx(n=st.integers(4, 10), L=st.integers(1, 2), A=st.integers(2, 4), seed=SEED, style=st.just("generic"), pstyle=gen.STYLES, layout=st.just("C"), idt=st.just("int64"),
                      names=st.lists(st.sampled_from(["dm", "ipw", "snipw", "dr", "sndr", "switch-dr", "dr-os", "b-ipw", "sg-ipw", "mipw", "mipw-exact", "snmipw-greedy", "sg-dr", "ipw-2"]), min_size=1, max_size=3),
                      snames=SL, cnames=CO, m=st.integers(1, 3), mnames=st.lists(st.sampled_from(MNAMES), min_size=1, max_size=3), kind=st.sampled_from(["std", "slate", "continuous", "multi"]), rel=st.booleans(), nopos=st.booleans(), nops=st.just(False), **CMN), run_figures, 50, 600, budget=(50, 500)),
]
gen.huge(SUBS, "standard multi_loggers slate continuous", lo=400, hi=2500, quick=2)

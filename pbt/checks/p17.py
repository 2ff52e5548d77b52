"""P17: loading, splitting and bootstrapping Open Bandit Dataset files."""
import csv
import math
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from ..gen import SEED, fx

from obp import dataset as D

PROPERTY = "P17"
RULE = (
    "Random data files in the Open Bandit Dataset layout written to a scratch directory (rows in any order, distinct time stamps, positions "
    "1..3 or a subset, categorical user and item features, extra columns), every campaign/policy, split ratio and bootstrap size. "
    "Non-trivial: rows out of time order."
)


def write(case, root):
    r = gen.rng(case)
    n, A = case["n"], case["A"]
    d = os.path.join(root, case["policy"], case["campaign"])
    os.makedirs(d)
    t = r.permutation(10**5)[:n] // case["coarse"]
    us = r.permutation(10**6)[:n]
    pos_vals = {"123": [1, 2, 3], "13": [1, 3], "2": [2]}[case["pos"]]
    act = r.randint(A, size=n)
    act[r.randint(n)] = A - 1
    rows = []
    for i in range(n):
        rows.append(dict(
            time="2019-11-%02d %02d:%02d:%02d.%06d+00:00" % (24 + t[i] // 50000, (t[i] // 3600) % 24, (t[i] // 60) % 60, t[i] % 60, us[i]),
            sec=None, item=int(act[i]), pos=int(pos_vals[r.randint(len(pos_vals))]), click=int(r.rand() < 0.4), ps=round(float(r.uniform(0.01, 1)), 6),
            uf=["%s%d" % ("abcd"[k], r.randint(case["cats"])) for k in range(case["nuf"])], aff=[round(float(r.rand()), 4) for _ in range(A)],
        ))
    rows = [rows[k] for k in {row["time"]: i for i, row in enumerate(rows)}.values()]  # distinct time stamps
    with open(os.path.join(d, case["campaign"] + ".csv"), "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["", "timestamp", "item_id", "position", "click", "propensity_score"] + ["user_feature_%d" % k for k in range(case["nuf"])] + ["user-item_affinity_%d" % k for k in range(A)])
        for i, x in enumerate(rows):
            w.writerow([i, x["time"], x["item"], x["pos"], x["click"], x["ps"]] + x["uf"] + x["aff"])
    items = [dict(f0=round(float(r.normal()), 6), cat=["%s%d" % ("xyz"[k], r.randint(3)) for k in range(case["nif"])]) for _ in range(A)]
    with open(os.path.join(d, "item_context.csv"), "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["", "item_id", "item_feature_0"] + ["item_feature_%d" % (k + 1) for k in range(case["nif"])])
        for i, x in enumerate(items):
            w.writerow([i, i, x["f0"]] + x["cat"])
    return rows, items


def run(case, ctx):
    """batches, time-series splits, bootstrap samples and on-policy values of a generated data set"""
    root = tempfile.mkdtemp(prefix="p17-")
    try:
        rows, items = write(case, root)
        path = Path(root) if case["as_path"] else root
        ds = D.OpenBanditDataset(behavior_policy=case["policy"], campaign=case["campaign"], data_path=path)
        order = sorted(range(len(rows)), key=lambda i: rows[i]["time"])
        n, A = len(rows), case["A"]
        levels = sorted(set(x["pos"] for x in rows))
        cols = []
        for k in range(case["nuf"]):
            cols += [(k, v) for v in sorted(set(x["uf"][k] for x in rows))[1:]]
        want = dict(
            action=[rows[i]["item"] for i in order], position=[levels.index(rows[i]["pos"]) for i in order], reward=[rows[i]["click"] for i in order], pscore=[rows[i]["ps"] for i in order],
            context=np.array([[float(rows[i]["uf"][k] == v) for k, v in cols] for i in order]).reshape(n, len(cols)),
        )
        ac = np.array([[float(sorted(set(y["cat"][k] for y in items)).index(x["cat"][k])) for k in range(case["nif"])] + [x["f0"]] for x in items])
        ctx.check((ds.n_rounds, ds.n_actions, ds.dim_context, ds.len_list) == (n, A, len(cols), len(levels)), "n_rounds, n_actions, dim_context, len_list are %s", (ds.n_rounds, ds.n_actions, ds.dim_context, ds.len_list))
        ctx.nontriv(order != list(range(n)))
        ctx.label(case["campaign"], case["policy"])

        def cmp(bf, lo, hi, what):
            ctx.check(bf["n_rounds"] == hi - lo and bf["n_actions"] == A, "%s: n_rounds %s, n_actions %s (expected %d, %d)", what, bf["n_rounds"], bf["n_actions"], hi - lo, A)
            for k in ("action", "position", "reward", "pscore", "context"):
                ctx.close(bf[k], np.asarray(want[k], float)[lo:hi], "%s: %s" % (what, k), rtol=1e-12)
            ctx.close(bf["action_context"], ac, "%s: action_context" % what, rtol=1e-12)

        cmp(ds.obtain_batch_bandit_feedback(), 0, n, "whole data")
        ts = case["ts"]
        tr, te = ds.obtain_batch_bandit_feedback(test_size=ts, is_timeseries_split=True)
        m = int(tr["n_rounds"])
        ctx.check(abs(m - n * (1 - ts)) <= 1, "training part has %d of %d rounds for test_size=%g", m, n, ts)
        cmp(tr, 0, m, "training part")
        cmp(te, m, n, "test part")
        for split in (False, True):
            lo, hi = (m, n) if split else (0, n)
            if hi > lo:
                v = D.OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy=case["policy"], campaign=case["campaign"], data_path=path, test_size=ts, is_timeseries_split=split)
                ctx.close(v, math.fsum(want["reward"][lo:hi]) / (hi - lo), "on-policy value")
            pool = range(0, m if split else n)
            if not len(pool):
                continue
            size = None if case["size"] is None else case["size"] % (len(pool) + 1)
            b = ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=ts, is_timeseries_split=split, random_state=case["rs"])
            k = len(pool) if size is None else size
            ctx.check(b["n_rounds"] == k and len(b["action"]) == k, "bootstrap sample has %s rounds (%d actions), expected %d", b["n_rounds"], len(b["action"]), k)
            known = set((want["action"][i], want["position"][i], want["reward"][i], want["pscore"][i]) + tuple(want["context"][i]) for i in pool)
            seen = []
            for i in range(k):
                key = (int(b["action"][i]), int(b["position"][i]), int(b["reward"][i]), float(b["pscore"][i])) + tuple(float(v) for v in b["context"][i])
                ctx.check(key in known, "bootstrap sample: round %d is not one of the logged rounds: %s", i, key)
                seen.append(key)
            b2 = ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=ts, is_timeseries_split=split, random_state=case["rs"])
            ctx.same(b2["pscore"], b["pscore"], "bootstrap sample with the same seed")
            ctx.close(b["action_context"], ac, "bootstrap sample: action_context", rtol=1e-12)
            if k * (k - 1) > 80 * len(pool) and len(set(want["pscore"])) == n:
                ctx.check(len(set(seen)) < k, "a bootstrap sample of %d rounds has no repetition", k)
                ctx.label("bootstrap with repetition")
        cmp(ds.obtain_batch_bandit_feedback(), 0, n, "whole data after bootstrapping")
    finally:
        shutil.rmtree(root, ignore_errors=True)


CASE = fx(
    n=gen.some(2, 40, 400), A=gen.some(2, 6, 30), policy=st.sampled_from(["random", "bts"]), campaign=st.sampled_from(["all", "men", "women"]), pos=st.sampled_from(["123", "123", "13", "2"]), cats=st.integers(1, 4), nuf=st.integers(1, 3), nif=st.integers(1, 3),
    ts=st.sampled_from([0.3, 0.5, 0.1, 0.9, 0.0, 1.0, 0.7]), size=st.one_of(st.none(), st.integers(1, 60), st.integers(1, 300)), as_path=st.booleans(), coarse=st.sampled_from([1, 1, 1000]), rs=gen.RS, seed=SEED,
)
SUBS = [Sub("obd", CASE, run, 150, budget=(70, 600))]
gen.huge(SUBS, "obd", hi=5000, quick=2)

#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): how many small changes to obp do the checks notice?

  mutate.py REPO FILE [--max N] [--seed S] [--jobs J] [--out OUT] [--props P01,P03] [--scale 0.5]

Every mutant is one AST edit of FILE in a scratch copy of REPO; the properties responsible for FILE run on it with a
fraction of the quick tier's cases. Survivors are printed as source lines: each is either an equivalent change, outside the
documented behaviour, or a gap in the checks.
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time

PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_PY") != "1":
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, VERIF_PY="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = {
    "obp/ope/estimators.py": "P01,P03,P04,P09,P10,P02,P25", "obp/ope/estimators_multi.py": "P05,P03,P10,P02,P09", "obp/ope/estimators_slate.py": "P06,P03,P10,P02,P09",
    "obp/ope/estimators_continuous.py": "P07,P03,P10,P09", "obp/ope/estimators_embed.py": "P08,P03,P02,P10,P09", "obp/ope/estimators_tuning.py": "P04,P10,P03,P09,P25", "obp/ope/helper.py": "P28,P04",
    "obp/ope/meta.py": "P09,P10,P25", "obp/ope/meta_multi.py": "P09,P10,P25", "obp/ope/meta_slate.py": "P09,P10,P25", "obp/ope/meta_continuous.py": "P09,P10,P25",
    "obp/ope/regression_model.py": "P11,P10", "obp/ope/regression_model_slate.py": "P11,P10", "obp/ope/classification_model.py": "P12,P10",
    "obp/dataset/synthetic.py": "P13,P27,P10,P20,P26", "obp/dataset/synthetic_multi.py": "P13,P27,P10", "obp/dataset/synthetic_embed.py": "P13,P27,P10", "obp/dataset/synthetic_slate.py": "P14,P27,P10",
    "obp/dataset/synthetic_continuous.py": "P15,P27,P10", "obp/dataset/multiclass.py": "P16,P27,P10", "obp/dataset/real.py": "P17,P27,P10",
    "obp/policy/base.py": "P18,P19,P10,P23", "obp/policy/contextfree.py": "P18,P10,P26", "obp/policy/linear.py": "P19,P10", "obp/policy/logistic.py": "P19,P10,P26", "obp/policy/offline.py": "P23,P24,P10,P26", "obp/policy/offline_continuous.py": "P24,P10,P26",
    "obp/simulator/simulator.py": "P20,P21,P27,P10", "obp/simulator/replay.py": "P21", "obp/simulator/delay_sampler.py": "P20,P26", "obp/simulator/coefficient_drifter.py": "P22,P26",
    "obp/utils.py": "P28,P10,P03,P01",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult]}
CALLS = dict(mean="sum", sum="mean", max="min", min="max", minimum="maximum", maximum="minimum", argmax="argmin", argmin="argmax", zeros="ones", ones="zeros", zeros_like="ones_like", ones_like="zeros_like", any="all", all="any", abs="negative", argsort="sort", exp="expm1", log="log1p", append="extend", repeat="tile", var="std", std="var", fit="score")


def docstring(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def mutations(tree):
    """yield (description, apply) pairs; apply edits the tree in place and returns an undo function"""
    out = []

    def setter(obj, field, new, line, what):
        def apply():
            old = getattr(obj, field)
            setattr(obj, field, new)
            return lambda: setattr(obj, field, old)

        out.append((line, what, apply))

    def listset(lst, i, new, line, what):
        def apply():
            old = lst[i]
            lst[i] = new
            return lambda: lst.__setitem__(i, old)

        out.append((line, what, apply))

    def walk(node, func_names):
        if isinstance(node, (ast.Raise, ast.AnnAssign)) and not (isinstance(node, ast.AnnAssign) and node.value is not None):
            return
        if isinstance(node, (ast.FunctionDef,)):
            func_names = [a.arg for a in node.args.args if a.arg != "self"]
            for i, d in enumerate(node.args.defaults):
                if isinstance(d, ast.Constant):
                    walk(d, func_names)
            for field in ("body",):
                walk_body(getattr(node, field), func_names)
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for alt in CMP.get(type(op), []):
                    listset(node.ops, k, alt(), node.lineno, "%s -> %s" % (type(op).__name__, alt.__name__))
        if isinstance(node, ast.BinOp):
            for alt in BIN.get(type(node.op), []):
                setter(node, "op", alt(), node.lineno, "%s -> %s" % (type(node.op).__name__, alt.__name__))
        if isinstance(node, ast.AugAssign):
            for alt in BIN.get(type(node.op), []):
                setter(node, "op", alt(), node.lineno, "aug %s -> %s" % (type(node.op).__name__, alt.__name__))
        if isinstance(node, ast.BoolOp):
            setter(node, "op", ast.Or() if isinstance(node.op, ast.And) else ast.And(), node.lineno, "and/or")
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                setter(node, "value", not v, node.lineno, "%r -> %r" % (v, not v))
            elif isinstance(v, int):
                setter(node, "value", v + 1, node.lineno, "%r -> %r" % (v, v + 1))
                if v > 0:
                    setter(node, "value", v - 1, node.lineno, "%r -> %r" % (v, v - 1))
            elif isinstance(v, float):
                setter(node, "value", v * 1.25 if v else 0.125, node.lineno, "%r changed" % v)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            def apply(node=node):
                old = (node.op, node.operand)
                if isinstance(node.op, ast.Not):
                    node.operand = ast.UnaryOp(ast.Not(), node.operand)
                else:
                    node.op = ast.UAdd()
                def undo():
                    node.op, node.operand = old
                return undo
            out.append((node.lineno, "drop unary %s" % type(node.op).__name__, apply))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            setter(node, "test", ast.Constant(True), node.lineno, "if True")
            setter(node, "test", ast.Constant(False), node.lineno, "if False")
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in CALLS:
                setter(f, "attr", CALLS[f.attr], node.lineno, "%s -> %s" % (f.attr, CALLS[f.attr]))
            for i, k in enumerate(node.keywords):
                if k.arg is not None:
                    def apply(node=node, i=i):
                        old = node.keywords
                        node.keywords = old[:i] + old[i + 1 :]
                        return lambda: setattr(node, "keywords", old)
                    out.append((node.lineno, "drop keyword %s" % k.arg, apply))
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in func_names:
            for alt in func_names:
                if alt != node.id:
                    setter(node, "id", alt, node.lineno, "name %s -> %s" % (node.id, alt))
        for field, val in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(val, list):
                if val and isinstance(val[0], ast.stmt):
                    walk_body(val, func_names)
                else:
                    for v in val:
                        if isinstance(v, ast.AST):
                            walk(v, func_names)
            elif isinstance(val, ast.AST):
                walk(val, func_names)

    def walk_body(body, func_names):
        for i, s in enumerate(body):
            if docstring(s) or isinstance(s, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Continue, ast.Break)):
                listset(body, i, ast.Pass(), s.lineno, "delete statement")
            walk(s, func_names)

    walk_body(tree.body, [])
    return out


def weight(m):
    """names are plentiful and mostly caught: sample them less"""
    return 0.15 if m[1].startswith("name ") else 1.0


def child(q, repo, props, scale, seed):
    os.environ["VERIF_REPO"] = repo
    sys.path.insert(0, ROOT)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        import importlib

        from pbt import core

        known = core.load_known()
        for p in props:
            mod = importlib.import_module("pbt.checks." + p.lower())
            for sub in mod.SUBS:
                sub.budget = (25, 25)
                r = core.run_sub(sub, "quick", seed, [k for k in known if k["property"] == p], core.QUICK_SCALE.get(p, 1) * scale)
                if r["failure"]:
                    q.put(("caught", p, sub.name, r["failure"]["msg"][:160]))
                    return
                if r["error"]:
                    q.put(("error", p, sub.name, r["error"].strip().splitlines()[-2][:160] if len(r["error"].strip().splitlines()) > 1 else r["error"][:160]))
                    return
        q.put(("survived", "", "", ""))
    except BaseException as e:
        q.put(("import", "", "", "%s: %s" % (type(e).__name__, str(e)[:120])))


def one(args):
    repo, path, idx, props, scale, seed, limit = args
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.path.join(repo, "obp"), os.path.join(tmp, "obp"), ignore=shutil.ignore_patterns("__pycache__"))
        f = os.path.join(tmp, path)
        tree = ast.parse(open(f).read())
        line, what, apply = mutations(tree)[idx]
        apply()
        with open(f, "w") as o:
            o.write(ast.unparse(ast.fix_missing_locations(tree)))
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        p = ctx.Process(target=child, args=(q, tmp, props, scale, seed))
        t = time.time()
        p.start()
        try:
            res = q.get(timeout=limit)
        except Exception:
            res = ("timeout", "", "", "")
        p.kill()
        p.join()
        return idx, line, what, res, time.time() - t
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("repo")
    ap.add_argument("file")
    ap.add_argument("--max", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--limit", type=int, default=240)
    ap.add_argument("--props")
    ap.add_argument("--out")
    ap.add_argument("--lines", help="a-b: only these lines")
    a = ap.parse_args()
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["TQDM_DISABLE"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib.pyplot, numpy, pandas, scipy.stats, seaborn, sklearn.ensemble, sklearn.linear_model, sklearn.calibration, sklearn.model_selection, torch  # noqa: F401, E401 (preloaded before forking)

    torch.set_num_threads(1)
    props = (a.props or PROPS[a.file]).split(",")
    src = open(os.path.join(a.repo, a.file)).read()
    tree = ast.parse(src)
    ms = mutations(tree)
    rng = random.Random(a.seed)
    cand = [i for i in range(len(ms)) if rng.random() < weight(ms[i])]
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        cand = [i for i in cand if lo <= ms[i][0] <= hi]
    rng.shuffle(cand)
    cand = cand[: a.max]
    lines = src.splitlines()
    stat = {}
    outf = open(a.out, "a") if a.out else None
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(a.jobs) as pool:
        for idx, line, what, res, wall in pool.map(one, [(a.repo, a.file, i, props, a.scale, a.seed, a.limit) for i in cand]):
            stat[res[0]] = stat.get(res[0], 0) + 1
            rec = "%s:%d [%d] %s | %s | %s %.0fs" % (a.file, line, idx, what, lines[line - 1].strip()[:110], " ".join(res), wall)
            if res[0] != "caught":
                print(rec, flush=True)
            if outf:
                outf.write(rec + "\n")
                outf.flush()
    print(a.file, len(ms), "mutations,", stat, flush=True)


if __name__ == "__main__":
    main()

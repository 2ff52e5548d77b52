"""Caller-side stand-ins for machine-learning models (passed to obp through its public parameters)."""
import math

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin


def _key(row):
    return tuple(float(v) for v in row)


def _rows(X):
    """feature rows; like scikit-learn's, these models do not accept an empty array"""
    X = np.array(X, float)
    if X.ndim != 2 or X.shape[0] == 0:
        raise ValueError("Found array with shape %r while a 2-d array with at least 1 sample is required" % (X.shape,))
    return X


class TabularRegressor(RegressorMixin, BaseEstimator):
    """(weighted) mean target of the training rows with identical features; ``default`` for unseen rows"""

    def __init__(self, default=0.0):
        self.default = default

    def fit(self, X, y, sample_weight=None):
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, float)
        self.w_ = w.copy()
        t = {}
        for row, yy, ww in zip(_rows(X), y, w):
            t.setdefault(_key(row), []).append((float(yy), float(ww)))
        self.t_ = {}
        for k, v in t.items():
            den = math.fsum(b for _, b in v)
            if den > 0:
                self.t_[k] = math.fsum(a * b for a, b in v) / den
        return self

    def predict(self, X):
        return np.array([self.t_.get(_key(r), self.default) for r in _rows(X)])


class TabularClassifier(ClassifierMixin, BaseEstimator):
    """class frequencies of the training rows with identical features; uniform over seen classes for unseen rows"""

    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y, sample_weight=None):
        y = np.asarray(y)
        self.classes_ = np.unique(y)
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, float)
        self.t_ = {}
        for row, yy, ww in zip(_rows(X), y, w):
            c = self.t_.setdefault(_key(row), np.zeros(len(self.classes_)))
            c[int(np.searchsorted(self.classes_, yy))] += ww
        return self

    def predict_proba(self, X):
        u = np.full(len(self.classes_), 1.0 / len(self.classes_))
        out = []
        for r in _rows(X):
            c = self.t_.get(_key(r))
            out.append(u if c is None or c.sum() <= 0 else c / c.sum())
        return np.array(out).reshape(-1, len(self.classes_))

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


class Log:
    """provenance log shared by all clones of the Prov* models of one case"""

    def __init__(self):
        self.fits = []  # dicts X, y, w
        self.preds = []  # (fit index, feature row)


LOG = Log()


def reset_log():
    LOG.fits, LOG.preds = [], []
    return LOG


class _Prov(BaseEstimator):
    """Every predicted number is a fresh id which the log maps to (training set, feature row)."""

    def __init__(self, scale=1.0):
        self.scale = scale

    def fit(self, X, y, sample_weight=None):
        LOG.fits.append(dict(X=_rows(X), y=np.array(y, float), w=None if sample_weight is None else np.array(sample_weight, float)))
        self.fit_ = len(LOG.fits) - 1
        self.classes_ = np.array([0, 1])
        return self

    def _ids(self, X):
        X = _rows(X)
        out = []
        for row in X:
            LOG.preds.append((self.fit_, row))
            out.append(len(LOG.preds))
        return np.array(out, float)


class ProvRegressor(RegressorMixin, _Prov):
    def predict(self, X):
        return self._ids(X)


class ProvClassifier(ClassifierMixin, _Prov):
    def predict_proba(self, X):
        i = self._ids(X)
        return np.c_[-i, i]

    def predict(self, X):
        return np.zeros(len(X), int)


class ProvWeightClassifier(ClassifierMixin, _Prov):
    """probabilities p with p / (1 - p) == id * 2**-20, i.e. invertible odds"""

    def predict_proba(self, X):
        o = self._ids(X) * 2.0**-20
        p = o / (1 + o)
        return np.c_[1 - p, p]

    def predict(self, X):
        return np.zeros(len(X), int)

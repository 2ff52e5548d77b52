"""Independent references: per-round, plain-Python transcriptions of the documented formulas."""
import math

from .gen import fmean, weights


def q_pi(d, i):
    p = int(d.position[i])
    return math.fsum(float(d.action_dist[i, a, p]) * float(d.q[i, a, p]) for a in range(d.A)) / math.fsum(
        float(d.action_dist[i, a, p]) for a in range(d.A)
    )


def q_fact(d, i):
    return float(d.q[i, d.action[i], d.position[i]])


def r_(d, i):
    return float(d.reward[i])


# every function returns the list of per-round terms whose mean is the estimate
def rm(d):
    match = [float(d.action_dist[i, d.action[i], d.position[i]]) == 1.0 for i in range(d.n)]
    k = sum(match)
    if k == 0:
        return [0.0] * d.n
    return [r_(d, i) * d.n / k if match[i] else 0.0 for i in range(d.n)]


def ipw(d, lam=math.inf, ps=None):
    return [min(w, lam) * r_(d, i) for i, w in enumerate(weights(d, ps))]


def snipw(d, ps=None):
    w = weights(d, ps)
    m = fmean(w)
    return [w[i] * r_(d, i) / m for i in range(d.n)]


def dm(d):
    return [q_pi(d, i) for i in range(d.n)]


def _dr(d, what):
    return [q_pi(d, i) + what[i] * (r_(d, i) - q_fact(d, i)) for i in range(d.n)]


def w_clip(w, lam):
    return min(w, lam)


def w_switch(w, lam):
    return w if w <= lam else 0.0


def w_os(w, lam):
    if lam == math.inf:
        return w
    if w == 0.0 or lam == 0.0:
        return 0.0
    return lam * w / (w * w + lam)


def w_sg(w, lam):
    return w / (1 - lam + lam * w)


def dr(d, lam=math.inf, ps=None):
    return _dr(d, [w_clip(w, lam) for w in weights(d, ps)])


def sndr(d, ps=None):
    w = weights(d, ps)
    m = fmean(w)
    return _dr(d, [x / m for x in w])


def switch_dr(d, lam=math.inf, ps=None):
    return _dr(d, [w_switch(w, lam) for w in weights(d, ps)])


def dros(d, lam=0.0, ps=None):
    return _dr(d, [w_os(w, lam) for w in weights(d, ps)])


def sgipw(d, lam=0.0, ps=None):
    return [w_sg(w, lam) * r_(d, i) for i, w in enumerate(weights(d, ps))]


def sgdr(d, lam=0.0, ps=None):
    return _dr(d, [w_sg(w, lam) for w in weights(d, ps)])


def bipw(d, lam=math.inf):
    w = [min(float(x), lam) for x in d.est_iw]
    m = fmean(w)
    return [w[i] * r_(d, i) / m for i in range(d.n)]


def scale_of(terms):
    """magnitude used for float tolerance"""
    return max([1.0] + [abs(t) for t in terms if math.isfinite(t)])

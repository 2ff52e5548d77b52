"""Statistical comparisons whose false-alarm probability is negligible (about 1e-12 per comparison)."""
import math

from scipy.stats import binom

ALPHA = 1e-12


def count_ok(k, n, p_lo, p_hi=None):
    """Is k successes in n trials compatible with some success probability in [p_lo, p_hi]?"""
    p_hi = p_lo if p_hi is None else p_hi
    p_lo, p_hi = min(1.0, max(0.0, p_lo)), min(1.0, max(0.0, p_hi))
    if k > n * p_hi and binom.sf(k - 1, n, p_hi) < ALPHA:
        return False
    if k < n * p_lo and binom.cdf(k, n, p_lo) < ALPHA:
        return False
    return True


def mc_interval(k, m, z=7.5):
    """interval for a probability that was itself estimated from m independent draws"""
    p = k / m
    h = z * math.sqrt(max(p * (1 - p), 1.0 / m) / m) + 10.0 / m
    return p - h, p + h


def freq(ctx, k, n, lo, hi, what):
    ctx.check(count_ok(k, n, lo, hi), "%s: %d of %d times, expected probability %s", what, k, n, ("%.5g" % lo) if lo == hi else "in [%.5g, %.5g]" % (max(lo, 0), min(hi, 1)))


def mean_ok(s, n, mean, var, bound):
    """Bernstein bound: is the average s of n independent variables with the given mean, variance and range plausible?"""
    # two-sided tail 2*exp(-n t^2 / (2 var + 2/3 bound t)) < 1e-12
    L = math.log(2 / ALPHA)
    t = (bound * L / 3 + math.sqrt((bound * L / 3) ** 2 + 2 * n * var * L)) / n
    return abs(s - mean) <= t + 1e-9 * (1 + abs(mean))

"""reference for the statistical analysis, written from the definitions, one sample list at a time"""
import math

from mc.common import KB


def mean(xs):
    return math.fsum(xs) / len(xs)


def basic(rows, T, dB, Es=0.0, Cs=0.0):
    """rows of (rho, g, g+, g-): Z, E, Cv of the symmetric finite differences"""
    Z = mean([g / r for r, g, p, m in rows])
    d1 = mean([(p - m) / r / (2 * dB) for r, g, p, m in rows])
    d2 = mean([(p - 2 * g + m) / r / dB**2 for r, g, p, m in rows])
    E = -d1 / Z
    return Z, E + Es, (d2 / Z - E * E) / (KB * T * T) + Cs


def alpha(rows, T, dB, ap, am, Es=0.0, Cs=0.0):
    """as basic, with the shifted ratios corrected by alpha(+/-) = Z(beta)/Z(beta +/- dB) of the sampling model"""
    return basic([(r, g, p * ap, m * am) for r, g, p, m in rows], T, dB, Es, Cs)


def z_error(rows):
    x = [g / r for r, g, p, m in rows]
    mu = mean(x)
    var = mean([(v - mu)**2 for v in x])
    return math.sqrt(var) / math.sqrt(len(x) - 1)


def jackknife(rows, estimator):
    """E, E error, Cv, Cv error: leave every sample out once. estimator(rows) -> (Z, E, Cv) without the
    sampling model's contribution"""
    X = len(rows)
    _, E, C = estimator(rows)
    left = [estimator(rows[:i] + rows[i + 1:]) for i in range(X)]
    out = []
    for k, full in ((1, E), (2, C)):
        f = [v[k] for v in left]
        mu = mean(f)
        spread = math.sqrt(math.fsum((v - mu)**2 for v in f) / (X - 1))
        out += [X * full - (X - 1) * mu, math.sqrt(X - 1) * spread]
    return out


def size(rows, T, dB, ap=1.0, am=1.0):
    """the magnitude of the terms that cancel in E and Cv: rounding errors are relative to these"""
    Z = abs(mean([g / r for r, g, p, m in rows]))
    terms = max(max(abs(g / r), abs(p * ap / r), abs(m * am / r)) for r, g, p, m in rows)
    e = terms / dB / Z
    return e, (terms / dB**2 / Z + e * e) / (KB * T * T)

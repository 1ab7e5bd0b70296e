"""High-precision reference implementations (python floats summed exactly, or mpmath)."""
import math

import numpy as np


def lse(v):
    v = [float(a) for a in v]
    m = max(v)
    if m == -math.inf:
        return -math.inf
    return m + math.log(math.fsum(math.exp(a - m) for a in v))


def balance(logl, beta, logz, beta_final):
    """logl[t][k], beta[t], logz[t] -> (normalised log-weights flat, log-evidence)"""
    T = len(beta)
    lw = []
    for t in range(T):
        for l in logl[t]:
            l = float(l)
            lw.append(l * beta_final - (lse([l * beta[i] - logz[i] for i in range(T)]) - math.log(T)))
    z = lse(lw)
    return np.array([a - z for a in lw]), z - math.log(len(lw))


def ess(w):
    s = math.fsum(w)
    return 1.0 / math.fsum((a / s) ** 2 for a in w)


def uss(w, k=None):
    s = math.fsum(w)
    k = len(w) if k is None else k
    return math.fsum(-math.expm1(k * math.log1p(-a / s)) if a < s else 1.0 for a in w)


def metric(logw, name):
    m = float(np.max(logw))
    w = [math.exp(float(a) - m) for a in logw]
    return ess(w) if name == "ess" else uss(w)


def trim_count(p, e, bins):
    """Number of weights kept by the deepest cut of the percentile grid that keeps the fraction e of the
    effective sample size; None where rounding could decide (ratio at the limit, or nearly equal weights)."""
    p = np.asarray(p, float)
    p = p / math.fsum(p)
    s = np.sort(p)
    if any(0 < b - a <= 1e-9 * (a + b) for a, b in zip(s[:-1], s[1:])):
        return None
    full = ess(p)
    best, seen = None, {}
    for q in np.percentile(p, np.linspace(0, 99, bins))[::-1]:
        if q not in seen:
            if any(abs(q - a) <= 1e-12 * abs(q) and q != a for a in p):
                return None
            m = p >= q
            seen[q] = int(m.sum()), ess(p[m]) / full
        c, r = seen[q]
        if abs(r - e) < 1e-9:
            return None
        if best is None and r >= e:
            best = c
    return len(p) if best is None else best

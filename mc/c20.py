"""C20: the fitted geometry is finite, positive definite and equivariant."""
import collections
import itertools
import math

import numpy as np

from .env import quiet
from .rng import HI, RngTap

PROPERTY = "C20"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all small lattice samples, weight patterns and resampling offsets on the real fits, against exact reference moments and symmetry relations"
LEVEL_NOTE = ("All full-rank multisets of lattice points (1-3 dimensions, up to 6 points), all weight patterns over {0, 1, 3, 1000} and three resampling offsets; shifts, "
              "rescalings, reflections and permutations of parameters and of samples. Larger samples: quantile samples only.")
RULE = "a case is one multiset of points (with all symmetry images) or one point set with all weight patterns; states are distinct fits"
ASSUMPTIONS = ["uniform numbers are drawn through numpy.random module functions"]
CHUNK = 16

LAT = {1: [(0,), (1,), (2,), (4,), (7,), (40,)],
       2: [(0, 0), (1, 0), (0, 1), (2, 1), (1, 3), (-1, 2), (4, 4), (9, -3)],
       3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, -1, 3), (-4, 5, 1)]}
SIZES = {"quick": {1: (2, 3, 4, 5), 2: (3, 4, 5), 3: (4, 5)}, "thorough": {1: (2, 3, 4, 5, 6, 7), 2: (3, 4, 5, 6), 3: (4, 5, 6)}}
WSETS = {1: [[(0,), (1,), (3,), (7,)], [(-2,), (5,), (6,), (6.5,), (40,)]],
         2: [[(0, 0), (1, 0), (0, 1), (2, 3)], [(0, 0), (1, 0), (0, 1), (2, 3), (-4, 1)]],
         3: [[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, -1, 3)]]}


def cases(tier):
    for d, sizes in SIZES["quick" if tier == "quick" else "thorough"].items():
        for n in sizes:
            for t in itertools.combinations_with_replacement(LAT[d], n):
                a = np.array(t, float)
                if np.linalg.matrix_rank(a - a.mean(0)) == d:
                    yield dict(kind="t", pts=t)
    for d, sets in WSETS.items():
        for pts in sets:
            pats = [w for w in itertools.product((0, 1, 3, 1000), repeat=len(pts)) if sum(w) > 0]
            for k in range(0, len(pats), 64):
                yield dict(kind="w", pts=pts, pats=pats[k:k + 64])
    for d, sets in WSETS.items():
        for pts in sets:
            yield dict(kind="rep", pts=pts)
    for d, df, n in itertools.product((1, 2), (1, 2, 3), (41,)):
        yield dict(kind="tail", d=d, df=df, n=n)
    for d, n in itertools.product((1, 2, 3), (8, 30)):
        yield dict(kind="big", d=d, n=n)


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def good_t(rec, mu, S, nu, pts, finite_nu=True, **info):
    d = pts.shape[1]
    mu, S = np.asarray(mu, float), np.asarray(S, float)
    if mu.shape != (d,) or S.shape != (d, d):
        rec.fail("fitted location and scale have shapes %s and %s" % (mu.shape, S.shape), **info)
        return False
    if not np.isfinite(mu).all() or not np.isfinite(S).all():
        rec.fail("the fit is not finite", mean=mu, cov=S, nu=nu, **info)
        return False
    if np.abs(S - S.T).max() > 1e-9 * np.abs(S).max():
        rec.fail("the scale matrix is not symmetric", cov=S, **info)
        return False
    w = np.linalg.eigvalsh(S)
    if not w[0] > 1e-12 * w[-1]:
        rec.fail("the scale matrix is not positive definite", cov=S, **info)
        return False
    if not nu > 0 or (finite_nu and not np.isfinite(nu)):
        rec.fail("degrees of freedom are %r" % nu, **info)
        return False
    lo, hi = pts.min(0), pts.max(0)
    eps = 1e-9 * (1 + np.abs(pts).max())
    if (mu < lo - eps).any() or (mu > hi + eps).any():
        rec.fail("the location lies outside of the sample", mean=mu, sample=pts, **info)
        return False
    return True


def same(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))


def images(pts):
    """(name, transformed sample, map of its mean back, map of its covariance back)"""
    n, d = pts.shape
    sh = np.arange(8.0, 8.0 + d)
    yield "shift", pts + sh, lambda m: m - sh, lambda S: S
    for s in ([2.0, 0.25, 64.0], [2.0 ** -20] * 3, [2.0 ** 24] * 3, [2.0 ** -14, 2.0 ** 14, 1.0], [2.0 ** 10, 2.0 ** -30, 2.0 ** 3]):
        s = np.array(s[:d])
        yield "rescaling by %s" % s.tolist(), pts * s, lambda m, s=s: np.asarray(m) / s, lambda S, s=s: np.asarray(S) / np.outer(s, s)
    r = np.array([-1.0, 1.0, -1.0][:d])
    yield "reflection", pts * r, lambda m: m * r, lambda S: S * np.outer(r, r)
    if d > 1:
        q = np.arange(d)[::-1]
        yield "permutation of the parameters", pts[:, q], lambda m: m[q], lambda S: S[np.ix_(q, q)]
    yield "reordering of the samples", pts[::-1], lambda m: m, lambda S: S
    yield "rotation of the samples", np.roll(pts, 1, axis=0), lambda m: m, lambda S: S


def k_t(case, rec):
    from pocomc.geometry import Geometry
    from pocomc.student import fit_mvstud
    pts = np.array(case["pts"], float)
    with quiet():
        fit = fit_mvstud(pts.copy())
        g = Geometry()
        keep = pts.copy()
        g.fit(keep)
    rec.trace(2)
    rec.step(len(pts))
    if not np.array_equal(keep, pts):
        return rec.fail("fitting changed the sample", sample=pts)
    if not good_t(rec, *fit, pts, finite_nu=False, sample=pts):
        return
    if not good_t(rec, g.t_mean, g.t_cov, g.t_nu, pts, sample=pts):
        return
    if not normal_ok(rec, g, pts, None):
        return
    rec.state(fit[0], fit[1])
    for name, q, fm, fS in images(pts):
        with quiet():
            h = Geometry()
            h.fit(q.copy())
        rec.trace()
        if not same(fm(h.normal_mean), g.normal_mean) or not same(fS(h.normal_cov), g.normal_cov):
            return rec.fail("the normal part does not follow a %s" % name, sample=pts, got=[h.normal_mean, h.normal_cov], before=[g.normal_mean, g.normal_cov])
        if max(h.t_nu, g.t_nu) > 1e3 and min(h.t_nu, g.t_nu) <= 1e5 or max(h.t_nu, g.t_nu) < 0.2:
            continue        # next to a normal distribution (or to a degenerate one) the fit is not determined
        if not same(fm(h.t_mean), g.t_mean, 1e-3) or not same(fS(h.t_cov), g.t_cov, 1e-2) or not same(h.t_nu, g.t_nu, 1e-2):
            return rec.fail("the Student-t part does not follow a %s" % name, sample=pts, got=[h.t_mean, h.t_cov, h.t_nu], before=[g.t_mean, g.t_cov, g.t_nu])
    rec.sample = dict(sample=case["pts"], mean=list(g.t_mean), nu=float(g.t_nu))


def moments(pts, w):
    n, d = pts.shape
    w = [1.0] * n if w is None else [float(a) for a in w]
    s = math.fsum(w)
    w = [a / s for a in w]
    m = [math.fsum(w[k] * pts[k, i] for k in range(n)) for i in range(d)]
    den = 1.0 - math.fsum(a * a for a in w)
    C = [[math.fsum(w[k] * (pts[k, i] - m[i]) * (pts[k, j] - m[j]) for k in range(n)) / den if den > 0 else math.nan for j in range(d)] for i in range(d)]
    return np.array(m), np.array(C)


def normal_ok(rec, g, pts, w, **info):
    m, C = moments(pts, w)
    if not same(g.normal_mean, m, 1e-9):
        rec.fail("the mean is %s, the weighted mean is %s" % (g.normal_mean, m), sample=pts, weights=w, **info)
        return False
    if np.isfinite(C).all() and not same(g.normal_cov, C, 1e-8):
        rec.fail("the covariance is %s, the weighted covariance is %s" % (np.asarray(g.normal_cov).tolist(), C.tolist()), sample=pts, weights=w, **info)
        return False
    return True


def k_w(case, rec):
    from pocomc.geometry import Geometry
    pts = np.array(case["pts"], float)
    n, d = pts.shape
    for pat in case["pats"]:
        w = np.array(pat, float) / sum(pat)
        sure = pts[w * n >= 1 + 1e-9]
        firm = len(sure) > d and np.linalg.matrix_rank(sure - sure.mean(0)) == d
        for off in (0.0, 0.37, HI):
            def fit(p, weights):
                g = Geometry()
                with quiet(), RngTap(script={"unif": lambda i, r, a, k, nm: np.full(np.shape(r), off) if np.ndim(r) else off}):
                    try:
                        g.fit(p, weights)
                        g.failed = None
                    except (np.linalg.LinAlgError, ValueError) as e:
                        g.failed = e
                rec.trace()
                rec.step(n)
                return g
            p, ww = pts.copy(), w.copy()
            g = fit(p, ww)
            info = dict(offset=off)
            if not np.array_equal(p, pts) or not np.array_equal(ww, w):
                return rec.fail("fitting changed the sample or the weights", sample=pts, weights=w)
            if g.failed is not None:
                if firm:
                    return rec.fail("the fit of a full-rank sample failed: %s" % g.failed, sample=pts, weights=w, **info)
                rec.state("degenerate")
                if g.normal_mean is None:
                    continue
            if not normal_ok(rec, g, pts, w, **info):
                return
            if g.failed is None and firm and not good_t(rec, g.t_mean, g.t_cov, g.t_nu, pts[w > 0], sample=pts, weights=w, **info):
                return
            rec.state(g.normal_mean, g.normal_cov)
            if (w == 0).any():
                far = pts.copy()
                far[w == 0] = 1e3 * (1 + np.arange((w == 0).sum()))[:, None]
                h = fit(far, w.copy())
                if (h.failed is None) != (g.failed is None):
                    return rec.fail("samples of zero weight decide whether the fit succeeds", sample=pts, weights=w, moved=far, **info)
                ok = same(h.normal_mean, g.normal_mean, 1e-9) and (not np.isfinite(g.normal_cov).all() or same(h.normal_cov, g.normal_cov, 1e-7))
                if g.failed is None:
                    ok = ok and same(h.t_mean, g.t_mean, 1e-9) and (not np.isfinite(g.t_cov).all() or same(h.t_cov, g.t_cov, 1e-9)) and same(h.t_nu, g.t_nu, 1e-9)
                if not ok:
                    return rec.fail("samples of zero weight influence the fit", sample=pts, weights=w, moved=far, **info)
            if len(set(pat)) == 1 and g.failed is None:
                with quiet():
                    h = Geometry()
                    h.fit(pts.copy())
                if not same(h.normal_mean, g.normal_mean, 1e-9) or not same(h.normal_cov, g.normal_cov, 1e-9):
                    return rec.fail("equal weights give another normal part than no weights", sample=pts)
                if off == 0.37 and (not same(h.t_mean, g.t_mean, 1e-6) or not same(h.t_cov, g.t_cov, 1e-6)):
                    return rec.fail("equal weights give another Student-t part than no weights", sample=pts)
    rec.sample = dict(sample=case["pts"], weights=case["pats"][-1])


def k_rep(case, rec):
    """Weights that are multiples of 1/n are the same as repeating the samples."""
    from pocomc.geometry import Geometry
    pts = np.array(case["pts"], float)
    n, d = pts.shape
    for c in itertools.product(range(n + 1), repeat=n):
        if sum(c) != n:
            continue
        rep = np.repeat(pts, c, axis=0)
        if np.linalg.matrix_rank(rep - rep.mean(0)) < d:
            continue
        fits = []
        for p, w in ((pts, np.array(c, float) / n), (rep, None)):
            g = Geometry()
            with quiet(), RngTap(script={"unif": lambda i, r, a, k, nm: np.full(np.shape(r), 0.37) if np.ndim(r) else 0.37}):
                g.fit(p.copy(), w)
            fits.append(g)
            rec.trace()
            rec.step(n)
        a, b = fits
        rec.state(c, a.t_mean)
        if not same(a.normal_mean, b.normal_mean, 1e-9):
            return rec.fail("the mean of the weighted sample is not that of the repeated sample", counts=c, sample=pts)
        if not same(a.t_mean, b.t_mean, 1e-6) or not same(a.t_cov, b.t_cov, 1e-6):
            return rec.fail("the Student-t fit of the weighted sample is not that of the repeated sample", counts=c, sample=pts, weighted=[a.t_mean, a.t_cov], repeated=[b.t_mean, b.t_cov])


def quantile_sample(d, df, n):
    """a deterministic elliptical sample: directions times Student quantiles"""
    from scipy import stats
    if d == 1:
        return stats.t(df).ppf((np.arange(n) + 0.5) / n)[:, None]
    rad = np.sqrt(d * stats.f(d, df).ppf((np.arange(n) + 0.5) / n))
    ang = 2.399963229728653 * np.arange(n)
    return np.c_[rad * np.cos(ang), rad * np.sin(ang)]


def best_nu(pts):
    """profile likelihood of the degrees of freedom (location 0 and round shape are known for these samples)"""
    from scipy.special import gammaln
    n, d = pts.shape
    best = None
    for nu in np.exp(np.linspace(np.log(0.3), np.log(300), 120)):
        s2 = 1.0
        r2 = np.sum(pts ** 2, axis=1)
        for _ in range(300):
            s2 = np.mean((nu + d) / (nu + r2 / s2) * r2) / d
        ll = n * (gammaln((nu + d) / 2) - gammaln(nu / 2) - d / 2 * np.log(nu * np.pi * s2)) - (nu + d) / 2 * np.sum(np.log1p(r2 / s2 / nu))
        if best is None or ll > best[0]:
            best = (ll, nu)
    return best[1]


def k_tail(case, rec):
    """degrees of freedom reflect the tails of the sample"""
    from pocomc.geometry import Geometry
    pts = quantile_sample(case["d"], case["df"], case["n"])
    with quiet():
        g = Geometry()
        g.fit(pts.copy())
    rec.trace()
    if not good_t(rec, g.t_mean, g.t_cov, g.t_nu, pts, sample=case):
        return
    want = best_nu(pts)
    rec.state(case["d"], case["df"], case["n"], float(g.t_nu))
    if not want / 2 <= g.t_nu <= want * 2:
        if g.t_nu >= 1e6:        # see known_findings.json: this outcome, for these samples, is listed
            return rec.finding("nu-infinite d=%d df=%d n=%d" % (case["d"], case["df"], case["n"]),
                               "degrees of freedom are %r, the maximum likelihood is at %r" % (float(g.t_nu), float(want)), **case)
        return rec.fail("degrees of freedom are %r, the maximum likelihood is at %r" % (float(g.t_nu), float(want)), **case)


def k_big(case, rec):
    from pocomc.geometry import Geometry
    from scipy import stats
    d, n = case["d"], case["n"]
    k = np.arange(n)
    pts = np.stack([stats.norm.ppf(((k * p) % 1.0) * 0.98 + 0.01) for p in (0.6180339887, 0.4142135623, 0.7320508075)[:d]], axis=1) * np.array([1.0, 30.0, 1e-3][:d]) + 5.0
    if d > 1:
        pts[:, 1] += 25.0 * (pts[:, 0] - 5.0)
    w = 1.0 / (1 + k % 5)
    for weights in (None, w / w.sum()):
        with quiet(), RngTap():
            np.random.seed(1)
            g = Geometry()
            g.fit(pts.copy(), None if weights is None else weights.copy())
        rec.trace()
        rec.step(n)
        if not normal_ok(rec, g, pts, weights) or not good_t(rec, g.t_mean, g.t_cov, g.t_nu, pts, case=case):
            return
        sd = np.sqrt(np.diag(g.normal_cov))
        if (np.abs(g.t_mean - g.normal_mean) > sd).any() or (np.sqrt(np.diag(g.t_cov)) > 3 * sd).any() or (np.sqrt(np.diag(g.t_cov)) < sd / 5).any():
            return rec.fail("the Student-t fit is far from a nearly normal sample", t=[g.t_mean, g.t_cov], normal=[g.normal_mean, g.normal_cov])
        corr = [S / np.sqrt(np.outer(np.diag(S), np.diag(S))) for S in (np.asarray(g.t_cov), np.asarray(g.normal_cov))]
        if np.abs(corr[0] - corr[1]).max() > 0.35:
            return rec.fail("the Student-t fit has other correlations than a nearly normal sample", t=corr[0], normal=corr[1])
        rec.state(d, n, weights is None)

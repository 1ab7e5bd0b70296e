"""C27: results do not depend on the units in which the parameters are measured."""
import itertools

import numpy as np

from .env import make_sampler, quiet

PROPERTY = "C27"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations and units (scale and sign-preserving shift of every parameter) on complete runs of the real code, each compared iteration by iteration with the run in the original units"
LEVEL_NOTE = ("Every configuration of the grid (kernel, preconditioning, kind of parameter, transform, resampling, boundary conditions, blobs, zero-likelihood regions) with every unit vector from a list of powers of two "
              "between 2^-30 and 2^40, mixed ones included, and shifts of the origin; the original run is the reference. Rounding tolerance 1e-6; small ensembles.")
RULE = "a case is one configuration with one choice of units; states are distinct histories"
ASSUMPTIONS = ["the user's prior and likelihood express the same model in the new units", "the random stream is the same in both runs"]
CPU_LIMIT = 300

BASE = dict(n_active=4, n_effective=8, n_total=12, n_max_steps=3, seed=5)
UNITS = [(2.0 ** -20,) * 3, (2.0 ** 24,) * 3, (2.0 ** -9, 2.0 ** 13, 2.0 ** 2), (2.0 ** 40, 2.0 ** -30, 1.0), (0.5, 0.5, 0.5)]
SHIFTS = [(64.0, -32.0, 16.0), (-3.0, 7.5, 1024.0)]


def configs(tier):
    for pre, sample, kinds in itertools.product((False, True), ("tpcn", "rwm"), ("U", "N", "UN", "ER", "NB", "UNE", "RBN")):
        yield dict(BASE, precondition=pre, sample=sample, kinds=kinds, n_evidence=6 if pre else 0)
    for pre, sample, tr, res, metric in itertools.product((False, True), ("tpcn", "rwm"), ("probit", "logit"), ("mult", "syst"), ("ess", "uss")):
        if tier == "quick" and (tr == "logit") != (res == "syst"):
            continue
        yield dict(BASE, precondition=pre, sample=sample, kinds="BU", transform=tr, resample=res, metric=metric, region="ninf", hole="corner", blob="pair", dynamic=metric == "ess", sharp=1.0)
    for pre, sample, (per, refl) in itertools.product((False, True), ("tpcn", "rwm"), (([0], None), (None, [0]), ([1], [0]))):
        yield dict(BASE, precondition=pre, sample=sample, kinds="UB", periodic=per, reflective=refl, sharp=1.0)
    for pre in (False, True):
        yield dict(BASE, precondition=pre, kinds="UN", prior="real", n_evidence=5)
    yield dict(BASE, precondition=True, kinds="UN", flow="maf3", train_config=dict(epochs=2), n_evidence=5)
    yield dict(BASE, precondition=False, kinds="UN", n_active=16, n_effective=32, n_total=64)
    yield dict(BASE, precondition=True, kinds="NE", n_active=16, n_effective=32, n_total=64, sample="rwm")


def cases(tier):
    for cfg in configs(tier):
        for seed in (5,) if tier == "quick" else (5, 6, 7, 8, 9, 10):
            c = dict(cfg, seed=seed)
            for k in range(len(UNITS)):
                yield dict(cfg=c, unit=k, shift=None)
            for k in range(len(SHIFTS)):
                yield dict(cfg=c, unit=None, shift=k)
            if tier != "quick":
                for a, b in itertools.product(range(len(UNITS)), range(len(SHIFTS))):
                    yield dict(cfg=c, unit=a, shift=b)


class Units:
    """x (new units) = s * y (original units) + h"""

    def __init__(self, s, h):
        self.s, self.h = np.asarray(s, float), np.asarray(h, float)

    def back(self, x):
        return (np.asarray(x, float) - self.h) / self.s

    def to(self, y):
        return np.asarray(y, float) * self.s + self.h


class UnitPrior:
    def __init__(self, p, u):
        self.p, self.u, self.dim = p, u, p.dim
        self.bounds = np.stack([u.to(p.bounds[:, 0]), u.to(p.bounds[:, 1])], axis=1)

    def logpdf(self, x):
        y = self.u.back(x)
        b = np.asarray(self.bounds, float)
        inside = ((x >= b[:, 0]) & (x <= b[:, 1])).all(axis=1)
        o = np.asarray(self.p.bounds, float)
        return np.where(inside, self.p.logpdf(np.clip(y, o[:, 0], o[:, 1])), -np.inf) - np.sum(np.log(self.u.s))

    def rvs(self, size=1):
        return self.u.to(self.p.rvs(size))


class UnitLike:
    def __init__(self, l, u):
        self.l, self.u = l, u

    def __call__(self, x, *a, **k):
        return self.l(self.u.back(x), *a, **k)


def real_prior(kinds, u):
    import pocomc
    from scipy import stats
    d = []
    for i, k in enumerate(kinds):
        s, h = u.s[i], u.h[i]
        d.append(stats.uniform(-1.0 * s + h, 3.0 * s) if k == "U" else stats.norm(0.3 * s + h, 1.5 * s))
    return pocomc.Prior(d)


def execute(cfg, u):
    import pocomc

    def cls(p, l, **kw):
        if cfg.get("prior") == "real":
            return pocomc.Sampler(real_prior(cfg["kinds"], u), UnitLike(l, u), **kw)
        return pocomc.Sampler(UnitPrior(p, u), UnitLike(l, u), **kw)
    with quiet():
        s, _, _ = make_sampler({k: v for k, v in cfg.items() if k != "prior"}, cls=cls)
        s.run(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False)
        post = s.posterior()
    return s, s.results, post


def run_case(case, rec):
    cfg = case["cfg"]
    d = len(cfg["kinds"])
    one = Units(np.ones(d), np.zeros(d))
    s = UNITS[case["unit"]][:d] if case["unit"] is not None else np.ones(d)
    h = SHIFTS[case["shift"]][:d] if case["shift"] is not None else np.zeros(d)
    u = Units(s, np.asarray(h) * s)
    if cfg.get("region") and not batches_finite(cfg):
        rec.state("skipped")
        return
    a, ra, pa = execute(cfg, one)
    b, rb, pb = execute(cfg, u)
    rec.trace(2)
    rec.step(2 * ra["logl"].size)
    rec.state(ra["x"], case["unit"], case["shift"])
    info = dict(units=list(s), origin=list(u.h), config={k: v for k, v in cfg.items() if v is not None})
    exact = cfg.get("flow") is None
    tol = 1e-6 if exact else 1e-3
    if len(ra["iter"]) != len(rb["iter"]):
        return rec.fail("the number of iterations depends on the units", original=len(ra["iter"]), new=len(rb["iter"]), beta=[ra["beta"], rb["beta"]], **info)
    for k in ("beta", "calls", "steps", "iter", "ess", "logz", "accept", "efficiency", "logl", "u"):
        x, y = np.asarray(ra[k], float), np.asarray(rb[k], float)
        if x.shape != y.shape or not (np.abs(x - y) <= tol * (1 + np.abs(x))).all():
            t = first(x, y, tol)
            return rec.fail("%s depends on the units of the parameters" % k, iteration=t, original=x[t], new=y[t], **info)
    jac = np.sum(np.log(s))
    x, y = np.asarray(ra["x"]), u.back(rb["x"])
    scale = 1 + np.abs(x)
    if not (np.abs(x - y) <= tol * scale).all():
        return rec.fail("positions depend on the units of the parameters", iteration=first(x, y, tol), **info)
    for k, c in (("logp", -jac), ("logdetj", jac)):
        x, y = np.asarray(ra[k], float) + c, np.asarray(rb[k], float)
        if not (np.abs(x - y) <= tol * (1 + np.abs(x) + np.abs(jac))).all():
            return rec.fail("%s does not change by the volume factor of the units" % k, iteration=first(x, y, tol), expected=x[first(x, y, tol)], got=y[first(x, y, tol)], **info)
    (za, ea), (zb, eb) = a.evidence(), b.evidence()
    if abs(za - zb) > 2e-3 * (1 + abs(za)) if cfg["precondition"] and cfg.get("n_evidence") else abs(za - zb) > tol * (1 + abs(za)):
        return rec.fail("the evidence depends on the units of the parameters", original=za, new=zb, **info)
    if (ea is None) != (eb is None):
        return rec.fail("the error of the evidence depends on the units", original=ea, new=eb, **info)
    if len(pa[0]) != len(pb[0]) or not (np.abs(pa[0] - u.back(pb[0])) <= tol * (1 + np.abs(pa[0]))).all() or not np.allclose(pa[1], pb[1], rtol=1e-5, atol=1e-9):
        return rec.fail("the posterior depends on the units of the parameters", **info)
    rec.sample = info


def batches_finite(cfg):
    from .c03 import batches_ok
    return batches_ok(cfg)


def first(x, y, tol):
    if x.shape != y.shape:
        return 0
    bad = ~(np.abs(x - y) <= tol * (1 + np.abs(x)))
    return int(np.flatnonzero(bad.reshape(len(x), -1).any(axis=1))[0]) if bad.any() else 0

"""C18: the prior is exactly the product of its component distributions."""
import itertools
import math

import numpy as np
from scipy import stats

from .env import quiet

PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all ordered lists of component distributions and all lattice points; scripted components that label every draw"
LEVEL_NOTE = ("All ordered selections with repetition of up to 3 components out of 9 (thorough: up to 4), every lattice point (inside, on and outside of every support), "
              "evaluated alone, in one batch and in reversed batches; draws are traced by components that return unique numbers.")
RULE = "a case is one ordered list of components; states are distinct (list, point) values and traced draws"
ASSUMPTIONS = ["components behave like frozen scipy.stats distributions (logpdf, rvs(size), support)"]
CHUNK = 8

COMP = {
    "norm": (lambda: stats.norm(0.3, 1.5), [0.3, -4.0, 60.0]),
    "unif": (lambda: stats.uniform(-1.0, 3.0), [0.2, -1.0, 2.0, 2.5, -7.0]),
    "expo": (lambda: stats.expon(1.0, 0.5), [1.0, 1.7, 0.5, 400.0]),
    "beta": (lambda: stats.beta(2.0, 3.5), [0.4, 0.01, 1.2, -0.1]),
    "wmax": (lambda: stats.weibull_max(1.7, 0.5), [-0.5, -3.0, 0.7]),
    "t": (lambda: stats.t(2.5, 1.0, 0.1), [1.0, -900.0]),
    "logn": (lambda: stats.lognorm(0.6), [0.8, -0.5, 30.0]),
    "trun": (lambda: stats.truncnorm(-1.0, 2.0, 4.0, 3.0), [4.0, 1.0, 10.0, 10.5]),
    "wide": (lambda: stats.uniform(-1e6, 2e6), [5.0, -2e6]),
}


def cases(tier):
    names = list(COMP)
    yield dict(names=[])
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for sel in itertools.product(names, repeat=k):
            yield dict(names=list(sel))
    for k in (1, 2, 3, 4):
        for size in (1, 2, 3, 7, 1025, 5000) if k < 4 else (1, 2, 3, 7):
            for same in itertools.product(range(k), repeat=k):
                yield dict(names=None, dim=k, size=size, same=list(same))
    for names in (["unif"], ["norm", "unif"], ["expo", "wmax"], ["beta", "norm", "trun"], ["unif", "unif"]):
        for pre in (False, True):
            yield dict(run=True, names=names, pre=pre)


class Labelled:
    """A component whose draws are unique numbers"""
    def __init__(self, k):
        self.k, self.n = k, 0

    def rvs(self, size=1, random_state=None):
        m = int(np.prod(size))
        v = 100000.0 * (self.k + 1) + self.n + np.arange(m)
        self.n += m
        return v.reshape(size)

    def logpdf(self, x):
        return -np.abs(np.asarray(x, float)) * (self.k + 1)

    def support(self):
        return (-1.0 * self.k, 10.0 + self.k)


def run_case(case, rec):
    from pocomc import Prior
    if case.get("run"):
        return in_sampler(case, rec)
    if case["names"] is None:
        comps = [Labelled(i) for i in range(case["dim"])]
        sel = [comps[j] for j in case["same"]]
        p = Prior(sel)
        seen = set()
        for rep in range(3):
            r = np.asarray(p.rvs(case["size"]) if rep != 1 else p.rvs(size=case["size"]))
            rec.trace()
            if r.shape != (case["size"], len(sel)):
                return rec.fail("samples have shape %s" % (r.shape,), size=case["size"], dim=len(sel))
            for i, j in enumerate(case["same"]):
                for v in r[:, i]:
                    if int(v) // 100000 != j + 1 or v in seen:
                        return rec.fail("column %d holds a value that was not drawn (once) from component %d" % (i, j), value=v, samples=r)
                    seen.add(float(v))
            rec.state(case["same"], case["size"], rep, r)
        r = np.asarray(p.rvs())
        if r.shape != (1, len(sel)):
            return rec.fail("one sample has shape %s" % (r.shape,))
        if p.dim != len(sel) or not np.array_equal(np.asarray(p.bounds, float), [c.support() for c in sel]):
            return rec.fail("dimension or bounds are wrong", dim=p.dim, bounds=p.bounds)
        return
    names = case["names"]
    if not names:
        if Prior([]).dim != 0:
            rec.fail("an empty prior has dimension %r" % Prior([]).dim)
        return
    dists = [COMP[n][0]() for n in names]
    ref = [COMP[n][0]() for n in names]
    p = Prior(dists)
    if p.dim != len(names):
        return rec.fail("dimension %r for %d components" % (p.dim, len(names)))
    b = np.asarray(p.bounds, float)
    if b.shape != (len(names), 2) or not np.array_equal(b, np.array([d.support() for d in ref], float)):
        return rec.fail("bounds are not the supports of the components", bounds=b)
    one = [{x: float(d.logpdf(x)) for x in COMP[n][1]} for n, d in zip(names, ref)]
    pts = list(itertools.product(*[COMP[n][1] for n in names]))
    want = []
    for pt in pts:
        vals = [o[x] for o, x in zip(one, pt)]
        want.append(-math.inf if -math.inf in vals else math.fsum(vals))
    want = np.array(want)
    arr = np.array(pts, float)

    def compare(got, want, x, how):
        got = np.asarray(got)
        if got.shape != want.shape:
            rec.fail("log-density has shape %s for %d points (%s)" % (got.shape, len(want), how), names=names)
            return False
        fin = np.isfinite(want)
        bad = np.flatnonzero(np.where(fin, ~(np.abs(np.where(fin, got - np.where(fin, want, 0), 0)) <= 1e-9 * (1 + np.abs(np.where(fin, want, 0)))), got != want))
        if len(bad):
            k = bad[0]
            rec.fail("log-density is %r, the sum of the component log-densities is %r" % (float(got[k]), float(want[k])), names=names, point=x[k], evaluated=how)
            return False
        return True
    keep = arr.copy()
    if not compare(p.logpdf(arr), want, arr, "one batch"):
        return
    if not np.array_equal(arr, keep):
        return rec.fail("evaluating the density changed the points", names=names)
    if not compare(p.logpdf(arr[::-1]), want[::-1], arr[::-1], "reversed batch"):
        return
    if not compare(p.logpdf(np.asfortranarray(arr)), want, arr, "column-major batch"):
        return
    for k in range(len(arr)):
        if not compare(p.logpdf(arr[k:k + 1]), want[k:k + 1], arr[k:k + 1], "single point"):
            return
        rec.state(names, pts[k])
    rec.trace(3 + len(arr))
    rec.step(len(names) * len(arr))
    for size in (1000, 5001) if len(names) <= 2 else ():
        rep = np.resize(np.arange(len(arr)), size)
        if not compare(p.logpdf(arr[rep]), want[rep], arr[rep], "batch of %d" % size):
            return
        np.random.seed(3)
        r = np.asarray(p.rvs(size))
        if r.shape != (size, len(names)) or any(len(np.unique(r[:, i])) < 0.9 * size for i in range(len(names))):
            return rec.fail("%d samples have shape %s or repeat" % (size, r.shape), names=names)
    if np.asarray(p.logpdf(arr[:0])).shape != (0,):
        return rec.fail("the density of no points is not empty")
    for size in (1, 4):
        np.random.seed(7)
        r = np.asarray(p.rvs(size))
        if r.shape != (size, len(names)) or not np.isfinite(p.logpdf(r)).all():
            return rec.fail("samples have shape %s or zero density" % (r.shape,), names=names)
        if size > 1:
            for i, j in itertools.combinations(range(len(names)), 2):
                if names[i] == names[j] and np.array_equal(r[:, i], r[:, j]):
                    return rec.fail("two parameters always get the same draw", names=names, samples=r)
    rec.sample = dict(components=names, points=len(pts), example=list(pts[-1]), logpdf=float(want[-1]))


def in_sampler(case, rec):
    """The sampler sees exactly this prior."""
    import pocomc
    from pocomc import Prior
    from .env import KnownFlow
    names = case["names"]
    ref = [COMP[n][0]() for n in names]
    with quiet():
        s = pocomc.Sampler(Prior([COMP[n][0]() for n in names]), lambda x: -0.5 * float(np.sum((x - 0.4) ** 2)) * 0.1, n_active=6, n_effective=12, random_state=1,
                           precondition=case["pre"], flow=KnownFlow(len(names)), train_config=dict(epochs=1), n_max_steps=2)
        s.run(n_total=12, n_evidence=0, progress=False)
    rec.trace()
    r = s.results
    for t in range(len(r["x"])):
        for k in range(len(r["x"][t])):
            x = r["x"][t][k]
            want = math.fsum(float(d.logpdf(v)) for d, v in zip(ref, x))
            if not abs(r["logp"][t][k] - want) <= 1e-9 * (1 + abs(want)):
                return rec.fail("stored log-prior is %r, the product density is %r" % (float(r["logp"][t][k]), want), x=x, names=names)
            rec.state(x)
            rec.step()

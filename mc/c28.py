"""C28: flow and proposals are adapted to the current weighted ensemble, and only then."""
import inspect
import itertools

import numpy as np

from . import ref
from .core import Skip, digest
from .env import make_sampler, quiet, scratch
from .rng import Poison

PROPERTY = "C28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations, training frequencies, random streams and continuation points on complete runs of the real code; what each mutation stage uses is compared with a reference built from the recorded history alone"
LEVEL_NOTE = ("Every configuration of the grid (kernel, preconditioning, resampling, metric, target, transform, kinds of parameters, zero-likelihood regions, training frequency, flow), run to the end, continued in place and resumed from every checkpoint. "
              "The reference recomputes weights, trimming, moments, and (for every possible offset of the systematic resample) the Student-t fit; the Student-t fit itself is decided by C20. Small ensembles.")
RULE = "a case is one configuration, run (and continued or resumed); states are distinct fitted geometries"
ASSUMPTIONS = ["the sampler keeps its geometry in u_geometry and theta_geometry, its flow in flow and its scaler in scaler", "user functions are pure"]
CPU_LIMIT = 300


def configs(tier):
    for pre, sample, res, metric, dyn in itertools.product((False, True), ("tpcn", "rwm"), ("mult", "syst"), ("ess", "uss"), (True, False)):
        for kinds, region in (("UN", None), ("RB", "ninf"), ("UNE", None)):
            yield dict(precondition=pre, sample=sample, resample=res, metric=metric, dynamic=dyn, kinds=kinds, region=region, transform="logit" if kinds == "RB" else "probit", n_active=5, n_effective=10, n_total=20, sharp=12.0)
    for f, sample in itertools.product((1, 2, 3, 5, None), ("tpcn", "rwm")):
        yield dict(precondition=True, sample=sample, train_frequency=f, kinds="UN", n_active=5, n_effective=20, n_total=40, sharp=40.0, dynamic=False)
        yield dict(precondition=True, sample=sample, train_frequency=f, kinds="NB", n_active=6, n_effective=18, n_total=60, sharp=40.0, flow="maf3", train_config=dict(epochs=2))
    for pre in (False, True):
        yield dict(precondition=pre, kinds="N", n_active=4, n_effective=12, n_total=30, sharp=100.0)
        yield dict(precondition=pre, kinds="UB", n_active=6, n_effective=12, n_total=24, sharp=8.0, periodic=[0], reflective=[1])
        yield dict(precondition=pre, kinds="UN", n_active=16, n_effective=64, n_total=128, sharp=30.0)
        yield dict(precondition=pre, kinds="UN", n_active=5, n_effective=10, n_total=40, sharp=0.0)


def cases(tier):
    for cfg in configs(tier):
        for seed in (5, 6) if tier == "quick" else range(12):
            c = dict(cfg, seed=seed)
            yield dict(cfg=c, how="run")
            if tier != "quick" or seed == 5:
                yield dict(cfg=c, how="continue")
        if tier != "quick" or cfg["kinds"] in ("UN", "NB"):
            yield dict(cfg=dict(cfg, seed=5), how="resume")


def geo(g):
    return {k: np.array(getattr(g, k), float) for k in ("normal_mean", "normal_cov", "t_mean", "t_cov", "t_nu") if getattr(g, k) is not None}


def params(flow):
    return digest(*[p.detach().numpy().copy() for p in flow.flow.parameters()])


class Watch:
    """What the sampler holds when the prior is first called in an iteration, and the trainings before it."""

    def __init__(self, prior):
        self.s, self.stages, self.fits = None, {}, {}
        pure = prior.logpdf

        def logpdf(x):
            self.look()
            return pure(x)
        prior.logpdf = logpdf

    def look(self):
        s = self.s
        if s is None:
            return
        t = len(s.particles.get("iter"))
        if t in self.stages or not t:
            return
        try:
            grid = np.linspace(-1.3, 1.2, 4 * s.n_dim).reshape(4, s.n_dim)
            x = s.scaler.inverse(grid)
            self.stages[t] = dict(u=geo(s.u_geometry), theta=geo(s.theta_geometry), flow=params(s.flow), scaler=np.r_[np.ravel(x[0]), np.ravel(x[1])], image=self.image())
        except AttributeError as e:
            raise Skip("no such attribute: %s" % e)

    def image(self):
        from pocomc.tools import flow_numpy_wrapper
        u = np.concatenate(self.s.particles.get("u"))
        th, _ = flow_numpy_wrapper(self.s.flow).forward(u)
        return np.array(th, float)

    def fitted(self, a):
        t = len(self.s.particles.get("iter"))
        self.fits.setdefault(t, []).append((np.array(a["x"], float), None if a["weights"] is None else np.array(a["weights"], float)))

    def trained(self):
        t = len(self.s.particles.get("iter"))
        self.after = getattr(self, "after", {})
        self.after[t] = params(self.s.flow)


class FitSpy:
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        import pocomc.flow
        self.F = pocomc.flow.Flow
        self.orig = orig = self.F.fit
        sig = inspect.signature(orig)
        w = self.w

        def fit(this, *a, **k):
            b = sig.bind(this, *a, **k)
            b.apply_defaults()
            w.fitted(b.arguments)
            out = orig(this, *a, **k)
            w.trained()
            return out
        self.F.fit = fit

    def __exit__(self, *a):
        self.F.fit = self.orig


def trimmed(p):
    """(kept mask, borderline) for 99 percent of the effective sample size on a grid of 1000 percentiles"""
    full = ref.ess(p)
    grid = np.linspace(0, 99, 1000)
    thr = np.percentile(p, grid)
    levels = {}
    for q in np.unique(thr):
        m = p >= q
        levels[q] = (m, ref.ess(p[m]) / full)
    last = None
    border = any(abs(r - 0.99) < 1e-9 for _, r in levels.values())
    for q in thr[::-1]:
        if levels[q][1] >= 0.99:
            last = levels[q][0]
            break
    return (last if last is not None else np.ones(len(p), bool)), border


def moments(pts, w):
    m = (w[:, None] * pts).sum(0) / w.sum()
    w = w / w.sum()
    C = np.einsum("k,ki,kj->ij", w, pts - m, pts - m) / (1.0 - (w ** 2).sum())
    return m, C


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (np.abs(a - b) <= tol * (1 + np.abs(b).max())).all()


def t_fits(pts, w):
    """the Student-t fits of all equally weighted systematic resamples"""
    from pocomc.student import fit_mvstud
    n = len(pts)
    c = np.cumsum(w / w.sum())
    c[-1] = 1.0
    cuts = np.unique(np.r_[0.0, np.sort((n * c) % 1.0), 1.0])
    seen = set()
    for a, b in zip(cuts[:-1], cuts[1:]):
        if b - a < 1e-13:
            continue
        idx = np.minimum(np.searchsorted(c, (np.arange(n) + 0.5 * (a + b)) / n, side="right"), n - 1)
        if tuple(idx) in seen:
            continue
        seen.add(tuple(idx))
        try:
            mu, S, nu = fit_mvstud(pts[idx])
        except Exception:  # noqa: BLE001  (a resample of one point: cannot be the one that was used)
            continue
        yield mu, S, (nu if np.isfinite(nu) else 1e6)


def fitted_to(g, pts, w, tol):
    if not g:
        return "nothing is fitted"
    m, C = moments(pts, w)
    if not near(g["normal_mean"], m, tol):
        return "mean %s instead of %s" % (g["normal_mean"], m)
    if not near(g["normal_cov"], C, tol):
        return "covariance %s instead of %s" % (g["normal_cov"].tolist(), C.tolist())
    best = None
    for mu, S, nu in t_fits(pts, w):
        if near(g["t_mean"], mu, tol) and near(g["t_cov"], S, 10 * tol) and abs(g["t_nu"] - nu) <= 10 * tol * (1 + abs(nu)) + 1e-3 * nu:
            return None
        best = mu
    if best is None:
        return None
    return "location %s, scale %s and degrees %s of the t distribution fit no systematic resample of the ensemble" % (g["t_mean"], g["t_cov"].tolist(), g["t_nu"])


def same_geo(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a)


def audit(w, s, rec, first, cfg, **info):
    r = s.results
    T, n = len(r["iter"]), s.n_active
    beta, logz, logl = np.asarray(r["beta"]), np.asarray(r["logz"]), np.asarray(r["logl"])
    u = np.asarray(r["u"])
    after = getattr(w, "after", {})
    prev = None
    freq = cfg.get("train_frequency")
    for t in range(first, T):
        st = w.stages.get(t)
        if st is None:
            raise Skip("the prior is not called in the mutation stage")
        where = dict(iteration=t, beta=beta[t], **info)
        lw, _ = ref.balance(logl[:t], beta[:t], logz[:t], beta[t])
        p = np.exp(lw - lw.max())
        p /= p.sum()
        keep, border = trimmed(p)
        pts, wt = u[:t].reshape(-1, u.shape[-1])[keep], p[keep] / p[keep].sum()
        rec.step(len(p))
        if prev is not None and not np.array_equal(st["scaler"], prev["scaler"]):
            return rec.fail("the parameter transform changes during the run", **where)
        if not cfg["precondition"]:
            if t in w.fits:
                return rec.fail("the flow is trained although preconditioning is off", **where)
            bad = None if border else fitted_to(st["u"], pts, wt, 1e-7)
            if bad:
                return rec.fail("the proposal of this iteration is not fitted to its weighted ensemble: " + bad, **where)
            rec.state(st["u"]["normal_mean"], st["u"]["t_cov"])
        else:
            fits = w.fits.get(t, [])
            if (freq == 1 or beta[t] == 1.0 or t == warm(s)) and not fits:
                return rec.fail("the flow is not trained in this iteration", frequency=freq, **where)
            if len(fits) > 1:
                return rec.fail("the flow is trained %d times in this iteration" % len(fits), **where)
            if fits and not border:
                x, fw = fits[0]
                if not near(x, pts, 1e-6):
                    return rec.fail("the flow is trained on %d points that are not the %d points of the ensemble" % (len(x), len(pts)), **where)
                if fw is None or not near(fw / fw.sum(), wt, 1e-6):
                    return rec.fail("the flow is trained with other weights than those of the ensemble", used=fw, expected=wt, **where)
            if fits:
                bad = None if border else fitted_to(st["theta"], st["image"][keep], wt, 1e-4)
                if bad:
                    return rec.fail("the proposal after training is not fitted to the image of the ensemble: " + bad, **where)
                if after.get(t) != st["flow"]:
                    return rec.fail("the flow used for the proposals is not the one that was trained", **where)
                rec.state(st["theta"]["normal_mean"], st["theta"]["t_cov"])
            elif prev is not None:
                if not same_geo(st["theta"], prev["theta"]):
                    return rec.fail("the proposal changes although the flow was not trained", **where)
                if st["flow"] != prev["flow"]:
                    return rec.fail("the flow changes outside training", **where)
        prev = st
    return None


def sampler(cfg, **over):
    import pocomc
    w = []

    def cls(p, l, **kw):
        w.append(Watch(p))
        return pocomc.Sampler(p, l, **kw)
    s, _, _ = make_sampler({k: v for k, v in cfg.items() if v is not None}, cls=cls, **over)
    w[0].s = s
    return s, w[0]


def run_case(case, rec):
    cfg = case["cfg"]
    from .c03 import batches_ok
    if cfg.get("region") and not batches_ok(cfg):
        rec.state("skipped")
        return
    info = dict(how=case["how"], config={k: v for k, v in cfg.items() if v is not None})
    with quiet(), Poison():
        if case["how"] != "resume":
            s, w = sampler(cfg)
            with FitSpy(w):
                s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
                if case["how"] == "continue":
                    s.run(n_total=cfg["n_total"] * 2, n_evidence=7 if cfg["precondition"] else 0, progress=False)
            rec.trace()
            first = warm(s)
            audit(w, s, rec, first, cfg, **info)
            rec.sample = dict(info, iterations=len(s.results["iter"]))
            return
        with scratch() as d:
            import os
            s, w = sampler(cfg, output_dir=d)
            with FitSpy(w):
                s.run(n_total=cfg["n_total"], n_evidence=0, progress=False, save_every=1)
            files = sorted(f for f in os.listdir(d) if f.endswith(".state"))
            rec.trace()
            first = warm(s)
            for f in files:
                s2, w2 = sampler(dict(cfg, seed=cfg["seed"] + 50))
                with FitSpy(w2):
                    s2.load_state(os.path.join(d, f))
                    t0 = len(s2.particles.get("iter")) if s2.t else 0
                    s2.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
                rec.trace()
                if t0 > first and t0 < len(s2.results["iter"]) and cfg["precondition"] and t0 not in w2.fits and t0 in w2.stages and t0 - 1 in w.stages:
                    if not same_geo(w2.stages[t0]["theta"], w.stages[t0 - 1]["theta"]):
                        return rec.fail("the proposal after resuming is not the one of the saved run", checkpoint=f, **info)
                    if w2.stages[t0]["flow"] != w.stages[t0 - 1]["flow"]:
                        return rec.fail("the flow after resuming is not the one of the saved run", checkpoint=f, **info)
                if audit(w2, s2, rec, max(t0, first), cfg, checkpoint=f, **info):
                    return


def warm(s):
    return s.n_prior // s.n_active

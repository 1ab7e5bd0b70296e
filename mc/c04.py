"""C04: importance weights and SMC evidence are the exact balance-heuristic estimate."""
import itertools

import numpy as np

from . import full, ref
from .core import Skip

PROPERTY = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive lattice of particle histories against a reference estimator, plus complete runs whose every iteration is recomputed from the history before it"
LEVEL_NOTE = ("Every history over a lattice of up to three iterations and three particles with ordinary and extreme log-likelihoods, every ladder and normalisation of a "
              "lattice; complete runs of the option grid. The reference sums in exactly rounded arithmetic. Lattice values only.")
RULE = "a case fixes iterations, particles, ladder and normalisations and enumerates every assignment of log-likelihoods; or is one complete run"
ASSUMPTIONS = ["user functions are pure"]

LL = (-2.5, 0.0, 1.75)
LLX = (-1200.0, -0.4, 900.0)


def cases(tier):
    for T, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2) if tier != "quick" else (1, 4), (2, 3) if tier != "quick" else (1, 2), (4, 1)):
        for betas in {1: [(0.0,), (1.0,)], 2: [(0.0, 0.0), (0.0, 0.3), (0.0, 1.0), (0.2, 1.0)], 3: [(0.0, 0.1, 0.6), (0.0, 0.0, 1.0), (0.0, 1.0, 1.0)],
                      4: [(0.0, 0.2, 0.7, 1.0)]}[T]:
            for zi in range(2):
                for lat in ("ord", "ext"):
                    yield dict(kind="lattice", T=T, n=n, betas=betas, zi=zi, lat=lat)
    for T, n in ((2, 513), (37, 64), (130, 9), (300, 4), (1, 5000)):
        for shape in range(3):
            yield dict(kind="long", T=T, n=n, shape=shape)
    for pre, sample, metric, dyn, region in itertools.product((False, True), ("tpcn", "rwm"), ("ess", "uss"), (True, False), (None, "ninf")):
        for off in (0.0, -5000.0, 800.0):
            yield dict(kind="run", cfg=dict(kinds="UN", precondition=pre, sample=sample, metric=metric, dynamic=dyn, region=region, seed=6, n_active=6,
                                            n_effective=12, n_total=14, n_evidence=0, offset=off, sharp=2.0))
    for region in ("ninf", "nan", "both"):
        for seed in range(4 if tier == "quick" else 16):
            for n_active, n_eff in ((4, 8), (6, 18), (5, 10)):
                yield dict(kind="const", region=region, seed=seed, n_active=n_active, n_effective=n_eff)
    for off in (-700.0, 3.0, 1e4):
        for pre in (False, True):
            for sample in ("tpcn", "rwm"):
                yield dict(kind="shift", off=off, cfg=dict(kinds="UN", precondition=pre, sample=sample, seed=9, n_active=6, n_effective=12, n_total=14))


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def close(a, b, scale=1.0):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-9 * (1.0 + scale))


def k_lattice(case, rec):
    from pocomc.particles import Particles
    T, n, betas = case["T"], case["n"], case["betas"]
    lat = LL if case["lat"] == "ord" else LLX
    zs = ([0.0, -0.7, 1.2, 0.4] if case["zi"] == 0 else [0.0, 35.0, -410.0, -3.0])[:T]
    for vals in itertools.product(lat, repeat=T * n):
        logl = np.array(vals).reshape(T, n)
        p = Particles(n, 1)
        for t in range(T):
            p.update(dict(u=np.zeros((n, 1)), x=np.zeros((n, 1)), logl=logl[t].copy(), logp=np.zeros(n), logdetj=np.zeros(n), beta=betas[t],
                          logz=zs[t], iter=t, calls=0, steps=1, efficiency=1.0, ess=1.0, accept=1.0, logw=np.zeros(n)))
        for bf in (0.0, 0.45, 1.0):
            lw, lz = p.compute_logw_and_logz(bf)
            elw, elz = ref.balance(logl, betas, zs, bf)
            rec.trace()
            rec.step(T * n)
            sc = np.abs(logl).max() + np.abs(zs).max()
            if np.shape(lw) != (T * n,) or not close(lw, elw, sc) or not close(lz, elz, sc):
                return rec.fail("weights or evidence differ from the balance heuristic", logl=logl, betas=betas, logz=zs, beta=bf, got=[lw, lz], expected=[elw, elz])
            if abs(ref.lse(lw)) > 1e-9:
                return rec.fail("log-weights are not normalised", logl=logl, got=lw)
            rec.state(np.round(lw, 6), round(float(lz), 6))
            if case["lat"] == "ord":
                un, uz = p.compute_logw_and_logz(bf, normalize=False)
                if not close(un - ref.lse(un), elw, sc) or not close(ref.lse(un) - np.log(len(un)), elz, sc):
                    return rec.fail("unnormalised log-weights are inconsistent", logl=logl)
        r = p.compute_results()
        if not close(r["logw"], ref.balance(logl, betas, zs, 1.0)[0], np.abs(logl).max() + np.abs(zs).max()):
            return rec.fail("reported log-weights differ from the balance heuristic at full posterior", logl=logl)
        if not np.array_equal(p.get("logl"), logl) or not np.array_equal(p.get("beta"), betas) or not np.array_equal(p.get("logz"), zs):
            return rec.fail("computing weights changed the history")
    rec.sample = dict(case)


def k_long(case, rec):
    """Long histories: the sums run over all iterations and particles."""
    from pocomc.particles import Particles
    T, n = case["T"], case["n"]
    i = np.arange(T * n, dtype=float).reshape(T, n)
    logl = [-3.0 * np.sin(i * 1.7) ** 2, -50.0 * np.cos(i * 0.37) ** 2 - 800.0, 20.0 * np.sin(i) + i / (T * n)][case["shape"]]
    betas = np.linspace(0.0, 1.0, T) ** 2
    betas[:T // 5] = 0.0
    zs = betas * [-1.4, -820.0, 6.0][case["shape"]]
    p = Particles(n, 1)
    for t in range(T):
        p.update(dict(u=np.zeros((n, 1)), x=np.zeros((n, 1)), logl=logl[t].copy(), logp=np.zeros(n), logdetj=np.zeros(n), beta=betas[t],
                      logz=zs[t], iter=t, calls=0, steps=1, efficiency=1.0, ess=1.0, accept=1.0, logw=np.zeros(n)))
        if t % max(1, T // 6) == 0 or t == T - 1:
            for bf in (0.0, 0.2, 1.0):
                lw, lz = p.compute_logw_and_logz(bf)
                elw, elz = ref.balance(logl[:t + 1], betas[:t + 1], zs[:t + 1], bf)
                rec.trace()
                rec.step((t + 1) * n)
                if np.shape(lw) != ((t + 1) * n,) or not close(lw, elw, 1000.0) or not close(lz, elz, 1000.0):
                    return rec.fail("weights or evidence of a long history differ from the balance heuristic", iterations=t + 1, particles=n, beta=bf, got=lz, expected=elz)
                rec.state(round(float(lz), 9))
    if not close(p.compute_results()["logw"], ref.balance(logl, betas, zs, 1.0)[0], 1000.0):
        return rec.fail("reported log-weights differ from the balance heuristic at full posterior", iterations=T, particles=n)
    rec.sample = dict(case)


def audit_run(d, rec):
    r = d.res
    logl, beta, logz = np.asarray(r["logl"]), np.asarray(r["beta"]), np.asarray(r["logz"])
    n = logl.shape[1]
    sc = np.abs(logl).max()
    x = np.asarray(r["x"])
    lw, lz = ref.balance(logl, beta, logz, 1.0)
    if not close(r["logw"], lw, sc):
        return rec.fail("reported log-weights differ from the balance heuristic over the whole history")
    if not (d.cfg.get("precondition") and d.cfg.get("n_evidence", 0)):
        z, err = d.s.evidence()
        if not close(z, lz, sc) or err is not None:
            return rec.fail("final SMC evidence differs from the balance heuristic", got=z, expected=lz, err=err)
    for t in range(1, len(beta)):
        if beta[t] > beta[t - 1]:
            ez = ref.balance(logl[:t], beta[:t], logz[:t], beta[t])[1]
            if not close(logz[t], ez, sc):
                return rec.fail("evidence recorded at iteration %d is not the estimate from the history before it" % t, got=logz[t], expected=ez)
        elif logz[t] != logz[t - 1]:
            # at an unchanged temperature either the earlier value or a new estimate at that temperature is right
            ez = ref.balance(logl[:t], beta[:t], logz[:t], beta[t])[1]
            if not close(logz[t], ez, sc):
                return rec.fail("evidence changed at an unchanged temperature to a wrong value", iteration=t, got=logz[t], before=logz[t - 1], estimate=ez)
        rec.step(n)


def k_run(case, rec):
    d = full.execute(case["cfg"])
    rec.trace()
    rec.state(d.res["logl"], d.res["beta"])
    audit_run(d, rec)
    rec.sample = dict(case["cfg"], betas=list(np.asarray(d.res["beta"])))


def k_const(case, rec):
    """Constant likelihood with a zero-likelihood region: the evidence is exactly c * (fraction of prior draws with finite likelihood)."""
    from .env import Like, Log, ToyPrior, quiet
    import pocomc
    n = case["n_active"]

    class Const(Like):
        def pure1(self, x):
            v = Like.pure1(self, x)
            return 2.25 if np.isfinite(v) else v
    prior = ToyPrior("UN")
    log = Log()
    like = Const(2, case["region"], log=log)
    with quiet():
        s = pocomc.Sampler(prior, like, n_active=n, n_effective=case["n_effective"], precondition=False, random_state=case["seed"], n_max_steps=2)
        s.run(n_total=case["n_effective"], n_evidence=0, progress=False)
    r = s.results
    rows = np.array(log.like_rows)
    warm = int(np.argmax(np.asarray(r["beta"]) > 0))    # a flat likelihood goes straight from the prior to the posterior
    draws = rows[:warm * n]
    f = np.isfinite(like.pure(draws)).reshape(warm, n)
    if not f.any(axis=1).all():
        raise Skip
    frac = f.mean()
    rec.trace()
    rec.step(len(rows))
    rec.state(draws)
    z, _ = s.evidence()
    if abs(z - (2.25 + np.log(frac))) > 1e-9:
        return rec.fail("evidence ignores the prior mass with zero likelihood", got=z, expected=2.25 + np.log(frac), fraction=frac)
    rec.sample = dict(case, fraction_finite=frac, logz=float(z))


def k_shift(case, rec):
    a = full.execute(case["cfg"])
    b = full.execute(dict(case["cfg"], offset=case["off"]))
    rec.trace(2)
    rec.step(len(a.tap.points))
    rec.state(a.res["x"])
    tol = 1e-7 * (1 + abs(case["off"]))
    if a.T != b.T or not np.allclose(a.res["beta"], b.res["beta"], atol=1e-6):
        # rounding may move a bisection step or an accept decision at very large offsets: compare only equal ladders
        if abs(case["off"]) <= 1000:
            return rec.fail("adding a constant to the log-likelihood changes the ladder", a=a.res["beta"], b=b.res["beta"])
        rec.state("ladder moved by rounding")
        return
    if np.allclose(a.res["x"], b.res["x"], atol=1e-6):
        za, zb = a.s.evidence()[0], b.s.evidence()[0]
        if abs(zb - za - case["off"]) > tol * 10:
            return rec.fail("adding a constant to the log-likelihood does not shift the log-evidence by it", got=zb - za, expected=case["off"])
        if not np.allclose(a.res["logw"], b.res["logw"], atol=tol * 10):
            return rec.fail("adding a constant to the log-likelihood changes the weights")
    rec.sample = dict(case)

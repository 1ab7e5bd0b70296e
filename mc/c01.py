"""C01: every particle in the history is one self-consistent point."""
import numpy as np

from . import full
from .env import BLOB_DTYPE

PROPERTY = "C01"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of complete runs: all option combinations, all executions with at most k departures from the default random choices"
LEVEL_NOTE = ("Exhaustive over the option product and over every single (thorough: every pair of) extreme random answer(s) of a small run; "
              "oracle recomputes likelihood, prior, blob and transform at every stored position. Small ensembles, two or three parameters.")
RULE = ("each case is one sampler configuration explored from the default random stream with every deviation-bounded change of the "
        "random answers (accept all/none/some, extreme proposals and scales, extreme resampling picks); states are distinct histories")
ASSUMPTIONS = ["user functions are pure", "random numbers come from numpy.random and torch",
               "ensembles made degenerate by an injected answer may raise LinAlgError (not counted as a violation)"]
CPU_LIMIT = 900


def blob_matches(stored, expect, kind):
    if kind == "str":
        return str(np.asarray(stored).reshape(-1)[0]) == expect[0]
    if kind == "struct":
        flat = np.asarray(stored).reshape(-1)[0]
        return flat["a"] == expect[0] and flat["n"] == expect[1]
    a = np.asarray(stored, dtype=float).reshape(-1)
    b = np.concatenate([np.atleast_1d(np.asarray(e, dtype=float)) for e in expect])
    return a.shape == b.shape and np.array_equal(a, b)


def check(d, rec, devs):
    r, s, cfg = d.res, d.s, d.cfg
    n = cfg.get("n_active", 4)
    dim = len(cfg["kinds"])
    T = d.T
    tol = 1e-5 if cfg.get("precondition") else 1e-9
    x = np.asarray(r["x"])
    if x.shape != (T, n, dim):
        return rec.fail("history of positions has shape %s, expected %s" % (x.shape, (T, n, dim)))
    for k in ("u",):
        if np.shape(r[k]) != (T, n, dim):
            return rec.fail("%s has shape %s" % (k, np.shape(r[k])))
    for k in ("logl", "logp", "logdetj"):
        if np.shape(r[k]) != (T, n):
            return rec.fail("%s has shape %s" % (k, np.shape(r[k])))
    for k in ("beta", "logz", "calls", "steps", "efficiency", "ess", "accept", "iter"):
        if len(r[k]) != T:
            return rec.fail("%s has %d entries for %d iterations" % (k, len(r[k]), T))
    if not np.array_equal(np.asarray(r["iter"]), np.arange(T)):
        return rec.fail("iteration labels are not 0..T-1", iter=r["iter"])
    if np.shape(r["logw"]) != (T * n,):
        return rec.fail("logw has shape %s" % (np.shape(r["logw"]),))
    for t in range(T):
        ll = d.like.pure(x[t])
        lp = d.prior.pure_logpdf(x[t])
        if not np.array_equal(ll, r["logl"][t]):
            k = int(np.argmax(ll != r["logl"][t]))
            return rec.fail("stored log-likelihood is not that of the stored position", iteration=t, particle=k,
                            x=x[t][k], stored=r["logl"][t][k], at_x=ll[k])
        if not np.allclose(lp, r["logp"][t], rtol=1e-12, atol=1e-12):
            return rec.fail("stored log-prior is not that of the stored position", iteration=t)
        xx, ld = s.scaler.inverse(np.array(r["u"][t]))
        scale = 1.0 + np.abs(x[t])
        if not np.all(np.abs(xx - x[t]) <= tol * scale):
            return rec.fail("stored latent coordinate does not map to the stored position", iteration=t, u=r["u"][t], x=x[t], back=xx)
        if not np.allclose(ld, r["logdetj"][t], rtol=tol, atol=tol * 10):
            return rec.fail("stored log-Jacobian is not that of the stored position", iteration=t, stored=r["logdetj"][t], at_u=ld)
        if cfg.get("blob"):
            for k in range(n):
                if not blob_matches(r["blobs"][t][k], d.like.blob_of(x[t][k]), cfg["blob"]):
                    return rec.fail("stored blob is not that of the stored position", iteration=t, particle=k,
                                    stored=repr(r["blobs"][t][k]), expected=repr(d.like.blob_of(x[t][k])))
    # completed iterations never change
    if d.snaps:
        final = full.history_digests(s, full.FIELDS[:6])
        for snap in d.snaps:
            for t, dg in enumerate(snap):
                if final[t] != dg:
                    k = [f for f, a, b in zip(full.FIELDS[:6], final[t], dg) if a != b]
                    return rec.fail("iteration %d was changed after it was completed: %s" % (t, k))
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, iterations=T,
                      betas=list(np.asarray(r["beta"])), deviations=[[list(a), b] for a, b in devs.items()])


def cases(tier):
    for pre in (False, True):
        for sample in ("tpcn", "rwm"):
            for k, (res, blob, region) in enumerate((("mult", None, "ninf"), ("syst", "pair", None))):
                cfg = dict(kinds="UN", precondition=pre, sample=sample, resample=res, blob=blob, region=region, seed=11 + k,
                           n_steps=1, n_max_steps=2, n_active=4, n_effective=8, n_total=6)
                yield from full.sharded(cfg, tier)
    for c in full.cheap_configs():
        for seed in (3, 4) if tier == "quick" else (3, 4, 5, 6, 7, 8):
            yield dict(cfg=dict(c, seed=seed), bound=0)
    for kinds in ("U", "N", "E", "R", "B", "UE", "RB", "ENU"):
        for pre in (False, True):
            for sample in ("tpcn", "rwm"):
                yield dict(cfg=dict(kinds=kinds, precondition=pre, sample=sample, seed=5, n_active=5, n_effective=10, n_total=10), bound=0)
                yield dict(cfg=dict(kinds=kinds, precondition=pre, sample=sample, seed=5, n_active=5, n_effective=10, n_total=10,
                                    more=20), bound=0)


def run_case(case, rec):
    cfg = case["cfg"]
    if cfg.get("more"):
        d = full.execute(cfg, watch=True)
        before = full.history_digests(d.s)
        from .env import quiet
        with quiet():
            d.s.run(n_total=cfg["more"], n_evidence=0, progress=False)
        d.res = d.s.results
        d.T = len(d.res["iter"])
        rec.trace()
        rec.step(len(d.tap.points))
        rec.state(d.res["x"])
        check(d, rec, {})
        if full.history_digests(d.s)[:len(before)] != before:
            rec.fail("continuing the run changed completed iterations")
        return
    full.explore_case(cfg, rec, check, bound=case["bound"], watch=True,
                      shard=case.get("shard", (0, 1)), kinds=case.get("only"))

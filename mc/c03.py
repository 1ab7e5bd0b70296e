"""C03: only finite points inside the prior support are evaluated and kept."""
import itertools

import numpy as np

from . import full
from .core import Skip

PROPERTY = "C03"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of complete runs over all support-pattern configurations, with every single extreme random answer injected"
LEVEL_NOTE = ("Exhaustive over kernels x bound types x zero-prior/zero-likelihood/undefined-likelihood regions and over every single (thorough: pair of) extreme "
              "random answer(s); the likelihood callback itself is the monitor. Two or three parameters, small ensembles.")
RULE = ("a case is one configuration of kernel, bounds and zero/undefined regions, run by default and with every deviation-bounded injection of extreme proposals, "
        "scales and acceptance numbers; states are distinct final histories")
ASSUMPTIONS = ["user functions are pure", "at least one prior draw of each batch has finite likelihood",
               "ensembles made degenerate by an injected answer may raise LinAlgError (not counted)"]
CPU_LIMIT = 900
ALPHA = {"unif": ("lo",), "norm": ("far+", "far-", "out+", "out-"), "gamma": ("small",), "pick": ("first", "last")}


def check(d, rec, devs):
    r, cfg = d.res, d.cfg
    rows = np.array(d.log.like_rows).reshape(-1, len(cfg["kinds"]))
    lo, hi = d.prior.bounds.T
    if not np.isfinite(rows).all():
        return rec.fail("likelihood called at a non-finite point", row=rows[~np.isfinite(rows).all(axis=1)][0])
    out = ((rows < lo) | (rows > hi)).any(axis=1)
    if out.any():
        return rec.fail("likelihood called outside of the parameter bounds", row=rows[out][0])
    lp = d.prior.pure_logpdf(rows)
    if not np.isfinite(lp).all():
        return rec.fail("likelihood called where the prior density is zero", row=rows[~np.isfinite(lp)][0])
    for k in ("logl", "logp", "x", "u", "logdetj"):
        if not np.isfinite(np.asarray(r[k], float)).all():
            return rec.fail("history contains a non-finite %s" % k)
    x = np.asarray(r["x"]).reshape(-1, len(cfg["kinds"]))
    if not np.isfinite(d.prior.pure_logpdf(x)).all() or not np.isfinite(d.like.pure(x)).all():
        return rec.fail("history contains a point without finite prior and likelihood")
    xs, w, ll, lpp = d.s.posterior()
    if not (np.isfinite(xs).all() and np.isfinite(w).all() and np.isfinite(ll).all() and np.isfinite(lpp).all()):
        return rec.fail("posterior contains non-finite values")
    if not (((xs >= lo) & (xs <= hi)).all()):
        return rec.fail("posterior contains a point outside of the bounds")
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, evaluated=len(rows),
                      rejected_outside=int(sum(len(p) for p in d.log.prior_calls) - len(rows)))


def cases(tier):
    for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
        for k, (kinds, region, hole) in enumerate((("UN", "both", "nan"), ("EB", "nan", "corner"))):
            cfg = dict(kinds=kinds, precondition=pre, sample=sample, region=region, hole=hole, seed=21 + k, n_max_steps=2, n_active=4,
                       n_effective=8, n_total=6, n_evidence=3 if pre else 0, sharp=1.0)
            yield from full.sharded(cfg, tier)
    for pre, sample, kinds, region, hole in itertools.product((False, True), ("tpcn", "rwm"), ("U", "N", "UN", "EB", "RU", "UEN"),
                                                             (None, "ninf", "nan", "both"), (None, "corner", "nan", "pinf")):
        if tier == "quick" and hole in ("nan", "pinf") and region not in (None, "both"):
            continue
        for seed in (1, 2) if tier == "quick" else range(1, 9):
            for tr in ("probit", "logit"):
                yield dict(cfg=dict(kinds=kinds, precondition=pre, sample=sample, region=region, hole=hole, seed=seed, n_active=6, n_effective=12,
                                    n_total=12, n_evidence=8 if pre else 0, sharp=1.0, transform=tr), bound=0)
    # several iterations at inverse temperature zero
    for pre, sample, region, hole, dyn in itertools.product((False, True), ("tpcn", "rwm"), ("ninf", "nan", "both"), (None, "corner"), (False, True)):
        for seed in (1, 2, 3, 4) if tier == "quick" else range(1, 13):
            yield dict(cfg=dict(kinds="UN", precondition=pre, sample=sample, region=region, hole=hole, seed=seed, n_active=6, n_effective=30, n_prior=6,
                                n_total=12, n_steps=3, n_max_steps=6, dynamic=dyn, sharp=1.0), bound=0)
    for per, ref in (([0], None), (None, [0]), ([0], [1])):
        for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
            yield dict(cfg=dict(kinds="UB", precondition=pre, sample=sample, region="both", hole="corner", seed=4, n_active=6, n_effective=12, n_total=12,
                                periodic=per, reflective=ref, sharp=1.0), bound=0)


def batches_ok(cfg):
    """Every prior batch must contain a finite likelihood (assumption of the property)."""
    from .env import Like, ToyPrior
    from .env import make_sampler, Log
    log = Log()
    s, prior, like = make_sampler(cfg, log)
    x = prior.rvs(s.n_prior)
    n = s.n_active
    return all(np.isfinite(like.pure(x[i:i + n])).any() for i in range(0, len(x) - n + 1, n))


def run_case(case, rec):
    if case["cfg"].get("region") and not batches_ok(case["cfg"]):
        rec.state("skipped: a whole prior batch without finite likelihood")
        raise Skip
    full.explore_case(case["cfg"], rec, check, bound=case["bound"], shard=case.get("shard", (0, 1)), kinds=case.get("only"), alphabet=ALPHA)

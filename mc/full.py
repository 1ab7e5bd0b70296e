"""Complete sampler runs in a closed environment: execution, snapshots of the history, shared invariants."""
import itertools
import os

import numpy as np

from .core import digest
from .env import Log, make_sampler, quiet, scratch
from .rng import Poison, RngTap, explore

FIELDS = ("u", "x", "logdetj", "logl", "logp", "beta", "logz", "calls", "steps", "efficiency", "ess", "accept")


def degenerate(e):
    """The ensemble collapsed to (nearly) one point, so no covariance can be fitted to it."""
    return isinstance(e, np.linalg.LinAlgError) or "solver cannot continue" in str(e)


class Done:
    pass


def history_digests(s, keys=FIELDS):
    """One digest per completed iteration (through the public particle history)."""
    cols = [s.particles.get(k) for k in keys]
    return [tuple(digest(np.asarray(c[t])) for c in cols) for t in range(len(cols[0]))]


def execute(cfg, devs=None, watch=False, run_kw=None, sampler_kw=None, cls=None, script=None, before=None):
    """Build a sampler from cfg, run it under the RNG tap. Returns a Done record (error set if LinAlgError)."""
    d = Done()
    d.cfg = cfg
    d.log = Log()
    d.snaps = []
    d.error = None
    tap = RngTap(devs, script)
    with quiet(), Poison():
        s, prior, like = make_sampler(cfg, d.log, cls=cls, **(sampler_kw or {}))
        d.s, d.prior, d.like = s, prior, like
        if before is not None:
            before(d)
        if watch:
            seen = [0]
            keys = FIELDS[:6]

            inner = like.__class__.__call__

            def hook():
                try:
                    it = len(s.particles.get("iter"))
                except Exception:  # noqa: BLE001
                    return
                if it > seen[0]:
                    seen[0] = it
                    d.snaps.append(history_digests(s, keys))
            like.hook = hook
        kw = dict(n_total=cfg.get("n_total", 8), n_evidence=cfg.get("n_evidence", 0), progress=False)
        kw.update(run_kw or {})
        with tap:
            try:
                s.run(**kw)
            except (np.linalg.LinAlgError, ValueError) as e:
                if not devs or not degenerate(e):
                    raise
                d.error = e
    d.tap = tap
    if d.error is None:
        d.res = s.results
        d.T = len(d.res["iter"])
    return d


def cheap_configs():
    """Full product of the discrete options (small sizes)."""
    for pre, sample, res, tr, blob, region, hole, vec in itertools.product(
            (False, True), ("tpcn", "rwm"), ("mult", "syst"), ("probit", "logit"),
            (None, "pair"), (None, "ninf", "nan"), (None, "corner"), (False, True)):
        if vec and blob:
            continue
        yield dict(precondition=pre, sample=sample, resample=res, transform=tr, blob=blob, region=region, hole=hole, vec=vec,
                   kinds="UN", seed=3)


def explore_case(cfg, rec, check, bound=1, kinds=None, alphabet=None, point_filter=None, limit=None, shard=(0, 1), **kw):
    """Deviation-bounded exploration of complete runs; `check(done, rec, devs)` is the oracle."""
    from .rng import ALPHABET

    def run(devs):
        if rec.failed:
            return None
        d = execute(cfg, devs, **kw)
        rec.step(len(d.tap.points))
        rec.trace()
        if d.error is not None:
            rec.state("degenerate ensemble")
            return d.tap.points
        rec.state(d.res["x"], d.res["logl"], d.res["beta"])
        n0 = len(rec.fails)
        check(d, rec, devs)
        if len(rec.fails) > n0:
            for f in rec.fails[n0:]:
                f["detail"]["deviations"] = [[list(k), v] for k, v in devs.items()]
        return d.tap.points
    n, capped = explore(run, bound, alphabet or ALPHABET, kinds, point_filter, limit, tuple(shard))
    if capped:
        rec.capped = True
    return n


def sharded(cfg, tier, nsh=4, only=None):
    """Cases that explore cfg: all single deviations; thorough: also all pairs of accept/resample deviations."""
    for sh in range(nsh):
        yield dict(cfg=cfg, bound=1, shard=[sh, nsh], only=only)
    if tier != "quick":
        for sh in range(32):
            yield dict(cfg=cfg, bound=2, shard=[sh, 32], only=["unif", "pick"])

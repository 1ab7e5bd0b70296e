"""C13: the call counter equals the number of likelihood evaluations."""
import itertools
import os
from pathlib import Path

import numpy as np

from . import full
from .core import Skip
from .env import Like, make_sampler, quiet, scratch

PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of complete runs, continued and resumed runs: all option combinations, all executions with at most one (thorough: two) extreme random answers; the likelihood callback counts"
LEVEL_NOTE = ("Exhaustive over kernels x execution modes x support patterns x checkpoints, and over every single extreme random answer (which puts all, some or no proposals inside the support). "
              "Small ensembles.")
RULE = "a case is one configuration (with its deviations, or its checkpoints); states are distinct histories of counts"
ASSUMPTIONS = ["user functions are pure", "ensembles made degenerate by an injected answer may raise LinAlgError (not counted)"]
CPU_LIMIT = 900

COUNT = dict(rows=0, by={}, it=None)


def note(n):
    COUNT["rows"] += n
    if COUNT["it"] is not None:
        k = COUNT["it"]()
        COUNT["by"][k] = COUNT["by"].get(k, 0) + n


class CountLike(Like):
    """Counts every point it is evaluated at, however it is called."""

    def __call__(self, x, *a, **k):
        note(len(np.asarray(x)) if self.vec else 1)
        return Like.__call__(self, x, *a, **k)


class ListPool:
    """A user pool in this process."""

    def __init__(self, order=1):
        self.order = order

    def map(self, f, it):
        it = list(it)
        out = {}
        for i in range(len(it))[::self.order]:
            out[i] = f(it[i])
        return [out[i] for i in range(len(it))]


def build(cfg, pool=None, **over):
    import pocomc
    with quiet():
        s, prior, like = make_sampler(cfg, cls=lambda p, l, **kw: pocomc.Sampler(p, counting(l), pool=pool, **kw), **over)
    return s


def counting(l):
    c = CountLike(l.dim, l.region, l.vec, l.blob, l.sharp, None, l.offset)
    return c


def cases(tier):
    for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
        cfg = dict(kinds="UN", precondition=pre, sample=sample, seed=41, hole="corner", region="ninf", n_active=4, n_effective=8, n_total=6, n_max_steps=2, sharp=1.0,
                   n_evidence=3 if pre else 0, resample="syst" if sample == "rwm" else "mult", blob="pair" if sample == "rwm" else None)
        for c in full.sharded(cfg, tier, 4):
            yield dict(c, kind="dev")
    for pre, sample, (blob, vec), hole, region, mode in itertools.product((False, True), ("tpcn", "rwm"), ((None, False), ("float", False), (None, True)), (None, "corner"), (None, "nan"),
                                                                          ("serial", "pool")):
        if vec and mode == "pool":
            mode = "poolvec"
        yield dict(kind="run", mode=mode, cfg=dict(kinds="UN", precondition=pre, sample=sample, blob=blob, vec=vec, hole=hole, region=region, seed=7, n_active=5, n_effective=10, n_total=12,
                                                   sharp=1.0, n_evidence=11 if pre else 4))
    for pre, sample, blob, every in itertools.product((False, True), ("tpcn", "rwm"), (None, "pair"), (1, 2)):
        yield dict(kind="resume", every=every, cfg=dict(kinds="UN", precondition=pre, sample=sample, blob=blob, hole="corner", seed=12, n_active=4, n_effective=8, n_total=10, sharp=1.0,
                                                        n_evidence=5 if pre else 0))
    for extra in (dict(n_prior=20), dict(n_prior=3), dict(n_prior=10), dict(n_active=7, n_effective=9), dict(kinds="U", sample="rwm"), dict(kinds="EB"), dict(n_steps=3, n_max_steps=20),
                  dict(periodic=[0]), dict(train_frequency=2, precondition=True)):
        yield dict(kind="run", mode="serial", cfg=dict(dict(kinds="UN", seed=3, n_active=4, n_effective=8, n_total=12, hole="corner", sharp=1.0), **extra))


def monitor(s):
    COUNT["rows"] = 0
    COUNT["by"] = {}

    def it():
        try:
            return len(s.particles.get("iter"))
        except Exception:  # noqa: BLE001
            return 0
    COUNT["it"] = it


def verify(s, rec, base=0, first=0, what=""):
    """Counts per iteration from the callback against the recorded ones."""
    calls = np.asarray(s.results["calls"], dtype=float)
    T = len(calls)
    acc = base
    for t in range(first, T):
        acc += COUNT["by"].get(t, 0)
        if calls[t] != acc:
            rec.fail("%sthe counter of iteration %d is %s, the likelihood was evaluated at %d points" % (what, t, calls[t], acc), counters=calls)
            return False
    if np.any(np.diff(calls) < 0):
        rec.fail("%sthe counter decreases" % what, counters=calls)
        return False
    acc += COUNT["by"].get(T, 0)
    if acc != base + COUNT["rows"]:
        rec.fail("harness: rows do not add up", acc=acc, rows=COUNT["rows"], base=base)
        return False
    if s.calls != base + COUNT["rows"]:
        rec.fail("%sthe total counter is %s, the likelihood was evaluated at %d points" % (what, s.calls, base + COUNT["rows"]))
        return False
    rec.state(calls, s.calls)
    return True


def run_case(case, rec):
    cfg = case["cfg"]
    kw = dict(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False)
    if cfg.get("region"):
        from .c03 import batches_ok
        if not batches_ok(cfg):
            rec.state("skipped")
            raise Skip
    if case["kind"] == "dev":
        def check(d, rec, devs):
            calls = np.asarray(d.res["calls"], float)
            if np.any(np.diff(calls) < 0):
                rec.fail("the counter decreases", counters=calls)
            if d.s.calls != len(d.log.like_rows):
                rec.fail("the total counter is %s, the likelihood was evaluated at %d points" % (d.s.calls, len(d.log.like_rows)))
            by = d.by
            acc = 0
            for t in range(d.T):
                acc += by.get(t, 0)
                if calls[t] != acc:
                    rec.fail("the counter of iteration %d is %s, the likelihood was evaluated at %d points" % (t, calls[t], acc), counters=calls)
                    break

        def before(d):
            d.by = {}

            def hook():
                try:
                    it = len(d.s.particles.get("iter"))
                except Exception:  # noqa: BLE001
                    it = 0
                d.by[it] = d.by.get(it, 0) + 1
            d.like.hook = hook
        full.explore_case(cfg, rec, check, bound=case["bound"], shard=case["shard"], kinds=case.get("only"), before=before)
        return
    if case["kind"] == "run":
        pool = ListPool(-1) if case["mode"].startswith("pool") else None
        s = build(cfg, pool)
        monitor(s)
        with quiet():
            s.run(**kw)
        rec.trace()
        rec.step(COUNT["rows"])
        if not verify(s, rec):
            return
        # continued twice
        for k in (2, 3):
            total = s.calls
            T = len(s.results["iter"])
            monitor(s)
            with quiet():
                s.run(**dict(kw, n_total=k * 2 * cfg["n_total"]))
            rec.trace()
            rec.step(COUNT["rows"])
            if not verify(s, rec, base=total, first=T, what="continued run: "):
                return
        rec.sample = dict(case, calls=int(s.calls))
        return
    with scratch() as d:
        s = build(cfg, output_dir=os.path.join(d, "o"))
        monitor(s)
        with quiet():
            s.run(save_every=case["every"], **kw)
        rec.trace()
        if not verify(s, rec, what="run with saving: "):
            return
        for cp in sorted(Path(d, "o").glob("*.state")):
            r = build(dict(cfg, seed=99), output_dir=os.path.join(d, "p"))
            with quiet():
                r.load_state(cp)
            T, total = len(r.particles.get("iter")), r.calls
            want = np.asarray(s.results["calls"])
            if cp.name.endswith("final.state"):
                if total != s.calls:
                    return rec.fail("the loaded final state has %s calls, the run made %s" % (total, s.calls))
            elif total != want[T - 1]:
                return rec.fail("the loaded state %s has %s calls, the run had made %s" % (cp.name, total, want[T - 1]))
            r = build(dict(cfg, seed=99), output_dir=os.path.join(d, "p"))
            monitor(r)
            with quiet():
                r.run(resume_state_path=cp, **kw)
            rec.trace()
            rec.step(COUNT["rows"])
            if not verify(r, rec, base=total, first=T, what="run resumed from %s: " % cp.name):
                return
        rec.sample = dict(case, calls=int(s.calls))

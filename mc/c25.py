"""C25: posterior() returns aligned, normalised samples for every option combination."""
import itertools
import math

import numpy as np

from . import ref
from .c01 import blob_matches
from .core import digest
from .env import make_sampler, quiet
from .full import history_digests
from .rng import HI, RngTap

PROPERTY = "C25"
LEVEL = "model_checking"
TECHNIQUE = "full product of the options on all particle histories of a lattice and on complete runs, with every resampling answer of an alphabet; rows are traced back to particles"
LEVEL_NOTE = ("Histories: every assignment of 5 (thorough: 6) log-likelihoods to 2x2 (and 3x1, 1x3, 2x3) particles for several ladders, with unique positions, priors and blobs; every option "
              "combination; resampling offsets/picks enumerated. Complete runs: one per configuration with all options.")
RULE = "a case is one (ladder, shape, first log-likelihoods) group or one run; states are distinct (history, options, kept rows)"
ASSUMPTIONS = ["random numbers are drawn through numpy.random module functions"]
CHUNK = 2

LL = (-1200.0, -7.0, -0.5, 0.0, 2.0)


def cases(tier):
    lads = {1: [(0.0,), (1.0,)], 2: [(0.0, 0.3), (0.0, 1.0)], 3: [(0.0, 0.2, 1.0)]}
    for T, n in ((1, 3), (2, 2), (3, 1)) + (((2, 3), (1, 5)) if tier != "quick" else ()):
        for betas in lads[T]:
            for first in itertools.product(LL, repeat=1 if T * n < 5 else 2):
                for res in ("mult", "syst"):
                    yield dict(kind="lat", T=T, n=n, betas=betas, first=first, res=res)
    for blob, region, pre, sample, res, kinds in itertools.product((None, "float", "pair", "vec", "str", "struct", "int"), (None, "ninf"), (False, True), ("tpcn", "rwm"), ("mult", "syst"), ("UN", "E")):
        if tier == "quick" and (pre != (sample == "tpcn")):
            continue
        yield dict(kind="run", cfg=dict(kinds=kinds, blob=blob, region=region, precondition=pre, sample=sample, resample=res, seed=4, n_active=5, n_effective=10, n_total=15, n_evidence=0))


OPTS = list(itertools.product((False, True), (False, True), (False, True), (False, True)))   # resample, blobs, trim, logw


class World:
    """what the history says, indexed by position"""

    def __init__(self, s, x, logl, logp, blob_ok, betas, logzs):
        self.s = s
        self.x = np.concatenate(x)
        self.logl, self.logp = np.concatenate(logl), np.concatenate(logp)
        self.blob_ok = blob_ok
        self.lw, _ = ref.balance(logl, betas, logzs, 1.0)
        self.rows = {}
        for k in range(len(self.x)):
            self.rows.setdefault(self.x[k].tobytes(), []).append(k)
        self.n = len(self.x)
        self.depth = {}


def tol(a, b, e=1e-9):
    return abs(a - b) <= e * (1 + abs(b))


def examine(w, out, opt, ess, bins, rec, **info):
    resample, blobs, trim, logw = opt
    info = dict(resample=resample, return_blobs=blobs, trim=trim, return_logw=logw, ess_trim=ess, bins_trim=bins, **info)
    want = (3 if resample else 4) + (1 if blobs else 0)
    if not isinstance(out, tuple) or len(out) != want:
        rec.fail("%d arrays are returned, %d expected" % (len(out), want), **info)
        return None
    parts = list(out)
    x = np.asarray(parts.pop(0))
    wt = None if resample else np.asarray(parts.pop(0))
    logl, logp = np.asarray(parts.pop(0)), np.asarray(parts.pop(0))
    bl = parts.pop(0) if blobs else None
    m = len(x)
    if m == 0 or x.shape[1:] != w.x.shape[1:] or logl.shape != (m,) or logp.shape != (m,) or (wt is not None and wt.shape != (m,)) or (bl is not None and len(bl) != m):
        rec.fail("returned arrays do not have equal length", shapes=[np.shape(a) for a in out], **info)
        return None
    ids = []
    for r in range(m):
        c = w.rows.get(x[r].tobytes())
        if c is None:
            rec.fail("row %d is not a particle of the history" % r, x=x[r], **info)
            return None
        k = c[0]
        ids.append(k)
        if logl[r] != w.logl[k] or logp[r] != w.logp[k]:
            rec.fail("row %d has the log-likelihood or log-prior of another particle" % r, x=x[r], got=[logl[r], logp[r]], want=[w.logl[k], w.logp[k]], **info)
            return None
        if blobs and not w.blob_ok(bl[r], k):
            rec.fail("row %d has the blob of another particle" % r, x=x[r], blob=repr(bl[r]), **info)
            return None
    pw = np.exp(w.lw)
    counts = np.bincount(ids, minlength=w.n)
    mult = np.zeros(w.n, int)
    for c in w.rows.values():
        mult[c[0]] = len(c)
    if not resample:
        if (counts > mult).any() or (not trim and not np.array_equal(counts, mult)):
            rec.fail("particles are missing or repeated", counts=counts, history=mult, **info)
            return None
        wk = pw[ids]
        if logw:
            if not all(tol(a, b, 1e-8) or (b < -700 and a < -700) for a, b in zip(wt, w.lw[ids])):
                rec.fail("log-weights are not the log importance weights", got=wt, want=w.lw[ids], **info)
                return None
        else:
            if abs(math.fsum(wt) - 1) > 1e-9 or (wt < 0).any():
                rec.fail("weights are not normalised", weights=wt, **info)
                return None
            if not np.allclose(wt, wk / wk.sum(), rtol=1e-7, atol=1e-12):
                rec.fail("weights are not proportional to the importance weights", got=wt, want=wk / wk.sum(), **info)
                return None
        if trim:
            full = ref.ess(pw)
            if ref.ess(wk) < ess * full * (1 - 1e-9) and m < w.n:
                rec.fail("trimming lost more than the allowed fraction of the effective sample size", kept=ref.ess(wk), full=full, **info)
                return None
            drop = [k for k in range(w.n) if counts[k] < mult[k]]
            if (ess, bins) not in w.depth:
                w.depth[ess, bins] = ref.trim_count(pw, ess, bins)
            if w.depth[ess, bins] not in (None, m):
                rec.fail("trimming keeps %d samples, the given number of bins allows %d" % (m, w.depth[ess, bins]), **info)
                return None
            if drop and not max(pw[k] for k in drop) <= min(wk) * (1 + 1e-9):
                rec.fail("a dropped weight is larger than a kept one", **info)
                return None
    else:
        if (pw[ids] <= 0).any():
            rec.fail("a particle of zero weight was drawn", ids=ids, **info)
            return None
    return ids


def call(w, opt, ess, bins, rec, tap=None):
    resample, blobs, trim, logw = opt
    kw = dict(resample=resample, return_blobs=blobs, trim_importance_weights=trim, return_logw=logw, ess_trim=ess, bins_trim=bins)
    rec.trace()
    if tap is None:
        return w.s.posterior(**kw)
    with tap:
        return w.s.posterior(**kw)


def all_options(w, rec, grid, have_blobs, lean=False):
    before = (history_digests(w.s), digest(w.s.logz), int(w.s.calls), w.s.t)
    for ess, bins in grid:
        kept = {}
        for opt in OPTS:
            resample, blobs, trim, logw = opt
            if blobs and not have_blobs:
                try:
                    call(w, opt, ess, bins, rec)
                except ValueError:
                    continue
                rec.fail("blobs were returned although there are none")
                return
            if not trim and (ess, bins) != grid[0]:
                continue
            if not resample:
                ids = examine(w, call(w, opt, ess, bins, rec), opt, ess, bins, rec)
                if ids is None:
                    return
                if kept.setdefault(trim, sorted(ids)) != sorted(ids):
                    rec.fail("the selection of rows depends on the blobs or log-weight options", **dict(zip(("resample", "blobs", "trim", "logw"), opt)))
                    return
                rec.state(w.lw, opt, ess, bins, tuple(ids))
                continue
            if logw and lean:
                continue
            base = kept[trim]
            pw = np.exp(w.lw[base])
            pw = pw / pw.sum()
            if w.s.resample == "syst":
                total = np.zeros(w.n)
                offs = [0.0, HI] + [(k + 0.5) / 8 for k in range(8)]
                for o in offs:
                    tap = RngTap(script={"unif": lambda i, r, a, k, nm: np.full(np.shape(r), o) if np.ndim(r) else o})
                    ids = examine(w, call(w, opt, ess, bins, rec, tap), opt, ess, bins, rec, offset=o)
                    if ids is None:
                        return
                    if not check_counts(w, ids, base, pw, rec, opt, o):
                        return
                    rec.step(len(ids))
            else:
                for alt in ("first", "last", "light", "heavy", "spread", None):
                    tap = RngTap({("pick", 0): alt} if alt else None)
                    seen = {}

                    def spy(i, res, a, k, nm, seen=seen):
                        seen["p"] = k.get("p", a[3] if len(a) > 3 else None)
                        return None
                    tap.script["pick"] = spy
                    ids = examine(w, call(w, opt, ess, bins, rec, tap), opt, ess, bins, rec, pick=alt)
                    if ids is None:
                        return
                    if len(ids) != len(base):
                        rec.fail("%d samples are drawn, %d expected" % (len(ids), len(base)))
                        return
                    if not set(ids) <= set(base):
                        rec.fail("a trimmed particle was drawn", drawn=ids, kept=base)
                        return
                    if seen.get("p") is not None and len(seen["p"]) == len(base):
                        if not np.allclose(sorted(seen["p"]), sorted(pw), rtol=1e-6, atol=1e-12):
                            rec.fail("samples are not drawn in proportion to their weights", probabilities=seen["p"], weights=pw)
                            return
                    rec.step(len(ids))
    if before != (history_digests(w.s), digest(w.s.logz), int(w.s.calls), w.s.t):
        rec.fail("reading the posterior changed the sampler")


def check_counts(w, ids, base, pw, rec, opt, o):
    if not set(ids) <= set(base):
        rec.fail("a trimmed particle was drawn", drawn=ids, kept=base)
        return False
    n = len(ids)
    if n != len(base):
        rec.fail("%d samples are drawn, %d expected" % (n, len(base)))
        return False
    c = np.bincount(ids, minlength=w.n)
    for k in set(base):
        rows = [pw[i] for i, b in enumerate(base) if b == k]
        e = n * rows[0]
        if not len(rows) * (math.floor(e - 1e-9)) <= c[k] <= len(rows) * math.ceil(e + 1e-9):
            rec.fail("a particle of expected count %r was drawn %d times" % (e, int(c[k])), offset=o)
            return False
    return True


def k_lat(case, rec):
    T, n, betas = case["T"], case["n"], case["betas"]
    zs = [0.0, -0.7, 0.4][:T]
    with quiet():
        protos = [make_sampler(dict(kinds="UN", blob=b, resample=case["res"], seed=1))[0] for b in (None, "struct")]
    from pocomc.particles import Particles
    for rest in itertools.product(LL, repeat=T * n - len(case["first"])):
        logl = np.array(case["first"] + list(rest) if isinstance(case["first"], list) else tuple(case["first"]) + rest).reshape(T, n)
        x = np.arange(T * n * 2, dtype=float).reshape(T, n, 2) + 0.25
        logp = -np.arange(T * n, dtype=float).reshape(T, n) - 0.5
        for s, hb in zip(protos, (False, True)):
            dt = [("a", float), ("n", int)]
            blobs = np.array([[(10.0 + t * n + k, t * n + k) for k in range(n)] for t in range(T)], dtype=dt)
            s.particles = Particles(n, 2)
            for t in range(T):
                d = dict(u=x[t] * 2, x=x[t].copy(), logl=logl[t].copy(), logp=logp[t].copy(), logdetj=np.zeros(n), beta=betas[t], logz=zs[t], iter=t,
                         calls=0, steps=1, efficiency=1.0, ess=1.0, accept=1.0)
                if hb:
                    d["blobs"] = blobs[t].copy()
                s.particles.update(d)
            w = World(s, x, logl, logp, lambda b, k: (b["a"], b["n"]) == (10.0 + k, k), betas, zs)
            all_options(w, rec, [(0.99, 10), (0.5, 7), (1.0, 3)] if not hb else [(0.9, 5)], hb, lean=True)
            if rec.failed:
                for f in rec.fails:
                    f["detail"]["logl"] = logl.tolist()
                return
    rec.sample = dict(case)


def k_run(case, rec):
    cfg = case["cfg"]
    with quiet():
        s, prior, like = make_sampler(cfg)
        s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
    r = s.results
    kind = cfg["blob"]
    xs = np.concatenate(r["x"])
    w = World(s, r["x"], np.asarray(r["logl"]), np.asarray(r["logp"]), lambda b, k: blob_matches(b, like.blob_of(xs[k]), kind), np.asarray(r["beta"]), np.asarray(r["logz"]))
    # positions decide everything else; the history itself is checked by C01
    all_options(w, rec, [(0.99, 1000), (0.5, 10), (0.9, 50)], kind is not None)
    d = s.posterior()
    if len(d) != 4:
        return rec.fail("defaults return %d arrays" % len(d))
    if examine(w, d, (False, False, True, False), 0.99, 1000, rec, defaults=True) is None:
        return
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, rows=w.n)


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)

"""C06: resampling is unbiased, bounded and never picks a zero-weight particle."""
import itertools
import math

import numpy as np

from . import full, ref
from .env import Like, Log, ToyPrior, quiet
from .rng import HI, RngTap, explore

PROPERTY = "C06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of every combinatorially distinct offset for a lattice of weight vectors; complete runs with a prior of finitely many atoms where the history exposes the resampled sets"
LEVEL_NOTE = ("For each weight vector and size the outcome is piecewise constant in the offset: every piece, every breakpoint and both its float neighbours, and both ends of the "
              "generator's range are executed. Runs: deviation-bounded exploration of the offsets and picks. Lattice weights only.")
RULE = "a case is a group of weight vectors for one length/scale, or one run configuration; states are distinct (weights, size, counts) outcomes"
ASSUMPTIONS = ["the offset is one number in [0, 1) drawn through numpy.random"]

SPECIAL = [[0.1] * 10, [1 / 3] * 3, [0.7, 0.1, 0.1, 0.1], [1e-12, 1.0 - 1e-12], [1 - 1e-12, 1e-12], [0.3, 0.3, 0.4], [1e-300, 1.0, 1e-300],
           [0.05] * 20, [0.2, 0.2, 0.2, 0.2, 0.2], [1.0 / 7] * 7, [1e-17] * 6 + [1.0], [1.0] + [1e-17] * 6, [0.0, 0.0, 1.0], [1.0, 0.0, 0.0],
           [0.5, 0.0, 0.0, 0.5], [2 ** -53, 1 - 2 ** -53], [0.6, 0.2, 0.15, 0.05], [1.0 / 49] * 49]

NEAR = (-9e-3, 2e-4, -1e-5, 3e-6)      # relative deviation of the total weight from one


def cases(tier):
    top = 4 if tier == "quick" else 5
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for scale in ("norm", 1.0, 1e-3, 1e250) + tuple("near%g" % e for e in NEAR):
            for first in range(top):
                yield dict(kind="lattice", n=n, scale=scale, first=first, top=top)
    for k in range(len(SPECIAL)):
        yield dict(kind="special", k=k)
    for k in range(4):
        for size in (1, 999, 1024, 4097, 10000):
            yield dict(kind="big", k=k, size=size)
    for res, dyn, seed in itertools.product(("mult", "syst"), (True, False), (1, 2) if tier == "quick" else range(1, 7)):
        for sharp in (0.3, 3.0):
            for blob in (None, "pair"):
                yield dict(kind="run", resample=res, dynamic=dyn, seed=seed, sharp=sharp, blob=blob)


def one(wt, size, rec):
    """All offsets for one weight vector and size."""
    from pocomc.tools import systematic_resample
    w = np.array(wt, float)
    tot = math.fsum(wt)
    p = [a / tot for a in wt]
    expect = [size * a for a in p]
    cum = np.cumsum(p)
    brk = {0.0, 1.0}
    for c in cum:
        for i in range(size):
            b = size * c - i
            if 0 < b < 1:
                brk.add(float(b))
    brk = sorted(brk)
    offs = {0.0, 5e-324, HI}
    mids = []
    for a, b in zip(brk[:-1], brk[1:]):
        m = 0.5 * (a + b)
        if b - a > 1e-9 and a < m < b:
            mids.append((m, b - a))
        for v in (a, b, np.nextafter(a, 0), np.nextafter(a, 1), np.nextafter(b, 0), np.nextafter(b, 1)):
            if 0 <= v <= HI:
                offs.add(float(v))
        for v in (a + 1e-7 * size, b - 1e-7 * size):      # next to the breakpoint, but not to within rounding
            if a < v < b:
                offs.add(float(v))
    mean = np.zeros(len(w))

    def go(u):
        ww = w.copy()
        with RngTap(script={"unif": lambda i, res, a, k, nm: (np.full(np.shape(res), u) if np.ndim(res) else u)}) as tap:
            idx = systematic_resample(size, ww)
        rec.trace()
        rec.step(size)
        info = dict(weights=wt, size=size, offset=repr(u), indices=idx)
        idx = np.asarray(idx)
        if idx.shape != (size,) or idx.dtype.kind not in "iu" or (size and (idx.min() < 0 or idx.max() >= len(w))):
            rec.fail("not exactly `size` valid indices", **info)
            return None
        if not np.array_equal(ww, w):
            rec.fail("the caller's weights were modified", **info)
            return None
        cnt = np.bincount(idx, minlength=len(w))
        rec.state("%r %d %s" % (wt, size, cnt.tolist()))
        for j in range(len(w)):
            if w[j] == 0 and cnt[j]:
                rec.fail("a zero-weight entry was selected", entry=j, **info)
                return None
            tol = -1e-9 if min(abs(u - b) for b in brk) > 3e-8 * size else 1e-9     # at a breakpoint rounding decides
            if not math.floor(expect[j] - tol) <= cnt[j] <= math.ceil(expect[j] + tol):
                rec.fail("count is not the floor or ceiling of size times weight", entry=j, expected=expect[j], **info)
                return None
        return cnt
    for u in sorted(offs):
        if go(u) is None:
            return
    for m, ln in mids:
        c = go(m)
        if c is None:
            return
        mean += ln * c
    if np.abs(mean - expect).max() > 1e-6 * (1 + size):
        rec.fail("counts averaged over the offset are not size times weight", weights=wt, size=size, mean=mean, expected=expect)


def long_one(w, size, rec):
    """Many weights: floor and ceiling for a lattice of offsets."""
    from pocomc.tools import systematic_resample
    e = size * w / math.fsum(w)
    for u in (0.0, 5e-324, HI) + tuple((k + 0.37) / 23 for k in range(23)):
        with RngTap(script={"unif": lambda i, res, a, k, nm: (np.full(np.shape(res), u) if np.ndim(res) else u)}):
            idx = np.asarray(systematic_resample(size, w.copy()))
        rec.trace()
        rec.step(size)
        info = dict(weights=len(w), size=size, offset=repr(u))
        if idx.shape != (size,) or idx.dtype.kind not in "iu" or idx.min() < 0 or idx.max() >= len(w):
            return rec.fail("not exactly `size` valid indices", **info)
        c = np.bincount(idx, minlength=len(w))
        if (c[w == 0] > 0).any():
            return rec.fail("a zero-weight entry was selected", **info)
        if (c < np.floor(e - 1e-7 * (1 + e))).any() or (c > np.ceil(e + 1e-7 * (1 + e))).any():
            return rec.fail("count is not the floor or ceiling of size times weight", **info)
        rec.state(len(w), size, u)


def run_case(case, rec):
    if case["kind"] == "lattice":
        n = case["n"]
        for rest in itertools.product(range(case["top"]), repeat=n - 1):
            wt = (case["first"],) + rest
            s = sum(wt)
            if s == 0:
                continue
            if case["scale"] == "norm":
                wt = [a / s for a in wt]
            elif isinstance(case["scale"], str):
                wt = [a / s * (1 + float(case["scale"][4:])) for a in wt]
            else:
                wt = [a * case["scale"] for a in wt]
            for size in (1, 2, 3, 5):
                one(wt, size, rec)
                if rec.failed:
                    return
        rec.sample = dict(case)
    elif case["kind"] == "big":
        i = np.arange(4096 + 5)
        w = [np.ones(5000), np.where(i % 3 == 0, 0.0, 1.0 + np.sin(i * 1.3)), np.exp(-0.002 * i), np.r_[np.zeros(3000), 5.0, np.zeros(70)]][case["k"]]
        long_one(w / w.sum(), case["size"], rec)
        rec.sample = dict(case)
    elif case["kind"] == "special":
        wt = SPECIAL[case["k"]]
        for size in list(range(1, 8)) + [len(wt), 2 * len(wt), 49]:
            one(wt, size, rec)
            if rec.failed:
                return
        from pocomc.tools import systematic_resample
        st = np.random.get_state()
        a = systematic_resample(7, np.array(wt), random_state=11)
        b = systematic_resample(7, np.array(wt), random_state=11)
        np.random.set_state(st)
        if not np.array_equal(a, b):
            rec.fail("a given random state does not reproduce the resampling", weights=wt)
        rec.sample = dict(weights=wt)
    else:
        run_atoms(case, rec)


class Atoms(ToyPrior):
    """Prior whose support is the finite set of its own draws: no proposal is ever inside, so the history shows the resampled sets."""

    def __init__(self, kinds, log=None):
        ToyPrior.__init__(self, kinds, None, log)
        self.known = set()

    def rvs(self, size=1):
        x = ToyPrior.rvs(self, size)
        self.known |= {r.tobytes() for r in x}
        return x

    def logpdf(self, x):
        lp = self.pure_logpdf(x)
        for i, r in enumerate(np.ascontiguousarray(x, dtype=float)):
            if r.tobytes() not in self.known:
                lp[i] = -np.inf
        return lp


def run_atoms(case, rec):
    import pocomc
    n = 6

    def once(devs):
        if rec.failed:
            return None
        prior = Atoms("UN")
        like = Like(2, blob=case["blob"], sharp=case["sharp"], log=Log())
        picks = []

        def pick(i, res, a, k, name):
            p = k.get("p", a[3] if len(a) > 3 else None)
            if name == "choice" and p is not None:
                picks.append((np.array(p, float), i))
                if not k.get("replace", a[2] if len(a) > 2 else True) and np.size(res) > 1:
                    rec.fail("the resampling cannot draw a particle more than once, whatever its weight", weights=np.sort(np.array(p, float))[::-1][:10], draws=np.size(res))
        with quiet():
            s = pocomc.Sampler(prior, like, n_active=n, n_effective=12, precondition=False, resample=case["resample"], dynamic=case["dynamic"],
                               random_state=case["seed"], n_steps=1, n_max_steps=1, n_prior=30)
            with RngTap(devs, {"pick": pick}) as tap:
                try:
                    s.run(n_total=14, n_evidence=0, progress=False)
                except (np.linalg.LinAlgError, ValueError) as e:
                    if not full.degenerate(e):
                        raise
                    rec.state("degenerate ensemble")
                    return tap.points
        rec.trace()
        rec.step(len(tap.points))
        r = s.results
        x, logl, beta, logz = (np.asarray(r[k]) for k in ("x", "logl", "beta", "logz"))
        rec.state(x)
        warm = 30 // n
        np_ = 0
        info = dict(deviations=[[list(a), b] for a, b in devs.items()])
        for t in range(warm, len(beta)):
            lw = ref.balance(logl[:t], beta[:t], logz[:t], beta[t])[0]
            w = np.exp(lw)
            hist = x[:t].reshape(-1, 2)
            ids = {}
            for row, a in zip(hist, w):
                ids[row.tobytes()] = ids.get(row.tobytes(), []) + [a]
            cnt = {}
            for row in x[t]:
                cnt[row.tobytes()] = cnt.get(row.tobytes(), 0) + 1
            if len(x[t]) != n:
                rec.fail("number of active particles changed", **info)
                return None
            for k, c in cnt.items():
                if k not in ids:
                    rec.fail("an active particle is not in the history", iteration=t, **info)
                    return None
                if max(ids[k]) < 1e-12 * w.max():
                    rec.fail("a particle of negligible weight was selected", iteration=t, weight=max(ids[k]), **info)
                    return None
            if case["resample"] == "syst":
                for k, ws in ids.items():
                    lo = sum(math.floor(n * a * 0.999 - 1e-6) if n * a * 0.999 > 1 else 0 for a in ws)
                    hi = sum(math.ceil(n * a * 1.03 + 1e-6) for a in ws)
                    # total weight of equal particles bounds the count from below as well
                    if not max(lo, math.floor(n * sum(ws) * 0.98 - len(ws) + 1e-6)) <= cnt.get(k, 0) <= hi:
                        rec.fail("systematic resampling count out of bounds", iteration=t, weights=ws, count=cnt.get(k, 0), n=n, **info)
                        return None
            elif np_ < len(picks):
                p, i = picks[np_]
                np_ += 1
                srt = np.sort(w)[::-1][:len(p)]
                srt = srt / srt.sum()
                if len(p) > len(w) or abs(p.sum() - 1) > 1e-6 or np.abs(np.sort(p)[::-1] - srt).max() > 1e-6:
                    rec.fail("multinomial probabilities are not the importance weights", iteration=t, got=np.sort(p)[::-1], expected=srt, **info)
                    return None
                alt = devs.get(("pick", i))
                if alt == "heavy" and not all(abs(max(ids[k]) - w.max()) < 1e-9 for k in cnt):
                    rec.fail("selecting the heaviest index does not give the heaviest particle", iteration=t, **info)
                    return None
                if alt == "light":
                    kept = np.sort(w)[::-1][len(p) - 1]
                    if not all(min(abs(a - kept) for a in ids[k]) < 1e-9 + 1e-6 * kept for k in cnt):
                        rec.fail("selecting the lightest index does not give the lightest particle", iteration=t, **info)
                        return None
        rec.sample = dict(case, iterations=len(beta), distinct_last=len(cnt))
        return tap.points
    explore(once, 1, {"unif": ("lo", "hi", "mid"), "pick": ("first", "last", "light", "heavy", "spread")}, kinds=("unif", "pick"),
            )

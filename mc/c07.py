"""C07: weight trimming and sample-size utilities obey their definitions."""
import itertools
import math

import numpy as np

from . import ref

PROPERTY = "C07"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of weight-vector lattices against reference definitions"
LEVEL_NOTE = "All weight vectors over a six-value alphabet (zeros, ties, extreme ratios) up to length four, all thresholds and bin counts of a lattice, selected long vectors. Values outside of the lattice are not covered."
RULE = "a case fixes the leading weights and enumerates the rest of the vector, all thresholds and bin counts; states are distinct (vector, kept set) outcomes"
ASSUMPTIONS = ["weights are floating-point arrays with a positive finite sum"]
CHUNK = 2
ALPH = (0.0, 1.0, 2.0, 5.0, 1e-8, 1e4)
LONG = [np.linspace(1, 2, 37), np.geomspace(1e-9, 1, 50), np.r_[np.ones(5), np.zeros(20)], np.r_[1.0, np.full(40, 1e-3)], np.arange(1.0, 101.0),
        np.r_[np.ones(30), np.full(30, 0.5)], np.ones(64), np.r_[1e300, 1e300, 1e299] / 1e300, np.exp(-0.5 * np.linspace(-4, 4, 81) ** 2),
        np.r_[np.full(99, 1e-12), 1.0], np.full(7, 1e-300), np.geomspace(1e-300, 1, 30)]
BIG = [np.geomspace(1e-9, 1, 3001), 1.0 + np.sin(np.arange(5003.0) * 1.7) ** 2, np.exp(-0.5 * np.linspace(-8, 8, 20001) ** 2), np.r_[np.full(4000, 1e-7), np.ones(97)]]


def cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(1, n):
        for first in ALPH:
            yield dict(kind="vec", n=k, first=[first])
    for a, b in itertools.product(ALPH, ALPH):
        yield dict(kind="vec", n=n, first=[a, b])
    for k in range(len(LONG)):
        for bins in (1, 2, 10, 1000):
            yield dict(kind="long", k=k, bins=bins)
    for k in range(len(BIG)):
        yield dict(kind="big", k=k)
    for n in (1, 2, 3, 4):
        yield dict(kind="logw", n=n)


def trim(w, rec, esses, bins_):
    from pocomc.tools import trim_weights
    n = len(w)
    tot = math.fsum(w)
    p = np.array([a / tot for a in w])
    full_ess = ref.ess(w)
    samples = np.arange(n) * 10 + 3
    vecs = np.stack([np.arange(n) * 1.5, -np.arange(n) * 1.0], axis=1)
    for bins in bins_:
        grid = np.linspace(0, 99, bins)
        # reference: kept count and ratio per grid level
        levels = []
        for q in grid:
            m = p >= np.percentile(p, q)
            levels.append((int(m.sum()), ref.ess(p[m]) / full_ess))
        for e in esses:
            info = dict(weights=list(w), ess=e, bins=bins)
            s, tw = trim_weights(samples, np.array(w, float), ess=e, bins=bins)
            s2, tw2 = trim_weights(vecs, np.array(w, float), ess=e, bins=bins)
            rec.trace()
            rec.step(bins)
            s = np.asarray(s)
            idx = (s - 3) // 10
            if len(s) != len(tw) or len(s) == 0 or not np.array_equal(idx, np.unique(idx)):
                return rec.fail("kept samples and weights do not match", kept=s, got=tw, **info)
            if not np.array_equal(s2, vecs[idx]) or not np.array_equal(tw, tw2):
                return rec.fail("trimming depends on the kind of samples", **info)
            kept = np.zeros(n, bool)
            kept[idx] = True
            rec.state(w, kept)
            if (~kept).any() and not p[~kept].max() < p[kept].min():
                return rec.fail("a dropped weight is not smaller than every kept weight", kept=kept, **info)
            if abs(np.sum(tw) - 1) > 1e-9 or np.abs(tw - p[kept] / p[kept].sum()).max() > 1e-9:
                return rec.fail("kept weights are not the renormalised weights of the kept samples", got=tw, **info)
            ratio = ref.ess(p[kept]) / full_ess
            if ratio < e - 1e-9 and kept.sum() < n:
                return rec.fail("trimming lost more than the allowed fraction of the effective sample size", ratio=ratio, **info)
            if any(abs(r - e) < 1e-9 for _, r in levels):
                continue                # borderline: rounding decides the level
            best = next((c for c, r in reversed(levels) if r >= e), levels[0][0])
            ties = any(abs(a - b) <= 1e-12 * (a + b) and a != b for a, b in itertools.combinations(sorted(set(p)), 2)) if n <= 8 else True
            if kept.sum() != best and not ties:
                return rec.fail("trimming does not cut as deep as the percentile grid allows", kept=int(kept.sum()), expected=best, **info)
            if ties and kept.sum() > best + 2:
                return rec.fail("trimming keeps more samples than the percentile grid allows", kept=int(kept.sum()), expected=best, **info)


def sizes(w, rec):
    from pocomc.tools import compute_ess, effective_sample_size, increment_logz, unique_sample_size
    n = len(w)
    e = ref.ess(w)
    for c in (1.0, 7.0, 1e-5):
        for perm in (range(n), range(n - 1, -1, -1), np.roll(np.arange(n), 1)):
            v = np.array([w[i] * c for i in perm])
            got = effective_sample_size(v.copy())
            rec.trace()
            if abs(got - e) > 1e-9 * n or not 1 - 1e-9 <= got <= n + 1e-9:
                return rec.fail("effective sample size is wrong", weights=list(v), got=got, expected=e)
            for k in (None, 1, 2, 5, n, 3 * n):
                eu = ref.uss(w, k)
                gu = unique_sample_size(v.copy(), k=k) if k is not None else unique_sample_size(v.copy())
                kk = n if k is None else k
                if abs(gu - eu) > 1e-9 * max(n, kk) or not (0 <= gu <= min(n, kk) + 1e-9):
                    return rec.fail("unique sample size is wrong", weights=list(v), k=k, got=gu, expected=eu)
    rec.state(w, "sizes")


def run_case(case, rec):
    from pocomc.tools import compute_ess, increment_logz
    if case["kind"] == "vec":
        for rest in itertools.product(ALPH, repeat=case["n"] - len(case["first"])):
            w = tuple(case["first"]) + rest
            if sum(w) == 0:
                continue
            w = np.array(w)
            sizes(w, rec)
            trim(w, rec, (0.5, 0.9, 0.99, 1.0), (1, 2, 5, 23) if case["n"] >= 4 else (1, 2, 5, 100))
            if rec.failed:
                return
    elif case["kind"] == "long":
        w = np.array(LONG[case["k"]])
        sizes(w, rec)
        trim(w, rec, (0.3, 0.9, 0.99, 0.999, 1.0), (case["bins"],))
    elif case["kind"] == "big":
        w = BIG[case["k"]]
        sizes(w, rec)
        trim(w, rec, (0.5, 0.99), (7, 100) if len(w) > 10000 else (1000,))
    else:
        for lw in itertools.product((-800.0, -3.0, 0.0, 0.5, 700.0), repeat=case["n"]):
            for sh in (0.0, -1e4, 1e4):
                a = np.array(lw) + sh
                got = compute_ess(a.copy())
                m = max(a)
                e = ref.ess([math.exp(v - m) for v in a]) / len(a)
                if abs(got - e) > 1e-9 or not 0 < got <= 1 + 1e-9:
                    return rec.fail("relative effective sample size is wrong", logw=a, got=got, expected=e)
                g = increment_logz(a.copy())
                if abs(g - ref.lse(a)) > 1e-9 * (1 + abs(ref.lse(a))):
                    return rec.fail("evidence increment is wrong", logw=a, got=g, expected=ref.lse(a))
                rec.trace()
                rec.step(len(a))
            rec.state(np.array(lw))
    rec.sample = dict(case)

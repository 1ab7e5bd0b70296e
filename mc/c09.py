"""C09: periodic and reflective boundary conditions map into bounds consistently."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from . import c01, c03, full
from .env import Log

PROPERTY = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of boundary assignments and a lattice of points (inside, on, next to and many periods beyond the bounds) against exact rational folding; complete runs with injected random answers"
LEVEL_NOTE = ("Every assignment of periodic/reflective/neither to up to three parameters, every lattice value per coordinate (pairs jointly), exact rational oracle; runs for all kernels with every "
              "single extreme random answer. Listed intervals only.")
RULE = ("a case is one (bounds, assignment) combination with all lattice points, or one run configuration; states are distinct outcomes")
ASSUMPTIONS = ["periodic parameters have two finite bounds, reflective ones at least one", "no parameter is both periodic and reflective"]
CPU_LIMIT = 120
BOX = {"b": (-1.0, 2.0), "B": (5.0, 5.5), "p": (0.0, 2 * np.pi), "m": (-np.pi, np.pi), "c": (0.1, 0.1 + 1e-6), "t": (-0.3, 0.7), "l": (1.0, np.inf),
       "r": (-np.inf, -0.5), "n": (-np.inf, np.inf)}


def values(k):
    lo, hi = BOX[k]
    if k == "n":
        return [0.0, -1e300, 1e300, 3.25]
    if k == "l":
        return [lo, lo + 2.5, float(np.nextafter(lo, -9)), lo - 0.25, lo - 1.0, lo - 1e6, 1e200]
    if k == "r":
        return [hi, hi - 2.5, float(np.nextafter(hi, 9)), hi + 0.25, hi + 1.0, hi + 1e6, -1e200]
    w = hi - lo
    out = [lo, hi, lo + 0.3 * w, lo + 0.81 * w, lo + 0.5 * w, float(np.nextafter(lo, hi)), float(np.nextafter(hi, lo)),
           float(np.nextafter(lo, -np.inf)), float(np.nextafter(hi, np.inf)), 0.0 if lo <= 0 <= hi else lo]
    for f in (1e-9, 0.2, 0.5, 0.75, 1.0, 1.3, 1.9999, 2.0, 2.6, 3.0, 3.4, 7.25, 1000.6):
        out += [lo - f * w, hi + f * w]
    out += [1e9, -1e9, 1e17, -1e17, 1e300, -1e300, 3e15 * w, -3e15 * w]
    return out


def expect_ok(k, how, v, got):
    """got is the image of v? exact rational arithmetic, tolerance for one rounding of v and of the width"""
    lo, hi = BOX[k]
    if lo <= v <= hi:
        return got == v
    if not (lo <= got <= hi):
        return False
    tol = Fr(float(8 * np.spacing(max(abs(v), abs(lo) if np.isfinite(lo) else 0, abs(hi) if np.isfinite(hi) else 0))))
    if how == "R" and not (np.isfinite(lo) and np.isfinite(hi)):
        b = Fr(lo) if np.isfinite(lo) else Fr(hi)
        return abs(Fr(got) - (2 * b - Fr(v))) <= tol
    w = Fr(hi) - Fr(lo)
    # the width is itself rounded in floating point: allow for that, times the number of periods
    tol += (abs(Fr(v)) / w + 2) * Fr(float(np.spacing(float(w)))) * 2
    if how == "P":
        d = (Fr(v) - Fr(got)) % w
        return min(d, w - d) <= tol
    d = (Fr(v) - Fr(lo)) % (2 * w)
    e = Fr(lo) + (d if d <= w else 2 * w - d)
    return abs(e - Fr(got)) <= tol


def cases(tier):
    for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
        for k, (per, refl) in enumerate((([0], None), (None, [0]), ([0], [1]), ([1, 0], None))):
            cfg = dict(kinds="UB", precondition=pre, sample=sample, region="ninf", hole="corner" if k == 2 else None, seed=31 + k, n_max_steps=2,
                       n_active=4, n_effective=8, n_total=6, sharp=1.0, periodic=per, reflective=refl)
            for sh in range(2):
                yield dict(kind="run", cfg=cfg, bound=1, shard=[sh, 2])
            for seed in range(1, 5 if tier == "quick" else 40):
                for tr in ("probit", "logit"):
                    yield dict(kind="run", cfg=dict(cfg, seed=seed, transform=tr, n_active=6, n_effective=12, n_total=14, n_max_steps=4), bound=0, shard=[0, 1])
    for k in BOX:
        for a in "PR-":
            yield dict(kind="map", types=k, how=a)
    two = "bBpmtlrn" if tier == "quick" else "bBpmctlrn"
    for t in itertools.product(two, repeat=2):
        for a in itertools.product("PR-", repeat=2):
            yield dict(kind="map", types="".join(t), how="".join(a))
    for t in itertools.product("bpl" if tier == "quick" else "bBpmlrn", repeat=3):
        for a in itertools.product("PR-", repeat=3):
            yield dict(kind="map", types="".join(t), how="".join(a))


def valid(types, how):
    for k, a in zip(types, how):
        if a == "P" and k in "lrn":
            return False
        if a == "R" and k == "n":
            return False
    return True


def run_case(case, rec):
    if case["kind"] == "run":
        def check(d, rec, devs):
            c01.check(d, rec, devs)
            c03.check(d, rec, devs)
            if int(np.asarray(d.res["calls"])[-1]) != len(d.log.like_rows):
                rec.fail("call counter differs from the evaluations", calls=d.res["calls"][-1], evaluated=len(d.log.like_rows))
        if case["cfg"].get("region") and not c03.batches_ok(case["cfg"]):
            rec.state("skipped")
            return
        full.explore_case(case["cfg"], rec, check, bound=case["bound"], shard=case["shard"], watch=True)
        return
    from pocomc.scaler import Reparameterize
    types, how = case["types"], case["how"]
    if not valid(types, how):
        rec.state("no meaning: %s %s" % (types, how))
        return
    d = len(types)
    per = [i for i in range(d) if how[i] == "P"]
    refl = [i for i in range(d) if how[i] == "R"]
    bounds = np.array([BOX[k] for k in types])
    forms = []
    for rev in (False, True):
        forms.append(((per[::-1] if rev else per) or None, (refl[::-1] if rev else refl) or None))
    forms.append((np.array(per, dtype=int) if per else [], refl))
    if d == 1:
        rows = [[v] for v in values(types)]
    elif d == 2:
        rows = [list(t) for t in itertools.product(values(types[0]), values(types[1])[::2])]
    else:
        vs = [values(k)[::5] for k in types]
        rows = [list(t) for t in itertools.product(*vs)]
    x = np.array(rows, dtype=float)
    for p, r in forms:
        sc = Reparameterize(d, bounds=bounds.copy(), periodic=p, reflective=r)
        keep = x.copy()
        y = sc.apply_boundary_conditions_x(x)
        rec.trace()
        rec.step(x.size)
        if not np.array_equal(x, keep):
            return rec.fail("the input array was modified")
        if np.shape(y) != x.shape:
            return rec.fail("shape changed", shape=np.shape(y))
        for i in range(len(x)):
            for j in range(d):
                if how[j] == "-":
                    if y[i, j] != x[i, j]:
                        return rec.fail("a parameter without boundary condition was changed", types=types, how=how, x=x[i], got=y[i])
                elif not expect_ok(types[j], how[j], float(x[i, j]), float(y[i, j])):
                    return rec.fail("%s parameter mapped wrongly" % {"P": "periodic", "R": "reflective"}[how[j]], bounds=BOX[types[j]], value=float(x[i, j]),
                                    got=float(y[i, j]), coordinate=j, assignment=how)
        rec.state(y)
        z = sc.apply_boundary_conditions_x(y)
        if not np.array_equal(z, y):
            return rec.fail("not idempotent")
        one = np.array([sc.apply_boundary_conditions_x(x[i:i + 1])[0] for i in range(0, len(x), 7)])
        if not np.array_equal(one, y[::7]):
            return rec.fail("a row is mapped differently alone than in a batch")
        k = np.resize(np.arange(len(x)), 5003)
        if d < 3 and not np.array_equal(sc.apply_boundary_conditions_x(x[k]), y[k]):
            return rec.fail("a row is mapped differently in a batch of %d" % len(k))
        if len(sc.apply_boundary_conditions_x(x[:0])) != 0:
            return rec.fail("empty input gives rows")
    rec.sample = dict(case, points=len(x))

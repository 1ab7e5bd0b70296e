"""C08: the parameter transform is an exact bijection with the right Jacobian."""
import itertools
import math

import mpmath as mp
import numpy as np

PROPERTY = "C08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bound-type combinations and point lattices against a closed-form reference evaluated in extended precision"
LEVEL_NOTE = ("All combinations of the four bound types for up to three parameters, both transforms, all scaling modes, a lattice of points including bounds, their neighbours and far "
              "tails; reference Jacobian in 40-digit arithmetic. Only the listed intervals and lattice points.")
RULE = "a case is one (bound types, transform, scaling) combination; all lattice points in all row orders are transformed; states are distinct mapped points"
ASSUMPTIONS = ["bounds are float arrays with low < high"]
mp.mp.dps = 40

BOX = {"b": (-1.0, 2.0), "B": (5.0, 5.5), "c": (0.0, 1e-6), "l": (1.0, np.inf), "L": (-3e3, np.inf), "r": (-np.inf, -0.5), "n": (-np.inf, np.inf)}


def cases(tier):
    for tr in ("probit", "logit"):
        for mode in ("none", "diag", "full"):
            alph = "bBclLrn"
            for k in alph:
                yield dict(types=k, transform=tr, mode=mode)
            for k in itertools.product("bBlrn", repeat=2):
                yield dict(types="".join(k), transform=tr, mode=mode)
            for k in itertools.product("blrn" if tier == "quick" else "bBlrn", repeat=3):
                yield dict(types="".join(k), transform=tr, mode=mode)
    for form in range(4):
        yield dict(kind="ctor", form=form)


INNER = {"b": (-0.9, 0.2, 0.5, 1.7), "l": (0.02, 0.7, 2.0, 9.0), "n": (-4.0, 0.0, 0.3, 25.0)}


def points(k):
    lo, hi = BOX[k]
    if k in "bBc":
        return [lo + (hi - lo) * f for f in (0.03, 0.4, 0.5, 0.93)]
    if k in "lL":
        return [lo + v for v in (0.02, 0.7, 2.0, 9.0)]
    if k == "r":
        return [hi - v for v in (0.02, 0.7, 2.0, 9.0)]
    return [-4.0, 0.0, 0.3, 25.0]


def edge(k):
    lo, hi = BOX[k]
    out = []
    if np.isfinite(lo):
        out += [lo, float(np.nextafter(lo, np.inf)), lo + 1e-9 * max(1e-6, min(1.0, hi - lo))]
    if np.isfinite(hi):
        out += [hi, float(np.nextafter(hi, -np.inf)), hi - 1e-9 * max(1e-6, min(1.0, hi - lo))]
    if k == "n":
        out += [-1e12, 1e12]
    return out


def ref_raw(k, tr, u):
    """extended-precision inverse of one coordinate: x, log|dx/du|"""
    lo, hi = BOX[k]
    u = mp.mpf(float(u))
    if k == "n":
        return u, mp.mpf(0)
    if k in "lL":
        return mp.mpf(lo) + mp.e ** u, u
    if k == "r":
        return mp.mpf(hi) - mp.e ** u, u
    w = mp.mpf(hi) - mp.mpf(lo)
    if tr == "logit":
        p = 1 / (1 + mp.e ** (-u))
        q = 1 / (1 + mp.e ** u)
        return mp.mpf(lo) + w * p, mp.log(w) + mp.log(p) + mp.log(q)
    p = mp.erfc(-u / mp.sqrt(2)) / 2
    return mp.mpf(lo) + w * p, mp.log(w) - u * u / 2 - mp.log(mp.sqrt(2 * mp.pi))


def make(case):
    from pocomc.scaler import Reparameterize
    types = case["types"]
    bounds = np.array([BOX[k] for k in types], dtype=float)
    r = Reparameterize(len(types), bounds=bounds, transform=case["transform"], scale=case["mode"] != "none", diagonal=case["mode"] != "full")
    fitpts = np.array([[points(k)[(i * (j + 1) + j) % 4] for j, k in enumerate(types)] for i in range(8)])
    # make the cloud non-degenerate
    fitpts = fitpts + np.array([[1e-3 * math.sin(3 * i + 5 * j) * (1e-6 if k == "c" else 1e-2) for j, k in enumerate(types)] for i in range(8)])
    r.fit(fitpts.copy())
    return r, bounds, fitpts


def run_case(case, rec):
    if case.get("kind") == "ctor":
        return ctor(case, rec)
    types, tr, mode = case["types"], case["transform"], case["mode"]
    d = len(types)
    try:
        r, bounds, cloud = make(case)
    except np.linalg.LinAlgError:
        rec.state("degenerate cloud")
        return
    lo, hi = bounds.T
    grid = list(itertools.product(*[points(k) for k in types]))
    if d == 3:
        grid = grid[::3]
    x = np.array(grid)
    keep = x.copy()
    u = r.forward(x)
    rec.trace()
    rec.step(x.size)
    if not np.array_equal(x, keep):
        return rec.fail("forward modified its input")
    if u.shape != x.shape or not np.isfinite(u).all():
        return rec.fail("forward gives non-finite or misshapen latent values", x=x, u=u)
    keepu = u.copy()
    xb, ld = r.inverse(u)
    if not np.array_equal(u, keepu):
        return rec.fail("inverse modified its input")
    span = np.where(np.isfinite(hi - lo), hi - lo, np.maximum(1.0, np.abs(x).max(axis=0)))
    if np.abs((xb - x) / span).max() > 1e-9:
        return rec.fail("inverse(forward(x)) is not x", worst=np.abs((xb - x) / span).max())
    if np.shape(ld) != (len(x),):
        return rec.fail("log-determinant has shape %s" % (np.shape(ld),))
    for row in u[:: max(1, len(u) // 4)]:
        rec.state(row)
    # affine part: recover x -> raw latent, reference affine from the raw latents of the cloud
    raw_cloud = raw_forward(types, tr, cloud, bounds)
    if mode == "none":
        A, m = np.eye(d), np.zeros(d)
    elif mode == "diag":
        A, m = np.diag(raw_cloud.std(axis=0)), raw_cloud.mean(axis=0)
    else:
        A, m = np.linalg.cholesky(np.atleast_2d(np.cov(raw_cloud.T))), raw_cloud.mean(axis=0)
    lat = np.array(list(itertools.product((-2.3, -0.4, 0.0, 1.1, 3.2) if d < 3 else (-1.7, 0.2, 2.1), repeat=d)))
    xl, ldl = r.inverse(lat)
    rec.trace()
    rec.step(lat.size)
    # numerical consistency of the affine part: inverse(raw affine) must match the reference map; the affine map itself may use any square root
    L = affine_of(r, d, types, tr, bounds)
    if L is None:
        return rec.fail("the scaling part is not affine")
    Lm, mm = L
    tol = 1e-6 * (1 + np.abs(m).max() + np.abs(A).max())
    if np.abs(Lm @ Lm.T - A @ A.T).max() > tol * (1 + np.abs(A).max()) or np.abs(mm - m).max() > tol:
        return rec.fail("scaling is not to zero mean and unit (co)variance of the fitted points", got=[Lm, mm], expected=[A, m])
    for i in range(len(lat)):
        raw = mm + Lm @ lat[i]
        tot = mp.log(abs(mp.mpf(float(np.linalg.det(Lm)))))
        for j, k in enumerate(types):
            xr, jj = ref_raw(k, tr, raw[j])
            tot += jj
            if abs(float(xr) - xl[i, j]) > 1e-7 * span[j] * (1 + math.exp(min(abs(raw[j]), 300)) * (k in "lLr")):
                return rec.fail("inverse map is wrong", latent=lat[i], coordinate=j, got=xl[i, j], expected=float(xr))
        if abs(float(tot) - ldl[i]) > 1e-6 * (1 + abs(float(tot))):
            return rec.fail("log-determinant is not that of the inverse map", latent=lat[i], got=ldl[i], expected=float(tot))
    # log-determinant in the far tails, one coordinate at a time (positions only as far as they are resolved)
    Li = np.linalg.inv(Lm)
    for j, k in enumerate(types):
        for v in (-37.5, -30.0, -20.0, -12.0, -8.5, -6.0, 6.0, 8.5, 12.0, 20.0, 30.0, 37.5):
            raw = mm.copy()
            raw[j] = v
            z = (Li @ (raw - mm))[None, :]
            xt, lt = r.inverse(z)
            raw = mm + Lm @ z[0]
            tot = mp.log(abs(mp.mpf(float(np.linalg.det(Lm)))))
            for jj, kk in enumerate(types):
                xr, l1 = ref_raw(kk, tr, raw[jj])
                tot += l1
                if abs(float(xr) - xt[0, jj]) > 1e-7 * span[jj] * (1 + math.exp(min(abs(raw[jj]), 300)) * (kk in "lLr")):
                    return rec.fail("inverse map is wrong in the tails", latent=z, coordinate=jj, got=xt[0, jj], expected=float(xr))
            rec.trace()
            if not abs(float(tot) - lt[0]) <= 1e-6 * (1 + abs(float(tot))):
                return rec.fail("log-determinant is not that of the inverse map in the tails", latent=z, raw=raw, got=lt[0], expected=float(tot))
    # rows are independent of each other
    for i in (0, len(lat) // 2, len(lat) - 1):
        x1, l1 = r.inverse(lat[i:i + 1])
        if np.abs(x1[0] - xl[i]).max() > 1e-9 * (1 + np.abs(xl[i]).max()) or abs(l1[0] - ldl[i]) > 1e-9 * (1 + abs(ldl[i])):
            return rec.fail("a row transforms differently alone than in a batch", latent=lat[i])
    x2, l2 = r.inverse(lat[::-1].copy())
    if np.abs(x2[::-1] - xl).max() > 1e-9 * (1 + np.abs(xl).max()) or np.abs(l2[::-1] - ldl).max() > 1e-9 * (1 + np.abs(ldl).max()):
        return rec.fail("rows depend on their order")
    for size in (1000, 5003) if d < 3 else ():
        k = np.resize(np.arange(len(lat)), size)
        x3, l3 = r.inverse(lat[k])
        kk = np.resize(np.arange(len(x)), size)
        u3 = r.forward(x[kk])
        rec.step(2 * size * d)
        if x3.shape != (size, d) or np.shape(l3) != (size,) or np.abs(x3 - xl[k]).max() > 1e-9 * (1 + np.abs(xl).max()) or np.abs(l3 - ldl[k]).max() > 1e-9 * (1 + np.abs(ldl).max()) \
                or u3.shape != (size, d) or np.abs(u3 - u[kk]).max() > 1e-9 * (1 + np.abs(u).max()):
            return rec.fail("a row transforms differently in a batch of %d" % size)
    # far latent values stay inside the closed bounds
    if mode != "full":
        for v in (-1e4, -300.0, -40.0, -9.0, 9.0, 40.0, 300.0):
            far = np.tile(lat[len(lat) // 2], (d, 1))
            far[np.arange(d), np.arange(d)] = v
            xf, lf = r.inverse(far)
            rec.trace()
            bad = (xf < lo) | (xf > hi) | np.isnan(xf)
            if bad.any():
                return rec.fail("a latent value is mapped outside of the bounds", latent=far, x=xf)
    # closed bounds
    for j, k in enumerate(types):
        for e in edge(k):
            xe = np.array([[points(kk)[1] for kk in types]])
            xe[0, j] = e
            ue = r.forward(xe)
            rec.trace()
            if not np.isfinite(ue).all():
                return rec.fail("a point on or next to a bound has no finite latent value", x=xe, u=ue)
            xx, le = r.inverse(ue)
            if np.abs((xx - xe) / span).max() > 1e-6 and k != "n":
                return rec.fail("a point on or next to a bound does not map back", x=xe, back=xx)
            if k == "n" and abs(xx[0, j] / e - 1) > 1e-6:
                return rec.fail("a far point does not map back", x=xe, back=xx)
            if np.isnan(le).any():
                return rec.fail("undefined log-determinant next to a bound", x=xe)
            rec.state(ue)
        # outside or not finite: rejected
        bads = [np.nan]
        if np.isfinite(BOX[k][0]):
            bads += [BOX[k][0] - 1e-3, -np.inf, float(np.nextafter(BOX[k][0], -np.inf))]
        if np.isfinite(BOX[k][1]):
            bads += [BOX[k][1] + 1e-3, np.inf, float(np.nextafter(BOX[k][1], np.inf))]
        for v in bads:
            for fn in (r.forward, r.fit):
                xe = np.array([[points(kk)[i % 4] for kk in types] for i in range(3)])
                xe[1, j] = v
                rec.trace()
                try:
                    fn(xe)
                except (ValueError, AssertionError):
                    rec.state("rejected %s %r" % (k, v))
                    continue
                return rec.fail("a point outside of the bounds is not rejected", value=repr(v), type=k, by=fn.__name__)
            r2, _, _ = make(case)
            r.__dict__.update(r2.__dict__)
    rec.sample = dict(case)


def raw_forward(types, tr, x, bounds):
    out = np.zeros_like(x)
    for j, k in enumerate(types):
        lo, hi = BOX[k]
        for i in range(len(x)):
            v = mp.mpf(float(x[i, j]))
            if k == "n":
                u = v
            elif k in "lL":
                u = mp.log(v - lo)
            elif k == "r":
                u = mp.log(hi - v)
            else:
                p = (v - mp.mpf(lo)) / (mp.mpf(hi) - mp.mpf(lo))
                u = mp.log(p / (1 - p)) if tr == "logit" else mp.sqrt(2) * mp.erfinv(2 * p - 1)
            out[i, j] = float(u)
    return out


def affine_of(r, d, types, tr, bounds):
    """Affine part of the inverse map, obtained by applying the reference raw forward map to its output."""
    pts = np.vstack([np.zeros((1, d)), np.eye(d), -np.eye(d), 0.5 * np.ones((1, d))])
    x, _ = r.inverse(pts)
    raw = raw_forward(types, tr, x, bounds)
    m = raw[0]
    L = (raw[1:1 + d] - m).T
    if np.abs((raw[1 + d:1 + 2 * d] - m).T + L).max() > 1e-5 * (1 + np.abs(L).max()):
        return None
    if np.abs(raw[-1] - (m + L @ (0.5 * np.ones(d)))).max() > 1e-5 * (1 + np.abs(L).max()):
        return None
    return L, m


def ctor(case, rec):
    from pocomc.scaler import Reparameterize
    rec.trace()
    if case["form"] == 0:
        for bad in ("identity", "", None, "Probit"):
            try:
                Reparameterize(2, bounds=np.array([[0.0, 1.0], [0.0, 1.0]]), transform=bad)
            except ValueError:
                rec.state("rejected %r" % (bad,))
                continue
            return rec.fail("invalid transform accepted", transform=repr(bad))
    elif case["form"] == 1:
        r = Reparameterize(3)
        x = np.array([[1.0, -2.0, 3.0], [0.5, 7.0, -1.0], [0.0, 1.0, 2.0]])
        r.fit(x)
        xb, ld = r.inverse(r.forward(x))
        if np.abs(xb - x).max() > 1e-9:
            return rec.fail("default (unbounded) transform does not round-trip")
        rec.state(xb)
    elif case["form"] == 2:
        r = Reparameterize(3, bounds=[0.0, 4.0])
        x = np.array([[1.0, 2.0, 3.0], [0.5, 3.5, 1.0], [0.1, 1.0, 2.0]])
        r.fit(x)
        xb, ld = r.inverse(r.forward(x))
        if np.abs(xb - x).max() > 1e-9:
            return rec.fail("common bounds for all parameters do not round-trip")
        far, _ = r.inverse(np.full((1, 3), 60.0))
        if not ((far >= 0) & (far <= 4.0)).all():
            return rec.fail("common bounds are not applied to all parameters", x=far)
        rec.state(xb)
    else:
        b = np.array([[0.0, 4.0], [1.0, 2.0]])
        kb = b.copy()
        r = Reparameterize(2, bounds=b)
        r.fit(np.array([[1.0, 1.5], [2.0, 1.2], [3.0, 1.7]]))
        r.inverse(r.forward(np.array([[1.0, 1.5]])))
        if not np.array_equal(b, kb):
            return rec.fail("the bounds array was modified")
        rec.state(b)
    rec.sample = dict(case)

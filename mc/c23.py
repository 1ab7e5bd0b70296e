"""C23: the normalizing flow is a bijection with consistent densities."""
import copy
import itertools

import numpy as np
import torch
import zuko

from .env import KnownFlow, known_forward, known_inverse, quiet

PROPERTY = "C23"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of flow types, dimensions, parameter states and lattice points on the real flow, against a double-precision evaluation of the same parameters with a Jacobian from automatic differentiation"
LEVEL_NOTE = ("All six built-in flows and user flows (closed-form map, other couplings, other base distribution) in 1-4 dimensions; initial, four perturbed and two trained parameter states; "
              "full lattice including points on and beyond the spline box; batches of 1 to 10001. Single precision tolerances scaled by the conditioning of the map.")
RULE = "a case is one (flow, dimension, parameter state); states are distinct (flow, point) outcomes; transitions are mapped points"
ASSUMPTIONS = ["zuko evaluated in double precision with the same parameters is the reference for the built-in architectures"]

BUILTIN = ("maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12")
USER = ("known", "nice", "maf-plain", "nsf-4bins", "shifted-base", "known-shifted")
PARAM = ("init", "p0", "p1", "p2", "p3", "trained", "trained-weights")


def cases(tier):
    for name, dim, par in itertools.product(BUILTIN + USER, (1, 2, 3) if tier == "quick" else (1, 2, 3, 4), PARAM):
        if name == "nice" and dim == 1:
            continue
        if tier == "quick" and name.endswith("12") and par in ("p1", "p2", "trained-weights"):
            continue
        yield dict(flow=name, dim=dim, par=par, seeds=(0,) if tier == "quick" else (0, 1, 2))


def build(name, dim):
    import pocomc.flow
    if name in BUILTIN:
        return pocomc.flow.Flow(dim, name)
    if name == "known":
        f = KnownFlow(dim)
    elif name == "nice":
        f = zuko.flows.NICE(dim, transforms=3, hidden_features=(16,))
    elif name == "maf-plain":
        f = zuko.flows.MAF(dim, transforms=2, hidden_features=(16,))
    elif name == "nsf-4bins":
        f = zuko.flows.NSF(dim, bins=4, transforms=2, hidden_features=(16,))
    elif name == "shifted-base":
        f = zuko.flows.Flow(zuko.flows.MAF(dim, transforms=2, hidden_features=(16,)).transform,
                            zuko.lazy.UnconditionalDistribution(zuko.distributions.DiagNormal, torch.full((dim,), 0.7), torch.full((dim,), 2.5), buffer=True))
    else:
        f = KnownFlow(dim)
        f = zuko.flows.Flow(f.transform, zuko.lazy.UnconditionalDistribution(zuko.distributions.DiagNormal, torch.full((dim,), -0.4), torch.full((dim,), 0.5), buffer=True))
    g = pocomc.flow.Flow(dim, f)
    return g


def lattice(dim):
    if dim == 1:
        v = [-30.0, -7.0, -5.001, -5.0, -4.999, -4.0] + list(np.linspace(-3, 3, 25)) + [4.0, 4.999, 5.0, 5.001, 7.0, 30.0]
        return np.array(v)[:, None]
    v = {2: [-9.0, -5.0, -3.0, -1.5, -0.5, 0.0, 0.3, 0.8, 1.7, 2.9, 4.9, 5.1, 12.0], 3: [-6.0, -2.0, -0.7, 0.0, 0.4, 1.3, 3.5], 4: [-2.5, -0.4, 0.6, 1.9, 5.5]}[dim]
    return np.array(list(itertools.product(v, repeat=dim)))


def set_params(flow, par, dim):
    if par.startswith("p"):
        k = int(par[1:])
        amp = (0.05, 0.15, 0.3, 0.6)[k]
        with torch.no_grad():
            n = 0
            for p in flow.flow.parameters():
                idx = torch.arange(n, n + p.numel(), dtype=torch.float64)
                n += p.numel()
                scale = amp / max(1.0, float(p.numel()) ** 0.25)
                p.add_((scale * torch.sin(idx * 1.7 + 0.3 * k)).reshape(p.shape).to(p.dtype))
    elif par.startswith("trained"):
        i = np.arange(40)
        x = np.stack([np.sin(i * (1.3 + 0.7 * j)) * (1 + 0.3 * j) + 0.2 * j for j in range(dim)], 1)
        w = torch.tensor(1.0 + (i % 3), dtype=torch.float32) if par == "trained-weights" else None
        with quiet():
            flow.fit(torch.tensor(x, dtype=torch.float32), weights=w, validation_split=0.5 if w is not None else 0.0, epochs=8, batch_size=10, learning_rate=0.01)


def reference(flow, x):
    """Double precision: u, log|du/dx|, log-density, singular values of the Jacobian (row by row)."""
    f = copy.deepcopy(flow.flow).double()
    xt = torch.tensor(x, dtype=torch.float64)
    dist = f()
    u, _ = dist.transform.call_and_ladj(xt)

    def tr(z):
        return dist.transform(z)
    J = torch.func.vmap(torch.func.jacrev(tr))(xt) if len(x) else torch.zeros((0, x.shape[1], x.shape[1]), dtype=torch.float64)
    J = J.detach().numpy()
    J[~np.isfinite(J).all((1, 2))] = 0.0
    sv = np.linalg.svd(J, compute_uv=False)
    ld = np.log(np.abs(np.linalg.det(J)))
    base = dist.base.log_prob(u).detach().numpy()
    return u.detach().numpy(), ld, base + ld, sv


def reference_slow(flow, x):
    f = copy.deepcopy(flow.flow).double()
    dist = f()
    us, lds, svs, lps = [], [], [], []
    for r in x:
        xt = torch.tensor(r, dtype=torch.float64)
        u = dist.transform(xt)
        J = torch.autograd.functional.jacobian(lambda z: dist.transform(z), xt).numpy()
        ld = np.log(np.abs(np.linalg.det(J)))
        us.append(u.detach().numpy())
        lds.append(ld)
        svs.append(np.linalg.svd(J, compute_uv=False))
        lps.append(float(dist.base.log_prob(u)) + ld)
    return np.array(us), np.array(lds), np.array(lps), np.array(svs)


def run_case(case, rec):
    for seed in case["seeds"]:
        one(case, rec, seed)
        if rec.failed:
            return


def one(case, rec, seed):
    from pocomc.tools import flow_numpy_wrapper
    name, dim, par = case["flow"], case["dim"], case["par"]
    torch.manual_seed(seed)
    flow = build(name, dim)
    set_params(flow, par, dim)
    state = {k: v.clone() for k, v in flow.flow.state_dict().items()}
    x = lattice(dim).astype(np.float32).astype(float)
    info = dict(flow=name, dim=dim, parameters=par)
    u0, ld0, lp0, sv = safe_reference(flow, x)
    cond = np.maximum(sv[:, 0], 1.0) / np.minimum(sv[:, -1], 1.0)
    good = (cond < 50) & (sv[:, -1] > 1e-2) & (sv[:, 0] < 1e2) & np.isfinite(u0).all(1) & (np.abs(u0).max(1) < 1e3)
    if not good.any():
        return rec.state("nothing well conditioned", name, dim, par)
    kink = on_kink(name, flow, x)
    tol = 3e-4 * cond * (1 + np.abs(x).max(1) + np.abs(u0).max(1)) + 1e-4
    good &= accurate(flow, x, u0, ld0, tol / 4)
    xt = torch.tensor(x, dtype=torch.float32)
    keep = xt.clone()
    rec.step(len(x))
    rec.trace(len(x))
    rec.state(name, dim, par, u0.astype(np.float32))

    def bad(err, mask, what, scale=1.0, **kw):
        err = np.asarray(err)
        scale = np.broadcast_to(scale, err.shape)
        j = np.flatnonzero(mask & ~(err <= tol * scale))
        if len(j):
            k = int(j[0])
            rec.fail("%s at %s (off by %g, tolerance %g)" % (what, x[k].tolist(), err[k], tol[k] * scale[k]), **dict(info, **kw))
            return True
        return False

    # tensor interface
    with torch.no_grad():
        u, ld = flow.forward(xt)
        lp = flow.log_prob(xt)
        xi, ldi = flow.inverse(u)
        ud, ldd = flow.forward(torch.tensor(x, dtype=torch.float64))
    if u.shape != xt.shape or xi.shape != xt.shape or ld.shape != (len(x),) or ldi.shape != (len(x),) or lp.shape != (len(x),):
        return rec.fail("results have shapes %s" % [tuple(v.shape) for v in (u, ld, xi, ldi, lp)], **info)
    if not torch.equal(keep, xt):
        return rec.fail("the input is modified", **info)
    if ud.shape != u.shape or not np.allclose(ud.double().numpy()[good], u.double().numpy()[good], rtol=1e-2, atol=1e-2):
        return rec.fail("double precision input is mapped to another point", **info)
    u, ld, lp, xi, ldi = [v.numpy().astype(float) for v in (u, ld, lp, xi, ldi)]
    nk = good & ~kink
    if bad(np.abs(u - u0).max(1), good, "forward map differs from the flow's map") or bad(np.abs(xi - x).max(1), good, "mapping to latent space and back does not return the point", 4.0) \
            or bad(np.abs(ld - ld0), nk, "forward log-determinant differs from the true Jacobian") or bad(np.abs(ldi + ld0), nk, "inverse log-determinant differs from the true Jacobian", 4.0) \
            or bad(np.abs(ld + ldi), nk, "the two log-determinants are not opposite", 4.0) \
            or bad(np.abs(lp - lp0), nk, "log-probability differs from base density plus log-determinant", 2.0 * (1 + np.abs(u0).max(1))):
        return
    # inverse on latent lattice points
    with torch.no_grad():
        y, ldy = flow.inverse(xt)
        back, ldb = flow.forward(y)
    y, ldy, back, ldb = [v.numpy().astype(float) for v in (y, ldy, back, ldb)]
    fin = np.isfinite(y).all(1) & (np.abs(y).max(1) < 1e3)
    y[~fin] = 0.0
    ur, ldr, _, svr = safe_reference(flow, y)
    condr = np.maximum(svr[:, 0], 1.0) / np.minimum(svr[:, -1], 1.0)
    goodr = fin & (condr < 50) & (svr[:, -1] > 1e-2) & (svr[:, 0] < 1e2)
    kinkr = on_kink(name, flow, y)
    tol = 3e-4 * condr * (1 + np.abs(x).max(1) + np.abs(y).max(1)) + 1e-4
    goodr &= accurate(flow, y, ur, ldr, tol / 4)
    if bad(np.abs(ur - x).max(1), goodr, "mapping a latent point back and forth does not return it", 4.0) \
            or bad(np.abs(ldy + ldr), goodr & ~kinkr, "inverse log-determinant differs from the true Jacobian (latent point)", 4.0):
        return
    # numpy interface
    wr = flow_numpy_wrapper(flow)
    xn = x.copy()
    th, v1 = wr.forward(xn)
    vv, v2 = wr.inverse(xn)
    if not isinstance(th, np.ndarray) or not isinstance(v1, np.ndarray) or th.shape != x.shape or v1.shape != (len(x),) or vv.shape != x.shape or v2.shape != (len(x),):
        return rec.fail("the numpy interface returns %s" % [type(a).__name__ for a in (th, v1, vv, v2)], **info)
    if not np.array_equal(xn, x):
        return rec.fail("the numpy interface modifies its input", **info)
    near = lambda a, b, m: np.allclose(np.asarray(a, float)[m], np.asarray(b, float)[m], rtol=1e-2, atol=1e-2)
    if not near(th, u, good) or not near(vv, y, goodr):
        return rec.fail("the numpy interface maps to other points than the flow", **info)
    if not near(v1, -ld, nk):
        return rec.fail("numpy forward: the volume factor is not that of the inverse map", got=v1[:5], expected=-ld[:5], **info)
    if not near(v2, ldy, goodr & ~kinkr):
        return rec.fail("numpy inverse: the volume factor is not that of the inverse map", got=v2[:5], expected=ldy[:5], **info)
    # closed form
    if name == "known":
        t, l = known_forward(flow.flow, x)
        w = known_inverse(flow.flow, t)
        if not near(t, u, good) or not near(l, ld, good) or not near(w, xi, good):
            return rec.fail("the flow differs from its closed form", **info)
    # rows are independent of their batch
    for n in (1, 2, 3, 7):
        for k in range(0, min(len(x) - n, 12)):
            sl = slice(k * 3 % (len(x) - n), k * 3 % (len(x) - n) + n)
            with torch.no_grad():
                a, b = flow.forward(xt[sl])
                c, d = flow.inverse(xt[sl])
                e = flow.log_prob(xt[sl])
            g1, g2 = nk[sl], (goodr & ~kinkr)[sl]
            if a.shape != (n, dim) or b.shape != (n,) or c.shape != (n, dim) or d.shape != (n,) or e.shape != (n,):
                return rec.fail("a batch of %d gives shapes %s" % (n, [tuple(v.shape) for v in (a, b, c, d, e)]), **info)
            for got, want, m in ((a, u, g1), (b, ld, g1), (c, y, g2), (d, ldy, g2), (e, lp, g1)):
                if not np.allclose(got.numpy()[m], want[sl][m], rtol=1e-2, atol=2e-2):
                    return rec.fail("the result for a point depends on the batch it is in (batch of %d)" % n, **info)
    big = np.tile(x, (max(1, 1000 // len(x)) + 1, 1))
    tb, vb = wr.forward(big)
    ib, jb = wr.inverse(big)
    for a, want, m in ((tb, u, good), (vb, -ld, nk), (ib, y, goodr), (jb, ldy, goodr & ~kinkr)):
        r = np.tile(want, (len(big) // len(x),) + (1,) * (want.ndim - 1))
        mm = np.tile(m, len(big) // len(x))
        if a.shape != r.shape or not np.allclose(a[mm], r[mm], rtol=1e-2, atol=2e-2):
            return rec.fail("a batch of %d gives other results than its rows" % len(big), **info)
    # samples
    for n in (1, 2, 5, 400):
        torch.manual_seed(n + seed)
        with torch.no_grad():
            z, q = flow.sample(n)
            if z.shape != (n, dim) or q.shape != (n,):
                return rec.fail("%d samples have shapes %s and %s" % (n, tuple(z.shape), tuple(q.shape)), **info)
            q2 = flow.log_prob(z)
            uz = flow.forward(z)[0]
        zn = z.numpy().astype(float)
        zn[~np.isfinite(zn).all(1)] = 0.0
        uzr, ldz, lpz, svz = safe_reference(flow, zn)
        cz = np.maximum(svz[:, 0], 1) / np.minimum(svz[:, -1], 1)
        ok = (cz < 50) & (svz[:, -1] > 1e-2) & (svz[:, 0] < 1e2) & ~on_kink(name, flow, zn)
        ok &= accurate(flow, zn, uzr, ldz, 1e-3 * cz + 2e-3)
        rec.step(n)
        if ok.any() and (np.abs(q.numpy() - lpz)[ok] > 3e-3 * cz[ok] + 1e-2).any():
            return rec.fail("samples do not come with their own log-probability", got=q.numpy()[ok][:4], expected=lpz[ok][:4], **info)
        if ok.any() and (np.abs(q.numpy() - q2.numpy())[ok] > 3e-3 * cz[ok] + 1e-2).any():
            return rec.fail("the log-probability of a sample differs from log_prob of it", **info)
        if n > 1 and ok.all() and len(np.unique(np.round(uz.numpy(), 5), axis=0)) < 0.9 * n:
            return rec.fail("samples repeat", **info)
        if n == 400 and ok.mean() > 0.97:
            uz = uz[torch.tensor(ok)]
            b = flow.flow().base
            loc, sc = b.mean.detach().numpy(), b.stddev.detach().numpy()
            zz = (uz.numpy() - loc) / sc
            if np.abs(zz.mean(0)).max() > 0.4 or np.abs(zz.std(0) - 1).max() > 0.3:
                return rec.fail("samples do not come from the flow's base distribution", mean=zz.mean(0), std=zz.std(0), **info)
    # large requests: every sample and every row by itself, whatever their number
    small = par in ("init", "p1", "trained") and (name in ("maf3", "nsf3") or name in USER) or case.get("big")
    for n in (1023, 1025, 5000, 10001) if small else ():
        torch.manual_seed(n + seed)
        with torch.no_grad():
            z, q = flow.sample(n)
            if z.shape != (n, dim) or q.shape != (n,):
                return rec.fail("%d samples have shapes %s and %s" % (n, tuple(z.shape), tuple(q.shape)), **info)
            zc = z.split(250)
            q2 = torch.cat([flow.log_prob(c) for c in zc])
            uz, lz = [torch.cat(v) for v in zip(*[flow.forward(c) for c in zc])]
            yz, ly = [torch.cat(v) for v in zip(*[flow.inverse(c) for c in zc])]
            xz, lx = [torch.cat(v) for v in zip(*[flow.inverse(c) for c in uz.split(250)])]
            allz = [flow.log_prob(z), *flow.forward(z), *flow.inverse(z)]
        rec.step(n)
        well = ((xz - z).abs().max(1)[0] < 1e-2) & ((lx + lz).abs() < 1e-2) & (uz.abs().max(1)[0] < 4) & (z.abs().max(1)[0] < 50) & (lz.abs() < 8)
        welly = well & (yz.abs().max(1)[0] < 50) & (ly.abs() < 8)
        m = well.numpy()
        if (np.abs(q.numpy() - q2.numpy())[m] > 0.1).mean() > 0.02:
            return rec.fail("the log-probability of a sample differs from log_prob of it (%d samples)" % n, **info)
        for got, want, m in zip(allz, (q2, uz, lz, yz, ly), (well, well, well, welly, welly)):
            if got.shape != want.shape or (np.abs(got.numpy() - want.numpy())[m.numpy()] > 0.1).mean() > 0.02:
                return rec.fail("a batch of %d gives other results than its rows" % n, **info)
        if well.numpy().mean() > 0.9 and len(np.unique(z.numpy(), axis=0)) < 0.7 * n:
            return rec.fail("%d samples repeat" % n, **info)
    after = flow.flow.state_dict()
    if any(not torch.equal(state[k], after[k]) for k in state):
        return rec.fail("evaluating the flow changes its parameters", **info)
    rec.sample = dict(info, points=len(x), condition=float(cond.max()))


def safe_reference(flow, x):
    try:
        return reference(flow, x)
    except Exception:  # noqa: BLE001  (operations without vmap rules)
        return reference_slow(flow, x)


def accurate(flow, x, u0, ld0, tol):
    """Points at which the library itself, in single precision, maps there and back accurately (well conditioned in every layer)."""
    with torch.no_grad():
        t = flow.flow().transform
        u, ld = t.call_and_ladj(torch.tensor(x, dtype=torch.float32))
        y, li = t.inv.call_and_ladj(u)
        y2, li2 = t.inv.call_and_ladj(torch.tensor(u0, dtype=torch.float32))
    ok = np.abs(u.numpy() - u0).max(1) <= tol
    for a in (y, y2):
        ok &= np.abs(a.numpy() - x).max(1) <= tol
    ok &= np.abs(ld.numpy() - ld0) <= tol
    for a in (li, li2):
        ok &= np.abs(a.numpy() + ld0) <= tol
    return ok


def on_kink(name, flow, x):
    """The spline flows are the identity beyond +-5: the derivative jumps there, in every layer."""
    if "nsf" not in name:
        return np.zeros(len(x), bool)
    f = copy.deepcopy(flow.flow).double()
    z = torch.tensor(np.asarray(x, float), dtype=torch.float64)
    hit = np.zeros(len(x), bool)
    with torch.no_grad():
        tr = f().transform
        for t in getattr(tr, "transforms", [tr]):
            hit |= (np.abs(np.abs(z.numpy()) - 5.0) < 1e-3).any(1)
            z = t(z)
        hit |= (np.abs(np.abs(z.numpy()) - 5.0) < 1e-3).any(1)
    return hit
